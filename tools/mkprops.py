import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":s} for s in state]
    if observe:a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="kmcpy/simulator/"
p("C01","A hop exchanges exactly two sites and conserves every occupation value",
"Applying a hop to a simulation state exchanges the occupations of the hop's two endpoint sites and changes no other site, so the number of sites and the count of every occupation value stay the same for any sequence of hops. The same step adds exactly the supplied time increment to the clock and exactly one to the step counter. A copy of a state equals the original and is independent of it: hops applied to one never show in the other.",
["inputs","histories"],"every occupation list, every pair of endpoint sites, every time increment and every sequence of hops",
"Tests apply a few hops to short lists; conservation must hold for every state size, endpoint pair and history length.",
[S+"state.py"],[("hop application","State.apply_event"),("state construction and copy","State.__init__, State.copy, State.from_occupations")],["occupations, time, step of the state"],["the state after any hop"])
p("C02","Event rates are never stale and the dependency table is complete",
"Whenever two events share any mobile or environment site, executing either one marks the other (and itself) for rate recomputation, whatever the number, order or size of the events. Hence, after any sequence of executed hops, with a model whose rate depends only on the event's own sites, the stored rate of every event equals the rate recomputed from scratch for the current occupations, and the cumulative table equals the running sums of those rates. The guarantee also holds for event libraries written to a file and read back.",
["inputs","histories"],"every event library (any count, order, overlap and environment size), every initial occupation, every sequence of executed hops",
"Tests use one or two small libraries and a few steps; a missed dependency only shows for particular overlaps after particular histories.",
["kmcpy/event/base.py",S+"kmc.py"],[("dependency generation","EventLib.generate_event_dependencies, _generate_event_dependency_matrix, _arrays_intersect"),("dependency lookup","EventLib.get_dependent_events"),("rate refresh","KMC.__init__, KMC.update")],["prob_list, prob_cum_list, event_dependencies"],["rates held by the simulator after each update"])
p("C03","Rejection-free selection picks events in proportion to their rates",
"Given two uniform draws, the selected event is the one whose interval of cumulative rates contains the first draw times the total rate, so each event is chosen with probability rate/total, an event of zero rate is never chosen and the returned index is always valid. The waiting time equals minus the logarithm of the second draw divided by the total rate, and is never negative. The simulator executes exactly the selected event, for any rate table with a positive total.",
["inputs","schedules"],"every non-negative rate table with positive total (including zeros at the start, middle and end) and every pair of draws in (0,1)",
"Tests draw a few random numbers; the boundary cases (draw on an interval edge, zero-rate runs, last event) have vanishing probability under sampling.",
[S+"kmc.py"],[("event selection and waiting time","_propose"),("selection of the event object","KMC.propose")],["prob_cum_list, rng"],["selected event and dt"])
p("C04","Rates follow the Arrhenius law and blocked hops have rate zero",
"For every event the model's rate is the attempt frequency times exp(-barrier/(kB*T)), with kB in meV/K and the barrier in meV, when one endpoint holds the mobile ion and the other is vacant; when both or neither endpoint is occupied, or an endpoint holds any other state, the model assigns rate exactly zero. The direction of a hop is +1, -1 or 0 as the mobile ion sits on the first endpoint, the second, or no hop is possible, using each endpoint site's own codes for mobile ion and vacancy. Rates are never negative and are computed without changing the state, the event or the model.",
["inputs"],"every endpoint occupation, every site-specific state coding, every temperature > 0, attempt frequency > 0 and every barrier value, for every rate model shipped",
"Tests fix one temperature and a few occupations; the law must hold for all of them and for every coding of mobile/vacant states.",
["kmcpy/event/hop.py","kmcpy/models/composite_lce_model.py","kmcpy/models/local_barrier_model.py","kmcpy/models/base.py"],[("direction","event_direction, endpoint_direction_from_codes, HopStateLookup"),("rates","CompositeLCEModel.compute_probability, LocalBarrierModel.compute_probability")],None,["returned rate"])
p("C05","Forward and backward rates satisfy detailed balance",
"In the composite model the barrier of a hop is the kinetically resolved barrier plus half of the site-energy difference in the direction of the hop, where the site-energy difference is that of the configured site model: a site cluster expansion's value signed by the hop direction, or an external model's after-minus-before energy, or zero without a site model. Therefore, for every configuration, with symmetric kinetic barrier and antisymmetric site-energy difference the rate of a hop divided by the rate of its reverse equals exp(-dE/(kB*T)), and a cycle of hops that returns to the same configuration multiplies to a ratio of one.",
["inputs","histories"],"every configuration, temperature, kinetic barrier, and site-energy difference",
"Tests check single rates against stored numbers; the ratio law relates pairs of states and must hold for all of them.",
["kmcpy/models/composite_lce_model.py","kmcpy/models/site_energy.py"],[("barrier composition","CompositeLCEModel.compute, compute_probability"),("external term","SiteEnergyModel.compute")],None,["ratio of forward and backward rate"])
p("C06","The tracker follows every ion with minimum-image displacements",
"For any history of executed hops, each tracked ion's recorded location is the site it actually occupies, the set of tracked locations equals the set of sites holding the mobile ion, and each ion's hop count is the number of hops it made. Each hop adds to exactly one ion's displacement the Cartesian vector from source to destination under the nearest periodic image (each fractional component reduced to at most one half), so the accumulated displacement equals the unwrapped travelled path and a hop followed by its reverse contributes zero. A hop that does not match the current occupations changes no trajectory data.",
["inputs","histories"],"every lattice (any cell shape), site geometry, initial occupation, site coding and sequence of hops in either direction",
"Tests follow a short trajectory in one cell; wrong identity or image choice appears only for particular geometries, directions and histories.",
[S+"tracker.py","kmcpy/event/hop.py"],[("trajectory update","Tracker.update"),("initial ion locations","Tracker.__init__")],["mobile_ion_specie_locations, displacement, hop_counter"],["tracker after each update"])
p("C07","Transport summaries equal their defining formulas in the stated units",
"For every trajectory: the mean squared displacement is the mean over ions of |d|^2; the jump diffusivity is |sum d|^2/(2*dim*t*N) and the tracer diffusivity MSD/(2*dim*t), both in cm^2/s; the conductivity is D_J*(N/V)*q^2/(kB*T) in mS/cm with the documented factor; Haven's ratio is the tracer over the jump diffusivity; the correlation factor is the mean over ions of |d|^2/(hops*a^2) with zero for ions that never hopped. Quantities that are undefined (zero time, no ions, zero jump diffusivity) or switched off are NaN and never affect the others.",
["inputs"],"every displacement table, hop-count vector, time, dimension, ion count, volume, charge, temperature and subset of enabled quantities",
"Tests compare a few stored values; the relations must hold for all inputs including degenerate ones.",
[S+"property.py","kmcpy/units.py",S+"tracker.py"],[("formulas","compute_transport_properties"),("wiring of inputs","Tracker.sample_properties, Tracker.return_current_info")],None,["results table of the tracker"])
p("C08","Properties are sampled exactly on schedule and recorded faithfully",
"A property with a step interval is evaluated at exactly the positive multiples of its interval, and one with a time interval whenever at least that much simulated time has passed since its last evaluation (since time zero for the first); a property that has any interval of its own follows only that schedule, one without follows the global schedule, and disabled properties are never evaluated. Every stored record carries the step, time and value of its evaluation in order, and a record limit keeps exactly the most recent records. A failing callback stops the run with an error unless its handler asks to continue; duplicate, reserved or invalid registrations are rejected without side effects, and every run starts from a fresh copy of the plan.",
["inputs","histories","fault_sequences"],"every sequence of (step, time) samples, schedule, enablement change, record limit, attach/detach history and callback failure",
"Tests sample a few steps with one callback; the schedule must be right for every combination and history.",
[S+"property.py",S+"tracker.py",S+"kmc.py"],[("trigger rule","should_trigger"),("records","append_record"),("sampling","Tracker.sample_properties"),("plan","PropertyPlan, make_property_spec")],["property records, last trigger time"],["property records and results after any sample"])
p("C09","Cluster-expansion energies equal the sum over orbits",
"For every occupation the correlation of an orbit is the sum, over all clusters in the orbit, of the product of the basis values on that cluster's sites (for decorated expansions, of the per-site basis-function values chosen by the decoration), read from the current state through the event's own site order. The model energy is the dot product of these correlations with the fitted coefficients plus the empty-cluster term; it is linear in the coefficients, depends only on the listed sites and leaves state and event unchanged. Coefficient sets whose length differs from the number of features, or whose orbit or environment fingerprints differ from the model's, are rejected rather than silently truncated.",
["inputs"],"every occupation, basis, orbit structure, decoration and coefficient vector",
"Tests evaluate a couple of fixed structures; a wrong index or sign is only visible for particular occupations and orbits.",
["kmcpy/models/local_cluster_expansion.py","kmcpy/structure/basis.py"],[("correlations","_calc_corr, _calc_corr_decorated"),("energy","LocalClusterExpansion.compute, get_corr_from_occupations")],None,["returned energy"])
p("C10","Local barrier rules match exactly the environments they describe",
"The barrier model returns the values of the first rule, in order, that matches: a constant rule always, an exact rule when the event and the states of its canonical sites (mobile sites then environment, each once) are the listed ones, a pattern rule when every non-wildcard entry equals the state of the selected site, and a count rule when the number of selected sites in the given state (or carrying one of the given species) lies within its inclusive bounds; a rule restricted to an event matches no other. If none matches it returns the default values, and without a default it raises an error. The result depends only on the sites the rules select, and evaluation changes neither state nor event. Malformed rules (unknown type or selector, negative, missing or contradictory bounds, wrong lengths, non-numeric values, repeated exact rules) are rejected when they are added and leave the model unchanged.",
["inputs","configurations"],"every rule list, environment and occupation",
"Tests exercise a handful of rules; overlap, order and bound edge cases span a combinatorial space.",
["kmcpy/models/local_barrier_model.py"],[("rule matching","LocalBarrierModel._rule_matches, _selected_sites, _matched_properties, compute"),("rule validation","_normalize_rule, LocalBarrierModel.add_rule, build")],None,["returned barrier"])
p("C11","External site-energy differences mirror the simulation state exactly",
"A site-energy model asks its backend for the energy difference of exactly the sites whose external occupation changes under the hop, with the old and new values each species maps to, and returns that difference in meV with zero when nothing changes. After any sequence of executed hops the external occupation equals the one obtained by mapping the current simulation state from scratch. Incomplete, out-of-range or ambiguous site mappings and unsupported units are rejected.",
["inputs","histories"],"every mapping, occupation, backend and sequence of executed hops",
"Tests run a stub backend for a few hops; drift between mirror and state accumulates with history and depends on the mapping.",
["kmcpy/models/site_energy.py"],[("difference","SiteEnergyModel.compute"),("commit","SiteEnergyModel.apply_event"),("mapping","SiteEnergyModel.initialize_state")],["external occupation"],["calls into the backend, returned energies"])
p("C12","The active-site order is one consistent bijection",
"The compact index space used by state, events and models is a bijection between active sites and the selected original sites: converting an index forth and back is the identity, every index is valid and unique, and values of a full-structure list are picked exactly at those sites in that order. A site is active if and only if its mapping allows more than one species, and every site of the full supercell is labelled with its own index, its primitive site and its compact index (-1 when fixed). Orders that differ in the number or species sequence of sites, in any allowed-species list or in the supercell are recognised as different; out-of-range indices, values of any other length, bad supercell shapes and templates with unmapped species are rejected. An order written to a dictionary and read back is the same order.",
["inputs","configurations"],"every structure, site mapping and supercell shape",
"Tests use one or two mappings; off-by-one and ordering errors depend on the mix of active and inactive sites and on the supercell.",
["kmcpy/structure/active_site_order.py","kmcpy/structure/sites.py"],[("order","ActiveSiteOrder.from_structure_and_mapping"),("mapping","ActiveSiteOrder.select_active_values, validate_active_indices, assert_same_order, original_to_active"),("labels","_make_supercell_with_properties, make_kmc_supercell, build_site_index")],["active_to_original, active_to_primitive"],["indices in events, states and models"])
p("C13","Everything written can be read back unchanged",
"Simulation states, configurations, event libraries, site orders, and models together with their fitted parameters, written to a dictionary or to any supported file format and read back give an object that behaves identically: same occupations, time and step, same settings, same events with the same dependencies, same energies and rates. Histories of fitted parameters keep their order and length for any number of entries. Unsupported formats are rejected instead of being written partially.",
["inputs","histories"],"every object of these kinds, every supported format, every number of entries",
"Tests round-trip one small sample per class; losses show for particular sizes, orders or optional fields.",
[S+"state.py",S+"config.py","kmcpy/event/base.py","kmcpy/structure/active_site_order.py","kmcpy/models/parameters.py","kmcpy/models/base.py"],[("dict and file round trips","as_dict/from_dict, to/from_file, save_checkpoint/load_checkpoint")],None,["object after reload"])
p("C14","Configuration fields reach the right place, are validated and never change",
"Every configuration field given by name is stored with exactly the given value and read back under that name, unknown names are rejected, and defaults apply only to fields not given. Invalid values (non-positive temperature, attempt frequency or pass count, negative equilibration, dimension outside 1-3, wrong supercell length, malformed schedules, callbacks or switches) are rejected at construction. A configuration is immutable: changing some fields yields a new configuration that differs in exactly those fields and leaves the original unchanged.",
["inputs","configurations"],"every combination of fields and values, every way of constructing or changing a configuration",
"Tests set a few fields; routing and validation must be right for every field and combination.",
[S+"config.py"],[("routing","Configuration.__init__"),("validation","SystemConfig.__post_init__, RuntimeConfig.__post_init__"),("changes","with_runtime_changes, with_system_changes")],None,["configuration attributes"])
p("C15","A run performs exactly the requested steps and is reproducible",
"A run performs (equilibration passes + production passes) times the number of mobile-ion sites hops; equilibration hops change occupations but neither the clock nor any trajectory data, and each production hop is tracked against the pre-hop occupations, applied once, and advances the clock by its own waiting time. The same inputs and random seed give the identical trajectory, time and results. The final occupations, clock and trajectory in the outputs are those of the simulation state.",
["inputs","histories","configurations"],"every system, seed and number of passes",
"Tests run one short simulation and compare stored values; the accounting must hold for every length, seed and model.",
[S+"kmc.py",S+"tracker.py",S+"results.py"],[("run loop","KMC.run"),("outputs","write_tracker_results")],["state, tracker, rng"],["tracker and state after a run, result files"])
p("C16","Local environments are matched by species and geometry alone",
"Matching a local environment to a reference returns a permutation of its sites under which every site has the reference's species and all pairwise distances agree within the tolerance, or reports that no such permutation exists. Whether a match exists, and which sites correspond when the match is unique, does not depend on the order in which sites are listed nor on rotations or translations of the environment (only distances count, so mirror images also match; a symmetric environment may return any of its valid permutations). An environment with a missing, extra or substituted site is never accepted.",
["inputs"],"every pair of environments up to site order, rotation and translation, every tolerance",
"Tests match a few crystal environments; correctness must hold for every geometry, including symmetric ones with many equivalent permutations.",
["kmcpy/structure/cluster.py","kmcpy/structure/local_site_order.py","kmcpy/structure/comparator.py"],[("matching","ClusterMatcher, LocalSiteOrder")],None,["returned permutation"])
p("C17","Occupations and species convert back and forth without loss",
"Where the occupation stores the state index (Chebyshev basis, any number q of allowed species) or a site has at most two allowed species (occupation basis: 1 where the site holds its template species, 0 otherwise), species and occupation values on a site correspond one to one, so converting a lattice structure to occupations and back reproduces it site by site, in the unit cell and in any integer supercell of it. Site functions of the Chebyshev basis are T_1..T_{q-1} at q equally spaced points of [-1, 1], state 0 at -1. Converting an occupation from one basis to another keeps which sites match and which do not. Unknown species, values outside the basis and unknown bases are rejected.",
["inputs"],"every basis, number of species per site, site list and assignment of species",
"Tests convert a few structures; inversion must hold for each assignment and site ordering.",
["kmcpy/structure/basis.py","kmcpy/structure/lattice_structure.py","kmcpy/structure/species.py"],[("basis","kmcpy.structure.basis"),("conversion","LatticeStructure.get_occ_from_structure, get_structure_from_occ")],None,["occupations and structures"])
p("C18","Generated events cover every hop within the cutoffs exactly once",
"Event generation lists, for every active supercell site that matches the initial-site identifier, exactly one event per neighbouring site image that lies strictly within the cutoff of the two species and matches the target identifier, and no others. Every event of a site carries as environment all active neighbour images within the cutoff, in the order of the reference environment (the first of its composition, sorted by species and then x; later ones matched to it by species and distances wherever such an order exists). Events in a supercell are the translates of the primitive-cell pattern, wrapped periodically, and all indices are those of the active-site order recorded with the library. If no hop is within reach an error is raised.",
["inputs","configurations"],"every structure, cutoff set and supercell shape",
"Tests generate events for one or two materials; missing or duplicate hops depend on geometry and supercell shape.",
["kmcpy/event/generators.py","kmcpy/structure/neighbors.py","kmcpy/structure/local_site_order.py"],[("generation","EventGenerator.generate_events"),("index mapping","supercell index helpers")],None,["generated event library"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))

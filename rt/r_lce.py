"""C09: cluster-expansion correlations and energies."""
import copy
import itertools
import math
from .common import *
from .build import *
from .r_rates import mk_lce, mk_event_codes, freeze


def lce_setup(r, n_states=None):
    n_states = n_states or r.i(2, 4)
    n_env = r.i(2, 8) if r.b(0.9) else r.i(9, 20)
    n = n_env + r.i(2, 8)
    deco = r.b(0.6)
    m, energy, corr = mk_lce(r, n_env, n_states, decorated=deco, n_orb=r.i(1, 6))
    env = [r.randrange(n) for _ in range(n_env)] if r.b(0.3) else r.sample(range(n), n_env)
    return n_states, n_env, n, m, energy, corr, env


def st_of(r, occ):
    State = need("kmcpy.simulator.state", "State")
    return State(occupations=list(occ))


@case("C09", weight=2)
def energy_is_the_orbit_sum(r):
    ns, n_env, n, m, energy, corr, env = lce_setup(r)
    ev = mk_event_codes(r, n, env=env)
    for _ in range(6):
        occ = [r.randrange(ns) for _ in range(n)]
        st = st_of(r, occ)
        before = freeze(st, ev)
        got = m.compute(st, ev)
        want = energy([occ[i] for i in env])
        check(close(got, want, 1e-8, 1e-7), "energy differs from the sum over orbits", got=float(got), want=want, occ=occ, env=env, payload=m._oracle)
        check(freeze(st, ev) == before, "evaluation changed the state or the event", before=before, after=freeze(st, ev))
        check(close(m.compute(st, ev), got, 1e-12), "second evaluation differs", first=float(got))


@case("C09")
def energy_depends_only_on_the_listed_sites(r):
    ns, n_env, n, m, energy, corr, env = lce_setup(r)
    ev = mk_event_codes(r, n, env=env)
    occ = [r.randrange(ns) for _ in range(n)]
    e0 = m.compute(st_of(r, occ), ev)
    for i in range(n):
        if i in env:
            continue
        o2 = list(occ)
        o2[i] = (o2[i] + 1) % ns
        check(close(m.compute(st_of(r, o2), ev), e0, 1e-12), "energy depends on a site that is not in the environment", site=i, env=env, occ=occ)
    # the same local states through another event give the same energy
    n2 = n + 5
    env2 = r.sample(range(n2), n_env) if n_env <= n2 else None
    if env2 and len(set(env)) == len(env):
        o2 = [r.randrange(ns) for _ in range(n2)]
        for a, b in zip(env, env2):
            o2[b] = occ[a]
        check(close(m.compute(st_of(r, o2), mk_event_codes(r, n2, env=env2)), e0, 1e-10), "energy depends on where the environment sits", env=env, env2=env2)
    # site order matters exactly as listed
    perm = list(range(n_env))
    r.shuffle(perm)
    ev3 = mk_event_codes(r, n, env=[env[p] for p in perm])
    check(close(m.compute(st_of(r, occ), ev3), energy([occ[env[p]] for p in perm]), 1e-8, 1e-7), "site order of the event not respected", perm=perm, env=env)


@case("C09")
def energy_is_linear_in_the_coefficients(r):
    ns, n_env, n, m, energy, corr, env = lce_setup(r)
    ev = mk_event_codes(r, n, env=env)
    occ = [r.randrange(ns) for _ in range(n)]
    st = st_of(r, occ)
    k = len(m._oracle[3])
    c = corr([occ[i] for i in env])
    P = need("kmcpy.models.parameters", "LCEModelParameters")
    for j in range(k):
        e = [0.0] * k
        e[j] = 1.0
        m.set_parameters({"keci": e, "empty_cluster": 0.0})
        check(close(m.compute(st, ev), c[j], 1e-9, 1e-9), "unit coefficient does not give the orbit's correlation", orbit=j, got=float(m.compute(st, ev)), want=c[j])
    a, b, w = ([r.uniform(-50, 50) for _ in range(k)], [r.uniform(-50, 50) for _ in range(k)], r.uniform(-3, 3))
    vals = []
    for keci, e0 in ((a, 1.5), (b, -2.0), ([x + w * y for x, y in zip(a, b)], 1.5 - 2.0 * w)):
        m.set_parameters({"keci": np.array(keci) if r.b() else keci, "empty_cluster": e0})
        vals.append(m.compute(st, ev))
    check(close(vals[2], vals[0] + w * vals[1], 1e-8, 1e-6), "energy not linear in the coefficients", values=[float(v) for v in vals])


def outcome(f):
    try:
        return f()
    except (ValueError, TypeError, KeyError, IndexError, AttributeError) as e:
        return e


@case("C09")
def mismatched_parameters_are_rejected(r):
    LCE = need("kmcpy.models", "LocalClusterExpansion")
    ns, n_env, n, m, energy, corr, env = lce_setup(r, 2)
    csi, cbi, vals, keci, empty = m._oracle
    k = len(keci)
    d = {"name": "m", "cluster_site_indices": csi, "basis": {"@class": "OccupationBasis", "name": "occupation"}}
    if cbi is not None:
        d.update(basis={"@class": "ChebyshevBasis", "name": "chebyshev", "max_states": 2}, correlation_basis_indices=cbi, site_basis_values=vals)
    fps = [f"fp{r.randrange(10**9)}_{i}" for i in range(k)]
    hsh = "abc%d" % r.randrange(1000)
    d["correlation_fingerprints"] = list(fps)
    d["local_environment_hash"] = hsh
    ev = mk_event_codes(r, n, env=env)
    occ = [r.randrange(2) for _ in range(n)]
    st = st_of(r, occ)

    def run(keci=keci, fp=fps, hash_=hsh, late=False):
        mm = LCE.from_dict(copy.deepcopy(d))
        p = {"keci": list(keci), "empty_cluster": empty, "orbit_fingerprints": fp, "local_environment_hash": hash_}
        if late:
            mm.set_parameters({"keci": [1.0] * k, "empty_cluster": empty, "orbit_fingerprints": list(fps), "local_environment_hash": hsh})
            mm.keci = list(keci)
        else:
            mm.set_parameters(p)
        return mm.compute(st, ev)
    good = run()
    check(close(good, energy([occ[i] for i in env]), 1e-8, 1e-7), "accepted parameters give a wrong energy", got=float(good))
    bad = {"one coefficient missing": dict(keci=keci[:-1]), "one coefficient too many": dict(keci=keci + [0.5]), "no coefficients": dict(keci=[]),
           "fingerprint missing": dict(fp=fps[:-1]), "fingerprint added": dict(fp=fps + ["x"]), "other fingerprint": dict(fp=fps[:-1] + ["other"]),
           "other environment": dict(hash_=hsh + "z"), "coefficients replaced later": dict(keci=keci + [1.0], late=True)}
    if k > 1:
        bad["fingerprints in another order"] = dict(fp=fps[1:] + fps[:1])
    for what, kw in bad.items():
        o = outcome(lambda: run(**kw))
        check(isinstance(o, Exception), f"mismatched parameters accepted: {what}", result=o, orbits=k, kw=kw)
    # a rejected set leaves the previous parameters in force
    mm = LCE.from_dict(copy.deepcopy(d))
    mm.set_parameters({"keci": list(keci), "empty_cluster": empty, "orbit_fingerprints": list(fps), "local_environment_hash": hsh})
    o = outcome(lambda: mm.set_parameters({"keci": keci + [1.0], "empty_cluster": 7.0, "orbit_fingerprints": list(fps), "local_environment_hash": hsh}))
    check(isinstance(o, Exception), "mismatched parameters accepted")
    check(close(mm.compute(st, ev), good, 1e-12), "rejected parameters changed the model")


@case("C09")
def missing_inputs_are_rejected(r):
    LCE = need("kmcpy.models", "LocalClusterExpansion")
    ns, n_env, n, m, energy, corr, env = lce_setup(r)
    ev = mk_event_codes(r, n, env=env)
    st = st_of(r, [0] * n)
    csi, cbi, vals, keci, empty = m._oracle
    m2 = LCE.from_dict({"name": "m", "cluster_site_indices": csi, "basis": {"@class": "OccupationBasis", "name": "occupation"}})
    check(isinstance(outcome(lambda: m2.compute(st, ev)), Exception), "energy without parameters")
    check(isinstance(outcome(lambda: m.compute(None, ev)), Exception), "energy without a state")
    check(isinstance(outcome(lambda: m.compute(st, None)), Exception), "energy without an event")
    check(isinstance(outcome(lambda: m.set_parameters([1, 2])), Exception), "parameters of a wrong type accepted")
    # coefficients that do not fit the number of correlations
    for bad in (keci + [1.0], keci[:-1]):
        def f():
            m2.set_parameters({"keci": bad, "empty_cluster": 0.0})
            return m2.compute(st, ev)
        if len(keci) > 1 or len(bad) > 1:
            check(isinstance(outcome(f), Exception), "coefficients of the wrong length accepted", keci=bad, orbits=len(keci))


_BUILT = {}


def built_model(r):
    """a model built from a real structure; its geometry oracle comes from the structure itself"""
    from pymatgen.core import Lattice, Structure
    LLS = need("kmcpy.structure.local_lattice_structure", "LocalLatticeStructure")
    LCE = need("kmcpy.models", "LocalClusterExpansion")
    key = r.randrange(6)
    if key in _BUILT:
        return _BUILT[key]
    q = R(f"built{key}")
    n = q.i(3, 5)
    sp = ["Na"] + [q.choice(["Na", "Si", "Al"]) for _ in range(n - 1)]
    mapping = {"Na": q.choice([["Na", "X"], ["X", "Na"], ["Na", "X", "K"]]), "Si": q.choice([["Si", "P"], ["Si", "P", "Ge"]]), "Al": ["Al", "Mg"]}
    if key == 0:   # symmetric: orbits with several clusters
        sp = ["Na", "Si", "Si", "Si", "Si"]
        coords = [[0, 0, 0], [2, 0, 0], [-2, 0, 0], [0, 2, 0], [0, -2, 0]]
    elif key == 1:
        sp = ["Na", "Na", "Na"]
        coords = [[0, 0, 0], [2, 0, 0], [1, 1.7320508, 0]]
    else:
        coords = [[q.uniform(-2.4, 2.4) for _ in range(3)] for _ in sp]
    mapping = {k: v for k, v in mapping.items() if k in sp}
    basis = "occupation" if key == 5 else "chebyshev"
    if basis == "occupation":
        mapping = {k: v[:2] for k, v in mapping.items()}
    st = Structure(Lattice.cubic(30.0), sp, coords, coords_are_cartesian=True)
    lls = LLS(template_structure=st, center=0, cutoff=6.0, site_mapping=mapping, basis_type=basis, exclude_center_site=q.b())
    m = LCE()
    cut = [q.uniform(2.0, 6.0), q.uniform(2.0, 6.0), q.uniform(0.0, 5.0)]
    m.build(lls, cutoff_cluster=cut)
    _BUILT[key] = (m, lls, cut, mapping, basis)
    return _BUILT[key]


def cheb(t, x):
    return math.cos(t * math.acos(max(-1.0, min(1.0, x))))


def site_fn(basis, state, nst, b):
    if basis == "occupation":
        return float(state)
    return cheb(b + 1, -1.0 + 2.0 * state / (nst - 1))


@case("C09", weight=1.5, cap=60)
def built_models_match_the_definition(r):
    """features of a built model, checked against its own clusters, decorations and Chebyshev values"""
    m, lls, cut, mapping, basis = built_model(r)
    xyz = np.array([s.coords for s in lls.structure])
    lab = [s.species_string for s in lls.structure]
    nst = [len(mapping[s]) for s in lab]
    n = len(lab)
    k = len(m.cluster_site_indices)
    keci = [r.uniform(-20, 20) for _ in range(k)]
    empty = r.uniform(-5, 5)
    m.set_parameters({"keci": keci, "empty_cluster": empty})
    # every cluster below the cutoff is in exactly one orbit
    want = set()
    dist = lambda c: max([float(np.linalg.norm(xyz[a] - xyz[b])) for a, b in itertools.combinations(c, 2)] or [0.0])
    near = []
    for size in (1, 2, 3, 4):
        for c in itertools.combinations(range(n), size):
            lim = [10] + cut
            if abs(dist(c) - lim[size - 1]) < 1e-6:
                near.append(c)
            elif dist(c) < lim[size - 1]:
                want.add(c)
    got = [tuple(sorted(int(i) for i in c.site_indices)) for o in m.orbits for c in o.clusters]
    check(len(got) == len(set(got)) and set(got) - set(near) == want - set(near), "clusters within the cutoffs are not each in exactly one orbit", got=sorted(got), want=sorted(want), cutoffs=cut)
    for o in m.orbits:
        fps = {(tuple(sorted(lab[i] for i in c.site_indices)), tuple(sorted(round(float(np.linalg.norm(xyz[a] - xyz[b])), 3) for a, b in itertools.combinations(c.site_indices, 2)))) for c in o.clusters}
        check(len({f[0] for f in fps}) == 1, "an orbit mixes clusters of different species", orbit=[(tuple(c.site_indices)) for c in o.clusters], species=lab)
    feats = list(m.cluster_site_indices)
    deco = m.correlation_basis_indices
    N = n + 3
    env = r.sample(range(N), n)
    ev = mk_event_codes(r, N, env=env)
    for _ in range(3):
        occ = [0] * N
        for p, e in enumerate(env):
            occ[e] = r.randrange(nst[p])
        loc = [occ[e] for e in env]
        E = empty
        for f in range(k):
            s = 0.0
            for c, cl in enumerate(feats[f]):
                p = 1.0
                for q, site in enumerate(cl):
                    p *= site_fn(basis, loc[site], nst[site], int(deco[f][c][q]) if deco is not None else 0)
                s += p
            E += keci[f] * s
        st = st_of(r, occ)
        check(close(m.compute(st, ev), E, 1e-7, 1e-7), "energy of a built model differs from its definition", got=float(m.compute(st, ev)), want=E, local=loc, n_states=nst)
    if basis == "chebyshev":
        # complete decorations: every combination of the orbit's basis functions exactly once
        i = 0
        for o in m.orbits:
            counts = [min(max(1, nst[int(c.site_indices[p])] - 1) for c in o.clusters) for p in range(len(o.clusters[0].site_indices))]
            combos = list(itertools.product(*[range(x) for x in counts]))
            seen = []
            for _ in combos:
                check(i < k, "a decorated feature is missing", orbit=[tuple(c.site_indices) for c in o.clusters])
                check(sorted(tuple(int(z) for z in cl) for cl in feats[i]) == sorted(tuple(int(z) for z in c.site_indices) for c in o.clusters), "a feature does not hold its orbit's clusters", feature=i)
                seen.append(tuple(int(z) for z in deco[i][0]))
                check(all(tuple(int(z) for z in x) == seen[-1] for x in deco[i]), "clusters of one feature carry different decorations", feature=i)
                i += 1
            check(sorted(seen) == sorted(combos), "decorations of an orbit are not complete", got=seen, want=combos)
        check(i == k, "extra features", expected=i, got=k)


@case("C09", weight=0.6, cap=40)
def correlations_of_a_structure(r):
    """the correlation vector of a structure is the orbit sum over the species found on the reference's sites"""
    m, lls, cut, mapping, basis = built_model(r)
    tmpl = lls.template_structure
    st = tmpl.copy()
    names = [s.species_string for s in tmpl]
    pick = [r.randrange(len(mapping[x])) for x in names]
    gone = []
    for i, (x, q) in enumerate(zip(names, pick)):
        if mapping[x][q] == "X":
            gone.append(i)
        else:
            st.replace(i, mapping[x][q])
    st.remove_sites(gone)
    if len(st) == 0:
        raise Skip("empty structure")
    if r.b():
        sites = list(st)
        r.shuffle(sites)
        st = type(st).from_sites(sites)
    want_state = []
    for x, q in zip(names, pick):
        want_state.append(q)
    if basis == "occupation":      # 1 where the template species sits
        want_state = [1 if mapping[x][q] == x else 0 for x, q in zip(names, pick)]
    ref = lls if r.b() else None
    occ, corr = m.get_occ_corr_from_structure(st, reference_local_lattice_structure=ref)
    check([int(v) for v in occ.data] == want_state, "occupation of a structure does not name the species on its sites", got=[int(v) for v in occ.data], want=want_state, species=[mapping[x][q] for x, q in zip(names, pick)])
    loc = [want_state[int(i)] for i in lls.site_indices]
    nst = [len(mapping[names[int(i)]]) for i in lls.site_indices]
    deco = m.correlation_basis_indices
    for f, orbit in enumerate(m.cluster_site_indices):
        w = 0.0
        for c, cl in enumerate(orbit):
            p = 1.0
            for q, site in enumerate(cl):
                p *= site_fn(basis, loc[site], nst[site], int(deco[f][c][q]) if deco is not None else 0)
            w += p
        check(close(float(corr[f]), w, 1e-9, 1e-9), "correlation of a structure is not the orbit sum", orbit=f, got=float(corr[f]), want=w, local=loc)
    check(allclose(m.get_corr_from_structure(st), corr, 1e-12, 1e-12), "the two correlation functions differ")


@case("C09", weight=0.3, cap=40)
def foreign_reference_is_rejected(r):
    """a reference environment too small or ordered differently from the model's is not used silently"""
    from pymatgen.core import Lattice, Structure
    LLS = need("kmcpy.structure.local_lattice_structure", "LocalLatticeStructure")
    m, lls, cut, mapping, basis = built_model(r)
    used = max([int(i) for o in m.cluster_site_indices for c in o for i in c] or [0])
    sites = [s for i, s in enumerate(lls.template_structure)]
    if used < 1 or len(lls.site_indices) < 2:
        raise Skip("too small")
    far = max(range(1, len(sites)), key=lambda i: np.linalg.norm(np.array(sites[i].coords) - np.array(sites[0].coords)))
    fewer = Structure.from_sites([s for i, s in enumerate(sites) if i != far])
    small = LLS(template_structure=fewer, center=0, cutoff=6.0, site_mapping={k: v for k, v in mapping.items() if k in [s.species_string for s in fewer]}, basis_type=basis)
    check(raises(ValueError, m.get_occ_corr_from_structure, fewer, reference_local_lattice_structure=small), "a reference with another site list was used", sites=len(fewer))
    hsh = m.local_environment_hash
    try:
        m.local_environment_hash = None       # a model file from before the order was recorded: only the site count can tell
        if len(small.site_indices) <= used:
            check(raises(ValueError, m.get_occ_corr_from_structure, fewer, reference_local_lattice_structure=small), "clusters pointing outside the reference's sites were used", sites=len(small.site_indices), largest=used)
    finally:
        m.local_environment_hash = hsh

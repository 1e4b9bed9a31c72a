"""C04, C05: hop direction, Arrhenius rates, detailed balance."""
import copy
import math
from .common import *
from .build import *

KB = 8.617333262145e-2


def mk_lce(r, n_env, n_states=2, decorated=None, n_orb=None, max_cluster=4, scale=100.0):
    """A cluster expansion with random clusters, built through the public payload loader.
    Returns the model and the oracle energy(local_states)."""
    LCE = need("kmcpy.models", "LocalClusterExpansion")
    decorated = r.b() if decorated is None else decorated
    n_orb = n_orb or r.i(1, 4)
    # cluster_site_indices is a typed list: every orbit has clusters of one size
    csi, sizes = [], []
    for _ in range(n_orb):
        m = r.i(1, min(max_cluster, n_env))
        csi.append([sorted(r.sample(range(n_env), m)) for _ in range(r.i(1, 4))])
        sizes.append(m)
    d = {"name": "LCE", "cluster_site_indices": csi}
    keci = [r.uniform(-scale, scale) for _ in range(n_orb)]
    empty = r.uniform(-scale, scale)
    if decorated:
        nb = max(1, n_states - 1)
        cbi = [[[r.randrange(nb) for _ in cl] for cl in orb] for orb in csi]
        vals = [[[r.uniform(-1.5, 1.5) for _ in range(nb)] for _ in range(n_states)] for _ in range(n_env)]
        d.update(basis={"@class": "ChebyshevBasis", "name": "chebyshev", "max_states": max(2, n_states)}, correlation_basis_indices=cbi, site_basis_values=vals)
    else:
        d.update(basis={"@class": "OccupationBasis", "name": "occupation"})
        cbi = vals = None
    m = LCE.from_dict(copy.deepcopy(d))
    m.set_parameters({"keci": list(keci), "empty_cluster": empty})

    def corr(loc):
        out = []
        for o, orb in enumerate(csi):
            s = 0.0
            for c, cl in enumerate(orb):
                p = 1.0
                for k, site in enumerate(cl):
                    p *= vals[site][loc[site]][cbi[o][c][k]] if decorated else loc[site]
                s += p
            out.append(s)
        return out

    def energy(loc):
        return sum(a * b for a, b in zip(corr(loc), keci)) + empty
    m._oracle = (csi, cbi, vals, keci, empty)
    return m, energy, corr


def mk_event_codes(r, n, env=None, codes=None, ends=None):
    Event = need("kmcpy.event", "Event")
    f, t = ends or r.sample(range(n), 2)
    ev = Event(mobile_ion_indices=(f, t), local_env_indices=tuple(env if env is not None else [r.randrange(n) for _ in range(r.i(0, 5))]))
    if codes is not None:
        ev.hop_state_codes = tuple(codes)
    return ev


def spec_dir(occ, ev):
    c = getattr(ev, "hop_state_codes", (0, 1, 1, 0))
    f, t = ev.mobile_ion_indices
    if occ[f] == c[0] and occ[t] == c[1]:
        return 1
    if occ[f] == c[2] and occ[t] == c[3]:
        return -1
    return 0


def rt_cfg(T, v):
    return mk_config(temperature=T, attempt_frequency=v).runtime_config


def freeze(st, ev):
    return (list(st.occupations), st.time, st.step, copy.deepcopy(vars(ev)) if hasattr(ev, "__dict__") else repr(ev))


@case("C04")
def direction_of_hops(r):
    event_direction = need("kmcpy.event", "event_direction")
    n = r.i(2, 8)
    ns = r.i(2, 4)
    m, v = r.sample(range(ns), 2)
    m2, v2 = r.sample(range(ns), 2) if r.b() else (m, v)
    codes = r.choice([None, (m, v2, v, m2), (-1, v2, v, -1), (m, -1, -1, m2)])
    ev = mk_event_codes(r, n, codes=codes)
    f, t = ev.mobile_ion_indices
    for a in range(ns):
        for b in range(ns):
            occ = [r.randrange(ns) for _ in range(n)]
            occ[f], occ[t] = a, b
            occ2 = np.array(occ) if r.b() else occ
            check(event_direction(occ2, ev) == spec_dir(occ, ev), "wrong hop direction", occupations=occ, event=ev, codes=codes)


LABELS = ["Na", "K", "Li", "Si", "P"]


def species_setup(r, n_prim=None):
    """sites with their own species lists -> order, species by site"""
    from pymatgen.core import Lattice, Structure
    ASO = need("kmcpy.structure.active_site_order", "ActiveSiteOrder")
    n_prim = n_prim or r.i(1, 4)
    vac = r.choice(["X", "Vacancy", "Va", "VA", "vacancy"])
    opts = {"Na": r.choice([["Na", vac], [vac, "Na"], ["Na", vac, "K"], ["K", vac, "Na"]]), "Li": r.choice([["Li", "Na", vac], [vac, "Li", "Na"], ["Li", vac]]),
            "Si": r.choice([["Si", "P"], ["P", "Si"]]), "O": ["O"]}
    sp = ["Na"] + [r.choice(["Na", "Li", "Si", "O"]) for _ in range(n_prim)]
    r.shuffle(sp)
    mapping = {k: opts[k] for k in opts if k in sp}
    coords = [[(i + 0.3) / (n_prim + 2), r.random(), r.random()] for i in range(len(sp))]
    st = Structure(Lattice.from_parameters(8, 9, 10, 88, 93, 100), sp, coords)
    shape = r.choice([(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 1, 2)])
    order = ASO.from_structure_and_mapping(st, mapping, supercell_shape=shape)
    return st, mapping, shape, order, sp


VACS = {"X", "Vacancy", "vacancy", "Va", "VA"}


@case("C04", cap=60)
def direction_uses_each_sites_own_codes(r):
    Lookup, event_direction = need("kmcpy.event.hop", "HopStateLookup", "event_direction")
    EventLib = need("kmcpy.event", "EventLib")
    st, mapping, shape, order, sp = species_setup(r)
    mob = r.choice(["Na", "Na", "Li"])
    lk = Lookup.from_active_site_order(order, mob)
    labels = [[("X" if s in VACS else s) for s in mapping[sp[p]]] for p in order.active_to_primitive]
    n = len(labels)
    if n < 2:
        raise Skip("one site")
    lib = EventLib()
    for _ in range(6):
        lib.add_event(mk_event_codes(r, n))
    if r.b():
        lk.annotate_event_lib(lib)
    else:
        for e in lib.events:
            lk.annotate_event(e)
    for ev in lib.events:
        f, t = ev.mobile_ion_indices
        for a in range(len(labels[f])):
            for b in range(len(labels[t])):
                la, lb = labels[f][a], labels[t][b]
                exp = 1 if (la == mob and lb == "X") else -1 if (la == "X" and lb == mob) else 0
                occ = [0] * n
                occ[f], occ[t] = a, b
                got = event_direction(occ, ev)
                check(got == exp, "direction does not follow the species on the endpoints", species=(la, lb), mobile=mob, got=got, expected=exp, event=ev, labels=labels)


@case("C04", weight=1.5)
def composite_rates(r):
    Composite = need("kmcpy.models", "CompositeLCEModel")
    State = need("kmcpy.simulator.state", "State")
    ns = r.i(2, 3)
    n = r.i(4, 9)
    ne = r.i(1, min(5, n - 2))
    kra, ek, _ = mk_lce(r, ne, ns)
    mode = r.choice(["none", "lce", "ext"])
    D = r.uniform(-300, 300)
    if mode == "lce":
        site, es, _ = mk_lce(r, ne, ns)
    elif mode == "ext":
        class Ext:
            def compute(self, event, simulation_state):
                return D
        site, es = Ext(), None
    else:
        site = es = None
    model = Composite(site_model=site, kra_model=kra)
    for _ in range(6):
        codes = r.choice([None, (0, 1, 1, 0), (1, 0, 0, 1), (0, 0, 1, 1), (ns - 1, 0, 0, ns - 1)])
        ends = r.sample(range(n), 2)
        env = r.sample([i for i in range(n) if i not in ends], ne)
        ev = mk_event_codes(r, n, env, codes, ends)
        occ = [r.randrange(ns) for _ in range(n)]
        if r.b(0.7):
            c = codes or (0, 1, 1, 0)
            occ[ends[0]], occ[ends[1]] = r.choice([(c[0], c[1]), (c[2], c[3])])
        st = State(occupations=occ, time=r.f(0, 1), step=r.i(0, 9))
        T, v = r.choice([1.0, 77.0, 298.0, 300.0, r.f(50, 2000)]), r.choice([1e13, 5e12, r.f(1, 10), 1.0])
        before = freeze(st, ev)
        got = model.compute_probability(event=ev, runtime_config=rt_cfg(T, v), simulation_state=st)
        d = spec_dir(occ, ev)
        loc = [occ[i] for i in env]
        dE = 0.0 if mode == "none" else d * es(loc) if mode == "lce" else D
        b = ek(loc) + dE / 2
        exp = 0.0 if d == 0 else v * math.exp(-b / (KB * T)) if -b / (KB * T) < 700 else None
        if exp is None:
            continue
        check(got >= 0, "negative rate", rate=got)
        check((d == 0) == (got == 0) or exp == 0.0, "rate is zero exactly for blocked hops", direction=d, rate=got, occupations=occ, event=ev)
        check(close(got, exp, 1e-8), "rate is not v*exp(-(E_KRA+dE/2)/kT)", rate=got, expected=exp, direction=d, mode=mode, barrier=b, T=T, v=v, occupations=occ, event=ev)
        check(freeze(st, ev) == before, "rate evaluation changed the state or event", before=before, after=freeze(st, ev))
        again = model.compute_probability(event=ev, runtime_config=rt_cfg(T, v), simulation_state=st)
        check(again == got, "rate evaluation is not repeatable", first=got, second=again)


@case("C04")
def barrier_model_rates(r):
    LBM = need("kmcpy.models", "LocalBarrierModel")
    State = need("kmcpy.simulator.state", "State")
    B = r.choice([0.0, 300.0, r.f(0, 900), r.uniform(-50, 50)])
    prop = r.choice(["barrier", "barrier", "e2"])
    props = {"barrier": B} if prop == "barrier" else {"barrier": B + 100.0, "e2": B}
    m = LBM(default_properties=props, probability_property=prop, default_property=r.choice(["barrier", prop]))
    if r.b() and prop == "barrier":
        m = LBM.constant_barrier(B)
    ns = r.i(2, 3)
    n = r.i(2, 6)
    for _ in range(6):
        codes = r.choice([None, (0, 1, 1, 0), (1, 0, 0, 1), (ns - 1, 0, 0, ns - 1)])
        ev = mk_event_codes(r, n, None, codes)
        occ = [r.randrange(ns) for _ in range(n)]
        st = State(occupations=occ)
        T, v = r.choice([1.0, 300.0, r.f(50, 2000)]), r.choice([1e13, r.f(1, 10)])
        before = (freeze(st, ev), m.as_dict())
        got = m.compute_probability(event=ev, runtime_config=rt_cfg(T, v), simulation_state=st)
        d = spec_dir(occ, ev)
        x = -B / (KB * T)
        if x > 690:
            continue
        exp = 0.0 if d == 0 else v * math.exp(x)
        check(close(got, exp, 1e-8), "barrier-model rate is not the Arrhenius rate / zero", rate=got, expected=exp, direction=d, barrier=B, T=T, v=v, occupations=occ, event=ev)
        check((freeze(st, ev), m.as_dict()) == before, "rate evaluation changed state, event or model")


@case("C04", cap=40)
def simulator_uses_the_models_rates(r):
    """rates held by the simulator at the configured temperature and attempt frequency"""
    LBM = need("kmcpy.models", "LocalBarrierModel")
    Lookup = need("kmcpy.event.hop", "HopStateLookup")
    n = r.i(3, 8)
    B, T, v = r.f(100, 500), r.f(200, 900), r.choice([1e13, 5e12, 1e11])
    m = LBM(default_barrier=B)
    m.add_state_count_rule(state="occupied", min_count=1, barrier=B + 77.0)
    lib = rand_lib(r, r.i(2, 8), n, 3)
    occ = [0] + [r.randrange(2) for _ in range(n - 2)] + [1]
    k = mk_kmc(r, lib, occ, model=m, config=mk_config(temperature=T, attempt_frequency=v))
    for i, ev in enumerate(lib.events):
        b = B + 77.0 if any(occ[s] == 0 for s in ev.local_env_indices) else B
        exp = v * math.exp(-b / (KB * T)) if spec_dir(occ, ev) else 0.0
        check(close(k.prob_list[i], exp, 1e-8), "simulator rate differs from the Arrhenius rate", event=ev, rate=k.prob_list[i], expected=exp, occupations=occ)


# ---------------------------------------------------------------- C05
def hop(occ, ev):
    o = list(occ)
    f, t = ev.mobile_ion_indices
    o[f], o[t] = o[t], o[f]
    return o


@case("C05")
def lce_detailed_balance(r):
    Composite = need("kmcpy.models", "CompositeLCEModel")
    State = need("kmcpy.simulator.state", "State")
    ns = r.i(2, 3)
    n = r.i(4, 9)
    ne = r.i(1, min(5, n - 2))
    kra, ek, _ = mk_lce(r, ne, ns)
    site, es, _ = mk_lce(r, ne, ns)
    m = Composite(site_model=site, kra_model=kra)
    m0 = Composite(kra_model=kra)
    for _ in range(5):
        mob, vac = r.sample(range(ns), 2)
        codes = (mob, vac, vac, mob) if r.b(0.6) or (mob, vac) != (0, 1) else None
        ends = r.sample(range(n), 2)
        env = r.sample([i for i in range(n) if i not in ends], ne)
        ev = mk_event_codes(r, n, env, codes, ends)
        occ = [r.randrange(ns) for _ in range(n)]
        c = getattr(ev, "hop_state_codes", (0, 1, 1, 0))
        occ[ends[0]], occ[ends[1]] = r.choice([(c[0], c[1]), (c[2], c[3])])
        T = r.f(200, 1500)
        cfg = rt_cfg(T, r.choice([1e13, 2.5]))
        A, B = State(occupations=occ), State(occupations=hop(occ, ev))
        loc = [occ[i] for i in env]
        d = spec_dir(occ, ev)
        dE = d * es(loc)
        f, b = (m.compute_probability(event=ev, runtime_config=cfg, simulation_state=s) for s in (A, B))
        if min(f, b) <= 1e-290 or max(f, b) > 1e290:
            continue
        check(close(math.log(f) - math.log(b), -dE / (KB * T), 1e-7, 1e-7), "forward/backward rates violate detailed balance", forward=f, backward=b, dE=dE, T=T, occupations=occ, event=ev)
        check(close(-KB * T * (math.log(f) + math.log(b)) / 2, ek(loc) - KB * T * math.log(cfg.attempt_frequency), 1e-7, 1e-6), "mean of the two barriers is not the kinetically resolved barrier", forward=f, backward=b, e_kra=ek(loc))
        f0, b0 = (m0.compute_probability(event=ev, runtime_config=cfg, simulation_state=s) for s in (A, B))
        check(f0 == b0, "without a site model a hop and its reverse differ", forward=f0, backward=b0)


class PairEnergy:
    """a total energy on the external occupation; differences by re-evaluation"""

    def __init__(self, r, n, vals, units):
        self.h = [{x: r.uniform(-0.2, 0.2) for x in vals} for _ in range(n)]
        self.J = {(i, j): r.uniform(-0.1, 0.1) for i in range(n) for j in range(i)}
        self.code = {x: k + 1 for k, x in enumerate(vals)}
        self.units = units
        self.calls = []

    def E(self, ext):
        ext = [x.item() if hasattr(x, "item") else x for x in ext]
        e = sum(self.h[i][x] for i, x in enumerate(ext))
        e += sum(J * self.code[ext[i]] * self.code[ext[j]] for (i, j), J in self.J.items())
        return e * (1000.0 if self.units == "meV" else 1.0)

    def __call__(self, external_occupation, changes, **kw):
        old = list(external_occupation)
        new = list(external_occupation)
        for c in changes:
            assert c.old_value == old[c.external_site], "stated old value differs from the external occupation"
            new[c.external_site] = c.new_value
        self.calls.append(list(changes))
        return self.E(new) - self.E(old)


@case("C05", "C11")
def external_energy_detailed_balance_and_cycles(r):
    Composite, SEM = need("kmcpy.models", "CompositeLCEModel", "SiteEnergyModel")
    State = need("kmcpy.simulator.state", "State")
    Event = need("kmcpy.event", "Event")
    n = r.i(3, 7)
    units = r.choice(["eV", "meV"])
    vals = r.choice([[0, 1], [1, 0], ["Na", "Va"], [3, 5]])
    perm = list(range(n))
    r.shuffle(perm)
    pe = PairEnergy(r, n, vals, units)
    kw = {} if vals == [0, 1] and r.b() else dict(state_mapping={0: vals[0], 1: vals[1]})
    sem = SEM(compute_fn=pe, site_mapping=perm, units=units, **kw)
    kra, ek, _ = mk_lce(r, 1, 2, scale=50)
    m = Composite(site_model=sem, kra_model=kra)
    occ = [0, 1, 1] + [r.randrange(2) for _ in range(n - 3)]
    r.shuffle(occ)
    st = State(occupations=occ)
    T = r.f(300, 1200)
    cfg = rt_cfg(T, 1e13)
    m.initialize_state(simulation_state=st)

    def ext_of(o):
        e = [None] * n
        for i in range(n):
            e[perm[i]] = vals[o[i]]
        return e
    E = lambda o: pe.E(ext_of(o)) * (1.0 if units == "meV" else 1000.0)
    logr = 0.0
    path = []
    start = list(occ)
    # random walk, then a way back to the start: the log ratios add up to zero
    for k in range(r.i(2, 8)):
        occ = list(st.occupations)
        ions = [i for i in range(n) if occ[i] == 0]
        vacs = [i for i in range(n) if occ[i] == 1]
        a, b = r.choice(ions), r.choice(vacs)
        others = [i for i in range(n) if i not in (a, b)]
        ev = Event((a, b) if r.b() else (b, a), (others[0],))
        f = m.compute_probability(event=ev, runtime_config=cfg, simulation_state=st)
        E0 = E(occ)
        st.apply_event(ev, 0.1)
        m.apply_event(event=ev, simulation_state=st)
        check([x.item() if hasattr(x, "item") else x for x in sem.external_occupation] == ext_of(st.occupations),
              "external occupation does not mirror the simulation state", external=list(sem.external_occupation), expected=ext_of(st.occupations), event=ev)
        g = m.compute_probability(event=ev, runtime_config=cfg, simulation_state=st)
        dE = E(list(st.occupations)) - E0
        check(close(math.log(f) - math.log(g), -dE / (KB * T), 1e-6, 1e-6), "forward/backward rates violate detailed balance (external energy)", forward=f, backward=g, dE=dE, T=T, units=units, event=ev)
        logr += math.log(f) - math.log(g)
        path.append(ev)
    check(close(logr, -(E(list(st.occupations)) - E(start)) / (KB * T), 1e-6, 1e-6), "rate ratios along a path do not telescope", total=logr)


@case("C05")
def triangle_cycle(r):
    """one ion around a loop of three sites: both senses have the same product of rates"""
    Composite, SEM = need("kmcpy.models", "CompositeLCEModel", "SiteEnergyModel")
    State = need("kmcpy.simulator.state", "State")
    Event = need("kmcpy.event", "Event")
    n = r.i(3, 6)
    pe = PairEnergy(r, n + 1, [0, 1], "meV")
    sem = SEM(compute_fn=pe, units="meV", external_size=n + 1)
    kra, ek, _ = mk_lce(r, 1, 2, scale=50)
    m = Composite(site_model=sem, kra_model=kra)
    cfg = rt_cfg(r.f(300, 1200), 1e12)
    cyc = r.sample(range(n), 3)
    sense = {}
    for name, loop in (("fwd", cyc), ("bwd", cyc[::-1])):
        occ = [1] * n
        occ[loop[0]] = 0
        st = State(occupations=occ)
        m.initialize_state(simulation_state=st)
        s = 0.0
        for i in range(3):
            a, b = loop[i], loop[(i + 1) % 3]
            ev = Event(tuple(sorted((a, b))), (([x for x in range(n) if x not in cyc] or [loop[(i + 2) % 3]])[0],))
            s += math.log(m.compute_probability(event=ev, runtime_config=cfg, simulation_state=st))
            st.apply_event(ev, 0.0)
            m.apply_event(event=ev, simulation_state=st)
        sense[name] = s
        check(list(st.occupations) == occ, "cycle did not return to the start")
    check(close(sense["fwd"], sense["bwd"], 1e-7, 1e-6), "product of rates around a closed cycle depends on the sense", forward=sense["fwd"], backward=sense["bwd"])

"""C11: external site-energy differences."""
from .common import *
from .build import *

VALUES = [[0, 1, 2], [2, 0, 1], ["Na", "X", "Ca"], ["Na", "Vacancy", "A"], [1, 0.5, 2], [0.25, 1, 3], [10, 20, 30], [-1, 1, 0], [1.5, -2.5, 4], ["Na", 0, 1.5]]


def plain(x):
    return x.item() if hasattr(x, "item") else x


def mapping(r, n, ns, want_sites=None):
    """a random mapping (keyword arguments, value(site, state), external site(site), size or None, rest)"""
    kw, size = {}, None
    if r.b(0.75):
        size = n + r.i(0, 6)
        pos = r.sample(range(size), n)
        m = r.random()
        kw["site_mapping"] = {i: p for i, p in enumerate(pos)} if m < 0.4 else list(pos) if m < 0.7 else {str(i): str(p) for i, p in enumerate(pos)} if m < 0.8 else dict(sorted(enumerate(pos), key=lambda t: t[1]))
    else:
        pos = list(range(n))
    tab = {i: list(range(ns)) for i in range(n)}
    m = r.random()
    g = None
    if m < 0.6:
        g = r.choice(VALUES)[:ns] + list(range(100, 100 + max(0, ns - 3)))
        if r.b(0.15):
            g[1] = g[0]          # two states mean the same externally
        kw["state_mapping"] = list(g) if r.b(0.3) else ({str(s): v for s, v in enumerate(g)} if r.b(0.2) else {s: v for s, v in enumerate(g)})
        tab = {i: list(g) for i in range(n)}
    if m > 0.4:
        by = {}
        for i in range(n):
            if g is None or r.b(0.5):
                v = r.choice(VALUES)[:ns] + list(range(200, 200 + max(0, ns - 3)))
                if r.b(0.1):
                    v = [v[0]] * ns
                by[i] = v
                tab[i] = list(v)
        kw["state_mapping_by_site"] = {i: {s: x for s, x in enumerate(v)} for i, v in by.items()}
        if len(by) == n and r.b(0.3):
            kw["state_mapping_by_site"] = [list(by[i]) for i in range(n)]
    rest = None
    m = r.random()
    if m < 0.35 and size is not None:
        kw["external_size"] = size
        if r.b():
            kw["external_fill_value"] = r.choice([0, -1, 7])
        rest = [kw.get("external_fill_value", 0)] * size
    elif m < 0.7:
        size = max(pos) + 1 + r.i(0, 4) if size is None else size
        pool = [x for i in range(n) for x in tab[i]]
        rest = [r.choice(pool) for _ in range(size)]
        if len({type(x) for x in rest}) > 1:
            rest = np.array(rest, dtype=object)
        kw["initial_occupation"] = rest if r.b() else np.array(rest)
        rest = list(rest)
    else:
        size = None
        rest = [kw.get("external_fill_value", 0)] * (max(pos) + 1)
    return kw, tab, pos, rest


def scratch_map(occ, tab, pos, rest):
    e = list(rest)
    for i, s in enumerate(occ):
        e[pos[i]] = tab[i][s]
    return e


@case("C11", weight=3)
def mirror_follows_the_state(r):
    SEM = need("kmcpy.models", "SiteEnergyModel")
    State = need("kmcpy.simulator.state", "State")
    Event = need("kmcpy.event", "Event")
    n, ns = r.i(2, 8), r.i(2, 4)
    kw, tab, pos, rest = mapping(r, n, ns)
    units = r.choice(["eV", "meV", "ev", "MEV"])
    fac = 1000.0 if units.lower() == "ev" else 1.0
    calls, applied = [], []
    ret = [0.0]

    def fn(runtime, external_occupation, changes, event, simulation_state, scale=1):
        calls.append((runtime, [plain(x) for x in external_occupation], list(changes), event, list(simulation_state.occupations), scale))
        return ret[0]

    def fn_some(changes, external_occupation):
        calls.append((None, [plain(x) for x in external_occupation], list(changes), None, None, None))
        return ret[0]

    def ap(runtime, external_occupation, changes, event, simulation_state, **k):
        applied.append(([plain(x) for x in external_occupation], list(changes), event, k))
    rt_obj = object()
    full = r.b(0.7)
    m = SEM(compute_fn=fn if full else fn_some, compute_kwargs={"scale": 3} if full and r.b() else None, apply_fn=ap if r.b() else None,
            apply_kwargs={"q": 1} if r.b() else None, runtime=rt_obj, units=units, **kw)
    occ = [r.randrange(ns) for _ in range(n)]
    st = State(occupations=list(occ))
    m.initialize_state(simulation_state=st)
    info = dict(kw=kw, occ=occ)
    ext = lambda: [plain(x) for x in m.external_occupation]
    check(ext() == scratch_map(occ, tab, pos, rest), "initial external occupation is not the mapped state", got=ext(), want=scratch_map(occ, tab, pos, rest), **info)
    hist = []
    for _ in range(r.i(3, 14)):
        a, b = r.sample(range(n), 2)
        ev = Event((a, b), tuple(r.sample(range(n), min(n, 2))))
        cur = [int(x) for x in st.occupations]
        want = []
        for s, o, w in ((a, cur[a], cur[b]), (b, cur[b], cur[a])):
            if tab[s][o] != tab[s][w]:
                want.append((s, pos[s], o, w, tab[s][o], tab[s][w]))
        ret[0] = r.choice([r.uniform(-2, 2), np.float64(0.3), 1, np.float32(0.5)])
        calls.clear()
        before = ext()
        got = m.compute(event=ev, simulation_state=st)
        d = dict(event=(a, b), state=cur, history=list(hist), **info)
        check(close(got, float(ret[0]) * fac if want else 0.0, 1e-7), "energy difference not passed on in meV (zero if nothing changes)", got=got, backend=ret[0], units=units, changes=want, **d)
        check(len(calls) == (1 if want else 0), "backend asked although nothing changes, or not asked", calls=len(calls), changes=want, **d)
        check([int(x) for x in st.occupations] == cur and ext() == before, "evaluation changed the state or the mirror", **d)
        tup = lambda cs: [(int(c.kmcpy_site), int(c.external_site), int(c.old_state), int(c.new_state), c.old_value, c.new_value) for c in cs]
        for c in calls:
            check(tup(c[2]) == want, "changes sent to the backend are wrong", got=tup(c[2]), want=want, **d)
            check(c[1] == before, "backend saw another external occupation", got=c[1], **d)
            check([x.as_flip() for x in c[2]] == [(w[1], w[5]) for w in want] and [x.as_system_change_tuple() for x in c[2]] == [(w[1], w[4], w[5]) for w in want], "flip forms of the changes are wrong", **d)
            if full:
                check(c[0] is rt_obj and c[3] is ev and c[4] == cur and c[5] == m.compute_kwargs.get("scale", 1), "backend got other arguments than configured", **d)
        if r.b(0.75):
            st.apply_event(ev, 0.5)
            applied.clear()
            m.apply_event(event=ev, simulation_state=st)
            hist.append((a, b))
            new = [int(x) for x in st.occupations]
            check(ext() == scratch_map(new, tab, pos, rest), "external occupation drifted from the simulation state", got=ext(), want=scratch_map(new, tab, pos, rest), now=new, **d)
            if m.apply_fn is not None:
                check(len(applied) == (1 if want else 0), "apply function called wrongly", n=len(applied), changes=want, **d)
                for x in applied:
                    check(tup(x[1]) == want and x[0] == before and x[2] is ev and x[3] == m.apply_kwargs, "apply function told something else", got=tup(x[1]), want=want, **d)
    # a fresh start on the current state gives the same mirror
    m2 = SEM(compute_fn=lambda **k: 0.0, **kw)
    m2.initialize_state(simulation_state=st)
    check([plain(x) for x in m2.external_occupation] == ext(), "mirror after a history differs from a fresh start", got=ext(), fresh=[plain(x) for x in m2.external_occupation], **info)
    # re-initialising forgets the past
    st3 = State(occupations=[r.randrange(ns) for _ in range(n)])
    m.initialize_state(simulation_state=st3)
    check(ext() == scratch_map([int(x) for x in st3.occupations], tab, pos, rest), "re-initialised mirror is not the mapped state", **info)


@case("C11")
def bad_mappings_are_rejected(r):
    SEM = need("kmcpy.models", "SiteEnergyModel")
    State = need("kmcpy.simulator.state", "State")
    Event, EventLib = events_mod()
    n = r.i(2, 7)
    size = n + r.i(0, 3)
    pos = r.sample(range(size), n)
    st = State(occupations=[r.randrange(2) for _ in range(n)])
    f = lambda **k: 0.0

    def rejected(**kw):
        ev = kw.pop("event_lib", None)
        try:
            m = SEM(compute_fn=f, **kw)
            m.initialize_state(simulation_state=st, event_lib=ev)
        except (ValueError, KeyError, IndexError):
            return True
        return False
    check(not rejected(site_mapping=pos, external_size=size), "valid mapping rejected", pos=pos, size=size)
    k = r.randrange(n)
    q = list(pos)
    q[k] = size + r.i(0, 2)
    check(rejected(site_mapping=q, external_size=size), "mapping outside the external occupation accepted", mapping=q, size=size)
    check(rejected(site_mapping=q, initial_occupation=[0] * size), "mapping outside the initial occupation accepted", mapping=q, size=size)
    check(rejected(site_mapping=q, initial_occupation=[0] * size, external_size=size + 10), "mapping outside the initial occupation accepted", mapping=q, size=size)
    q[k] = -1 - r.randrange(3)
    check(rejected(site_mapping=q), "negative external site accepted", mapping=q)
    check(rejected(site_mapping={i: p for i, p in enumerate(pos) if i != k}), "incomplete mapping accepted", missing=k)
    check(rejected(site_mapping=pos[:-1]), "incomplete mapping accepted", mapping=pos[:-1])
    q = list(pos)
    q[k] = q[(k + 1) % n]
    check(rejected(site_mapping=q), "ambiguous mapping (two sites on one external site) accepted", mapping=q)
    check(rejected(external_size=n - 1), "external occupation smaller than the state accepted", n=n)
    for u in ("J", "kcal/mol", "", "me V", "kev", None, 1):
        try:
            SEM(compute_fn=f, units=u)
        except (ValueError, TypeError):
            continue
        raise Fail("unsupported unit accepted", unit=u)
    s0 = int(st.occupations[k])
    check(rejected(state_mapping={1 - s0: 5}), "state without external value accepted", occ=list(st.occupations))
    check(rejected(state_mapping_by_site={k: {1 - s0: 5}}), "state without external value accepted on one site", site=k, occ=list(st.occupations))
    check(rejected(state_mapping={-1: 0, 3: 1, s0: 4} if False else {3: 1, -1: 2}), "gap in the state mapping accepted")
    # values an event needs must be mapped before the run starts
    lib = EventLib()
    j = (k + 1) % n
    st.occupations[j] = 1 - s0
    lib.add_event(Event((k, j), ()))
    full = {i: {0: "a", 1: "b"} for i in range(n)}
    check(not rejected(state_mapping_by_site=full, event_lib=lib), "valid state mapping rejected")
    part = {i: dict(d) for i, d in full.items()}
    del part[k][1 - s0]
    check(rejected(state_mapping_by_site=part, event_lib=lib), "event needing an unmapped state accepted", site=k, mapping=part, occ=list(st.occupations))
    # without an initial mapping error the unmapped state is refused when met
    m = SEM(compute_fn=f, state_mapping_by_site=part)
    try:
        m.initialize_state(simulation_state=st)
        m.compute(event=lib.events[0], simulation_state=st)
    except (ValueError, KeyError, IndexError):
        pass
    else:
        raise Fail("unmapped state evaluated", site=k, mapping=part)


@case("C11")
def backend_results_are_checked(r):
    SEM = need("kmcpy.models", "SiteEnergyModel")
    State = need("kmcpy.simulator.state", "State")
    Event = need("kmcpy.event", "Event")
    st = State(occupations=[0, 1, 0])
    ev = Event((0, 1), (2,))
    for bad in (None, "1.0", True, [1.0], np.array([1.0, 2.0])):
        m = SEM(compute_fn=lambda **k: bad)
        check(raises(TypeError, m.compute, event=ev, simulation_state=st), "non-numeric backend result accepted", value=bad)
    check(raises(RuntimeError, SEM().compute, event=ev, simulation_state=st), "missing backend accepted")
    m = SEM(compute_fn=lambda event: 1.0, compute_kwargs={"zzz": 1})
    check(raises(TypeError, m.compute, event=ev, simulation_state=st), "unused compute_kwargs accepted")
    # a lazily initialised model behaves the same
    seen = []
    m = SEM(compute_fn=lambda external_occupation, **k: (seen.append(list(external_occupation)), 0.25)[1], state_mapping={0: 4, 1: 9})
    check(close(m.compute(event=ev, simulation_state=st), 250.0), "difference not converted from eV")
    check([int(x) for x in seen[0]] == [4, 9, 4], "lazily built external occupation is wrong", got=seen[0])


@case("C11", cap=60)
def the_simulator_commits_exactly_the_executed_events(r):
    """whole simulator: the mirror follows the state through every executed hop"""
    SEM, Composite, LBM = need("kmcpy.models", "SiteEnergyModel", "CompositeLCEModel", "LocalBarrierModel")
    from .r_rates import mk_lce
    n = r.i(4, 8)
    lib = rand_lib(r, r.i(3, 10), n, env_max=0)
    Event = need("kmcpy.event", "Event")
    pos = r.sample(range(n + 3), n)
    sem = SEM(compute_fn=lambda changes: 0.01 * len(changes), site_mapping=pos, state_mapping={0: "Na", 1: "X"}, external_size=n + 3, external_fill_value="-")
    kra, ek, _ = mk_lce(r, 1, 2, scale=20)
    lib2 = type(lib)()
    for e in lib.events:
        lib2.add_event(Event(tuple(e.mobile_ion_indices), (r.randrange(n),)))
    lib2.generate_event_dependencies()
    occ = [0, 1] + [r.randrange(2) for _ in range(n - 2)]
    r.shuffle(occ)
    k = mk_kmc(r, lib2, occ, model=Composite(site_model=sem, kra_model=kra))
    k.rng = np.random.default_rng(r.randrange(10**6))
    for _ in range(12):
        if not sum(k.prob_list) > 0:
            return
        ev, dt = list(k.propose(k.event_lib.events))[:2]
        k.update(ev, dt)
        want = ["-"] * (n + 3)
        for i, s in enumerate(k.simulation_state.occupations):
            want[pos[i]] = "Na" if s == 0 else "X"
        check([str(x) for x in sem.external_occupation] == want, "mirror differs from the simulation state during a simulation", got=[str(x) for x in sem.external_occupation], want=want, event=ev.mobile_ion_indices)

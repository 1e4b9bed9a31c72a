import collections
import copy
from .common import *
from .build import *


def _occ(r, n):
    m = r.i(1, 4)
    return [r.i(0, m) for _ in range(n)]


@case("C01")
def hop_exchanges_two_sites(r):
    State = need("kmcpy.simulator.state", "State")
    n = r.choice([2, 2, 3, 4, 5, 8, 17, 64, 300])
    occ = _occ(r, n)
    st = State(occupations=occ, time=r.f(0, 5), step=r.i(0, 2000))
    count = collections.Counter(occ)
    occ0 = list(occ)
    for k in range(r.i(1, 12)):
        ev = rand_event(r, n, allow_self=r.b(0.05))
        f, t = ev.mobile_ion_indices
        if r.b(0.15) and n > 2:   # last / first sites
            Event = need("kmcpy.event", "Event")
            f, t = r.choice([(0, n - 1), (n - 1, 0), (n - 1, n - 2)])
            ev = Event((f, t), ev.local_env_indices)
        dt = r.choice([0.0, 1e-12, r.f(0, 3), r.f(0, 1e6)])
        old, t0, s0 = list(st.occupations), st.time, st.step
        evc = copy.deepcopy(ev)
        st.apply_event(ev, dt)
        new = list(st.occupations)
        exp = list(old)
        exp[f], exp[t] = old[t], old[f]
        check(new == exp, "hop did not exchange exactly its two endpoint occupations", old=old, event=ev, new=new, expected=exp)
        check(collections.Counter(new) == count and len(new) == n, "occupation counts not conserved", old=old, event=ev, new=new)
        check(st.time == t0 + dt, "clock did not advance by dt", before=t0, dt=dt, after=st.time)
        check(st.step == s0 + 1, "step counter did not advance by one", before=s0, after=st.step)
        check(ev == evc, "event modified by hop", before=evc, after=ev)
    check(occ == occ0, "caller's occupation list modified", before=occ0, after=occ)


@case("C01")
def copies_are_independent(r):
    State = need("kmcpy.simulator.state", "State")
    n = r.choice([2, 3, 6, 20])
    st = State(occupations=_occ(r, n), time=r.f(0, 5), step=r.i(0, 50))
    c = st.copy()
    check(list(c.occupations) == list(st.occupations) and c.time == st.time and c.step == st.step, "copy differs from original",
          original=vars(st), copy=vars(c))
    keep = (list(st.occupations), st.time, st.step)
    for _ in range(r.i(1, 4)):
        c.apply_event(rand_event(r, n), r.f(0, 2))
    check((list(st.occupations), st.time, st.step) == keep, "hop on the copy changed the original", before=keep, after=vars(st))
    keep = (list(c.occupations), c.time, c.step)
    for _ in range(r.i(1, 4)):
        st.apply_event(rand_event(r, n), r.f(0, 2))
    check((list(c.occupations), c.time, c.step) == keep, "hop on the original changed the copy", before=keep, after=vars(c))


@case("C01")
def constructors_keep_values(r):
    State = need("kmcpy.simulator.state", "State")
    occ = _occ(r, r.i(1, 30))
    t, s = r.f(0, 9), r.i(0, 99)
    for st in (State(occ, t, s), State(occupations=tuple(occ), time=t, step=s), State.from_occupations(occ, time=t, step=s),
               State.from_occupations(np.array(occ), time=t, step=s)):
        check([int(x) for x in st.occupations] == occ and st.time == t and st.step == s, "state does not hold the given values", given=(occ, t, s), state=vars(st))
        keep = list(occ)
        if len(occ) > 1:
            st.apply_event(rand_event(r, len(occ)), 1.0)
        check(occ == keep, "state shares storage with the caller's list")


@case("C01")
def kmc_hops_conserve(r):
    """through the simulator's own update path"""
    n = r.i(3, 12)
    lib = rand_lib(r, r.i(2, 10), n, env_max=3)
    occ = [r.i(0, 1) for _ in range(n)]
    k = mk_kmc(r, lib, occ)
    count = collections.Counter(occ)
    for _ in range(r.i(1, 8)):
        ev = r.choice(lib.events)
        old = list(k.simulation_state.occupations)
        t0, s0 = k.simulation_state.time, k.simulation_state.step
        dt = r.f(0, 2)
        k.update(ev, dt=dt)
        f, t = ev.mobile_ion_indices
        exp = list(old)
        exp[f], exp[t] = old[t], old[f]
        new = list(k.simulation_state.occupations)
        check(new == exp, "hop through the simulator did not exchange exactly the endpoint occupations", old=old, event=ev, new=new)
        check(collections.Counter(new) == count, "counts not conserved", old=old, new=new)
        check(k.simulation_state.time == t0 + dt and k.simulation_state.step == s0 + 1, "clock or step wrong", before=(t0, s0), dt=dt,
              after=(k.simulation_state.time, k.simulation_state.step))


# ------------------------------------------------------------------ C02
def _deps(lib, i):
    return [int(x) for x in lib.get_dependent_events(i)]


@case("C02", weight=1.5)
def dependency_table_complete(r):
    n_sites = r.choice([2, 3, 5, 8, 20, 60])
    ne = r.choice([1, 2, 3, 5, 9, 25]) if R.tier == "quick" else r.choice([1, 2, 3, 5, 9, 25, 70])
    lib = rand_lib(r, ne, n_sites, env_max=r.choice([0, 1, 3, 8, 20]))
    if r.b(0.3):
        Event = need("kmcpy.event", "Event")
        e = r.choice(lib.events)
        lib.add_event(Event(tuple(e.mobile_ion_indices), tuple(e.local_env_indices)))
        lib.add_event(Event(tuple(reversed(e.mobile_ion_indices)), tuple(e.local_env_indices)))
        lib.generate_event_dependencies()
    for i, a in enumerate(lib.events):
        d = set(_deps(lib, i))
        for j, b in enumerate(lib.events):
            if sites_of(a) & sites_of(b):
                check(j in d, "events share a site but executing one does not refresh the other", i=i, j=j, event_i=a, event_j=b, dependents=sorted(d), events=lib.events)
        check(all(0 <= x < len(lib) for x in d), "dependent index out of range", i=i, dependents=sorted(d))


@case("C02", weight=1.0, cap=400)
def dependency_table_exhaustive_pairs(r):
    """all pairs of events over few sites: every overlap pattern of endpoints and environment"""
    import itertools
    Event, EventLib = events_mod()
    if r.k == 0:
        ns = 4
        pairs = [(a, b) for a in range(ns) for b in range(ns) if a != b]
        envs = [(), (0,), (3,), (1, 2), (3, 1)]
        evs = [Event(p, e) for p in pairs for e in envs]
    else:
        evs = [rand_event(r, r.choice([40, 200]), env_max=12) for _ in range(30)]
    lib = EventLib()
    for e in evs:
        lib.add_event(e)
    lib.generate_event_dependencies()
    for i, a in enumerate(evs):
        d = set(_deps(lib, i))
        miss = [j for j, b in enumerate(evs) if sites_of(a) & sites_of(b) and j not in d]
        check(not miss, "events share a site but executing one does not refresh the other", event_i=a, event_j=[evs[j] for j in miss[:3]])


@case("C02", weight=0.7, cap=30)
def large_libraries_are_complete(r):
    """many events, large site numbers, long environments: only a few events truly overlap"""
    Event, EventLib = events_mod()
    ne = r.choice([20, 140, 300, 520]) if r.k else 300
    span = r.choice([1000, 40000, 100000, 1000000])
    env = r.choice([2, 10, 40, 150])
    base = r.choice([0, span, 32760, 65530])
    evs = []
    for _ in range(ne):
        p = [base + r.i(0, span) for _ in range(2 + r.i(0, env if ne < 150 else min(env, 12)))]
        if p[0] == p[1]:
            p[1] += 1
        evs.append([p[0], p[1], p[2:]])
    for _ in range(max(5, ne // 4)):          # plant single shared sites, far apart in the lists
        a, b = r.i(0, ne - 1), r.i(0, ne - 1)
        s = r.choice(evs[a][:2] + evs[a][2])
        if evs[b][2] and r.b(0.7):
            evs[b][2][r.choice([0, -1, r.i(0, len(evs[b][2]) - 1)])] = s
        elif s not in evs[b][:2]:
            evs[b][r.i(0, 1)] = s
    evs = [Event((a, b), tuple(e)) for a, b, e in evs]
    lib = EventLib()
    for e in evs:
        lib.add_event(e)
    lib.generate_event_dependencies()
    by = {}
    for i, e in enumerate(evs):
        for s in sites_of(e):
            by.setdefault(s, set()).add(i)
    for i, a in enumerate(evs):
        want = set().union(*(by[s] for s in sites_of(a)))
        d = _deps(lib, i)
        miss = sorted(want - set(d))
        check(not miss, "events share a site but executing one does not refresh the other", events=len(evs), i=i, j=miss[:3], event_i=a,
              event_j=[evs[j] for j in miss[:3]])
        check(all(0 <= x < len(evs) for x in d), "dependent index out of range", i=i, dependents=d)


@case("C02", weight=2.0)
def rates_never_stale(r):
    n = r.choice([2, 3, 4, 6, 12, 30])
    ne = r.choice([1, 2, 4, 8, 20])
    lib = rand_lib(r, ne, n, env_max=r.choice([0, 1, 3, 6]))
    if r.b(0.3):
        Event = need("kmcpy.event", "Event")
        e = r.choice(lib.events)
        lib.add_event(Event(tuple(reversed(e.mobile_ion_indices)), tuple(e.local_env_indices)))
        lib.add_event(Event(tuple(e.mobile_ion_indices), tuple(e.local_env_indices)))
        lib.generate_event_dependencies()
    k = mk_kmc(r, lib, [r.i(0, 2) for _ in range(n)], model=LocalModel(r, kill=r.choice([0.0, 0.4])))
    hist = []

    def verify():
        occ = k.simulation_state.occupations
        exp = [k.model.rate(e, occ) for e in lib.events]
        check(allclose(k.prob_list, exp, 1e-12, 0), "stored rate differs from the rate recomputed from scratch", history=hist, stored=list(k.prob_list),
              recomputed=exp, events=lib.events, occupations=list(occ))
        check(allclose(k.prob_cum_list, np.cumsum(exp), 1e-9, 1e-12), "cumulative table is not the running sum of the rates", history=hist,
              cumulative=list(k.prob_cum_list), rates=exp)
    verify()
    for _ in range(r.i(1, 12)):
        ev = r.choice(lib.events)
        hist.append(ev.mobile_ion_indices)
        if r.b(0.3):   # an equal but distinct event object
            Event = need("kmcpy.event", "Event")
            ev = Event(tuple(ev.mobile_ion_indices), tuple(ev.local_env_indices))
        k.update(ev, dt=r.choice([0.0, r.f(0, 1)]))
        verify()


@case("C02", weight=1.0)
def dependencies_survive_files(r):
    Event, EventLib = events_mod()
    aso = mk_order(r)
    n = aso.active_site_count
    lib = rand_lib(r, r.i(1, 8), n, env_max=4, deps=r.b(0.8))
    lib.set_index_metadata(aso)
    with scratch() as d:
        f = str(d / "e.json")
        lib.to(f)
        if r.b(0.3):       # a file with the events only
            import json
            data = json.loads((d / "e.json").read_text())
            for k in ("event_dependencies", "site_to_events"):
                if r.b(0.7):
                    data.pop(k, None)
            (d / "e.json").write_text(json.dumps(data))
        lib2 = EventLib.from_file(f)
    check([e for e in lib2.events] == [e for e in lib.events], "events changed by file round trip", before=lib.events, after=lib2.events)
    for i, a in enumerate(lib2.events):
        ds = set(_deps(lib2, i))
        for j, b in enumerate(lib2.events):
            if sites_of(a) & sites_of(b):
                check(j in ds, "after reading from file, executing an event does not refresh an overlapping one", i=i, j=j, events=lib2.events)


def mk_order(r):
    from pymatgen.core import Lattice, Structure
    ASO = need("kmcpy.structure.active_site_order", "ActiveSiteOrder")
    n = r.i(1, 5)
    m = r.i(0, 3)
    sp = ["Na"] * n + ["O"] * m
    s = Structure(Lattice.cubic(8.0), sp, [[(i + 0.3) / (n + m), 0.1 * i, 0.2] for i in range(n + m)])
    return ASO.from_structure_and_mapping(s, {"Na": ["Na", "X"], "O": ["O"]} if m else {"Na": ["Na", "X"]}, supercell_shape=(r.i(1, 2), r.i(1, 2), 1))


# ------------------------------------------------------------------ C03
def draw_pair(us):
    """A numpy bit generator state cannot be set to arbitrary doubles; search seeds instead."""
    return us


@case("C03", weight=2)
def selection_interval(r):
    prop = need("kmcpy.simulator.kmc", "KMC.propose")
    k, rates = table_kmc(r)
    cum = np.cumsum(rates)
    R_ = cum[-1]
    for _ in range(8):
        seed = r.getrandbits(32)
        g = np.random.default_rng(seed)
        u1, u2 = g.random(), g.random()
        k.rng = np.random.default_rng(seed)
        ev, dt = k.propose(k.event_lib.events)[:2]
        i = [j for j, e in enumerate(k.event_lib.events) if e is ev]
        check(len(i) == 1, "selected event is not an event of the list", event=ev)
        i = i[0]
        lo = cum[i - 1] if i else 0.0
        check(rates[i] > 0, "an event of zero rate was selected", rates=list(rates), u=u1, selected=i)
        tol = 1e-12 * R_
        check(lo - tol <= u1 * R_ < cum[i] + tol, "selected event's interval of cumulative rates does not contain the draw", rates=list(rates), u=u1, selected=i)
        check(close(dt, -np.log(u2) / R_, 1e-12, 0), "waiting time is not -ln(u2)/total", rates=list(rates), u2=u2, dt=dt)
        check(dt >= 0, "negative waiting time", dt=dt)


def table_kmc(r, rates=None):
    Event, EventLib = events_mod()
    KMC = need("kmcpy.simulator.kmc", "KMC")
    if rates is None:
        n = r.choice([1, 2, 3, 5, 9, 40])
        kind = r.i(0, 4)
        if kind == 0:
            rates = [r.choice([0.0, 0.0, 1.0, 2.0]) for _ in range(n)]
        elif kind == 1:
            rates = [10 ** r.uniform(-12, 13) * r.choice([0, 1, 1]) for _ in range(n)]
        elif kind == 2:
            rates = [0.0] * n
            rates[r.randrange(n)] = r.uniform(1e-6, 1e12)
        else:
            rates = [r.uniform(0, 5) for _ in range(n)]
        if sum(rates) <= 0:
            rates[r.randrange(n)] = 1.0
    rates = np.array(rates, dtype=float)
    lib = EventLib()
    for i in range(len(rates)):
        lib.add_event(Event((2 * i, 2 * i + 1), ()))
    lib.generate_event_dependencies()

    class M:
        def compute_probability(self, event, runtime_config=None, simulation_state=None, **kw):
            return rates[event.mobile_ion_indices[0] // 2]
    k = mk_kmc(r, lib, [0, 1] * len(rates), model=M(), structure=mk_structure(2))
    return k, rates


@case("C03", weight=1.5)
def selection_edges(r):
    """draws placed on the interval edges: rate tables scaled so that u*R hits them"""
    seed = r.getrandbits(32)
    g = np.random.default_rng(seed)
    u1, u2 = g.random(), g.random()
    # two-level tables whose edge is exactly u1*R (all arithmetic exact: R is a power of two
    # and u1 a multiple of 2**-53), just below or just above
    n0, n1, n2 = r.i(0, 3), r.i(0, 3), r.i(0, 3)
    e = u1 + r.choice([0, 0, 0, -1, 1, 5]) * 2.0 ** -53
    if not 0 < e < 1:
        raise Skip("edge")
    S = 2.0 ** r.randint(-3, 40)
    rates = [0.0] * n0 + [e * S] + [0.0] * n1 + [(1.0 - e) * S] + [0.0] * n2
    k, rates = table_kmc(r, rates)
    k.rng = np.random.default_rng(seed)
    ev, dt = k.propose(k.event_lib.events)[:2]
    i = [j for j, x in enumerate(k.event_lib.events) if x is ev][0]
    check(rates[i] > 0, "an event of zero rate was selected", rates=list(rates), u=u1, selected=i)
    cum = np.cumsum(rates)
    lo = cum[i - 1] if i else 0.0
    check(lo <= u1 * cum[-1] < cum[i], "selected event's interval of cumulative rates does not contain the draw (draw on an edge)", rates=list(rates), u=u1, selected=i)
    check(close(dt, -np.log(u2) / cum[-1], 1e-12, 0), "waiting time wrong", dt=dt, u2=u2)


@case("C03", weight=1, cap=6)
def selection_frequencies(r):
    """frequencies of many selections agree with rate/total (8 sigma)"""
    k, rates = table_kmc(r)
    N = 4000
    k.rng = np.random.default_rng(r.getrandbits(32))
    cnt = np.zeros(len(rates))
    idx = {id(e): i for i, e in enumerate(k.event_lib.events)}
    ts = 0.0
    for _ in range(N):
        ev, dt = k.propose(k.event_lib.events)[:2]
        cnt[idx[id(ev)]] += 1
        ts += dt
    p = rates / rates.sum()
    check(np.all(cnt[rates == 0] == 0), "zero-rate event selected", rates=list(rates), counts=list(cnt))
    sd = np.sqrt(N * p * (1 - p)) + 1
    check(np.all(np.abs(cnt - N * p) <= 8 * sd), "selection frequencies are not proportional to the rates", rates=list(rates), counts=list(cnt))
    m = ts / N * rates.sum()
    check(abs(m - 1) < 8 / np.sqrt(N), "mean waiting time is not 1/total", mean_times_total=m)


@case("C03", weight=1)
def executed_event_is_selected_one(r):
    """KMC.run applies exactly the events that selection returns"""
    n = r.i(3, 8)
    lib = rand_lib(r, r.i(3, 8), n, env_max=2)
    occ = [r.i(0, 1) for _ in range(n)]
    if len(set(occ)) == 1:
        occ[0] = 1 - occ[0]
    seed = r.getrandbits(31)
    model = LocalModel(r)
    orig = model.rate
    model.rate = lambda ev, o: orig(ev, o) if (o[ev.mobile_ion_indices[0]] == 0) != (o[ev.mobile_ion_indices[1]] == 0) else 0.0
    if not any(model.rate(e, occ) > 0 for e in lib.events):
        raise Skip("no possible event")
    npass = r.i(1, 3)
    cfg = mk_config(random_seed=seed, kmc_passes=npass, equilibration_passes=r.i(0, 2))
    st = mk_structure(n, r)
    k = mk_kmc(r, lib, occ, model=model, structure=st, config=cfg)
    # independent reference trajectory
    g = np.random.default_rng(seed)
    o, t = list(occ), 0.0
    total = (cfg.equilibration_passes + npass) * n
    for s in range(total):
        rates = np.array([model.rate(e, o) for e in lib.events])
        if rates.sum() <= 0:
            raise Skip("dead end")
        u1, u2 = g.random(), g.random()
        c = np.cumsum(rates)
        edge = np.min(np.abs(c / c[-1] - u1))
        if edge < 1e-10:
            raise Skip("edge")
        i = int(np.searchsorted(c / c[-1], u1, side="right"))
        f, to = lib.events[i].mobile_ion_indices
        o[f], o[to] = o[to], o[f]
        if s >= cfg.equilibration_passes * n:
            t += -np.log(u2) / c[-1]
    with scratch():
        k.run()
    check(list(k.simulation_state.occupations) == o, "run did not execute the selected events", expected=o, got=list(k.simulation_state.occupations), seed=seed)
    check(close(k.simulation_state.time, t, 1e-9, 0), "run clock is not the sum of the waiting times", expected=t, got=k.simulation_state.time)
    check(k.simulation_state.step == total, "number of executed hops differs", expected=total, got=k.simulation_state.step)

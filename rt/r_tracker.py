"""C06-C08: ion tracking, transport summaries, property sampling."""
import collections
import copy
import itertools
import math
from .common import *
from .build import *

KB = 8.617333262145e-2
FIELDS = ("msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor")


def mk_lib(r, ends, n, env=2):
    Event, EventLib = events_mod()
    lib = EventLib()
    for f, t in ends:
        lib.add_event(Event(mobile_ion_indices=(f, t), local_env_indices=tuple(r.randrange(n) for _ in range(r.i(0, env)))))
    lib.generate_event_dependencies()
    return lib


def lattice(r):
    from pymatgen.core import Lattice
    m = r.random()
    if m < 0.25:
        return Lattice.cubic(r.uniform(3, 12))
    if m < 0.5:
        return Lattice.orthorhombic(*(r.uniform(3, 15) for _ in range(3)))
    if m < 0.7:
        return Lattice.hexagonal(r.uniform(3, 8), r.uniform(5, 15))
    return Lattice.from_parameters(*(r.uniform(4, 12) for _ in range(3)), *(r.uniform(62, 118) for _ in range(3)))


def coords(r, n):
    grid = r.b(0.3)
    out = []
    for _ in range(n):
        if grid:
            out.append([r.choice([0.0, 0.25, 0.5, 0.75, 0.125]) for _ in range(3)])
        else:
            out.append([r.random() if r.b(0.9) else r.choice([0.0, 0.999999, 1e-9]) for _ in range(3)])
    if r.b(0.25):                                  # sites listed in other cells are the same sites
        out = [[x + r.choice([-3, -2, -1, 0, 0, 1, 2, 3]) for x in c] for c in out]
    return out


def structure(r, n, specie="Na", tail=()):
    from pymatgen.core import Structure
    return Structure(lattice(r), [specie] * n + list(tail), coords(r, n + len(tail)))


def mk_tracker(r, n=None, lookup=None, n_inactive=0, charge=None, dim=None):
    """tracker over n mobile-ion sites (+ inactive ones) and the state it watches"""
    Tracker = need("kmcpy.simulator.tracker", "Tracker")
    State = need("kmcpy.simulator.state", "State")
    n = n or r.i(2, 9)
    use = r.b() if lookup is None else lookup
    Look = need("kmcpy.event", "HopStateLookup")
    if use:
        m, v = r.sample(range(0, 4), 2)
        sites = list(range(n + n_inactive))
        imm = set(r.sample(sites, n_inactive))
        mob = np.array([-1 if s in imm else m for s in sites])
        vac = np.array([-1 if s in imm else v for s in sites])
        look = Look(mobile_state_by_site=mob, vacancy_state_by_site=vac)
        occ = [r.i(0, 3) if s in imm else r.choice([m, v] + ([x for x in range(4) if x not in (m, v)] if r.b(0.1) else [])) for s in sites]
        st = structure(r, n + n_inactive)
        codes = (m, v)
        msites = [s for s in sites if s not in imm]
    else:
        look, codes = None, (0, 1)
        msites = list(range(n))
        occ = [r.choice([0, 1]) for _ in range(n)] + [r.i(0, 1) for _ in range(n_inactive)]
        st = structure(r, n, tail=["Cl"] * n_inactive)
    cfg = mk_config(dimension=dim or r.i(1, 3), mobile_ion_charge=charge if charge is not None else r.choice([1.0, -1.0, 2.0, r.uniform(0.1, 3)]),
                    temperature=r.uniform(50, 1500), elementary_hop_distance=r.uniform(0.5, 5))
    state = State(occupations=occ)
    return state, st, cfg, look, codes, msites, Tracker


def ions(occ, msites, codes):
    return [s for s in msites if occ[s] == codes[0]]


def image_vector(st, f, t):
    """all nearest-image vectors (component-wise) from f to t"""
    fc = np.array(st.frac_coords)
    d = fc[t] - fc[f]
    opts = []
    for x in d:
        w = x - math.floor(x + 0.5)
        o = [w]
        if abs(abs(w) - 0.5) < 1e-9:
            o = [w, -w]
        opts.append(o)
    return [np.array(c) @ np.array(st.lattice.matrix) for c in itertools.product(*opts)]


@case("C06", weight=2)
def tracker_follows_every_hop(r):
    state, st, cfg, look, codes, msites, Tracker = mk_tracker(r, n_inactive=r.choice([0, 0, 1, 3]))
    tr = Tracker(config=cfg, structure=st, initial_state=state, hop_state_lookup=look)
    occ = state.occupations
    loc = ions(occ, msites, codes)
    check([int(x) for x in tr.mobile_ion_specie_locations] == loc, "initial ion locations are not the sites holding the mobile ion",
          occupations=occ, codes=codes, sites=msites, locations=tr.mobile_ion_specie_locations)
    check(tr.n_mobile_ion_specie == len(loc), "ion count wrong", got=tr.n_mobile_ion_specie, expected=len(loc))
    check(np.shape(tr.displacement) == (len(loc), 3) and not np.any(tr.displacement) and not np.any(tr.hop_counter), "trajectory does not start at zero")
    disp, hops = [np.zeros(3) for _ in loc], [0] * len(loc)
    evs = []
    for _ in range(r.i(2, 8)):
        f, t = r.sample(msites, 2)
        Event = need("kmcpy.event", "Event")
        ev = Event(mobile_ion_indices=(f, t), local_env_indices=())
        if look is not None:
            look.annotate_event(ev)
        evs.append(ev)
    for k in range(r.i(1, 25)):
        ev = r.choice(evs)
        f, t = ev.mobile_ion_indices
        occ = list(state.occupations)
        d = 1 if (occ[f], occ[t]) == codes else -1 if (occ[t], occ[f]) == codes else 0
        before = (np.array(tr.mobile_ion_specie_locations).tolist(), np.array(tr.displacement).copy(), np.array(tr.hop_counter).tolist())
        tr.update(ev, r.f(0, 1))
        check(list(state.occupations) == occ, "tracker changed the state")
        if d == 0:
            after = (np.array(tr.mobile_ion_specie_locations).tolist(), np.array(tr.displacement), np.array(tr.hop_counter).tolist())
            check(before[0] == after[0] and before[2] == after[2] and np.array_equal(before[1], after[1]), "a hop that does not match the occupations changed trajectory data",
                  event=ev, occupations=occ, codes=codes, before=before, after=after)
            continue
        src, dst = (f, t) if d == 1 else (t, f)
        i = loc.index(src)
        loc[i] = dst
        hops[i] += 1
        state.apply_event(ev, 0.1)
        got = np.array(tr.displacement)
        add = got[i] - disp[i]
        cands = image_vector(st, src, dst)
        check(any(allclose(add, c, 1e-8, 1e-8) for c in cands), "displacement of the hopping ion is not the nearest-image hop vector",
              source=src, destination=dst, frac=np.array(st.frac_coords), lattice=np.array(st.lattice.matrix), added=add, expected=cands)
        disp[i] = got[i].copy()
        check(allclose(got, np.array(disp).reshape(-1, 3), 1e-10, 1e-10), "displacement of another ion changed", event=ev, ion=i)
        check([int(x) for x in tr.mobile_ion_specie_locations] == loc, "ion locations wrong after a hop", event=ev, direction=d, expected=loc, got=tr.mobile_ion_specie_locations)
        check([int(x) for x in tr.hop_counter] == hops, "hop counts wrong", expected=hops, got=tr.hop_counter)
        check(sorted(loc) == ions(state.occupations, msites, codes), "tracked locations are not the mobile-ion sites", locations=loc, occupations=state.occupations)


@case("C06")
def hop_and_reverse_cancel(r):
    state, st, cfg, look, codes, msites, Tracker = mk_tracker(r)
    f, t = r.sample(msites, 2)
    state.occupations[f], state.occupations[t] = codes if r.b() else codes[::-1]
    tr = Tracker(config=cfg, structure=st, initial_state=state, hop_state_lookup=look)
    Event = need("kmcpy.event", "Event")
    ev = Event(mobile_ion_indices=(f, t), local_env_indices=())
    ev2 = Event(mobile_ion_indices=(t, f), local_env_indices=())
    if look is not None:
        look.annotate_event(ev)
        look.annotate_event(ev2)
    m = r.i(1, 5)
    for k in range(2 * m):
        e = ev if r.b(0.7) else ev2
        tr.update(e, 1.0)
        state.apply_event(e, 1.0)
    check(allclose(tr.displacement, np.zeros_like(tr.displacement), 1e-9, 1e-8), "a hop followed by its reverse leaves a displacement", event=ev,
          frac=np.array(st.frac_coords)[[f, t]], displacement=tr.displacement)
    check(int(np.sum(tr.hop_counter)) == 2 * m, "hop count wrong", hops=tr.hop_counter, expected=2 * m)


@case("C06")
def unwrapped_path_round_the_cell(r):
    """an ion driven once around the periodic cell has travelled one lattice vector"""
    from pymatgen.core import Structure
    State, Tracker, = need("kmcpy.simulator.state", "State"), need("kmcpy.simulator.tracker", "Tracker")
    Event = need("kmcpy.event", "Event")
    ax, n = r.randrange(3), r.i(3, 7)
    lat = lattice(r)
    off = [r.random() for _ in range(3)]
    cs = []
    for k in range(n):
        c = list(off)
        c[ax] = (off[ax] + k / n)
        c[ax] = c[ax] % 1.0 if r.b(0.8) else c[ax]
        cs.append(c)
    st = Structure(lat, ["Na"] * n, cs)
    occ = [1] * n
    occ[0] = 0
    state = State(occupations=occ)
    tr = Tracker(config=mk_config(), structure=st, initial_state=state)
    sgn = r.choice([1, -1])
    cur, turns = 0, r.i(1, 3)
    for _ in range(n * turns):
        nx = (cur + sgn) % n
        ev = Event(mobile_ion_indices=(cur, nx) if r.b() else (nx, cur), local_env_indices=())
        tr.update(ev, 0.5)
        state.apply_event(ev, 0.5)
        cur = nx
    check(allclose(tr.displacement[0], sgn * turns * np.array(lat.matrix)[ax], 1e-7, 1e-7), "path around the cell does not add up to the lattice vector",
          got=tr.displacement[0], expected=sgn * turns * np.array(lat.matrix)[ax])


@case("C06", cap=1)
def sites_with_different_codings(r):
    """hop between sites whose allowed-species lists are ordered differently"""
    Look, State, Tracker, Event = need("kmcpy.event", "HopStateLookup"), need("kmcpy.simulator.state", "State"), need("kmcpy.simulator.tracker", "Tracker"), need("kmcpy.event", "Event")
    look = Look(mobile_state_by_site=np.array([0, 1]), vacancy_state_by_site=np.array([1, 0]))
    state = State(occupations=[0, 0])     # Na on site 0, vacancy on site 1
    st = structure(r, 2)
    tr = Tracker(config=mk_config(), structure=st, initial_state=state, hop_state_lookup=look)
    ev = Event(mobile_ion_indices=(0, 1), local_env_indices=())
    look.annotate_event(ev)
    tr.update(ev, 1.0)
    state.apply_event(ev, 1.0)
    there = [s for s in range(2) if state.occupations[s] == [0, 1][s]]
    check([int(x) for x in tr.mobile_ion_specie_locations] == there, "mixed codings: tracked locations are not the sites holding the mobile ion",
          tracked=tr.mobile_ion_specie_locations, mobile_sites=there, occupations=state.occupations)


# ------------------------------------------------------------------ C07
def spec_transport(d, hops, t, dim, n, a, V, q, T):
    nan = float("nan")
    sq = [sum(x * x for x in row) for row in d]
    msd = sum(sq) / len(sq) if sq else nan
    if t > 0 and n > 0:
        tot = [sum(row[k] for row in d) for k in range(3)]
        jd = sum(x * x for x in tot) / (2 * dim * t * n) * 1e-16
        td = msd / (2 * dim * t) * 1e-16
        cond = jd * n / V * q * q / (KB * T) * 1.602e11
        hr = td / jd if jd != 0 else nan
    else:
        jd = td = cond = hr = nan
    cf = sum((s / (h * a * a) if h else 0.0) for s, h in zip(sq, hops)) / len(hops) if len(hops) else nan
    return {"msd": msd, "jump_diffusivity": jd, "tracer_diffusivity": td, "conductivity": cond, "havens_ratio": hr, "correlation_factor": cf}


def rand_traj(r, n):
    m = r.random()
    if m < 0.15:
        d = [[0.0] * 3 for _ in range(n)]
    elif m < 0.3 and n % 2 == 0 and n:
        half = [[r.uniform(-9, 9) for _ in range(3)] for _ in range(n // 2)]
        d = half + [[-x for x in row] for row in half]
    else:
        d = [[r.uniform(-40, 40) if r.b(0.85) else 0.0 for _ in range(3)] for _ in range(n)]
    hops = [r.choice([0, 0, 1, 2, 5, 1000, r.i(1, 50)]) if r.b(0.5) else r.i(0, 9) for _ in range(n)]
    return d, hops


def agree(k, got, want, full, n, V, q, T):
    """equal up to rounding; the net displacement may cancel, so its noise scales with the individual displacements"""
    if math.isnan(want) or math.isnan(got):
        if k == "havens_ratio" and full["jump_diffusivity"] <= 1e-20 * n * full["tracer_diffusivity"] and full["tracer_diffusivity"] > 0:
            return True
        return math.isnan(want) and math.isnan(got)
    noise = 1e-24 * max(n, 1) * full["tracer_diffusivity"]
    rel = 1e-8
    if k in ("jump_diffusivity", "conductivity", "havens_ratio") and full["jump_diffusivity"] < 1e-6 * full["tracer_diffusivity"]:
        if k == "havens_ratio" and full["jump_diffusivity"] < 1e-18 * full["tracer_diffusivity"]:
            return True
        rel = 1e-2
    ab = {"jump_diffusivity": noise, "conductivity": noise * n / V * q * q / (KB * T) * 1.602e11}.get(k, 1e-300)
    return close(got, want, rel, ab)


@case("C07", weight=2)
def formulas(r):
    f = need("kmcpy.simulator.property", "compute_transport_properties")
    n = r.choice([0, 1, 1, 2, 3, 4, 8, 16, 50])
    d, hops = rand_traj(r, n)
    t = r.choice([0.0, 1.0, 1e-9, 1e-15, r.uniform(0, 10), 1e6])
    dim, a, V, q, T = r.i(1, 3), r.uniform(0.3, 6), r.uniform(5, 5000), r.choice([1.0, -1.0, 2.0, 0.0, r.uniform(-3, 3)]), r.uniform(1, 2000)
    en = None
    mode = r.random()
    if mode < 0.6:
        en = {k: r.b() for k in FIELDS if r.b(0.8)}
    D, C = np.array(d, dtype=float).reshape(n, 3), np.array(hops, dtype=np.int64)
    D0, C0 = D.copy(), C.copy()
    with np.errstate(all="ignore"):
        got = f(D, C, sim_time=t, dimension=dim, n_mobile_ion_specie=n, elementary_hop_distance=a, volume=V, mobile_ion_charge=q, temperature=T, enabled=en)
    want = spec_transport(d, hops, t, dim, n, a, V, q, T)
    check(set(got) == set(FIELDS), "summary does not hold exactly the six quantities", keys=sorted(got))
    for k in FIELDS:
        w = want[k] if (en is None or en.get(k, True)) else float("nan")
        check(agree(k, got[k], w, want, n, V, q, T), f"{k} differs from its formula", got=got[k], expected=w, inputs=dict(
            d=d, hops=hops, t=t, dim=dim, n=n, a=a, V=V, q=q, T=T, enabled=en))
    check(np.array_equal(D, D0) and np.array_equal(C, C0), "inputs modified")


@case("C07")
def tracker_summary_uses_its_own_data(r):
    state, st, cfg, look, codes, msites, Tracker = mk_tracker(r, n=r.i(2, 8))
    tr = Tracker(config=cfg, structure=st, initial_state=state, hop_state_lookup=look)
    n = tr.n_mobile_ion_specie
    off = set()
    for k in FIELDS:
        if r.b(0.2):
            tr.set_property_enabled(k, False)
            off.add(k)
    rows, full = [], []
    Event = need("kmcpy.event", "Event")
    for s in range(1, r.i(2, 6)):
        f, t = r.sample(msites, 2)
        ev = Event(mobile_ion_indices=(f, t), local_env_indices=())
        if look is not None:
            look.annotate_event(ev)
        if set((state.occupations[f], state.occupations[t])) != set(codes):
            continue
        tr.update(ev, 0.1)
        dt = r.choice([0.0, r.uniform(1e-12, 1e-3)])
        state.apply_event(ev, dt)
        with np.errstate(all="ignore"):
            tr.sample_properties(step=int(state.step), sim_time=float(state.time))
        w = spec_transport(np.array(tr.displacement).tolist(), [int(x) for x in tr.hop_counter], state.time, cfg.dimension, n, cfg.elementary_hop_distance,
                           float(st.volume), cfg.mobile_ion_charge, cfg.temperature)
        full.append(w)
        rows.append((state.time, {k: (float("nan") if k in off else v) for k, v in w.items()}))
    if not rows:
        return
    res = tr.results
    for k in FIELDS:
        col = list(res[k])
        check(len(col) == len(rows), f"column {k} has the wrong number of rows", got=len(col), expected=len(rows))
        for i, (tm, w) in enumerate(rows):
            check(agree(k, col[i], w[k], full[i], n, float(st.volume), cfg.mobile_ion_charge, cfg.temperature), f"{k} in the results table differs from its formula", row=i, got=col[i], expected=w[k])
    check([float(x) for x in res["time"]] == [x[0] for x in rows], "time column wrong", got=res["time"], expected=[x[0] for x in rows])
    info = tr.return_current_info()
    order = ("time", "msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor")
    for k, v in zip(order, info):
        check(close(v, res[k][-1], 0, 0) or (math.isnan(v) and math.isnan(res[k][-1])), "current info not the latest row in the documented order", name=k, got=v, expected=res[k][-1])
    units = tr.result_units
    want = {"time": "s", "msd": "Angstrom^2", "jump_diffusivity": "cm^2/s", "tracer_diffusivity": "cm^2/s", "conductivity": "mS/cm", "havens_ratio": "dimensionless", "correlation_factor": "dimensionless"}
    check(dict(units) == want, "declared units changed", got=units, expected=want)


# ------------------------------------------------------------------ C08
def due(step, t, iv, ti, last):
    return (iv is not None and step > 0 and step % iv == 0) or (ti is not None and t - (last if last is not None else 0.0) >= ti)


@case("C08")
def trigger_rule(r):
    f = need("kmcpy.simulator.property", "should_trigger")
    step = r.i(0, 60)
    iv = r.choice([None, 1, 2, 3, r.i(1, 20)])
    ti = r.choice([None, 0.5, 1.0, 0.25, r.i(1, 8) / 8])
    last = r.choice([None, r.i(0, 40) / 8])
    t = (last or 0.0) + r.i(0, 12) / 8
    got = bool(f(step=step, sim_time=t, interval=iv, time_interval=ti, last_trigger_time=last))
    check(got == due(step, t, iv, ti, last), "trigger differs from the schedule", step=step, time=t, interval=iv, time_interval=ti, last=last, got=got)


class Boom(Exception):
    pass


@case("C08", weight=2)
def sampling_follows_schedule(r):
    state, st, cfg, look, codes, msites, Tracker = mk_tracker(r)
    CBE = need("kmcpy.simulator.tracker", "CallbackExecutionError")
    tr = Tracker(config=cfg, structure=st, initial_state=state, hop_state_lookup=look)
    gi, gt = r.choice([(1, None), (2, None), (None, 0.5), (3, 0.75), (None, None), (r.i(1, 6), None)])
    if (gi, gt) != (1, None) or r.b():
        tr.set_global_property_frequency(interval=gi, time_interval=gt)
    specs = []
    log = []

    def add(name):
        iv = r.choice([None, None, 1, 2, 5, r.i(1, 7)])
        ti = r.choice([None, None, None, 0.5, 1.25])
        mx = r.choice([None, None, 1, 2, 5])
        store = r.b(0.85)
        en = r.b(0.85)
        fail = r.b(0.25)
        keep = r.b(0.9)
        ctr = {"n": 0}

        def cb(s, step, t, ctr=ctr, name=name, fail=fail):
            log.append((name, step, t, s is state))
            ctr["n"] += 1
            if fail and ctr["n"] % 3 == 0:
                raise Boom(name)
            return (name, ctr["n"])
        oe = (lambda e, s, step, t: keep) if fail else None
        tr.attach(cb, interval=iv, time_interval=ti, name=name, store=store, max_records=mx, on_error=oe, enabled=en)
        specs.append(dict(name=name, iv=iv, ti=ti, mx=mx, store=store, en=en, fail=fail, keep=keep, n=0, last=None, recs=[]))
    for k in range(r.i(1, 4)):
        add(f"p{k}")
    summary_last, summary_rows = None, []
    step, t = 0, 0.0
    for _ in range(r.i(5, 40)):
        step += r.choice([1, 1, 1, 2, 0])
        t += r.choice([0.0, 0.125, 0.25, 0.5, 1.0])
        m = r.random()
        if m < 0.06 and specs:
            s = r.choice(specs)
            s["en"] = not s["en"]
            tr.set_property_enabled(s["name"], s["en"])
        elif m < 0.1 and specs:
            s = specs.pop(r.randrange(len(specs)))
            tr.detach(s["name"])
        elif m < 0.14:
            nm = f"q{step}_{len(log)}"
            if all(s["name"] != nm for s in specs):
                add(nm)
        elif m < 0.18:
            gi, gt = r.choice([(1, None), (4, None), (None, 1.0), (2, 0.25)])
            tr.set_global_property_frequency(interval=gi, time_interval=gt)
        log.clear()
        exp, stop = [], False
        if due(step, t, gi, gt, summary_last):
            summary_last = t
            summary_rows.append(t)
        for s in specs:
            own = s["iv"] is not None or s["ti"] is not None     # the global cadence is for properties without their own
            if not s["en"] or not due(step, t, s["iv"] if own else gi, s["ti"] if own else gt, s["last"]):
                continue
            exp.append((s["name"], step, t, True))
            s["n"] += 1
            if s["fail"] and s["n"] % 3 == 0:
                if not s["keep"]:
                    stop = True
                    break
                s["last"] = t
                continue
            if s["store"]:
                s["recs"].append({"name": s["name"], "step": step, "time": t, "value": (s["name"], s["n"])})
                if s["mx"] is not None:
                    s["recs"] = s["recs"][-s["mx"]:]
            s["last"] = t
        try:
            with np.errstate(all="ignore"):
                tr.sample_properties(step=step, sim_time=t)
            stopped = False
        except CBE:
            stopped = True
        check(stopped == stop, "a failing callback did not stop the run exactly when its handler did not ask to continue", stopped=stopped, expected=stop, step=step)
        check(log == exp, "properties evaluated differ from the schedule", step=step, time=t, evaluated=list(log), expected=exp, specs=specs, global_=(gi, gt))
        if stop:
            return
        for s in specs:
            got = tr.get_property_records(s["name"])
            check(got == s["recs"], "stored records differ from the evaluations", name=s["name"], got=got, expected=s["recs"], max_records=s["mx"])
        check([float(x) for x in tr.results["time"]] == summary_rows, "summary rows not exactly on the global schedule", got=tr.results["time"], expected=summary_rows)
    check(list(tr.list_attachments()) == [s["name"] for s in specs], "attachment list wrong", got=tr.list_attachments())


@case("C08")
def failing_callback_without_handler_stops(r):
    state, st, cfg, look, codes, msites, Tracker = mk_tracker(r)
    CBE = need("kmcpy.simulator.tracker", "CallbackExecutionError")
    tr = Tracker(config=cfg, structure=st, initial_state=state, hop_state_lookup=look)
    kind = r.choice(["none", "false", "handler raises", "zero"])

    def cb(s, step, t):
        raise r.choice([Boom, ValueError, KeyError, ZeroDivisionError])("x")
    oe = {"none": None, "false": lambda *a: False, "zero": lambda *a: 0, "handler raises": lambda *a: 1 / 0}[kind]
    tr.attach(cb, name="bad", interval=1, on_error=oe)
    with np.errstate(all="ignore"):
        check(raises(CBE, tr.sample_properties, step=1, sim_time=0.1), "failing callback did not stop the run", handler=kind)
    check(tr.get_property_records("bad") == [], "record of a failed evaluation", records=tr.get_property_records("bad"))


@case("C08")
def invalid_registrations_rejected_without_side_effects(r):
    PP = need("kmcpy.simulator.property", "PropertyPlan")
    state, st, cfg, look, codes, msites, Tracker = mk_tracker(r)
    who = r.choice(["plan", "tracker", "kmc"])
    if who == "plan":
        o = PP(interval=r.choice([None, 2]))
    elif who == "tracker":
        o = Tracker(config=cfg, structure=st, initial_state=state, hop_state_lookup=look)
    else:
        o = mk_kmc(r, rand_lib(r, 3, 4), [0, 1, 0, 1])
    fn = lambda s, step, t: 1
    o.attach(fn, name="a", interval=3, max_records=2)
    before = (list(o.list_attachments()), copy.deepcopy(o.list_property_calculations()))
    bad = [dict(name="a"), dict(name=r.choice(FIELDS)), dict(name="b", interval=0), dict(name="b", interval=-r.i(1, 9)), dict(name="b", interval=1.5),
           dict(name="b", interval="2"), dict(name="b", time_interval=0.0), dict(name="b", time_interval=-r.uniform(0.1, 3)), dict(name="b", max_records=0),
           dict(name="b", max_records=-2), dict(name="b", max_records=2.5)]
    kw = r.choice(bad)
    check(raises((ValueError, TypeError), o.attach, fn, **kw), "invalid registration accepted", where=who, given=kw)
    check(raises((ValueError, TypeError), o.attach, 5, name="c"), "non-callable accepted", where=who)
    check(raises(ValueError, o.detach, "zzz"), "detaching an unknown property accepted", where=who)
    check(raises(ValueError, o.set_property_enabled, "zzz", True), "enabling an unknown property accepted", where=who)
    setf = getattr(o, "set_frequency", None) or getattr(o, "set_global_property_frequency", None) or getattr(o, "set_property_frequency", None)
    badf = r.choice([dict(interval=0), dict(interval=-1), dict(interval=2.0), dict(time_interval=0), dict(time_interval=-1.0)])
    check(raises((ValueError, TypeError), setf, **badf), "invalid schedule accepted", where=who, given=badf)
    after = (list(o.list_attachments()), copy.deepcopy(o.list_property_calculations()))
    check(before == after, "rejected registration left a trace", before=before, after=after)
    o.set_property_enabled("a", False)
    check(o.list_property_calculations()["attached_disabled"] == ["a"] and o.list_property_calculations()["attached_enabled"] == [], "disabled property not reported", got=o.list_property_calculations())
    o.detach("a")
    check(list(o.list_attachments()) == [], "detach did not remove the property")


@case("C08")
def plan_gives_every_tracker_a_fresh_copy(r):
    PP = need("kmcpy.simulator.property", "PropertyPlan")
    state, st, cfg, look, codes, msites, Tracker = mk_tracker(r)
    gi, gt = r.choice([(None, None), (2, None), (None, 0.5), (3, 1.0)])
    plan = PP(interval=gi, time_interval=gt)
    off = [k for k in FIELDS if r.b(0.3)]
    for k in off:
        plan.set_property_enabled(k, False)
    got = {}
    plan.attach(lambda s, step, t: got.setdefault("x", []).append((step, t)) or len(got["x"]), name="x", interval=r.choice([None, 2]), time_interval=r.choice([None, 0.75]), max_records=r.choice([None, 3]))
    seq = []
    step, t = 0, 0.0
    for _ in range(r.i(3, 15)):
        step += 1
        t += r.choice([0.125, 0.25, 0.5])
        seq.append((step, t))
    di = r.choice([None, 4])
    outs = []
    for _ in range(3):
        got.clear()
        tr = Tracker(config=cfg, structure=st, initial_state=state, hop_state_lookup=look, property_plan=plan, default_property_interval=di)
        check(tr.get_property_records("x") == [], "a new run starts with old records")
        with np.errstate(all="ignore"):
            for s, tm in seq:
                tr.sample_properties(step=s, sim_time=tm)
        outs.append((list(got.get("x", [])), list(tr.results["time"]), [z["step"] for z in tr.get_property_records("x")]))
        calc = tr.list_property_calculations()
        check(sorted(calc["built_in_disabled"]) == sorted(off), "built-in switches of the plan not applied", got=calc, expected=off)
    check(outs[0] == outs[1] == outs[2], "a second run with the same plan samples differently", runs=outs)
    g = gi if (gi is not None or gt is not None or di is None) else di
    last, exp = None, []
    for s, tm in seq:
        if due(s, tm, g, gt, last):
            last = tm
            exp.append(tm)
    check(outs[0][1] == exp, "summary schedule of the plan not applied", got=outs[0][1], expected=exp, plan=(gi, gt), default=di)


@case("C08")
def simulator_applies_the_plan(r):
    n = r.i(3, 6)
    lib = mk_lib(r, [tuple(r.sample(range(n), 2)) for _ in range(6)] + [(i, (i + 1) % n) for i in range(n)], n)
    occ = [0] * n
    for s in r.sample(range(n), r.i(1, n - 1)):
        occ[s] = 1
    passes, eq = r.i(1, 4), r.choice([0, 0, 1])
    with scratch():
        k = mk_kmc(r, lib, occ, config=mk_config(kmc_passes=passes, equilibration_passes=eq, random_seed=r.i(1, 999)), model=LocalModel(r))
        seen, iv = [], r.choice([1, 2, 3])
        k.attach(lambda s, step, t: seen.append((step, t)) or step, name="x", interval=iv)
        timed, ti = [], r.choice([1e-13, 1e-12, 3e-12, 1e-10, 1.0])
        every = []
        k.attach(lambda s, step, t: timed.append((step, t)) or step, name="y", time_interval=ti)
        k.attach(lambda s, step, t: every.append((step, t)) or step, name="z", interval=1)
        two = r.b(0.3)
        tr = k.run(label="a")
        last, exp = 0.0, []
        for s, t in every:
            if t - last >= ti:
                exp.append((s, t))
                last = t
        check(timed == exp, "property with a time interval not evaluated exactly when that much time has passed", time_interval=ti, got=timed, expected=exp)
        runs = [(tr, list(seen), eq * n)]
        total = n * (passes + eq)
        if two:
            seen.clear()
            tr2 = k.run(label="b")
            runs.append((tr2, list(seen), total + eq * n))
        for tt, ss, s0 in runs:
            exp = [s for s in range(s0 + 1, s0 + n * passes + 1) if s % iv == 0]
            check([s for s, _ in ss] == exp, "callback not run exactly at the multiples of its interval", got=[s for s, _ in ss], expected=exp, interval=iv)
            check([z["step"] for z in tt.get_property_records("x")] == exp and [z["value"] for z in tt.get_property_records("x")] == exp, "records differ from the evaluations")
            check(len(tt.results["time"]) == len([s for s in range(s0 + 1, s0 + n * passes + 1) if s % n == 0]), "summary not sampled once per pass by default", rows=len(tt.results["time"]))
        k.detach("x")
        check(k.list_attachments() == ["y", "z"] and [a for a in tr.list_attachments() if a != "x"] == ["y", "z"], "detach failed")

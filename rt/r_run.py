"""C15: run accounting, reproducibility, result files."""
import gzip
import subprocess
from .common import *
from .build import *
from .r_tracker import mk_lib, structure


class Ring:
    """sites on a ring; an event and its reverse between neighbours, so a run never gets stuck"""

    def __init__(self, r, n=None, others=0):
        self.n = n or r.i(3, 7)
        self.ions = r.i(1, self.n - 1)
        occ = [0] * self.ions + [1] * (self.n - self.ions)
        r.shuffle(occ)
        self.occ = occ + [0] * others
        ends = [(i, (i + 1) % self.n) for i in range(self.n)]
        if r.b():
            ends += [(b, a) for a, b in ends]
        r.shuffle(ends)
        self.ends = ends
        self.lseed = r.random()
        self.mseed = r.random()
        self.sseed = r.random()
        self.others = others

    def lib(self):
        return mk_lib(random_r(self.lseed), self.ends, self.n)

    def kmc(self, cfg, tail=(), specie="Na", model=None):
        from pymatgen.core import Structure
        rr = random_r(self.sseed)
        st = structure(rr, self.n, specie=specie, tail=tail)
        # generic positions: no two equally near periodic images
        st = Structure(st.lattice, st.species, [[rr.random() for _ in range(3)] for _ in st])
        return mk_kmc(random_r(1), self.lib(), self.occ, model=model or LocalModel(random_r(self.mseed)), structure=st, config=cfg)


def random_r(seed):
    r = R(seed)
    return r


def cfg_for(r, **kw):
    base = dict(equilibration_passes=r.i(0, 3), kmc_passes=r.i(1, 4), random_seed=r.choice([0, 1, 7, r.i(0, 2 ** 31 - 1)]), name=r.choice(["t", "run_a", "x.y"]),
                temperature=r.uniform(200, 900), mobile_ion_charge=r.choice([1.0, -1.0, 2.0]))
    base.update(kw)
    return mk_config(**base)


class Log:
    """records what the simulator does through its public methods"""

    def __init__(self, kmc):
        self.kmc, self.ev = kmc, []
        up = kmc.update

        def update(event, dt=0.0, *a, **k):
            before = list(kmc.simulation_state.occupations)
            t0 = kmc.simulation_state.time
            out = up(event, dt, *a, **k)
            self.ev.append((event.mobile_ion_indices, before, list(kmc.simulation_state.occupations), t0, kmc.simulation_state.time, dt))
            return out
        kmc.update = update
        pr = kmc.propose
        self.prop = []

        def propose(*a, **k):
            out = pr(*a, **k)
            self.prop.append((out[0].mobile_ion_indices, float(out[1])))
            return out
        kmc.propose = propose


@case("C15", weight=2)
def run_accounting(r):
    ring = Ring(r)
    cfg = cfg_for(r)
    with scratch():
        k = ring.kmc(cfg)
        log = Log(k)
        t = k.run()
    L, E, P = ring.n, cfg.equilibration_passes, cfg.kmc_passes
    info = dict(ring=vars(ring), equilibration=E, passes=P, seed=cfg.random_seed)
    check(len(log.prop) == (E + P) * L, f"{len(log.prop)} hops proposed instead of {(E + P) * L}", **info)
    check(len(log.ev) == (E + P) * L, f"{len(log.ev)} hops executed instead of {(E + P) * L}", **info)
    check(k.simulation_state.step == (E + P) * L, f"step counter is {k.simulation_state.step}", **info)
    tm = 0.0
    disp = None
    for i, ((ends, dtp), (e2, before, after, t0, t1, dt)) in enumerate(zip(log.prop, log.ev)):
        check(ends == e2, f"hop {i}: executed {e2}, proposed {ends}", **info)
        f, to = ends
        want = list(before)
        want[f], want[to] = before[to], before[f]
        check(after == want, f"hop {i}: occupations after the hop", **info)
        if i < E * L:
            check(t1 == 0.0, f"equilibration hop {i} moved the clock to {t1}", **info)
        else:
            check(close(t1 - t0, dtp, 1e-9, 1e-25 + 1e-12 * abs(t1)), f"hop {i} advanced the clock by {t1 - t0}, its waiting time is {dtp}", **info)
            tm += dtp
    check(close(k.simulation_state.time, tm), "final time is not the sum of the production waiting times", **info)
    # trajectory from the production hops alone
    st = k.structure
    occ = list(log.ev[E * L][1])
    ions = [s for s in range(ring.n) if occ[s] == 0]
    disp = np.zeros((len(ions), 3))
    hops = np.zeros(len(ions), dtype=int)
    for ends, before, after, *_ in log.ev[E * L:]:
        a, b = ends
        if before[a] == before[b]:
            continue
        src, dst = (a, b) if before[a] == 0 else (b, a)
        j = ions.index(src)
        df = st.frac_coords[dst] - st.frac_coords[src]
        disp[j] += st.lattice.get_cartesian_coords(df - np.round(df))
        hops[j] += 1
        ions[j] = dst
    check(list(t.hop_counter) == list(hops), f"hop counters {list(t.hop_counter)}, production hops {list(hops)}", **info)
    check(allclose(t.displacement, disp, 1e-7, 1e-7), "displacements are not those of the production hops", got=t.displacement, want=disp, **info)
    check(list(t.state.occupations) == list(k.simulation_state.occupations), "tracker and simulator disagree on the final occupations", **info)
    check(len(t.results["time"]) == P, f"{len(t.results['time'])} summaries for {P} passes", **info)
    check(close(t.results["time"][-1], k.simulation_state.time), "last summary is not at the final time", **info)


@case("C15", weight=0.7)
def pass_length_counts_the_mobile_species(r):
    """sites of other species, including symbols that contain the mobile symbol, do not lengthen a pass"""
    mob, tail = r.choice([("F", ["Fe", "Fr", "O"]), ("N", ["Na", "Ni", "Nb"]), ("C", ["Cl", "Ca", "Cu", "O"]), ("Na", ["N", "Cl"]), ("S", ["Si", "Se", "Sn"]), ("Li", ["O", "P"])])
    tail = [r.choice(tail) for _ in range(r.i(0, 5))]
    ring = Ring(r, others=len(tail))
    cfg = cfg_for(r, mobile_ion_specie=mob)
    with scratch():
        k = ring.kmc(cfg, tail=tail, specie=mob)
        log = Log(k)
        t = k.run()
    n = (cfg.equilibration_passes + cfg.kmc_passes) * ring.n
    check(len(log.ev) == n, f"{len(log.ev)} hops instead of {n}: mobile {mob}, other sites {tail}", ring=vars(ring))
    check(t.n_mobile_ion_specie == ring.ions, f"{t.n_mobile_ion_specie} ions tracked instead of {ring.ions}: mobile {mob}, other sites {tail}", ring=vars(ring))


def fingerprint(k, t, log):
    return (log.prop, list(k.simulation_state.occupations), k.simulation_state.time, k.simulation_state.step, np.asarray(t.displacement).tolist(), np.asarray(t.hop_counter).tolist(),
            {a: [float(x) if x is not None else None for x in v] for a, v in t.results.items()})


def same_fp(a, b):
    return json.dumps(a) == json.dumps(b)


@case("C15", weight=1.5)
def same_seed_same_run(r):
    ring = Ring(r)
    cfg = cfg_for(r)
    fps = []
    with scratch():
        for i in range(2):
            if r.b():
                np.random.seed(r.i(0, 99))
                random.seed(r.i(0, 99))
                np.random.random(r.i(0, 5))
            k = ring.kmc(cfg)
            log = Log(k)
            t = k.run(label=None if i == 0 else r.choice([None, "other"]))
            fps.append(fingerprint(k, t, log))
    check(same_fp(*fps), f"two runs with seed {cfg.random_seed} differ", ring=vars(ring), equilibration=cfg.equilibration_passes, passes=cfg.kmc_passes)


@case("C15", weight=0.5, cap=20)
def running_again_restarts_the_random_numbers(r):
    """a second run() continues from the current state with the seed's own numbers again"""
    ring = Ring(r)
    cfg = cfg_for(r)
    State = need("kmcpy.simulator.state", "State")
    with scratch():
        k = ring.kmc(cfg)
        k.run()
        mid = list(k.simulation_state.occupations)
        log = Log(k)
        k.run()
        ring2 = ring
        ring2.occ = mid
        k2 = ring2.kmc(cfg)
        log2 = Log(k2)
        k2.run()
    check([e for e, _ in log.prop] == [e for e, _ in log2.prop], "a second run with the same seed from the same occupations chose other events", seed=cfg.random_seed)


@case("C15", weight=0.5, cap=12)
def different_seeds_differ(r):
    ring = Ring(r, n=6)
    cfgs = [cfg_for(r, random_seed=s, kmc_passes=6, equilibration_passes=0) for s in (r.i(0, 1000), r.i(1001, 5000))]
    pr = []
    with scratch():
        for c in cfgs:
            k = ring.kmc(c)
            log = Log(k)
            k.run()
            pr.append(log.prop)
    check(pr[0] != pr[1], "two different seeds gave the same 36 waiting times", seeds=[c.random_seed for c in cfgs])


SUB = '''
import sys, json, logging
sys.path[:0] = [%r, %r]
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
from rt import common, r_run
r = common.R(%r)
ring = r_run.Ring(r)
cfg = r_run.cfg_for(r)
with common.scratch():
    k = ring.kmc(cfg)
    log = r_run.Log(k)
    t = k.run()
print(json.dumps(r_run.fingerprint(k, t, log)))
'''


@case("C15", weight=0.5, cap=1)
def same_seed_in_another_process(r):
    here = str(pathlib.Path(__file__).resolve().parent.parent)
    s = str(r.random())
    out = []
    for hs in ("1", "12345"):
        p = subprocess.run([sys.executable, "-c", SUB % (here, str(REPO), s)], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=hs), timeout=120)
        if p.returncode:
            raise Skip("subprocess: " + p.stderr[-300:])
        out.append(p.stdout.strip().splitlines()[-1])
    check(out[0] == out[1], "the same inputs and seed gave different runs in two processes")


@case("C15", weight=1)
def result_files(r):
    ring = Ring(r)
    cfg = cfg_for(r)
    lab = r.choice([None, "lab", "a_b"])
    rec = r.b()
    with scratch() as d:
        k = ring.kmc(cfg)
        if rec:
            k.attach(lambda s, step, time: [int(x) for x in s.occupations], interval=r.i(1, 3), name="occ")
        t = k.run(label=lab)
        l, p = lab or cfg.name, cfg.kmc_passes - 1
        want = {f"displacement_{l}_{p}.csv.gz", f"hop_counter_{l}_{p}.csv.gz", f"current_occ_{l}_{p}.csv.gz", f"results_{l}.csv.gz", f"results_units_{l}.json.gz"}
        recs = t.get_property_records("occ") if rec and hasattr(t, "get_property_records") else (t._property_records.get("occ", []) if rec else [])
        if recs:
            want.add(f"properties_{l}.json.gz")
        got = {x.name for x in d.iterdir()}
        check(got == want, "files written", got=sorted(got), want=sorted(want))
        dd = np.loadtxt(f"displacement_{l}_{p}.csv.gz", delimiter=",", ndmin=2)
        check(allclose(dd, t.displacement, 1e-12), "displacement file")
        check(allclose(np.loadtxt(f"hop_counter_{l}_{p}.csv.gz", delimiter=",", ndmin=1), t.hop_counter), "hop counter file")
        occ = np.loadtxt(f"current_occ_{l}_{p}.csv.gz", delimiter=",", ndmin=1)
        check(list(occ) == list(k.simulation_state.occupations), "occupation file is not the final state", got=occ, want=k.simulation_state.occupations)
        import pandas as pd
        tab = pd.read_csv(f"results_{l}.csv.gz", float_precision="round_trip")
        check(list(tab.columns) == list(t.results), "result columns", got=list(tab.columns))
        check(len(tab) == len(t.results["time"]) and close(tab["time"].iloc[-1], k.simulation_state.time), "result rows")
        for c in tab.columns:
            check(allclose(tab[c], [np.nan if x is None else x for x in t.results[c]]), f"result column {c}")
        units = json.load(gzip.open(f"results_units_{l}.json.gz", "rt"))
        check(units == dict(t.result_units), "units file")
        if recs:
            pl = json.load(gzip.open(f"properties_{l}.json.gz", "rt"))
            check([(x["name"], x["step"], x["time"], x["value"]) for x in pl] == [("occ", y["step"], y["time"], y["value"]) if isinstance(y, dict) else ("occ", y.step, y.time, y.value) for y in recs], "property records file")


@case("C15", "C02", weight=0.7)
def fresh_simulator_has_current_rates(r):
    ring = Ring(r)
    k = ring.kmc(cfg_for(r))
    m = LocalModel(random_r(ring.mseed))
    want = [m.rate(e, ring.occ) for e in k.event_lib.events]
    check(allclose(k.prob_list, want), "initial rates", ring=vars(ring))
    check(allclose(k.prob_cum_list, np.cumsum(want)), "initial cumulative rates", ring=vars(ring))
    check(list(k.simulation_state.occupations) == ring.occ and k.simulation_state.time == 0 and k.simulation_state.step == 0, "construction changed the state")

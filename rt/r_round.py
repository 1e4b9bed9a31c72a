"""C13: what is written can be read back."""
import json as _json
import math
import numpy as np
from .common import *
from .build import *
from .r_rates import mk_lce, mk_event_codes, rt_cfg, PairEnergy
from .r_lce import lce_setup, built_model, st_of
from . import r_site
from .r_state import mk_order


class FakeH5:
    """the part of h5py the code uses: groups and datasets; text comes back as bytes, lists as arrays, names in text order"""

    def __init__(self):
        self.store = {}

    class Dataset:
        def __init__(self, data):
            if isinstance(data, bytes):
                self.v = data
            elif isinstance(data, str):
                self.v = data.encode("utf-8")
            elif isinstance(data, (list, tuple)) and data and all(isinstance(x, str) for x in data):
                self.v = np.array([x.encode("utf-8") for x in data], dtype=object)
            else:
                a = np.array(data)
                if a.dtype == object:
                    raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
                if a.dtype.kind == "U":
                    raise TypeError("No conversion path for dtype: " + str(a.dtype))
                self.v = a if a.ndim else a[()]

        def __getitem__(self, k):
            return self.v if isinstance(k, tuple) and not k else self.v[k]

        def __len__(self):
            return len(self.v)

    class Group:
        def __init__(self):
            self.d, self.attrs = {}, {}

        def create_dataset(self, name, data=None, **k):
            if name in self.d:
                raise ValueError("name already exists")
            self.d[name] = FakeH5.Dataset(data)
            return self.d[name]

        def create_group(self, name):
            if name in self.d:
                raise ValueError("name already exists")
            self.d[name] = FakeH5.Group()
            return self.d[name]

        def require_group(self, name):
            return self.d[name] if name in self.d else self.create_group(name)

        def __setitem__(self, name, data):
            self.create_dataset(name, data)

        def __getitem__(self, name):
            return self.d[name]

        def __contains__(self, name):
            return name in self.d

        def __iter__(self):
            return iter(sorted(self.d))

        def __len__(self):
            return len(self.d)

        def keys(self):
            return sorted(self.d)

        def values(self):
            return [self.d[k] for k in sorted(self.d)]

        def items(self):
            return [(k, self.d[k]) for k in sorted(self.d)]

        def get(self, name, default=None):
            return self.d.get(name, default)

    def File(self, name, mode="r", **k):
        name = str(name)
        store = self.store

        class F(FakeH5.Group):
            def __init__(s):
                if mode == "w" or (mode == "a" and name not in store):
                    store[name] = {}, {}
                    open(name, "wb").close()
                if name not in store:
                    raise FileNotFoundError(name)
                s.d, s.attrs = store[name]

            def __enter__(s):
                return s

            def __exit__(s, *a):
                return False

            def close(s):
                pass
        return F()

    def string_dtype(self, *a, **k):
        return object

    def special_dtype(self, *a, **k):
        return object


class h5:
    def __enter__(self):
        self.old = sys.modules.get("h5py")
        f = FakeH5()
        m = type(sys)("h5py")
        m.File, m.Group, m.Dataset, m.string_dtype, m.special_dtype = f.File, FakeH5.Group, FakeH5.Dataset, f.string_dtype, f.special_dtype
        sys.modules["h5py"] = m
        return f

    def __exit__(self, *a):
        if self.old is None:
            sys.modules.pop("h5py", None)
        else:
            sys.modules["h5py"] = self.old


def same(a, b):
    """equal up to the list/tuple distinction"""
    a = a.tolist() if hasattr(a, "tolist") else a
    b = b.tolist() if hasattr(b, "tolist") else b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a):
        return math.isnan(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str):
        return a == b
    return type(a) == type(b) and a == b


def number(r):
    return r.choice([0.0, -0.0, 1.0, 1e-12, -1e300, 1 / 3, 123456789.123456789, 5e-324, r.uniform(-1e3, 1e3), r.uniform(0, 1) * 10 ** r.randint(-15, 15)])


@case("C13", weight=1)
def states_survive(r):
    State = need("kmcpy.simulator.state", "State")
    n = r.choice([0, 1, 2, r.i(3, 40), r.i(41, 300)])
    occ = [r.randrange(r.choice([2, 3, 5])) for _ in range(n)]
    s = State(occupations=list(occ), time=abs(number(r)), step=r.choice([0, 1, r.i(2, 10 ** 6), 2 ** 40]))
    info = dict(n=n, occ=occ[:50], time=s.time, step=s.step)

    def cmp(b, how):
        check(list(b.occupations) == occ and b.time == s.time and b.step == s.step, f"a state read back from {how} differs", got=(b.occupations, b.time, b.step), **info)
    cmp(State.from_dict(s.as_dict()), "a dictionary")
    cmp(State.from_dict(_json.loads(_json.dumps(s.as_dict()))), "a JSON dictionary")
    with scratch() as d, h5():
        f = str(d / r.choice(["a.json", "run.v1.json", "x-1.5.json"]))
        s.save_checkpoint(f)
        cmp(State.load_checkpoint(f), "a JSON checkpoint")
        cmp(State.from_file(f), "a JSON checkpoint (from_file)")
        s2 = State(occupations=[1 - x if x < 2 else x for x in occ], time=s.time + 1, step=s.step + 1)
        s2.save_checkpoint(f)
        b = State.load_checkpoint(f)
        check(list(b.occupations) == s2.occupations and b.time == s2.time and b.step == s2.step, "an overwritten checkpoint gives something else than the last state", got=b.as_dict(), want=s2.as_dict())
        if n:
            f = str(d / "c.h5")
            s.save_checkpoint(f)
            cmp(State.load_checkpoint(f), "an HDF5 checkpoint")
            cmp(State.from_file(f), "an HDF5 checkpoint (from_file)")
        bad = str(d / r.choice(["c.txt", "c", "c.csv", "c.npz"]))
        check(raises(ValueError, s.save_checkpoint, bad), "unsupported checkpoint format not rejected", file=bad)
        check(not pathlib.Path(bad).exists(), "rejected checkpoint format left a file", file=bad)
        check(raises(ValueError, State.load_checkpoint, bad) and raises(ValueError, State.from_file, bad), "unsupported checkpoint format read", file=bad)
    check(list(s.occupations) == occ, "saving changed the state", **info)


def rand_config_fields(r, full=False):
    B = need("kmcpy.simulator.property", "BUILTIN_PROPERTY_FIELDS")
    pool = {
        "structure_file": lambda: r.choice(["a.cif", "dir/b c.cif", "x"]), "supercell_shape": lambda: tuple(r.i(1, 5) for _ in range(3)), "dimension": lambda: r.choice([1, 2, 3]),
        "mobile_ion_specie": lambda: r.choice(["Na", "Li", "No", "Y"]), "mobile_ion_charge": lambda: r.choice([1.0, 2.0, -1.0, 0.5]), "elementary_hop_distance": lambda: r.uniform(0.1, 9.0),
        "model_type": lambda: r.choice(["composite_lce", "lce", "local_barrier"]), "model_file": lambda: "m.json", "event_file": lambda: "e.json",
        "site_mapping": lambda: r.choice([None, {"Na": ["Na", "X"], "O": ["O"]}, {"Si4+": ["Si", "P"]}, {}]), "convert_to_primitive_cell": lambda: r.b(),
        "initial_state_file": lambda: r.choice([None, "s.json"]), "initial_occupations": lambda: r.choice([None, [0, 1, 1], []]),
        "temperature": lambda: r.choice([298, 300.5, 1e-3, 1273.15]), "attempt_frequency": lambda: r.choice([1e13, 5e12, 1.0, 1]), "equilibration_passes": lambda: r.i(0, 2000),
        "kmc_passes": lambda: r.i(1, 20000), "random_seed": lambda: r.choice([None, 0, 1, 2 ** 31, 12345]), "name": lambda: r.choice(["run", "NaSICON 300K", "yes", "1e5", "", "ü"]),
        "property_sampling_interval": lambda: r.choice([None, 1, 7, 1000]), "property_sampling_time_interval": lambda: r.choice([None, 1e-9, 2.5]),
        "builtin_property_enabled": lambda: {k: r.b() for k in r.sample(list(B), r.i(0, min(4, len(list(B)))))},
        "property_callbacks": lambda: [dict({"callable": r.choice(["m:f", "pkg.mod:g"])}, **r.choice([{}, {"interval": 5}, {"time_interval": 0.5, "store": False}, {"name": "p", "max_records": 3, "enabled": True}])) for _ in range(r.i(0, 3))],
    }
    ks = list(pool) if full else r.sample(list(pool), r.i(1, len(pool)))
    d = {k: pool[k]() for k in ks}
    return d, pool


LOADER = ("structure_file", "model_file", "event_file", "initial_state_file")


def cfg_fields(c):
    d = {}
    for part in (c.system_config, c.runtime_config):
        for k in part.__dataclass_fields__:
            d[k] = getattr(part, k)
    return d


@case("C13", weight=1.5)
def configurations_survive(r):
    C = need("kmcpy.simulator.config", "Configuration")
    fields, _ = rand_config_fields(r)
    c = C(**fields)
    want = cfg_fields(c)
    base = cfg_fields(C(name="x"))

    def cmp(b, how, loaders):
        got = cfg_fields(b)
        for k, v in want.items():
            if not loaders and k in LOADER:
                v = base[k]
            check(same(got.get(k), v), f"configuration field {k} changed through {how}", got=got.get(k), want=v, fields=fields)
        check(set(got) == set(want), "fields lost", got=sorted(got))
    cmp(C.from_dict(c.as_dict(include_loader_paths=True)), "as_dict", True)
    cmp(C.from_dict(c.as_input_dict()), "as_input_dict", True)
    cmp(C.from_dict(c.as_dict()), "as_dict without paths", False)
    cmp(C.from_dict(_json.loads(_json.dumps(c.as_input_dict()))), "JSON text", True)
    with scratch() as d:
        for ext in r.sample(["json", "yaml", "yml", "JSON", "YAML"], 2):
            f = d / ("c." + ext)
            c.to(f if r.b() else str(f), include_loader_paths=True)
            cmp(C.from_file(f if r.b() else str(f)), f".{ext} file", True)
        f = d / ("s." + r.choice(["yaml", "yml"]))
        c2 = C(temperature=77.0, name="other")
        two = r.b()
        if two:
            c2.to(f, section="first", task_type=r.choice(["default", "kmc"]))
        tt = r.choice(["default", "alloy", "lce"])
        sec = r.choice(["kmc", "mine"])
        c.to(f, include_loader_paths=True, section=sec, task_type=tt)
        cmp(C.from_file(f, section=sec), "a YAML section", True)
        cmp(C.from_file(f, section=sec, task_type=tt), "a YAML section with task type", True)
        if sec == "kmc":
            cmp(C.from_file(f), "the default YAML section", True)
        if two:
            b = C.from_file(f, section="first")
            check(b.temperature == 77.0 and b.name == "other", "writing one section changed another", got=b.as_dict())
        check(raises(ValueError, C.from_file, f, section="absent"), "missing section accepted")
        bad = d / r.choice(["c.txt", "c.toml", "c"])
        check(raises(ValueError, c.to, bad) and not bad.exists(), "unsupported configuration format not rejected", file=bad)
        check(raises(ValueError, C.from_file, bad), "unsupported configuration format read", file=bad)
    check(same(cfg_fields(c), want), "saving changed the configuration")


@case("C13", weight=1)
def event_libraries_survive(r):
    Event, EventLib = events_mod()
    o = mk_order(r)
    n = o.active_site_count
    k = r.choice([0, 1, 2, r.i(3, 15), r.i(11, 40)])
    lib = rand_lib(r, k, n, deps=r.b(0.7) and k > 0) if n > 1 else EventLib()
    lib.set_index_metadata(o)
    evs = [(tuple(e.mobile_ion_indices), tuple(e.local_env_indices)) for e in lib.events]
    deps = None if lib.event_dependencies is None else [list(x) for x in lib.event_dependencies]
    info = dict(events=evs[:20], n=n)

    def cmp(b, how, dep=True):
        check([(tuple(e.mobile_ion_indices), tuple(e.local_env_indices)) for e in b.events] == evs and len(b) == len(evs), f"events changed through {how}", got=[(e.mobile_ion_indices, e.local_env_indices) for e in b.events][:20], **info)
        if deps is not None:
            for i in range(len(evs)):
                check(list(b.get_dependent_events(i)) == deps[i], f"dependencies changed through {how}", event=i, got=list(b.get_dependent_events(i)), want=deps[i], **info)
        for s in range(n):
            check(list(b.get_events_involving_site(s)) == list(lib.get_events_involving_site(s)), f"the site lookup changed through {how}", site=s, **info)
        b.validate_index_metadata(o)
        check(same(b.index_metadata, lib.index_metadata), "order metadata changed", **info)
    cmp(EventLib.from_dict(lib.as_dict()), "a dictionary")
    cmp(EventLib.from_dict(_json.loads(_json.dumps(lib.as_dict()))), "JSON text")
    if evs:      # an empty library has no file form
        with scratch() as d:
            f = str(d / r.choice(["e.json", "lib.v2.json"]))
            lib.to(f)
            cmp(EventLib.from_file(f), "a file")
            e = lib.events[r.randrange(len(lib))] if len(lib) else None
            if e is not None:
                e.to(str(d / "one.json"))
                b = Event.from_file(str(d / "one.json"))
                check(tuple(b.mobile_ion_indices) == tuple(e.mobile_ion_indices) and tuple(b.local_env_indices) == tuple(e.local_env_indices), "an event changed in a file", before=e.as_dict(), after=b.as_dict())
    bare = EventLib()
    check(raises(ValueError, bare.to, "/nonexistent/none.json"), "a library without order metadata was written")
    dd = lib.as_dict()
    dd.pop("index_metadata")
    check(raises(ValueError, EventLib.from_dict, dd), "a library without order metadata was read")


def rand_params(r, i=0):
    P = need("kmcpy.models.parameters", "LCEModelParameters")
    k = r.i(1, 6)
    return P(keci=[number(r) for _ in range(k)], empty_cluster=number(r), cluster_site_indices=r.choice([[], [0, 1, 2], [[0, 1], [2, 3]]]), weight=[float(i)] + [abs(number(r)) for _ in range(r.i(0, 3))],
             alpha=abs(number(r)), time_stamp=1.7e9 + i, time=f"{i:02d}/01/2024, 10:00:00", rmse=abs(number(r)), loocv=abs(number(r)), normalize=r.b(),
             orbit_fingerprints=r.choice([None, ["a%d" % j for j in range(k)], ["\u00e9"] * k]), local_environment_hash=r.choice([None, "deadbeef%d" % i]))


FIELDS = ("keci", "empty_cluster", "cluster_site_indices", "weight", "alpha", "time_stamp", "time", "rmse", "loocv", "normalize", "orbit_fingerprints", "local_environment_hash")


def cmp_params(b, a, how, **info):
    for k in FIELDS:
        check(same(getattr(b, k), getattr(a, k)), f"parameter field {k} changed through {how}", got=getattr(b, k), want=getattr(a, k), **info)


@case("C13", weight=1.2)
def parameters_and_histories_survive(r):
    P = need("kmcpy.models.parameters", "LCEModelParameters")
    H = need("kmcpy.models.parameters", "LCEModelParamHistory")
    p = rand_params(r)
    cmp_params(P.from_dict(p.as_dict()), p, "a dictionary")
    cmp_params(P.from_dict(_json.loads(_json.dumps(p.as_dict()))), p, "JSON text")
    n = r.choice([0, 1, 2, 9, 10, 11, 12, r.i(3, 30), 101 if r.b(0.3) else 5, 1001 if r.b(0.05) else 20])
    h = H()
    for i in range(n):
        h.append(rand_params(r, i))

    def cmp(b, how):
        check(len(b.history) == n, f"a history of {n} records has {len(b.history)} after {how}")
        for i, (x, y) in enumerate(zip(b.history, h.history)):
            cmp_params(x, y, f"{how}, record {i} of {n}")
    cmp(H.from_dict(h.as_dict()), "a dictionary")
    cmp(H.from_dict([x.as_dict() for x in h.history]), "the list form")
    with scratch() as d, h5():
        for ext in ("json", "yaml", "h5"):
            if ext == "yaml" and n > 60:
                continue
            f = str(d / ("p." + ext))
            p.to(f if r.b() else pathlib.Path(f))
            cmp_params(P.from_file(f), p, f".{ext}")
            f = str(d / ("h." + ext))
            h.to(f if r.b() else pathlib.Path(f))
            cmp(H.from_file(f), f".{ext}")


def sample_energies(r, n, ns, env, k=5):
    out = []
    for _ in range(k):
        out.append([r.randrange(ns) for _ in range(n)])
    return out


@case("C13", weight=1)
def built_models_survive(r):
    LCE = need("kmcpy.models", "LocalClusterExpansion")
    CM = need("kmcpy.models", "CompositeLCEModel")
    BM = need("kmcpy.models.base", "BaseModel")
    m, lls, cut, mp, basis = built_model(r)
    nf = len(m.get_orbit_fingerprints())
    keci = [r.uniform(-50, 50) for _ in range(nf)]
    m.set_parameters({"keci": list(keci), "empty_cluster": 3.25})
    site = None
    which = r.choice(["none", "lce", "external"])
    if which == "lce":
        site = LCE.from_dict(_json.loads(_json.dumps(m.as_dict())))
        site.set_parameters({"keci": [r.uniform(-20, 20) for _ in range(nf)], "empty_cluster": -1.5})
    elif which == "external":
        SEM = need("kmcpy.models", "SiteEnergyModel")
        site = SEM(compute_ref="rt.r_round:backend", compute_kwargs={"scale": r.uniform(-3, 3)}, units=r.choice(["eV", "meV"]), state_mapping={0: 2, 1: 5})
    c = CM(site_model=site, kra_model=m, kra_fit_metadata={"time_stamp": 5, "time": "t"}, site_fit_metadata={"time_stamp": 6, "time": "u"})
    nl = len(lls.structure)
    n = nl + 2
    env = r.sample(range(n), nl)
    ends = tuple(r.sample(range(n), 2))
    ev = mk_event_codes(r, n, env=env, codes=(0, 1, 1, 0), ends=ends)
    rcfg = rt_cfg(r.uniform(200, 1500), 1e13)
    st_all = []
    ns = [len(a) for a in (lls.allowed_species if hasattr(lls, "allowed_species") else [[0, 1]] * nl)]
    for _ in range(5):
        occ = [0] * n
        for j, i in enumerate(env):
            occ[i] = r.randrange(2)
        occ[ends[0]], occ[ends[1]] = r.choice([(0, 1), (1, 0), (1, 1)])
        st_all.append(occ)

    def values(cm, km):
        out = []
        for occ in st_all:
            st = st_of(r, occ)
            try:
                cm.initialize_state(simulation_state=st)
            except TypeError:
                pass
            out.append((float(km.compute(st, ev)), float(cm.compute_probability(event=ev, runtime_config=rcfg, simulation_state=st))))
        return out
    want = values(c, m)
    fps = m.get_orbit_fingerprints()
    with scratch() as d:
        f = str(d / "m.json")
        c.to(f)

        class Cfg:
            model_file = f
            model_type = "composite_lce"
        routes = {"a dictionary": lambda: CM.from_dict(c.as_dict()), "JSON text": lambda: CM.from_dict(_json.loads(_json.dumps(c.as_dict()))), "a file": lambda: CM.from_file(f), "a configuration": lambda: BM.from_config(Cfg)}
        for how in r.sample(sorted(routes), 2):
            b = routes[how]()
            check(type(b) is CM, "another model class after reading", how=how, got=type(b).__name__)
            got = values(b, b.kra_model)
            for g, w, occ in zip(got, want, st_all):
                check(close(g[0], w[0], 1e-12, 1e-9) and close(g[1], w[1], 1e-9), f"energy or rate differs after {how}", got=g, want=w, occ=occ, env=env, ends=ends, site=which)
            check(b.kra_model.get_orbit_fingerprints() == fps, "orbit fingerprints differ after reading")
            check((b.site_model is None) == (site is None), "site model lost or invented", how=how)
            check(same(b.kra_fit_metadata, c.kra_fit_metadata) and (site is None or same(b.site_fit_metadata, c.site_fit_metadata)), "fit metadata changed", how=how, got=(b.kra_fit_metadata, b.site_fit_metadata))
        g = str(d / "lce.json")
        m.to(g)
        b = LCE.from_file(g)
        check(b.get_orbit_fingerprints() == fps, "orbit fingerprints differ after reading the cluster expansion")
        p = {"keci": list(keci), "empty_cluster": 3.25, "orbit_fingerprints": fps}
        b.set_parameters(p)
        check([list(map(list, o)) for o in b.cluster_site_indices] == [list(map(list, o)) for o in m.cluster_site_indices], "clusters differ after reading")
        for occ, w in zip(st_all, want):
            check(close(b.compute(st_of(r, occ), ev), w[0], 1e-12, 1e-9), "energy differs after reading the cluster expansion and its parameters", occ=occ)
        P = need("kmcpy.models.parameters", "LCEModelParameters")
        with h5():
            ext = r.choice(["json", "yaml", "h5"])
            pf = str(d / ("p." + ext))
            P(keci=list(keci), empty_cluster=3.25, cluster_site_indices=[], weight=[], alpha=0.0, time_stamp=1.0, time="t", rmse=0.0, loocv=0.0, orbit_fingerprints=r.choice([None, fps])).to(pf)
            b = LCE.from_file(g)
            b.load_parameters_from_file(pf)
        for occ, w in zip(st_all, want):
            check(close(b.compute(st_of(r, occ), ev), w[0], 1e-12, 1e-9), f"energy differs after loading the parameters from a .{ext} file", occ=occ)
        LSO = need("kmcpy.structure.local_site_order", "LocalSiteOrder")
        lo = m.local_site_order.with_exclude_center_site(r.b())
        check(LSO.from_dict(_json.loads(_json.dumps(lo.as_dict()))) == lo, "local site order changed", before=lo)
        BF = need("kmcpy.structure.basis", "BasisFunction")
        bb = BF.from_dict(_json.loads(_json.dumps(m.basis.as_dict())))
        check(type(bb) is type(m.basis) and same(bb.as_dict(), m.basis.as_dict()), "basis changed", before=m.basis.as_dict(), after=bb.as_dict())


def backend(runtime=None, external_occupation=None, changes=(), event=None, simulation_state=None, scale=1.0, **k):
    s = 0.0
    for c in changes:
        s += (c.new_value - c.old_value) * (1 + 0.1 * c.external_site) * scale * 1e-3
    return s


def applied(runtime=None, external_occupation=None, changes=(), log=None, **k):
    APPLIED.append([(c.external_site, c.old_value, c.new_value) for c in changes])


APPLIED = []


@case("C13", weight=1)
def site_energy_models_survive(r):
    SEM = need("kmcpy.models", "SiteEnergyModel")
    State = need("kmcpy.simulator.state", "State")
    n = r.i(2, 7)
    kw, tab, pos, rest = r_site.mapping(r, n, 2)
    if any(isinstance(x, str) for v in tab.values() for x in v):
        raise Skip("text values")
    init = kw.get("initial_occupation")
    m = SEM(compute_ref="rt.r_round:backend", compute_kwargs={"scale": r.uniform(-2, 2)}, apply_ref=r.choice([None, "rt.r_round:applied"]), units=r.choice(["eV", "meV"]), name=r.choice(["n", "SiteEnergyModel"]), **kw)
    with scratch() as d:
        how = r.choice(["dict", "json", "file"])
        if how == "dict":
            b = SEM.from_dict(m.as_dict())
        elif how == "json":
            b = SEM.from_dict(_json.loads(_json.dumps(m.as_dict())))
        else:
            m.to(str(d / "s.json"))
            b = SEM.from_file(str(d / "s.json"))
    check(b.units == m.units and b.name == m.name and b.compute_kwargs == m.compute_kwargs and b.apply_ref == m.apply_ref and b.external_site_order_hash == m.external_site_order_hash, "settings of a site-energy model changed", how=how, before=m.as_dict(), after=b.as_dict())
    occ = [r.randrange(2) for _ in range(n)]
    sa, sb = State(occupations=list(occ)), State(occupations=list(occ))
    m.initialize_state(simulation_state=sa)
    b.initialize_state(simulation_state=sb)
    for _ in range(4):
        ev = mk_event_codes(r, n, env=[])
        x, y = m.compute(event=ev, simulation_state=sa), b.compute(event=ev, simulation_state=sb)
        check(close(x, y, 1e-12), "site-energy difference changed in serialisation", before=float(x), after=float(y), how=how, kw=kw, occ=sa.occupations, event=ev.mobile_ion_indices)
        for mm, ss in ((m, sa), (b, sb)):
            ss.apply_event(ev, 0.0)
            mm.apply_event(event=ev, simulation_state=ss)
        check(same([r_site.plain(v) for v in m.external_occupation], [r_site.plain(v) for v in b.external_occupation]), "external occupation differs after serialisation", how=how, kw=kw)


@case("C13", weight=0.7, cap=12)
def fits_are_recorded(r):
    LF = need("kmcpy.models.fitting.fitter", "LCEFitter")
    P = need("kmcpy.models.parameters", "LCEModelParameters")
    H = need("kmcpy.models.parameters", "LCEModelParamHistory")
    rows, cols = r.i(4, 6), r.i(1, 3)
    with scratch() as d, h5():
        np.savetxt("corr.txt", [[r.uniform(-2, 2) for _ in range(cols)] for _ in range(rows)], ndmin=2) if False else np.savetxt("corr.txt", np.array([[r.uniform(-2, 2) for _ in range(max(2, cols))] for _ in range(rows)]))
        np.savetxt("e.txt", [r.uniform(100, 500) for _ in range(rows)])
        np.savetxt("w.txt", [r.uniform(0.5, 2) for _ in range(rows)])
        ext = r.choice(["json", "json", "h5"])
        hist = []
        k = r.i(1, 3) if ext == "json" else r.choice([2, 12])
        fp = r.choice([None, ["x%d" % j for j in range(max(2, cols))]])
        for i in range(k):
            f = LF()
            p, y, t = f.fit(alpha=r.uniform(0.001, 1.0), ekra_fname="e.txt", keci_fname="keci.txt", weight_fname="w.txt", corr_fname="corr.txt", lce_params_fname="p." + ext, lce_params_history_fname="h." + ext,
                            fit_results_fname="fr.json" if r.b() else None, normalize=r.b(), orbit_fingerprints=fp, local_environment_hash=r.choice([None, "hh"]))
            hist.append(p)
            cmp_params(P.from_file("p." + ext), p, f"the parameter file .{ext} written by a fit")
        b = H.from_file("h." + ext)
        check(len(b.history) == k, "history of fits lost or gained records", got=len(b.history), want=k)
        for i, (x, y) in enumerate(zip(b.history, hist)):
            cmp_params(x, y, f"history .{ext} record {i} of {k}")
        f.to("fit.json")
        g = LF.from_file("fit.json")
        for key in ("keci", "empty_cluster", "weight", "alpha", "time_stamp", "time", "rmse", "loocv", "normalize", "orbit_fingerprints", "local_environment_hash"):
            check(same(getattr(g.model_parameters, key), getattr(f.model_parameters, key)), "a fitter changed in a file", field=key, before=getattr(f.model_parameters, key), after=getattr(g.model_parameters, key))
        n = r.i(2, 13)
        leg = {str(i): dict(hist[-1].as_dict(), alpha=float(i)) for i in range(n)}
        check(LF.from_dict(leg).model_parameters.alpha == float(n - 1), "the latest record of an indexed history is not the one loaded", n=n)


@case("C13", weight=0.6)
def clusters_survive(r):
    m, lls, cut, mp, basis = built_model(r)
    Orbit = need("kmcpy.structure.cluster", "Orbit")
    Cluster = need("kmcpy.structure.cluster", "Cluster")
    for o in m.orbits:
        b = Orbit.from_dict(_json.loads(_json.dumps(o.as_dict())))
        check(b.fingerprint == o.fingerprint and b.multiplicity == o.multiplicity and same(b.cluster_site_indices, o.cluster_site_indices), "orbit changed in serialisation", before=o.as_dict()["cluster_site_indices"], after=b.as_dict()["cluster_site_indices"])
        c = r.choice(o.clusters)
        x = Cluster.from_dict(_json.loads(_json.dumps(c.as_dict())))
        check(x.type == c.type and same(list(x.site_indices), list(c.site_indices)) and allclose(x.distance_matrix, c.distance_matrix, 1e-9, 1e-9) and x.labels == c.labels and close(x.max_length, c.max_length) and close(x.min_length, c.min_length), "cluster changed in serialisation", before=str(c), after=str(x))

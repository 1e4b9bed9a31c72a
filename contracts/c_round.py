"""Reading back what was written: dictionary and file round trips."""
from pyvc.contract import *
from pyvc import models
from contracts.c_state import EV, ST, mk_state, mk_event
from contracts.c_event import EL, EB, mk_events

PA = "kmcpy.models.parameters"
LP, LH = PA + ":LCEModelParameters", PA + ":LCEModelParamHistory"
LSO = "kmcpy.structure.local_site_order:LocalSiteOrder"


def plain(it, v):
    """what a JSON file gives back: tuples as lists, keys as text (contract on monty's dumpfn/loadfn)"""
    v = it.resolve(v)
    if isinstance(v, tuple):
        return SeqV("list", items=[plain(it, x) for x in v])
    if isinstance(v, RecListV):
        raise Unsupported("objects cannot be written as they are")
    if isinstance(v, SeqV):
        if v.items is not None:
            return SeqV("list", items=[plain(it, x) for x in v.items])
        if v.filt is not None:
            raise Unsupported("writing a filtered sequence")
        f = v.fn
        return SeqV("list", n=v.n, fn=lambda i: plain(it, f(i)))
    if isinstance(v, DictV):
        if any(not isinstance(k, str) for k in v.d):
            raise Unsupported("non-text keys")
        d = DictV({k: plain(it, x) for k, x in v.d.items()})
        d.present = dict(v.present)
        return d
    if isinstance(v, (RecV, ElemRec, NdV)):
        raise Unsupported(f"writing {v!r}")
    return v


def path(it, a, k):
    """pathlib.Path of a concrete name: only its name and suffix are used"""
    import pathlib
    t = it.resolve(a[0])
    if isinstance(t, RecV):
        return t
    if not isinstance(t, str):
        raise Unsupported("symbolic file name")
    p = pathlib.PurePosixPath(t)
    return RecV(StubClass("Path"), {"suffix": p.suffix, "name": p.name, "stem": p.stem, "_text": t})


def fname(it, v):
    v = it.resolve(v)
    return v.fields["_text"] if isinstance(v, RecV) else v


class Disk:
    """a file holds what was last written under its name"""

    def __init__(self):
        self.files = {}

    def hooks(self):
        def options(it, name, k, allowed):
            """the YAML reader and writer of monty take no JSON options"""
            if str(name).lower().endswith((".yaml", ".yml")) and set(k) & allowed:
                it.raise_("TypeError", "unexpected keyword argument")

        def dump(it, a, k):
            options(it, fname(it, a[1] if len(a) > 1 else k["fn"]), k, {"indent", "cls", "sort_keys"})
            self.files[fname(it, a[1] if len(a) > 1 else k["fn"])] = plain(it, a[0])
            return None

        def load(it, a, k):
            name = fname(it, a[0] if a else k["fn"])
            if name not in self.files:
                it.raise_("FileNotFoundError", str(name))
            options(it, name, k, {"cls"})
            return self.files[name]
        return {"monty.serialization.dumpfn": dump, "monty.serialization.loadfn": load, "pathlib.Path": path, "h5py.File": self.h5}

    def h5(self, it, a, k):
        """an HDF5 file: named datasets and groups; scalars and homogeneous lists come back as arrays, text as bytes"""
        name, mode = fname(it, a[0]), it.resolve(a[1] if len(a) > 1 else k.get("mode", "r"))
        if mode == "w":
            self.files[name] = DictV({})
        if name not in self.files:
            it.raise_("FileNotFoundError", str(name))
        return h5group(it, self.files[name])


def h5group(it, store):
    def dataset(it, me, key, data=None, **k):
        it.resolve(key)
        store.d[it.resolve(key)] = ("ds", plain(it, data))

    def read(it, v):
        v = it.resolve(v)
        if isinstance(v, SeqV):
            return RecV(StubClass("ndarray"), {}, {"tolist": lambda it, me: v})
        if is_str(v):
            return RecV(StubClass("bytes"), {}, {"decode": lambda it, me, *a: v})
        return v          # a numpy scalar: behaves as the number it holds

    def get(it, me, key):
        key = it.resolve(key)
        if key not in store.d:
            it.raise_("KeyError", key)
        kind, v = store.d[key]
        return RecV(StubClass("Dataset"), {}, {"__getitem__": lambda it, me, i: read(it, v)})
    g = RecV(StubClass("Group"), {}, {"create_dataset": dataset, "__getitem__": get, "__enter__": lambda it, me: g, "__exit__": lambda it, me, *a: False,
                                      "items": lambda it, me: SeqV("list", items=[(k, get(it, me, k)) for k in sorted(store.d)]), "keys": lambda it, me: SeqV("list", items=sorted(store.d))})
    return g


# ------------------------------------------------------------ simulation state
@contract
class StateRoundTrip(Contract):
    qual = ST + ".from_dict"
    props = ("C13",)

    def inputs(self, h):
        self.s = mk_state(h)
        return {"cls": h.cls(ST), "data": h.call(h.get(self.s, "as_dict"))}

    def ensures(self, h, a, o, r):
        for k in ("occupations", "time", "step"):
            yield f"{k} restored", h.eq(r.fields[k], self.s.fields[k])


@contract
class Checkpoint(Contract):
    qual = ST + ".save_checkpoint"
    props = ("C13",)

    def __init__(self):
        self.disk = Disk()
        self.ext = self.disk.hooks()

    def inputs(self, h):
        self.disk.files = {}
        self.s = mk_state(h)
        return {"self": self.s, "filepath": "run.json"}

    def ensures(self, h, a, o, r):
        b = h.call(h.func(ST + ".load_checkpoint"), "run.json")
        for k in ("occupations", "time", "step"):
            yield f"{k} restored", h.eq(b.fields[k], self.s.fields[k])
        b = h.call(h.func(ST + ".from_file"), "run.json")
        for k in ("occupations", "time", "step"):
            yield f"{k} restored by from_file", h.eq(b.fields[k], self.s.fields[k])


@contract
class CheckpointH5(Checkpoint):
    name = Checkpoint.qual + " [HDF5]"

    def inputs(self, h):
        return dict(super().inputs(h), filepath="run.h5")

    def ensures(self, h, a, o, r):
        for how in (".load_checkpoint", ".from_file"):
            b = h.call(h.func(ST + how), "run.h5")
            for k in ("occupations", "time", "step"):
                yield f"{k} restored{how}", h.eq(b.fields[k], self.s.fields[k])


class _CheckpointBad(Contract):
    props = ("C13",)

    def raises(self, h, a, o):
        return [("ValueError", True)]


@contract
class CheckpointBad(_CheckpointBad):
    qual = ST + ".save_checkpoint"
    name = qual + " [other format]"

    def inputs(self, h):
        return {"self": mk_state(h), "filepath": "run.txt"}


@contract
class CheckpointBadLoad(_CheckpointBad):
    qual = ST + ".load_checkpoint"
    name = qual + " [other format]"

    def inputs(self, h):
        return {"cls": h.cls(ST), "filepath": "run.txt"}


# ------------------------------------------------------------ events
@contract
class EventRoundTrip(Contract):
    qual = EV + ".from_dict"
    props = ("C13", "C02")
    json = True

    def inputs(self, h):
        self.e = mk_event(h)
        return {"cls": h.cls(EV), "event_dict": plain(h.it, h.call(h.get(self.e, "as_dict")))}

    def ensures(self, h, a, o, r):
        for k in ("mobile_ion_indices", "local_env_indices"):
            yield f"{k} restored", h.eq(r.fields[k], self.e.fields[k])


@contract
class LibRoundTrip(Contract):
    qual = EL + ".from_dict"
    props = ("C13", "C02")

    def __init__(self):
        self.stubs = {EL + "._validate_event_indices": lambda it, f, a, k: None,
                      "kmcpy.structure.active_site_order:ActiveSiteOrder.from_dict": lambda it, f, a, k: Opaque("order")}

    def inputs(self, h):
        evs = mk_events(h)
        n = evs._spec[0]
        self.evs = evs
        m, f = h.fn("row_len", "int", "int"), h.fn("dep", "int", "int", "int")
        h.assume(forall(0, n, lambda i: m(to_int(i)) >= 0))
        h.assume(n >= 1)
        self.m, self.f, self.n = m, f, n
        deps = SeqV("list", n=n, fn=lambda i: SeqV("list", n=m(to_int(i)), fn=lambda j, i=i: f(to_int(i), to_int(j))))
        lib = h.rec(EL, events=evs, event_dependencies=deps, site_to_events=DictV({}), index_metadata=DictV({"format": "x"}))
        self.lib = lib
        return {"cls": h.cls(EL), "data": plain(h.it, h.call(h.get(lib, "as_dict")))}

    def ensures(self, h, a, o, r):
        n, f, t, ln, el = self.evs._spec
        i, j = h.int("event"), h.int("entry")
        h.assume(And(0 <= i, i < n))
        E, D = r.fields["events"], r.fields["event_dependencies"]
        yield "as many events", h.eq(h.len(E), n)
        e = h.at(E, i)
        mo, en = h.get(e, "mobile_ion_indices"), h.get(e, "local_env_indices")
        yield "endpoints restored", And(h.eq(h.len(mo), 2), h.eq(h.at(mo, 0), f(i)), h.eq(h.at(mo, 1), t(i)))
        yield "environment length restored", h.eq(h.len(en), ln(i))
        yield "environment restored in order", Implies(And(0 <= j, j < ln(i)), h.eq(h.at(en, j), el(i, j)))
        yield "one dependency row per event", h.eq(h.len(D), n)
        row = h.at(D, i)
        yield "dependency rows restored", And(h.eq(h.len(row), self.m(i)), Implies(And(0 <= j, j < self.m(i)), h.eq(h.at(row, j), self.f(i, j))))
        yield "index metadata restored", h.eq(r.fields["index_metadata"], self.lib.fields["index_metadata"])


@contract
class LibNoMeta(Contract):
    qual = EL + ".from_dict"
    name = qual + " [no index metadata]"
    props = ("C13", "C12")

    def inputs(self, h):
        return {"cls": h.cls(EL), "data": DictV({"events": SeqV("list", items=[]), "index_metadata": None})}

    def raises(self, h, a, o):
        return [("ValueError", True)]


@contract
class LibSaveNoMeta(Contract):
    qual = EL + ".to"
    name = qual + " [no index metadata]"
    props = ("C13", "C12")

    def inputs(self, h):
        return {"self": h.rec(EL, events=mk_events(h), event_dependencies=None, site_to_events=DictV({}), index_metadata=None), "filename": "x.json"}

    def raises(self, h, a, o):
        return [("ValueError", True)]


# ------------------------------------------------------------ fitted parameters
def params(h, tag=""):
    return h.rec(LP, keci=h.ilist("keci" + tag, sort="real"), empty_cluster=h.real("empty" + tag), cluster_site_indices=h.ilist("csi" + tag), weight=h.ilist("weight" + tag, sort="real"),
                 alpha=h.real("alpha"), time_stamp=h.real("stamp"), time=h.str("time"), rmse=h.real("rmse"), loocv=h.real("loocv"), normalize=h.bool("normalize"),
                 orbit_fingerprints=h.opt(h.ilist("fp", sort="str"), "no_fp"), local_environment_hash=h.opt(h.str("hash"), "no_hash"), local_site_order=None, name="LCEModelParameters")


@contract
class ParamsRoundTrip(Contract):
    qual = LP + ".from_dict"
    props = ("C13", "C09")

    def inputs(self, h):
        self.p = params(h)
        return {"cls": h.cls(LP), "data": plain(h.it, h.call(h.get(self.p, "as_dict")))}

    def ensures(self, h, a, o, r):
        for k, v in self.p.fields.items():
            yield f"{k} restored", h.eq(r.fields[k], v)


class _ParamsFile(Contract):
    qual = LP + ".to"
    props = ("C13",)

    def __init__(self):
        self.disk = Disk()
        self.ext = self.disk.hooks()

    def inputs(self, h):
        self.disk.files = {}
        self.p = params(h)
        if self.ext_ == ".h5":
            # text lists come back as arrays of bytes; decided by the run-time suite
            self.p.fields["orbit_fingerprints"] = None
        return {"self": self.p, "filename": "p" + self.ext_}

    def ensures(self, h, a, o, r):
        b = h.call(h.func(LP + ".from_file"), "p" + self.ext_)
        for k, v in self.p.fields.items():
            yield f"{k} restored", h.eq(b.fields[k], v)


for _x in (".json", ".yaml", ".h5"):
    contract(type("ParamsFile" + _x[1:], (_ParamsFile,), {"name": f"{_ParamsFile.qual} [{_x}]", "ext_": _x}))


class _HistFile(Contract):
    qual = LH + ".to"
    props = ("C13",)

    def __init__(self):
        self.disk = Disk()
        self.ext = self.disk.hooks()

    def inputs(self, h):
        self.disk.files = {}
        self.n = h.nat("n_records")
        self.recs, self.R, self.T, self.k, self.m = history(h, self.n)
        return {"self": h.rec(LH, history=self.recs), "filename": "h" + self.ext_}

    def ensures(self, h, a, o, r):
        yield from HistoryRoundTrip.ensures(self, h, a, o, h.call(h.func(LH + ".from_file"), "h" + self.ext_))


for _x in (".json", ".yaml"):
    contract(type("HistFile" + _x[1:], (_HistFile,), {"name": f"{_HistFile.qual} [{_x}]", "ext_": _x}))


# ------------------------------------------------------------ history
def history(h, n):
    k = h.fn("keci", "int", "int", "real")
    m = h.fn("n_keci", "int", "int")
    h.assume(forall(0, n, lambda i: m(to_int(i)) >= 0))
    R = {x: h.fn(x, "int", "real") for x in ("empty_cluster", "alpha", "time_stamp", "rmse", "loocv")}
    T = h.fn("time", "int", "str")
    F = {x: (lambda i, x=x: R[x](to_int(i))) for x in R}
    F.update(keci=lambda i: SeqV("list", n=m(to_int(i)), fn=lambda j, i=i: k(to_int(i), to_int(j))), cluster_site_indices=lambda i: SeqV("list", items=[]), weight=lambda i: SeqV("list", items=[]),
             time=lambda i: T(to_int(i)), normalize=lambda i: True, orbit_fingerprints=lambda i: None, local_environment_hash=lambda i: None, local_site_order=lambda i: None, name=lambda i: "LCEModelParameters")
    return RecListV(h.cls(LP), n, F), R, T, k, m


@contract
class HistoryRoundTrip(Contract):
    qual = LH + ".from_dict"
    props = ("C13",)

    def inputs(self, h):
        self.n = h.nat("n_records")
        self.recs, self.R, self.T, self.k, self.m = history(h, self.n)
        return {"cls": h.cls(LH), "data": plain(h.it, h.call(h.get(h.rec(LH, history=self.recs), "as_dict")))}

    def ensures(self, h, a, o, r):
        i, j = h.int("record"), h.int("j")
        h.assume(And(0 <= i, i < self.n))
        H_ = r.fields["history"]
        yield "as many records", h.eq(h.len(H_), self.n)
        e = h.at(H_, i)
        for x in self.R:
            yield f"{x} restored, in order", h.eq(h.get(e, x), self.R[x](i))
        yield "time restored", h.eq(h.get(e, "time"), self.T(i))
        ke = h.get(e, "keci")
        yield "coefficients restored", And(h.eq(h.len(ke), self.m(i)), Implies(And(0 <= j, j < self.m(i)), h.eq(h.at(ke, j), self.k(i, j))))


@contract
class HistoryAppend(Contract):
    qual = LH + ".append"
    props = ("C13",)

    def inputs(self, h):
        self.n = h.nat("n_records")
        f = h.fn("record", "int", "int")
        self.f = f
        return {"self": h.rec(LH, history=SeqV("list", n=self.n, fn=lambda i: f(to_int(i)))), "parameters": h.int("new")}

    def ensures(self, h, a, o, r):
        i = h.int("i")
        H_ = a["self"].fields["history"]
        yield "added at the end", And(h.eq(h.len(H_), self.n + 1), h.eq(h.at(H_, self.n), a["parameters"]))
        yield "others kept", Implies(And(0 <= i, i < self.n), h.eq(h.at(H_, i), self.f(i)))


# ------------------------------------------------------------ local site order
class _LsoRoundTrip(Contract):
    qual = LSO + ".from_dict"
    props = ("C13", "C16")

    def inputs(self, h):
        self.o = h.rec(LSO, name=self.nm, sort_keys=h.ilist("key", kind="tuple", sort="str"), exclude_center_site=h.bool("exclude"), center_match_tolerance=h.real("tol"))
        return {"cls": h.cls(LSO), "data": plain(h.it, h.call(h.get(self.o, "as_dict")))}

    def ensures(self, h, a, o, r):
        for k, v in self.o.fields.items():
            yield f"{k} restored", h.eq(r.fields[k], v)


for _n in ("kmcpy_default", "nasicon_nat_commun_2022", "my own"):
    contract(type("Lso_" + _n.replace(" ", ""), (_LsoRoundTrip,), {"name": f"{_LsoRoundTrip.qual} [{_n}]", "nm": _n}))

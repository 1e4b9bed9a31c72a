"""Configuration: routing, validation, change, round trip."""
from pyvc.contract import *
from contracts.c_round import plain, Disk

CF = "kmcpy.simulator.config"
SC, RC, CO = CF + ":SystemConfig", CF + ":RuntimeConfig", CF + ":Configuration"
DEFAULTS_S = dict(structure_file="", supercell_shape=(1, 1, 1), dimension=3, mobile_ion_specie="Li", mobile_ion_charge=1.0, elementary_hop_distance=1.0, model_type="composite_lce",
                  model_file="", event_file="", site_mapping=None, convert_to_primitive_cell=False, initial_state_file=None, initial_occupations=None)
DEFAULTS_R = dict(temperature=300.0, attempt_frequency=1e13, equilibration_passes=1000, kmc_passes=10000, random_seed=None, name="DefaultSimulation", property_sampling_interval=None,
                  property_sampling_time_interval=None, builtin_property_enabled={}, property_callbacks=[])
PATHS = ("structure_file", "model_file", "event_file", "initial_state_file")


def default(h, k):
    v = DEFAULTS_S[k] if k in DEFAULTS_S else DEFAULTS_R[k]
    if isinstance(v, float):
        return to_real(v)
    if v == {} and isinstance(v, dict):
        return DictV({})
    if v == [] and isinstance(v, list):
        return SeqV("list", items=[])
    return v


def value(h, k, valid=True):
    """an arbitrary valid value of field k"""
    if k == "supercell_shape":
        return (h.int("s0"), h.int("s1"), h.int("s2"))
    if k == "dimension":
        d = h.int("dimension")
        if valid:
            h.assume(And(1 <= d, d <= 3))
        return d
    if k in ("structure_file", "mobile_ion_specie", "model_type", "model_file", "event_file", "initial_state_file", "name"):
        return h.str(k)
    if k in ("mobile_ion_charge", "elementary_hop_distance"):
        return h.real(k)
    if k == "site_mapping":
        return DictV({"Na": SeqV("list", items=["Na", "X"]), "O": "O"})
    if k == "convert_to_primitive_cell":
        return h.bool(k)
    if k == "initial_occupations":
        return h.ilist(k)
    if k in ("temperature", "attempt_frequency", "property_sampling_time_interval"):
        x = h.real(k)
        if valid:
            h.assume(x > 0)
        return x
    if k == "equilibration_passes":
        x = h.int(k)
        if valid:
            h.assume(x >= 0)
        return x
    if k in ("kmc_passes", "property_sampling_interval"):
        x = h.int(k)
        if valid:
            h.assume(x > 0)
        return x
    if k == "random_seed":
        return h.int(k)
    if k == "builtin_property_enabled":
        return DictV({"msd": h.bool("msd")})
    if k == "property_callbacks":
        return SeqV("list", items=[DictV({"callable": "m:f", "interval": 3, "store": h.bool("store")})])
    raise KeyError(k)


def system(h, **kw):
    f = {k: value(h, k) for k in DEFAULTS_S}
    f.update(kw)
    return h.rec(SC, **f)


def runtime(h, **kw):
    f = {k: value(h, k) for k in DEFAULTS_R}
    f["property_sampling_time_interval"] = None
    f.update(kw)
    return h.rec(RC, **f)


# ------------------------------------------------------------ validation
@contract
class SystemValid(Contract):
    qual = SC + ".__post_init__"
    props = ("C14",)

    def inputs(self, h):
        self.n = h.nat("n_shape")
        return {"self": system(h, dimension=h.int("dim"), supercell_shape=h.ilist("shape", self.n, kind="tuple"))}

    def raises(self, h, a, o):
        d = a["self"].fields["dimension"]
        return [("ValueError", Or(d < 1, d > 3, self.n != 3))]

    def ensures(self, h, a, o, r):
        yield "nothing else", r is None


@contract
class RuntimeValid(Contract):
    qual = RC + ".__post_init__"
    props = ("C14",)

    def inputs(self, h):
        return {"self": runtime(h, temperature=h.real("T"), attempt_frequency=h.real("v"), equilibration_passes=h.int("eq"), kmc_passes=h.int("passes"),
                                property_sampling_interval=h.opt(h.int("interval"), "no_interval"), property_sampling_time_interval=h.opt(h.real("tinterval"), "no_tinterval"))}

    def old(self, h, a):
        return dict(a["self"].fields)

    def raises(self, h, a, o):
        i, t = o["property_sampling_interval"], o["property_sampling_time_interval"]
        has_i, has_t = Not(zbool(i.is_none)), Not(zbool(t.is_none))
        return [("ValueError", Or(o["temperature"] <= 0, o["attempt_frequency"] <= 0, o["equilibration_passes"] < 0, o["kmc_passes"] <= 0,
                                  And(has_i, i.val <= 0), And(has_t, t.val <= 0)))]

    def ensures(self, h, a, o, r):
        yield "accepted without change", And(*[h.eq(a["self"].fields[k], o[k]) for k in ("temperature", "attempt_frequency", "equilibration_passes", "kmc_passes", "random_seed", "name")])


class _CallbackSpec(Contract):
    qual = RC + ".__post_init__"
    props = ("C14",)

    def inputs(self, h):
        return {"self": runtime(h, property_callbacks=self.spec(h))}

    def raises(self, h, a, o):
        return [(self.exc, True)] if self.exc else []

    def ensures(self, h, a, o, r):
        yield "accepted", r is None


def _cb(**kw):
    return lambda h: SeqV("list", items=[DictV({"callable": "m:f"}), DictV(dict({"callable": "m:f"}, **kw))])


for _n, _s, _e in (("valid", _cb(name="x", interval=2, store=True, max_records=3, enabled=False), None), ("no callable", lambda h: SeqV("list", items=[DictV({"name": "x"})]), "ValueError"),
                   ("blank callable", _cb(callable=" "), "ValueError"), ("callable not text", _cb(callable=3), "ValueError"), ("unknown key", _cb(wrong=1), "ValueError"),
                   ("not a list", lambda h: DictV({}), "TypeError"), ("not a dictionary", lambda h: SeqV("list", items=["m:f"]), "TypeError"), ("zero max_records", _cb(max_records=0), "ValueError"),
                   ("negative max_records", _cb(max_records=-2), "ValueError"), ("text max_records", _cb(max_records="3"), "TypeError"), ("store not a switch", _cb(store="yes"), "TypeError"),
                   ("enabled not a switch", _cb(enabled=1), "TypeError"), ("zero interval", _cb(interval=0), "ValueError"), ("both schedules", _cb(interval=1, time_interval=2.5), None), ("zero time interval", _cb(time_interval=0.0), "ValueError")):
    contract(type("Cb_" + _n.replace(" ", "_"), (_CallbackSpec,), {"name": f"{_CallbackSpec.qual} [callback: {_n}]", "spec": staticmethod(_s), "exc": _e}))


class _Switch(Contract):
    qual = CF + ":_validate_builtin_property_enabled"
    props = ("C14",)

    def inputs(self, h):
        return {"values": self.spec(h)}

    def raises(self, h, a, o):
        return [(self.exc, True)] if self.exc else []

    def ensures(self, h, a, o, r):
        yield "accepted", r is None


for _n, _s, _e in (("valid", lambda h: DictV({"msd": h.bool("a"), "conductivity": h.bool("b")}), None), ("unknown", lambda h: DictV({"msd": True, "nope": True}), "ValueError"), ("number", lambda h: DictV({"msd": 1}), "TypeError"),
                   ("text", lambda h: DictV({"msd": "no"}), "TypeError"), ("not a dictionary", lambda h: SeqV("list", items=["msd"]), "TypeError")):
    contract(type("Sw_" + _n.replace(" ", "_"), (_Switch,), {"name": f"{_Switch.qual} [{_n}]", "spec": staticmethod(_s), "exc": _e}))


# ------------------------------------------------------------ construction
def holds(h, c, want):
    """configuration c has exactly these field values"""
    s, r = c.fields["system_config"], c.fields["runtime_config"]
    for k in DEFAULTS_S:
        yield f"{k}", h.eq(s.fields[k], want[k])
    for k in DEFAULTS_R:
        yield f"{k}", h.eq(r.fields[k], want[k])


class _Ctor(Contract):
    """each field given by name is stored under that name; the others have their defaults"""
    qual = CO + ".__init__"
    props = ("C14",)

    def inputs(self, h):
        self.given = {k: value(h, k) for k in self.keys}
        return dict({"self": h.rec(CO)}, **self.given)

    def ensures(self, h, a, o, r):
        want = {k: self.given.get(k, default(h, k)) if k in self.given else default(h, k) for k in list(DEFAULTS_S) + list(DEFAULTS_R)}
        yield from holds(h, a["self"], want)
        for k in list(DEFAULTS_S) + list(DEFAULTS_R):
            yield f"read back as {k}", h.eq(h.get(a["self"], k), want[k])


for _k in list(DEFAULTS_S) + list(DEFAULTS_R):
    contract(type("Ctor_" + _k, (_Ctor,), {"name": f"{_Ctor.qual} [{_k}]", "keys": (_k,)}))
contract(type("Ctor_all", (_Ctor,), {"name": f"{_Ctor.qual} [all fields]", "keys": tuple(k for k in list(DEFAULTS_S) + list(DEFAULTS_R) if k != "property_sampling_time_interval")}))


@contract
class CtorUnknown(Contract):
    qual = CO + ".__init__"
    name = qual + " [unknown field]"
    props = ("C14",)

    def inputs(self, h):
        return {"self": h.rec(CO), "temperature": value(h, "temperature"), "temprature": value(h, "temperature")}

    def raises(self, h, a, o):
        return [("ValueError", True)]


class _CtorMixed(Contract):
    qual = CO + ".__init__"
    props = ("C14",)

    def inputs(self, h):
        self.s, self.r = system(h), runtime(h)
        self.given = {k: value(h, k) for k in self.keys}
        return dict({"self": h.rec(CO), "system_config": self.s, "runtime_config": self.r}, **self.given)

    def old(self, h, a):
        return dict(self.s.fields), dict(self.r.fields)

    def ensures(self, h, a, o, r):
        want = dict(o[0], **o[1])
        want.update(self.given)
        yield from holds(h, a["self"], want)
        yield "given configurations unchanged", And(*[h.eq(self.s.fields[k], o[0][k]) for k in o[0]], *[h.eq(self.r.fields[k], o[1][k]) for k in o[1]])


for _t, _ks in (("none", ()), ("temperature", ("temperature",)), ("supercell", ("supercell_shape",)), ("both", ("kmc_passes", "dimension", "random_seed", "model_file"))):
    contract(type("Mixed_" + _t, (_CtorMixed,), {"name": f"{_CtorMixed.qual} [configs and {_t}]", "keys": _ks}))


class _Change(Contract):
    props = ("C14",)

    def inputs(self, h):
        self.c = h.rec(CO, system_config=system(h), runtime_config=runtime(h))
        self.given = {k: value(h, k) for k in self.keys}
        return dict({"self": self.c}, **self.given)

    def old(self, h, a):
        return dict(self.c.fields["system_config"].fields), dict(self.c.fields["runtime_config"].fields), self.c.fields["system_config"], self.c.fields["runtime_config"]

    def ensures(self, h, a, o, r):
        want = dict(o[0], **o[1])
        want.update(self.given)
        yield from holds(h, r, want)
        yield "a new configuration", r is not self.c
        yield "the original keeps its parts", And(self.c.fields["system_config"] is o[2], self.c.fields["runtime_config"] is o[3])
        yield "the original is unchanged", And(*[h.eq(o[2].fields[k], o[0][k]) for k in o[0]], *[h.eq(o[3].fields[k], o[1][k]) for k in o[1]])


for _k in DEFAULTS_S:
    contract(type("ChS_" + _k, (_Change,), {"qual": CO + ".with_system_changes", "name": f"{CO}.with_system_changes [{_k}]", "keys": (_k,)}))
for _k in DEFAULTS_R:
    if _k != "property_sampling_time_interval":
        contract(type("ChR_" + _k, (_Change,), {"qual": CO + ".with_runtime_changes", "name": f"{CO}.with_runtime_changes [{_k}]", "keys": (_k,)}))


class _ChangeBad(Contract):
    props = ("C14",)

    def inputs(self, h):
        self.c = h.rec(CO, system_config=system(h), runtime_config=runtime(h))
        return dict({"self": self.c}, **self.bad)

    def raises(self, h, a, o):
        return [(self.exc, True)]


for _n, _q, _b, _e in (("bad temperature", ".with_runtime_changes", {"temperature": -1}, "ValueError"), ("bad passes", ".with_runtime_changes", {"kmc_passes": 0}, "ValueError"), ("bad dimension", ".with_system_changes", {"dimension": 4}, "ValueError"),
                       ("unknown field", ".with_runtime_changes", {"temprature": 3}, "TypeError"), ("unknown system field", ".with_system_changes", {"temperature": 3}, "TypeError")):
    contract(type("ChB_" + _n.replace(" ", "_"), (_ChangeBad,), {"qual": CO + _q, "name": f"{CO}{_q} [{_n}]", "bad": _b, "exc": _e}))


# ------------------------------------------------------------ round trip
class _ConfRound(Contract):
    qual = CO + ".from_dict"
    props = ("C13", "C14")
    paths = True

    def inputs(self, h):
        self.c = h.rec(CO, system_config=system(h), runtime_config=runtime(h))
        return {"cls": h.cls(CO), "config_dict": h.call(h.get(self.c, "as_dict"), include_loader_paths=self.paths)}

    def ensures(self, h, a, o, r):
        want = dict(self.c.fields["system_config"].fields, **self.c.fields["runtime_config"].fields)
        if not self.paths:
            for k in PATHS:
                want[k] = default(h, k)
        for k, f in holds(h, r, dict(want, supercell_shape=r.fields["system_config"].fields["supercell_shape"])):
            yield f"{k} restored", f
        sh = r.fields["system_config"].fields["supercell_shape"]
        yield "supercell restored", And(h.eq(h.len(sh), 3), *[h.eq(h.at(sh, i), want["supercell_shape"][i]) for i in range(3)])


@contract
class ConfRound(_ConfRound):
    name = _ConfRound.qual + " [input form]"


@contract
class ConfRecord(_ConfRound):
    name = _ConfRound.qual + " [record form]"
    paths = False


class _ConfFile(_ConfRound):
    qual = CO + ".to"

    def __init__(self):
        self.disk = Disk()
        self.ext = self.disk.hooks()

    def inputs(self, h):
        self.disk.files = {}
        self.c = h.rec(CO, system_config=system(h), runtime_config=runtime(h))
        return {"self": self.c, "filename": "c" + self.ext_, "include_loader_paths": True}

    def ensures(self, h, a, o, r):
        yield from super().ensures(h, a, o, h.call(h.func(CO + ".from_file"), "c" + self.ext_))


for _x in (".json", ".yaml", ".yml"):
    contract(type("ConfFile" + _x[1:], (_ConfFile,), {"name": f"{_ConfFile.qual} [{_x}]", "ext_": _x}))


class _ConfFileBad(Contract):
    props = ("C13",)

    def __init__(self):
        self.disk = Disk()
        self.ext = self.disk.hooks()

    def inputs(self, h):
        self.disk.files = {}
        if self.qual.endswith(".to"):
            return {"self": h.rec(CO, system_config=system(h), runtime_config=runtime(h)), "filename": "c.txt"}
        return {"cls": h.cls(CO), "filename": "c.txt"}

    def raises(self, h, a, o):
        return [("ValueError", not self.disk.files)]


contract(type("ConfBadTo", (_ConfFileBad,), {"qual": CO + ".to", "name": CO + ".to [other format]"}))
contract(type("ConfBadFrom", (_ConfFileBad,), {"qual": CO + ".from_file", "name": CO + ".from_file [other format]"}))

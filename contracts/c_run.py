"""The run loop: hop accounting, wiring of tracker and random numbers, results writing."""
from pyvc.contract import *
from contracts.c_event import KM, EL, mk_events
from contracts.c_state import mk_state

KC = KM + ":KMC"
TK = "kmcpy.simulator.tracker:Tracker"


def arg(a, kw, i, name, default=None):
    return kw[name] if name in kw else (a[i] if len(a) > i else default)


class _Run(Contract):
    """Protocol of a run, stated on the calls of propose / update / tracker, each of which has its own contract.

    Ghost counters: proposed, eq (equilibration hops), prod (production hops), tracked, sampled, passes.
    `ok` collects the protocol: every proposal is executed exactly once, in order, with zero time in
    equilibration and its own waiting time in production, tracked before and sampled after it."""
    qual = KC + ".run"
    props = ("C15",)
    max_s = 200
    seeded = True

    def __init__(self):
        self.stubs = {KC + ".propose": self.propose, KC + ".update": self.update, KC + "._ensure_property_state": lambda it, f, a, kw: None, TK: self.tracker}
        self.ext = {"numpy.random.default_rng": self.rng}

    # --- callees
    def need(self, c):
        g = self.g
        g.fields["ok"] = And(zbool(g.fields["ok"]), zbool(c))

    def rng(self, it, a, kw):
        seed = it.resolve(arg(a, kw, 0, "seed"))
        self.need(seed is None if not self.seeded else H(it).eq(seed, self.seed) if seed is not None else False)
        self.g.fields["rngs"] += 1
        self.gen = it_rec("rng")
        return self.gen

    def propose(self, it, f, a, kw):
        g = self.g
        self.need(it.resolve(a[0]) is self.kmc)
        self.need(it.resolve(a[0].fields.get("rng")) is self.gen)
        self.need(H(it).eq(g.fields["pending"], 0))
        ev = it.resolve(arg(a, kw, 1, "events"))
        self.need(ev is self.events)
        p = g.fields["proposed"]
        g.fields["proposed"] = to_int(p) + 1
        g.fields["pending"] = 1
        return (RecV(StubClass("Event"), {"index": p}), self.DT(to_int(p)))

    def event_is_last(self, it, e):
        e = it.resolve(e)
        if not (isinstance(e, RecV) and "index" in e.fields):
            self.need(False)
            return
        self.need(to_int(e.fields["index"]) == to_int(self.g.fields["proposed"]) - 1)

    def update(self, it, f, a, kw):
        g = self.g
        self.need(it.resolve(a[0]) is self.kmc)
        self.event_is_last(it, arg(a, kw, 1, "event"))
        dt = to_real(arg(a, kw, 2, "dt", 0.0))
        self.need(H(it).eq(g.fields["pending"], 1))
        st = self.state
        if self.tr is None:
            self.need(dt == 0)
            g.fields["eq"] = to_int(g.fields["eq"]) + 1
        else:
            self.need(dt == self.DT(to_int(g.fields["proposed"]) - 1))
            self.need(to_int(g.fields["tracked"]) == to_int(g.fields["prod"]) + 1)
            self.need(to_int(g.fields["sampled"]) == to_int(g.fields["prod"]))
            g.fields["prod"] = to_int(g.fields["prod"]) + 1
        st.fields["step"] = to_int(st.fields["step"]) + 1
        g.fields["pending"] = 0

    def tracker(self, it, c, a, kw):
        g = self.g
        names = ("config", "structure", "initial_state", "property_plan", "default_property_interval", "hop_state_lookup")
        v = {n: it.resolve(arg(a, kw, i, n)) for i, n in enumerate(names)}
        self.need(self.tr is None)
        self.need(v["config"] is self.cfg)
        self.need(v["structure"] is self.structure)
        self.need(v["initial_state"] is self.state)
        self.need(v["property_plan"] is self.plan)
        self.need(v["hop_state_lookup"] is self.lookup)
        self.need(H(it).eq(g.fields["prod"], 0))
        self.need(H(it).eq(g.fields["pending"], 0))
        self.default_interval = v["default_property_interval"]

        def upd(it, me, *a, **kw):
            self.event_is_last(it, arg(a, kw, 0, "event"))
            self.need(H(it).eq(g.fields["pending"], 1))
            self.need(to_int(g.fields["tracked"]) == to_int(g.fields["prod"]))
            g.fields["tracked"] = to_int(g.fields["tracked"]) + 1

        def sample(it, me, *a, **kw):
            self.need(H(it).eq(g.fields["pending"], 0))
            self.need(to_int(g.fields["sampled"]) == to_int(g.fields["prod"]) - 1)
            self.need(H(it).eq(arg(a, kw, 0, "step"), self.state.fields["step"]))
            self.need(H(it).eq(arg(a, kw, 1, "sim_time"), self.CLOCK(to_int(g.fields["prod"]))))
            g.fields["sampled"] = to_int(g.fields["sampled"]) + 1

        def cur(it, me, *a, **kw):
            self.need(H(it).eq(arg(a, kw, 0, "current_pass"), g.fields["passes"]))
            g.fields["passes"] = to_int(g.fields["passes"]) + 1

        def write(it, me, *a, **kw):
            self.need(H(it).eq(arg(a, kw, 0, "label"), self.want_label))
            self.need(H(it).eq(g.fields["pending"], 0))
            g.fields["at_write"] = (g.fields["eq"], g.fields["prod"], g.fields["tracked"], g.fields["sampled"], g.fields["passes"])
            g.fields["written"] += 1
        self.tr = RecV(c, {"state": v["initial_state"]}, {"update": upd, "sample_properties": sample, "update_current_pass": cur, "write_results": write, "show_current_info": lambda it, me: None})
        return self.tr

    def inputs(self, h):
        global it_rec
        it_rec = lambda name: RecV(StubClass(name), {})
        self.gen, self.tr = None, None
        self.DT, self.CLOCK = h.fn("dt", "int", "real"), h.fn("clock", "int", "real")
        n = h.nat("n_sites")
        sym = h.fn("symbol", "int", "str")
        specie = h.str("mobile_ion_specie")
        self.specie, self.sym, self.n = specie, sym, n
        species = RecListV(StubClass("Element"), n, {"symbol": lambda i: sym(to_int(i))})
        self.structure = h.stub("structure", species=species)
        self.E, self.K = h.nat("equilibration_passes"), h.pos("kmc_passes")
        self.seed = h.int("random_seed") if self.seeded else None
        self.cname = h.str("config_name")
        self.cfg = h.stub("config", random_seed=self.seed, attempt_frequency=h.real("nu"), temperature=h.real("T"), mobile_ion_specie=specie,
                          equilibration_passes=self.E, kmc_passes=self.K)
        self.cfg.fields["name"] = self.cname
        self.t0, self.s0 = h.real("time0"), h.int("step0")
        clock = lambda it, me: self.CLOCK(to_int(self.g.fields["prod"]))
        clock.is_property = True
        self.state = h.stub("state", {"time": clock}, step=self.s0, occupations=h.ilist("occ"))
        h.assume(self.CLOCK(0) == self.t0)
        self.events, self.plan, self.lookup = h.stub("events"), h.stub("plan"), h.stub("lookup")
        self.kmc = h.rec(KC, config=self.cfg, structure=self.structure, simulation_state=self.state, property_plan=self.plan, hop_state_lookup=self.lookup, _active_tracker=None,
                         event_lib=h.stub("event_lib", events=self.events))
        self.g = h.stub("ghost", ok=z3.BoolVal(True), proposed=0, eq=0, prod=0, tracked=0, sampled=0, passes=0, pending=0, written=0, rngs=0, at_write=None)
        self.lab = self.label(h)
        self.want_label = self.cname if self.lab is None else self.lab
        return {"self": self.kmc, "label": self.lab}

    def label(self, h):
        return None

    def ensures(self, h, a, o, r):
        g = self.g.fields
        L = h.sum(self.n, lambda i: z3.If(self.sym(to_int(i)) == self.specie, z3.IntVal(1), z3.IntVal(0)))
        yield "every proposal is executed once, in order, tracked before and sampled after", zbool(g["ok"])
        yield "one random generator per run", h.eq(g["rngs"], 1)
        yield "equilibration hops", to_int(g["eq"]) == self.E * L
        yield "production hops", to_int(g["prod"]) == self.K * L
        yield "tracked hops", to_int(g["tracked"]) == self.K * L
        yield "samples", to_int(g["sampled"]) == self.K * L
        yield "passes reported", to_int(g["passes"]) == self.K
        yield "results written once", h.eq(g["written"], 1)
        yield "the tracker is returned", h.it.resolve(r) is self.tr and self.tr is not None
        yield "the clock is moved by update alone", "time" not in self.state.fields
        yield "the step counter counts all hops", to_int(self.state.fields["step"]) == self.s0 + (self.E + self.K) * L
        if g["at_write"] is not None:
            yield "nothing moves after the results are written", And(*[h.eq(x, g[k]) for x, k in zip(g["at_write"], ("eq", "prod", "tracked", "sampled", "passes"))])
        yield "properties are sampled once per pass by default", h.eq(self.default_interval, z3.If(L > 1, L, 1))


@contract
class RunSeeded(_Run):
    name = _Run.qual + " [given seed]"


@contract
class RunUnseeded(_Run):
    name = _Run.qual + " [no seed, given label]"
    seeded = False

    def label(self, h):
        return h.str("label")


# ---------------------------------------------------------------- construction
class _KmcInit(Contract):
    """A new simulator holds, for every event, the rate of the initial occupations -- computed after the hop
    metadata is attached and after the model has been given its initial state -- and their running sum."""
    qual = KC + ".__init__"
    props = ("C02", "C15")
    stateful = True

    def __init__(self):
        self.stubs = {EL + ".get_dependency_statistics": lambda it, f, a, kw: it_rec("statistics"),
                      KC + "._configure_properties_from_runtime_config": self.configured}

    def configured(self, it, f, a, kw):
        self.g.fields["configured"] = it.resolve(arg(a, kw, 1, "runtime_config")) is self.rt

    def inputs(self, h):
        global it_rec
        it_rec = lambda name: RecV(StubClass(name), {})
        evs = mk_events(h)
        self.evs, self.n = evs, evs._spec[0]
        N = h.pos("n_sites")
        st = mk_state(h, N)
        self.st, self.occ0 = st, h.it.seq_copy(st.fields["occupations"])
        self.RATE = h.fn("rate", "int", "real")
        self.rt = h.stub("runtime_config")
        self.cfg = h.stub("config", runtime_config=self.rt)
        self.lib = h.rec(EL, events=evs, event_dependencies=None, site_to_events=DictV({}), index_metadata=None)
        self.g = h.stub("ghost", annotated=False, started=not self.stateful, configured=False, start_args=True)
        self.structure, self.order = h.stub("structure"), h.stub("order")

        def annotate(it, me, *a, **kw):
            self.g.fields["annotated"] = it.resolve(arg(a, kw, 0, "event_lib")) is self.lib

        def start(it, me, *a, **kw):
            self.g.fields["started"] = True
            self.g.fields["start_args"] = it.resolve(kw.get("simulation_state")) is st and it.resolve(kw.get("event_lib")) is self.lib and it.resolve(kw.get("config")) is self.cfg

        def rate(it, me, *a, **kw):
            ev, rt, s = it.resolve(arg(a, kw, 0, "event")), it.resolve(arg(a, kw, 1, "runtime_config")), it.resolve(arg(a, kw, 2, "simulation_state"))
            g = self.g.fields
            if not isinstance(ev, ElemRec) or ev.lst is not evs:
                raise Unsupported("rate of an event outside the library")
            if rt is self.rt and s is st and g["annotated"] and g["started"] and it.ctx.entails(zbool(H(it).eq(s.fields["occupations"], self.occ0))):
                return self.RATE(to_int(ev.i))
            return it.ctx.fresh("rate_out_of_order", z3.RealSort())
        m = {"compute_probability": rate}
        if self.stateful:
            m["initialize_state"] = start
        model = h.stub("model", m)
        model.absent = {"initialize_state", "apply_event"}
        me = h.rec(KC)
        me.built = True     # a new object: nothing is set on it yet
        return {"self": me, "structure": self.structure, "model": model, "event_lib": self.lib, "config": self.cfg, "simulation_state": st,
                "hop_state_lookup": h.stub("lookup", {"annotate_event_lib": annotate}), "active_site_order": None, "_t": (st.fields["time"], st.fields["step"])}

    def ensures(self, h, a, o, r):
        k = a["self"].fields
        res = lambda n: h.it.resolve(k.get(n))
        yield "the simulator works on the objects it is given", And(*[zbool(res(x) is y) for x, y in (("config", self.cfg), ("simulation_state", self.st), ("structure", self.structure), ("event_lib", self.lib), ("model", a["model"]),
                                                                                                     ("hop_state_lookup", a["hop_state_lookup"]))])
        yield "the initial state is untouched", And(h.eq(self.st.fields["occupations"], self.occ0), h.eq(self.st.fields["time"], a["_t"][0]), h.eq(self.st.fields["step"], a["_t"][1]))
        yield "the model starts from this state and library", And(zbool(self.g.fields["started"]), zbool(self.g.fields["start_args"]))
        yield "the property settings of the configuration are applied", zbool(self.g.fields["configured"])
        e = h.int("some_event")
        h.assume(And(0 <= e, e < self.n))
        p, c = res("prob_list"), res("prob_cum_list")
        yield "one rate per event", And(h.eq(h.len(p), self.n), h.eq(h.len(c), self.n))
        yield "every stored rate is that of the initial occupations", h.eq(h.at(p, e), self.RATE(e))
        yield "the table is their running sum", h.eq(h.at(c, e), h.sum(e + 1, lambda i: self.RATE(to_int(i))))


@contract
class KmcInitStateful(_KmcInit):
    name = _KmcInit.qual + " [model with its own state]"


@contract
class KmcInitPlain(_KmcInit):
    name = _KmcInit.qual + " [model without state]"
    stateful = False


# ---------------------------------------------------------------- results on disk
class _Write(Contract):
    """Which data goes to which file, for all data and a sample label and pass number; the writers themselves
    (numpy.savetxt, pandas, gzip, json) are assumed."""
    qual = TK + ".write_results"
    props = ("C15", "C08")
    has_label = True

    def __init__(self):
        self.ext = {"numpy.savetxt": self.savetxt, "pandas.DataFrame": self.frame, "gzip.open": self.gz, "json.dump": self.dump}

    def put(self, it, name, v):
        name = it.resolve(name)
        for k, _ in self.files:
            if it.ctx.entails(zbool(H(it).eq(k, name))):
                self.twice = True
        self.files.append((name, v))

    def savetxt(self, it, a, kw):
        self.put(it, arg(a, kw, 0, "fname"), it.resolve(arg(a, kw, 1, "X")))
        if it.resolve(kw.get("delimiter")) != ",":
            self.twice = True

    def frame(self, it, a, kw):
        d = it.resolve(arg(a, kw, 0, "data"))

        def to_csv(it, me, *a, **kw):
            if it.resolve(kw.get("index", True)) is not False or it.resolve(kw.get("compression")) != "gzip":
                self.twice = True
            self.put(it, arg(a, kw, 0, "path_or_buf"), d)
        return RecV(StubClass("DataFrame"), {}, {"to_csv": to_csv})

    def gz(self, it, a, kw):
        if not it.resolve(arg(a, kw, 1, "mode")) in ("wt", "xt"):
            self.twice = True
        r = RecV(StubClass("gz"), {"fn": it.resolve(arg(a, kw, 0, "filename"))}, {"__enter__": lambda it, me: me, "__exit__": lambda it, me, *a: None})
        return r

    def dump(self, it, a, kw):
        f = it.resolve(arg(a, kw, 1, "fp"))
        self.put(it, f.fields["fn"], it.resolve(arg(a, kw, 0, "obj")))

    def inputs(self, h):
        self.files, self.twice = [], False
        n = h.nat("n_ions")
        self.disp, self.hops = h.nd("disp", (n, 3)), h.nd("hops", (n,), "int")
        self.occ = h.ilist("occ")
        self.results, self.units = h.stub("results"), DictV({"time": h.str("u_time"), "msd": h.str("u_msd")})
        m = h.nat("n_records")
        self.m, self.step, self.tm, self.val, self.nm = m, h.fn("rstep", "int", "int"), h.fn("rtime", "int", "real"), h.fn("rval", "int", "real"), h.str("prop_name")
        recs = RecListV(StubClass("PropertyRecord"), m, {"name": lambda i: self.nm, "step": lambda i: self.step(to_int(i)), "time": lambda i: self.tm(to_int(i)), "value": lambda i: self.val(to_int(i))})
        self.pas = 4
        t = h.rec(TK, current_pass=self.pas, displacement=self.disp, hop_counter=self.hops, state=h.stub("state", occupations=self.occ), results=self.results, result_units=self.units,
                  _property_records=DictV({"p": recs}))
        self.lab = "run7" if self.has_label else None
        return {"self": t, "label": self.lab}

    def ensures(self, h, a, o, r):
        px, sx = ("run7_4", "_run7") if self.has_label else ("4", "")
        d = dict((k, v) for k, v in self.files if isinstance(k, str))
        yield "no file is written twice and formats are as documented", not self.twice and len(d) == len(self.files)
        has = lambda k, v: h.eq(d[k], v) if k in d else False
        yield "displacements", has(f"displacement_{px}.csv.gz", self.disp)
        yield "hop counters", has(f"hop_counter_{px}.csv.gz", self.hops)
        yield "occupations", has(f"current_occ_{px}.csv.gz", self.occ)
        yield "sampled properties", d.get(f"results{sx}.csv.gz") is self.results
        yield "units", has(f"results_units{sx}.json.gz", self.units)
        f = f"properties{sx}.json.gz"
        yield "property records are written when there are any", zbool(f in d) == (self.m > 0)
        if f in d:
            p = d[f]
            yield "all records are written", h.eq(h.len(p), self.m)
            i = h.int("some_record")
            h.assume(And(0 <= i, i < self.m))
            e = h.it.resolve(h.at(p, i))
            g = lambda k: h.it.getitem(e, k)
            yield "each record as stored, in order", And(h.eq(g("name"), self.nm), h.eq(g("step"), self.step(i)), h.eq(g("time"), self.tm(i)), h.eq(g("value"), self.val(i)))
        yield "no other file", len(self.files) == (6 if f in d else 5)


@contract
class WriteLabel(_Write):
    name = _Write.qual + " [labelled]"


@contract
class WriteNoLabel(_Write):
    name = _Write.qual + " [no label]"
    has_label = False


# ---------------------------------------------------------------- from a configuration
class _FromConfig(Contract):
    """Every part of the simulator is built from its own configuration field, in one shared site order."""
    qual = KC + ".from_config"
    props = ("C15", "C12", "C14")
    occ_given = True
    missing = None

    def __init__(self):
        AO = "kmcpy.structure.active_site_order:ActiveSiteOrder"
        rec = lambda key, names, ret, skip=1: (lambda it, f, a, kw: self.record(it, key, a[skip:], kw, names, ret))
        self.stubs = {
            "kmcpy.io.cif:load_labeled_structure_from_cif": rec("cif", ("filename", "primitive"), "full", 0),
            AO + ".from_structure_and_mapping": rec("order", ("template_structure", "site_mapping", "supercell_shape"), "order_obj"),
            "kmcpy.models.base:BaseModel.from_config": rec("model", ("config",), "model"),
            EL + ".from_file": rec("events", ("filename",), "lib"),
            "kmcpy.event.hop:HopStateLookup.from_active_site_order": rec("hop", ("active_site_order", "mobile_ion_specie"), "lookup"),
            "kmcpy.simulator.state:State.from_occupations": rec("occ", ("occupations", "active_site_order"), "state"),
            "kmcpy.simulator.state:State.from_file": rec("occfile", ("filepath", "supercell_shape", "select_sites", "active_site_order"), "state"),
            KC: lambda it, c, a, kw: self.record(it, "kmc", a, kw, ("structure", "model", "event_lib", "config", "simulation_state", "hop_state_lookup", "active_site_order"), "kmc"),
        }

    def record(self, it, key, a, kw, names, ret):
        d = dict(zip(names, a))
        d.update(kw)
        self.calls.setdefault(key, []).append({k: it.resolve(v) for k, v in d.items()})
        return self.objs[ret]

    def inputs(self, h):
        self.calls = {}
        self.valid = []
        self.objs = {k: h.stub(k) for k in ("full", "model", "lookup", "state", "kmc", "structure")}
        self.objs["order_obj"] = h.stub("order_obj", {"active_structure": lambda it, me: self.objs["structure"]})
        self.objs["lib"] = h.stub("lib", {"validate_index_metadata": lambda it, me, *a, **kw: self.valid.append(it.resolve(arg(a, kw, 0, "active_site_order")))})
        F = self.F = dict(structure_file=h.str("structure_file"), convert_to_primitive_cell=h.bool("primitive"), site_mapping=None if self.missing == "site_mapping" else h.stub("mapping"), supercell_shape=h.stub("shape"),
                          event_file=h.str("event_file"), mobile_ion_specie=h.str("specie"), initial_occupations=h.ilist("occ") if self.occ_given else None,
                          initial_state_file=None if self.missing == "initial" else "state.json")
        self.cfg = h.stub("config", **F)
        return {"cls": h.cls(KC), "config": self.cfg}

    def raises(self, h, a, o):
        return [("ValueError", True)] if self.missing else []

    def ensures(self, h, a, o, r):
        F, O = self.F, self.objs

        def called(key, want):
            c = self.calls.get(key, [])
            if len(c) != 1 or set(want) - set(c[0]):
                return False
            if set(c[0]) - set(want):
                raise Unsupported("call with further arguments")
            return And(*[zbool(c[0][k] is v) if isinstance(v, (RecV, SeqV)) else zbool(h.eq(c[0][k], v)) for k, v in want.items()])
        yield "the structure file, primitive or not as configured", called("cif", {"filename": F["structure_file"], "primitive": F["convert_to_primitive_cell"]})
        yield "one site order from that structure, mapping and supercell", called("order", {"template_structure": O["full"], "site_mapping": F["site_mapping"], "supercell_shape": F["supercell_shape"]})
        yield "events from the event file", called("events", {"filename": F["event_file"]})
        yield "and checked against that site order", len(self.valid) >= 1 and all(x is O["order_obj"] for x in self.valid)
        yield "hop states of the mobile species in that order", called("hop", {"active_site_order": O["order_obj"], "mobile_ion_specie": F["mobile_ion_specie"]})
        yield "the configured model", called("model", {"config": self.cfg})
        if self.occ_given:
            yield "initial occupations in that order", called("occ", {"occupations": F["initial_occupations"], "active_site_order": O["order_obj"]})
            yield "explicit occupations win over a file", "occfile" not in self.calls
        else:
            yield "initial state from the file in that order", called("occfile", {"filepath": "state.json", "supercell_shape": F["supercell_shape"], "active_site_order": O["order_obj"]})
        yield "the parts are put together", called("kmc", {"structure": O["structure"], "model": O["model"], "event_lib": O["lib"], "config": self.cfg, "simulation_state": O["state"], "hop_state_lookup": O["lookup"],
                                                           "active_site_order": O["order_obj"]})
        yield "the simulator is returned", h.it.resolve(r) is O["kmc"]


@contract
class FromConfigOcc(_FromConfig):
    name = _FromConfig.qual + " [initial occupations]"


@contract
class FromConfigFile(_FromConfig):
    name = _FromConfig.qual + " [initial state file]"
    occ_given = False


@contract
class FromConfigNoMapping(_FromConfig):
    name = _FromConfig.qual + " [no site mapping]"
    missing = "site_mapping"


@contract
class FromConfigNoState(_FromConfig):
    name = _FromConfig.qual + " [no initial state]"
    missing = "initial"
    occ_given = False

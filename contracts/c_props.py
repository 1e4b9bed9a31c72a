"""Transport formulas, sampling schedule, records."""
from pyvc.contract import *
from pyvc.values import *

PR = "kmcpy.simulator.property"
TR = "kmcpy.simulator.tracker"
FIELDS = ("msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor")
KB = z3.RealVal("0.08617333262145")
A2C = z3.RealVal("1/10000000000000000")


class _Transport(Contract):
    qual = PR + ":compute_transport_properties"
    props = ("C07",)
    max_s = 200
    flags = False

    def inputs(self, h):
        n = h.pos("n_ions")
        d = h.nd("disp", (n, 3))
        hops = h.nd("hops", (n,), "int")
        h.assume(h.forall(0, n, lambda i: hops.fn(i) >= 0))
        t, V, q, T, a = (h.real(x) for x in ("time", "volume", "charge", "temperature", "hop_distance"))
        dim = h.int("dimension")
        h.assume(And(t >= 0, V > 0, T > 0, a > 0, dim >= 1, dim <= 3))
        en = None
        if self.flags:
            # one arbitrary quantity switched on or off by an arbitrary flag; the others explicitly on
            en = DictV({f: (h.bool("enabled_" + f) if self.flags in (f, "all") else True) for f in FIELDS})
        return {"displacement": d, "hop_counter": hops, "sim_time": t, "dimension": dim, "n_mobile_ion_specie": n,
                "elementary_hop_distance": a, "volume": V, "mobile_ion_charge": q, "temperature": T, "enabled": en}

    def ensures(self, h, a, o, r):
        d, hops, t, dim, n = a["displacement"], a["hop_counter"], a["sim_time"], z3.ToReal(a["dimension"]), a["n_mobile_ion_specie"]
        N = z3.ToReal(n)
        sq = lambda i: sum((d.fn(i, j) * d.fn(i, j) for j in range(1, 3)), d.fn(i, 0) * d.fn(i, 0))
        tot = [h.sum(n, lambda i, j=j: d.fn(i, j)) for j in range(3)]
        en = (lambda f: zbool(a["enabled"].d[f])) if self.flags else (lambda f: z3.BoolVal(True))
        get = lambda f: h.it.resolve(h.it.getitem(r, f))
        msd = h.sum(n, sq) / N

        def val(f, defined, v):
            x = get(f)
            nan = isinstance(x, float) and x != x
            if nan:
                return Or(Not(en(f)), Not(defined))
            return And(en(f), defined, h.eq(x, v))
        yield "msd is the mean of |d|^2", val("msd", True, msd)
        jd = sum((x * x for x in tot[1:]), tot[0] * tot[0]) / (2 * dim * t * N) * A2C
        td = msd / (2 * dim * t) * A2C
        yield "jump diffusivity |sum d|^2/(2 dim t N) in cm^2/s", val("jump_diffusivity", t > 0, jd)
        yield "tracer diffusivity MSD/(2 dim t) in cm^2/s", val("tracer_diffusivity", t > 0, td)
        yield "results are exactly the six quantities", set(r.d) == set(FIELDS)
        yield "conductivity D_J (N/V) q^2/(kB T), in mS/cm", val("conductivity", t > 0, jd * (N / a["volume"]) * a["mobile_ion_charge"] * a["mobile_ion_charge"] / (KB * a["temperature"]) * z3.RealVal("160200000000"))
        x = get("havens_ratio")
        if isinstance(x, float) and x != x:
            yield "Haven's ratio undefined", Or(Not(en("havens_ratio")), Not(t > 0), jd == 0)
        else:
            yield "Haven's ratio D_tracer/D_jump", And(en("havens_ratio"), t > 0, jd != 0, to_real(x) * jd == td)
        aa = a["elementary_hop_distance"]
        yield "correlation factor: mean of |d|^2/(hops a^2)", val("correlation_factor", True, h.sum(n, lambda i: z3.If(
            hops.fn(i) == 0, z3.RealVal(0), sq(i) / (z3.ToReal(hops.fn(i)) * (aa * aa)))) / N)


@contract
class Transport(_Transport):
    pass


for _f in FIELDS:
    contract(type("TransportFlag_" + _f, (_Transport,), {"name": _Transport.qual + f" [{_f} on/off]", "flags": _f}))

contract(type("TransportFlags", (_Transport,), {"name": _Transport.qual + " [any subset on/off]", "flags": "all", "thorough_only": True, "max_s": 400}))


# ------------------------------------------------------------ schedule and records (C08)
def opt(h, v, name):
    return h.opt(v, name)


@contract
class Trigger(Contract):
    qual = PR + ":should_trigger"
    props = ("C08",)

    def inputs(self, h):
        iv, ti, last = h.int("interval"), h.real("time_interval"), h.real("last")
        h.assume(And(iv > 0, ti > 0))
        step = h.nat("step")
        return {"step": step, "sim_time": h.real("time"), "interval": opt(h, iv, "no_interval"), "time_interval": opt(h, ti, "no_time_interval"),
                "last_trigger_time": opt(h, last, "never_triggered")}

    def havoc(self, h, a):
        return h.bool("due")

    def ensures(self, h, a, o, r):
        yield "due exactly on schedule", zbool(r) == zbool(due(h, a["step"], a["sim_time"], a["interval"], a["time_interval"], a["last_trigger_time"]))


def some(v):
    """(is present, value) of an optional"""
    if v is None:
        return False, z3.RealVal(0)
    if isinstance(v, OptV):
        p, x = some(v.val)
        return And(Not(zbool(v.is_none)), p), x
    return True, v


def due(h, step, t, interval, time_interval, last):
    pi, iv = some(interval)
    pt, ti = some(time_interval)
    pl, la = some(last)
    s = And(pi, step > 0, to_int(step) % to_int(iv) == 0) if pi is not False else False
    w = And(pt, to_real(t) - z3.If(zbool(pl), to_real(la), z3.RealVal(0)) >= to_real(ti)) if pt is not False else False
    return Or(s, w)


@contract
class Append(Contract):
    qual = PR + ":append_record"
    props = ("C08",)

    def inputs(self, h):
        n = h.nat("n_records")
        rec = h.fn("old_record", "int", "int")
        mx = h.pos("max_records")
        recs = SeqV("list", n=n, fn=lambda i: rec(to_int(i)))
        spec = h.rec(PR + ":PropertySpec", name=h.str("name"), max_records=opt(h, mx, "no_limit"))
        # the limit has been kept so far
        h.assume(Or(zbool(spec.fields["max_records"].is_none), n <= mx))
        return {"records": recs, "spec": spec, "step": h.int("step"), "sim_time": h.real("time"), "value": h.obj("value"), "_x": (n, rec, mx)}

    def ensures(self, h, a, o, r):
        n, rec, mx = a["_x"]
        p, m = some(a["spec"].fields["max_records"])
        L = h.len(a["records"])
        full = And(p, n + 1 > mx)
        yield "number of records", h.eq(L, z3.If(zbool(full), mx, n + 1))
        last = h.it.resolve(h.at(a["records"], to_int(L) - 1))
        yield "newest record is the sample", And(h.eq(h.get(last, "name"), a["spec"].fields["name"]), h.eq(h.get(last, "step"), a["step"]),
                                                 h.eq(h.get(last, "time"), a["sim_time"]), h.eq(h.get(last, "value"), a["value"]))
        k = h.int("k")
        h.assume(And(0 <= k, k < to_int(L) - 1))
        yield "older records kept in order", h.eq(h.at(a["records"], k), rec(n - (to_int(L) - 1) + k))


@contract
class ValidateSchedule(Contract):
    qual = PR + ":validate_schedule"
    props = ("C08", "C14")

    def inputs(self, h):
        return {"interval": opt(h, h.int("interval"), "no_interval"), "time_interval": opt(h, h.real("time_interval"), "no_time_interval")}

    def havoc(self, h, a):
        return None

    def raises(self, h, a, o):
        pi, iv = some(a["interval"])
        pt, ti = some(a["time_interval"])
        return [("ValueError", Or(And(pi, to_int(iv) <= 0) if pi is not False else False, And(pt, to_real(ti) <= 0) if pt is not False else False))]


@contract
class ValidateScheduleType(Contract):
    name = PR + ":validate_schedule [interval not an integer]"
    qual = PR + ":validate_schedule"
    props = ("C08", "C14")

    def inputs(self, h):
        return {"interval": h.real("interval"), "time_interval": None}

    def raises(self, h, a, o):
        return [("TypeError", True)]


@contract
class ValidateMax(Contract):
    qual = PR + ":validate_max_records"
    props = ("C08", "C14")

    def inputs(self, h):
        return {"max_records": opt(h, h.int("max_records"), "no_limit")}

    def havoc(self, h, a):
        return None

    def raises(self, h, a, o):
        p, m = some(a["max_records"])
        return [("ValueError", And(p, to_int(m) <= 0) if p is not False else False)]


SPEC = PR + ":PropertySpec"


@contract
class MakeSpec(Contract):
    qual = PR + ":make_property_spec"
    props = ("C08",)
    uses = (PR + ":validate_schedule", PR + ":validate_max_records")

    def inputs(self, h):
        f = h.stub("callback", {"__call__": lambda it, self, *a, **k: None})
        nm = h.str("name")
        ex = h.fn("attached", "str", "bool")
        h.assume(Not(h.eq(nm, "")))
        return {"func": f, "interval": opt(h, h.int("interval"), "no_interval"), "time_interval": opt(h, h.real("time_interval"), "no_time_interval"),
                "name": nm, "store": h.bool("store"), "max_records": opt(h, h.int("max_records"), "no_limit"), "on_error": None,
                "enabled": h.bool("enabled"), "existing_names": SetV(mem=lambda v: ex(h.it.to_str(v)) if hasattr(h.it, "to_str") else ex(v)), "_ex": ex}

    def raises(self, h, a, o):
        pi, iv = some(a["interval"])
        pt, ti = some(a["time_interval"])
        pm, m = some(a["max_records"])
        bad = lambda p, c: And(p, c) if p is not False else False
        return [("ValueError", Or(bad(pi, to_int(iv) <= 0), bad(pt, to_real(ti) <= 0), bad(pm, to_int(m) <= 0),
                                  *[h.eq(a["name"], f) for f in FIELDS], a["_ex"](a["name"])))]

    def ensures(self, h, a, o, r):
        g = lambda k: h.get(r, k)
        yield "spec carries exactly the given settings", And(*[h.eq(g(k), a[k]) for k in ("name", "interval", "time_interval", "store", "max_records", "enabled")],
                                                             g("callback") is a["func"], g("on_error") is None)
        yield "counters start fresh", And(h.eq(g("last_trigger_time"), None), h.eq(g("last_trigger_step"), 0))


def mk_spec(h, tag, raising, handler, store=None):
    """one attached property with arbitrary schedule; its callback returns or raises, as does its handler decide"""
    calls = []
    val = h.obj("value_" + tag)

    def cb(it, self, *a, **k):
        calls.append(a)
        if raising:
            it.raise_("ValueError")
        return val
    keep = h.bool("keep_" + tag)
    hcalls = []

    def eh(it, self, *a, **k):
        hcalls.append(a)
        return keep
    iv, ti, la = h.int("interval_" + tag), h.real("time_interval_" + tag), h.real("last_" + tag)
    h.assume(And(iv > 0, ti > 0))
    f = dict(name=tag, callback=h.stub("cb_" + tag, {"__call__": cb}), interval=opt(h, iv, "ni_" + tag), time_interval=opt(h, ti, "nt_" + tag),
             store=h.bool("store_" + tag) if store is None else store, max_records=None, enabled=h.bool("enabled_" + tag),
             on_error=h.stub("handler_" + tag, {"__call__": eh}) if handler else None,
             last_trigger_step=h.int("last_step_" + tag), last_trigger_time=opt(h, la, "never_" + tag))
    r = h.rec(SPEC, **f)
    return r, {"calls": calls, "hcalls": hcalls, "val": val, "keep": keep, "f": dict(f)}


class _Sample(Contract):
    qual = TR + ":Tracker.sample_properties"
    props = ("C08",)
    uses = (PR + ":should_trigger",)
    kinds = (("a", False, False),)
    max_s = 200

    def inputs(self, h):
        specs = [mk_spec(h, *k) for k in self.kinds]
        gi, gt = h.int("global_interval"), h.real("global_time_interval")
        h.assume(And(gi > 0, gt > 0))
        st = h.stub("state", occupations=h.ilist("occ"), time=h.real("state_time"), step=h.int("state_step"))
        recs = DictV({k[0]: SeqV("list", n=h.nat("n_" + k[0]), fn=(lambda i, g=h.fn("rec_" + k[0], "int", "int"): g(to_int(i)))) for k in self.kinds})
        t = h.rec(TR + ":Tracker", state=st, _properties=DictV({s.fields["name"]: s for s, _ in specs}), _property_records=recs,
                  _global_interval=opt(h, gi, "ngi"), _global_time_interval=opt(h, gt, "ngt"), results=DictV({}))
        t.stubs = {"_sample_transport_summary": lambda it, self, *a, **k: None}
        step, tm = h.nat("step"), h.real("time")
        return {"self": t, "step": step, "sim_time": tm, "_x": (specs, gi, gt, st)}

    def old(self, h, a):
        t = a["self"]
        return {"n": {k: v.length() for k, v in t.fields["_property_records"].d.items()}, "gi": t.fields["_global_interval"], "gt": t.fields["_global_time_interval"]}

    def due(self, h, a, o, x):
        f = x["f"]
        pi, iv = some(f["interval"])
        pt, ti = some(f["time_interval"])
        gi, gv = some(o["gi"])
        gt, gtv = some(o["gt"])
        own = Or(pi, pt)          # the global cadence is for properties without their own
        I = OptV(Not(Or(pi, And(Not(own), gi))), z3.If(zbool(own), iv, gv))
        T = OptV(Not(Or(pt, And(Not(own), gt))), z3.If(zbool(own), ti, gtv))
        return And(zbool(f["enabled"]), due(h, a["step"], a["sim_time"], I, T, f["last_trigger_time"]))

    def raises(self, h, a, o):
        specs = a["_x"][0]
        c = []
        for (nm, raising, handler), (s, x) in zip(self.kinds, specs):
            if raising:
                c.append(And(self.due(h, a, o, x), Not(x["keep"]) if handler else True))
        return [("CallbackExecutionError", Or(*c))] if c else []

    def ensures(self, h, a, o, r):
        specs, gi, gt, st = a["_x"]
        t = a["self"]
        for (nm, raising, handler), (s, x) in zip(self.kinds, specs):
            d = self.due(h, a, o, x)
            called = len(x["calls"])
            yield f"{nm}: evaluated exactly when due, once", zbool(d) if called == 1 else And(Not(d), called == 0)
            if called == 1:
                ar = x["calls"][0]
                yield f"{nm}: evaluated on the state at this step and time", And(h.it.resolve(ar[0]) is st, h.eq(ar[1], a["step"]), h.eq(ar[2], a["sim_time"]))
            rec = h.it.resolve(t.fields["_property_records"].d[nm])
            n0 = o["n"][nm]
            stored = bool(called) and not raising
            add = z3.If(zbool(x["f"]["store"]), 1, 0) if stored else 0
            yield f"{nm}: a record iff evaluated and stored", h.eq(h.len(rec), n0 + add)
            if stored:
                last = h.it.resolve(h.at(rec, to_int(h.len(rec)) - 1))
                if isinstance(last, RecV):
                    yield f"{nm}: record carries step, time and value", And(h.eq(last.fields["step"], a["step"]), h.eq(last.fields["time"], a["sim_time"]), h.eq(last.fields["value"], x["val"]), h.eq(last.fields["name"], nm))
                else:
                    yield f"{nm}: not stored", Not(zbool(x["f"]["store"]))
            lt = s.fields["last_trigger_time"]
            yield f"{nm}: last evaluation time", h.eq(lt, a["sim_time"]) if called else h.eq(lt, x["f"]["last_trigger_time"])


@contract
class SampleOne(_Sample):
    name = _Sample.qual + " [one property]"


@contract
class SampleTwo(_Sample):
    name = _Sample.qual + " [failing property with handler, then another]"
    kinds = (("a", True, True), ("b", False, False))


@contract
class SampleFail(_Sample):
    name = _Sample.qual + " [failing property without handler]"
    kinds = (("a", True, False),)


@contract
class Wiring(Contract):
    """the summary row is computed from the tracker's own trajectory and configuration, on the global schedule"""
    qual = TR + ":Tracker._sample_transport_summary"
    props = ("C07", "C08")

    def inputs(self, h):
        n = h.nat("n_ions")
        D, C = h.nd("disp", (n, 3)), h.nd("hops", (n,), "int")
        st = h.stub("state", time=h.real("state_time"), occupations=h.ilist("occ"))
        cfg = h.stub("config", dimension=h.int("dimension"), mobile_ion_charge=h.real("charge"), elementary_hop_distance=h.real("hop_distance"),
                     temperature=h.real("temperature"))
        s = h.stub("structure", volume=h.real("volume"))
        gi, gt = h.int("global_interval"), h.real("global_time_interval")
        h.assume(And(gi > 0, gt > 0))
        flags = DictV({f: h.bool("on_" + f) for f in FIELDS})
        m = h.nat("n_rows")
        cols = {f: h.fn("col_" + f, "int", "real") for f in ("time",) + FIELDS}
        res = DictV({f: SeqV("list", n=m, fn=(lambda i, g=g: g(to_int(i)))) for f, g in cols.items()})
        t = h.rec(TR + ":Tracker", state=st, config=cfg, structure=s, displacement=D, hop_counter=C, n_mobile_ion_specie=n,
                  _enabled_builtin_properties=flags, results=res, _global_interval=opt(h, gi, "ngi"), _global_time_interval=opt(h, gt, "ngt"),
                  _last_summary_trigger_time=opt(h, h.real("last"), "never"))
        out = {f: h.real("value_" + f) for f in FIELDS}
        step, tm = h.nat("step"), h.real("time")
        return {"self": t, "step": step, "sim_time": tm, "_x": (D, C, n, st, cfg, s, flags, out, m, cols)}

    def stub_compute(self, it, args, kw):
        self.seen.append((list(args), dict(kw)))
        return DictV(dict(self.out))

    def old(self, h, a):
        t = a["self"]
        self.seen, self.out = [], a["_x"][7]
        return {k: t.fields[k] for k in ("_global_interval", "_global_time_interval", "_last_summary_trigger_time")}

    @property
    def stubs(self):
        return {PR + ":compute_transport_properties": lambda it, f, args, kw: self.stub_compute(it, args, kw)}

    def ensures(self, h, a, o, r):
        D, C, n, st, cfg, s, flags, out, m, cols = a["_x"]
        t = a["self"]
        d = due(h, a["step"], a["sim_time"], o["_global_interval"], o["_global_time_interval"], o["_last_summary_trigger_time"])
        k = len(self.seen)
        yield "sampled exactly on the global schedule", zbool(d) if k == 1 else And(Not(d), k == 0)
        if k == 1:
            args, kw = self.seen[0]
            names = ["displacement", "hop_counter", "sim_time", "dimension", "n_mobile_ion_specie", "elementary_hop_distance", "volume",
                     "mobile_ion_charge", "temperature", "enabled"]
            got = dict(zip(names, args)) | kw
            want = dict(displacement=D, hop_counter=C, sim_time=st.fields["time"], dimension=cfg.fields["dimension"], n_mobile_ion_specie=n,
                        elementary_hop_distance=cfg.fields["elementary_hop_distance"], volume=s.fields["volume"],
                        mobile_ion_charge=cfg.fields["mobile_ion_charge"], temperature=cfg.fields["temperature"], enabled=flags)
            for q in names:
                yield f"formula receives the right {q}", h.eq(h.it.resolve(got.get(q)), want[q])
            for f in FIELDS:
                col = h.it.resolve(t.fields["results"].d[f])
                yield f"row stores {f} in its own column", And(h.eq(h.len(col), m + 1), h.eq(h.at(col, m), out[f]))
            col = h.it.resolve(t.fields["results"].d["time"])
            yield "row carries the time", And(h.eq(h.len(col), m + 1), h.eq(h.at(col, m), a["sim_time"]))
            i = h.int("row")
            h.assume(And(0 <= i, i < m))
            yield "earlier rows unchanged", And(*[h.eq(h.at(h.it.resolve(t.fields["results"].d[f]), i), cols[f](i)) for f in cols])
            yield "last summary time", h.eq(t.fields["_last_summary_trigger_time"], a["sim_time"])
        else:
            yield "no row added", And(*[h.eq(h.len(h.it.resolve(t.fields["results"].d[f])), m) for f in cols])


@contract
class CurrentInfo(Contract):
    qual = TR + ":Tracker.return_current_info"
    props = ("C07",)

    def inputs(self, h):
        m = h.nat("n_rows")
        cols = {f: h.fn("col_" + f, "int", "real") for f in ("time",) + FIELDS}
        res = DictV({f: SeqV("list", n=m, fn=(lambda i, g=g: g(to_int(i)))) for f, g in cols.items()})
        return {"self": h.rec(TR + ":Tracker", results=res), "_x": (m, cols)}

    def raises(self, h, a, o):
        return [("ValueError", a["_x"][0] == 0)]

    def ensures(self, h, a, o, r):
        m, cols = a["_x"]
        yield "latest row in the documented order", h.eq(r, tuple(cols[f](m - 1) for f in (
            "time", "msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor")))


@contract
class FreshSpecs(Contract):
    qual = PR + ":PropertyPlan.fresh_attachment_specs"
    props = ("C08",)

    def inputs(self, h):
        ss = [mk_spec(h, t, False, False)[0] for t in "ab"]
        return {"self": h.rec(PR + ":PropertyPlan", _attached_properties=DictV({s.fields["name"]: s for s in ss})), "_s": ss}

    def old(self, h, a):
        return [dict(s.fields) for s in a["_s"]]

    def ensures(self, h, a, o, r):
        yield "one per attachment", h.eq(h.len(r), 2)
        for i in range(2):
            x = h.it.resolve(h.at(r, i))
            yield f"{i}: a new object", x is not a["_s"][i]
            yield f"{i}: counters reset", And(h.eq(x.fields["last_trigger_time"], None), h.eq(x.fields["last_trigger_step"], 0))
            yield f"{i}: same settings in order", And(*[h.eq(x.fields[k], o[i][k]) for k in o[i] if not k.startswith("last_")])
            yield f"{i}: plan unchanged", And(*[h.eq(a["_s"][i].fields[k], o[i][k]) for k in o[i]])


@contract
class SetFlag(Contract):
    qual = PR + ":set_property_enabled_flag"
    props = ("C08",)

    def inputs(self, h):
        b = DictV({f: h.bool("on_" + f) for f in FIELDS})
        s, _ = mk_spec(h, "a", False, False)
        return {"builtin_enabled": b, "attached_properties": DictV({"a": s}), "name": h.str("name"), "enabled": h.bool("enabled"), "_s": s}

    def old(self, h, a):
        return {"b": dict(a["builtin_enabled"].d), "e": a["_s"].fields["enabled"], "f": dict(a["_s"].fields)}

    def raises(self, h, a, o):
        return [("ValueError", And(*[Not(h.eq(a["name"], f)) for f in FIELDS + ("a",)]))]

    def ensures(self, h, a, o, r):
        yield "exactly the named quantity is switched", And(*[h.eq(a["builtin_enabled"].d[f], z3.If(zbool(h.eq(a["name"], f)), a["enabled"], o["b"][f])) for f in FIELDS],
                                                           h.eq(a["_s"].fields["enabled"], z3.If(zbool(h.eq(a["name"], "a")), a["enabled"], o["e"])))
        yield "nothing else changes", And(set(a["builtin_enabled"].d) == set(o["b"]), *[h.eq(a["_s"].fields[k], o["f"][k]) for k in o["f"] if k != "enabled"])

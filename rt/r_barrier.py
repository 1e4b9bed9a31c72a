"""C10: local barrier rules against an independent reading of the documentation."""
import copy
from .common import *
from .build import *
from .r_rates import freeze

ALIAS0 = ("occupied", "match", "template", "Occupied", " TEMPLATE ")
ALIAS1 = ("vacant", "vacancy", "mismatch", "other", "Vacant")
SELECT = ("canonical", "local_env", "mobile_ion", "from", "to", "all")


class Reject(Exception):
    pass


def canon(ev):
    out = []
    for x in tuple(ev.mobile_ion_indices) + tuple(ev.local_env_indices):
        if x not in out:
            out.append(x)
    return out


def sel(spec, ev, n):
    f, t = ev.mobile_ion_indices
    if not isinstance(spec, str):
        return list(spec)
    return {"canonical": canon(ev), "local_env": list(ev.local_env_indices), "mobile_ion": [f, t], "from": [f], "to": [t], "all": list(range(n))}[spec]


def spell(r, v):
    """one of the ways to write state v"""
    c = [v, str(v), f" {v} "]
    if v == 0:
        c += list(ALIAS0)
    if v == 1:
        c += list(ALIAS1)
    return r.choice(c) if r.b(0.6) else v


def rand_rule(r, n, events, ns, k, species_ok):
    """(rule as given, predicate(occ, event) -> bool, or Reject)"""
    typ = r.choice(["constant", "exact", "exact", "pattern", "pattern", "state_count", "state_count", "state_count"] + (["species_count"] * 3 if species_ok else []))
    if typ == "constant" and r.b(0.7):
        typ = "state_count"
    rule, ev = {"type": typ}, r.choice(events)
    props = {"barrier": r.uniform(10, 900), "extra": r.uniform(-5, 5)}
    if r.b(0.4):
        rule["properties"] = dict(props)
    else:
        rule["barrier"] = props["barrier"] if r.b(0.8) else int(props["barrier"])
        props = {"barrier": float(rule["barrier"])}
        if r.b(0.3):
            props["extra"] = 1.5
            rule["properties"] = {"extra": 1.5}
    if r.b(0.5):
        rule["name"] = f"rule{k}"
    con = {}
    if typ != "exact" and r.b(0.25):
        con["mobile_ion_indices"] = tuple(ev.mobile_ion_indices) if r.b(0.8) else tuple(reversed(ev.mobile_ion_indices))
        rule["mobile_ion_indices"] = list(con["mobile_ion_indices"])
    if typ != "exact" and r.b(0.2):
        e = list(ev.local_env_indices)
        if r.b(0.3):
            r.shuffle(e)
        con["local_env_indices"] = tuple(e)
        rule["local_env_indices"] = e

    def ok_event(e):
        return all(tuple(getattr(e, q)) == v for q, v in con.items())
    if typ == "constant":
        pred = lambda occ, e: True
    elif typ == "exact":
        c = canon(ev)
        want = [r.randrange(ns) for _ in c]
        rule.update(mobile_ion_indices=list(ev.mobile_ion_indices), local_env_indices=list(ev.local_env_indices), occupations=[spell(r, v) for v in want])
        m, l = tuple(ev.mobile_ion_indices), tuple(ev.local_env_indices)
        pred = lambda occ, e: (tuple(e.mobile_ion_indices), tuple(e.local_env_indices)) == (m, l) and [occ[i] for i in c] == want
        if r.b(0.3):
            del rule["type"]
        rule["_key"] = (m, tuple(c), tuple(want))
    else:
        sp = r.choice(SELECT) if r.b(0.75) else [r.randrange(n) for _ in range(r.i(1, 5))]
        if r.b(0.85):
            rule["sites"] = tuple(sp) if not isinstance(sp, str) and r.b(0.3) else sp
        else:
            sp = "canonical" if typ == "pattern" else "local_env"
        if typ == "pattern":
            L = len(sel(sp, ev, n)) if r.b(0.93) else r.i(1, 6)
            if L == 0:
                L = 1
            pat = ["*" if r.b(0.45) else r.randrange(ns) for _ in range(L)]
            rule["pattern"] = [p if p == "*" else spell(r, p) for p in pat]

            def pred(occ, e):
                s = sel(sp, e, n)
                if len(s) != len(pat):
                    raise Reject("ValueError")
                return all(p == "*" or p == occ[i] for p, i in zip(pat, s))
        else:
            m = r.random()
            cons = {"count": r.i(0, 4)} if m < 0.35 else {"min_count": r.i(0, 4)} if m < 0.6 else {"max_count": r.i(0, 4)} if m < 0.8 else {"min_count": r.i(0, 3), "max_count": r.i(1, 5)}
            rule.update(cons)
            inb = lambda c: c == cons.get("count", c) and c >= cons.get("min_count", c) and c <= cons.get("max_count", c)
            if typ == "state_count":
                v = r.randrange(ns)
                rule["occupation" if r.b(0.25) else "state"] = spell(r, v)
                pred = lambda occ, e: inb(sum(1 for i in sel(sp, e, n) if occ[i] == v))
            else:
                names = r.sample(["P", "Si", "Al", "S"], r.i(1, 2))
                rule["species"] = names[0] if len(names) == 1 and r.b() else (list(names) if r.b() else tuple(names))

                def pred(occ, e):
                    c = 0
                    for i in sel(sp, e, n):
                        lab = species_ok.get(i, {}).get(occ[i])
                        if lab is None:
                            raise Reject("ValueError")
                        c += lab in names
                    return inb(c)
        if typ != "constant" and "type" in rule and r.b(0.15) and not (typ in ("state_count",) and "mobile_ion_indices" in rule and "occupations" in rule):
            del rule["type"]
    full = lambda occ, e: ok_event(e) and pred(occ, e)
    return rule, full, props


def clean(rule):
    return {k: v for k, v in rule.items() if not k.startswith("_")}


def setup(r):
    n, ns = r.i(3, 9), r.i(2, 4)
    evs = [rand_event(r, n, env_max=5) for _ in range(r.i(1, 4))]
    sp = {}
    if r.b(0.7):
        for i in range(n):
            if r.b(0.97):
                sp[i] = {s: r.choice(["P", "Si", "Al", "S"]) for s in range(ns) if r.b(0.98)}
    rules, seen = [], set()
    for k in range(r.i(0, 7)):
        x = rand_rule(r, n, evs, ns, k, sp)
        key = x[0].get("_key")
        if key in seen and key is not None:
            continue
        seen.add(key)
        rules.append(x)
    return n, ns, evs, sp, rules


def add_any(r, m, rule):
    """add a rule through add_rule or the convenience method of its type"""
    t = rule.get("type")
    if r.b(0.5) or "occupation" in rule:
        return m.add_rule(clean(rule))
    kw = {k: v for k, v in clean(rule).items() if k in ("barrier", "properties", "name")}
    if t == "exact":
        return m.add_exact_rule(rule["mobile_ion_indices"], rule["local_env_indices"], rule["occupations"], **kw)
    if t in ("state_count", "species_count", "pattern") and "mobile_ion_indices" not in rule and "local_env_indices" not in rule:
        for k in ("sites", "count", "min_count", "max_count"):
            if k in rule:
                kw[k] = rule[k]
        if t == "state_count":
            return m.add_state_count_rule(rule["state"], **kw)
        if t == "species_count":
            return m.add_species_count_rule(rule["species"], **kw)
        return m.add_pattern_rule(rule["pattern"], **kw)
    return m.add_rule(clean(rule))


def build(r, rules, **kw):
    LBM = need("kmcpy.models", "LocalBarrierModel")
    m = r.random()
    if m < 0.4:
        return LBM(rules=[clean(x[0]) for x in rules], **kw)
    mod = LBM(**kw)
    if m < 0.6:
        mod.build(rules=[clean(x[0]) for x in rules])
        return mod
    for x in rules:
        add_any(r, mod, x[0])
    return mod


def expect(rules, default, occ, e, prop):
    for rule, pred, props in rules:
        if pred(occ, e):
            if prop not in props:
                raise Reject("KeyError")
            return props[prop]
    if default is None or prop not in default:
        raise Reject("KeyError")
    return default[prop]


def run_rules(r, rt_trip=False):
    State = need("kmcpy.simulator.state", "State")
    LBM = need("kmcpy.models", "LocalBarrierModel")
    n, ns, evs, sp, rules = setup(r)
    kw, default = {}, None
    m = r.random()
    if m < 0.4:
        kw["default_barrier"] = 333.0
        default = {"barrier": 333.0}
    elif m < 0.8:
        default = {"barrier": 200.0, "extra": -1.0}
        kw["default_properties"] = dict(default)
        if r.b(0.3):
            kw["default_barrier"] = 999.0
    if sp:
        kw["site_species"] = {(str(k) if r.b(0.3) else k): {(str(s) if r.b(0.3) else s): v for s, v in d.items()} for k, d in sp.items()}
    dp = "barrier"
    if r.b(0.2):
        kw["default_property"] = dp = "extra"
    mod = build(r, rules, **kw)
    if rt_trip:
        before = mod.as_dict()
        if r.b(0.5):
            mod = LBM.from_dict(json.loads(json.dumps(before)))
        else:
            with scratch() as d:
                mod.to(str(d / "m.json"))
                mod = LBM.from_file(str(d / "m.json"))
    for _ in range(8):
        occ = [r.randrange(ns) for _ in range(n)]
        e = r.choice(evs)
        # aim at exact rules
        ex = [x[0]["_key"] for x in rules if "_key" in x[0]]
        if ex and r.b(0.4):
            k = r.choice(ex)
            for i, v in zip(k[1], k[2]):
                occ[i] = v
            if r.b(0.3):
                occ[r.choice(k[1])] = r.randrange(ns)
        st = State(occupations=list(occ))
        prop = r.choice([None, None, "barrier", "extra"])
        b4 = freeze(st, e)
        info = dict(rules=[clean(x[0]) for x in rules], occ=occ, mobile=e.mobile_ion_indices, env=e.local_env_indices, default=default, prop=prop or dp, site_species=sp)
        try:
            want = expect(rules, default, occ, e, prop or dp)
        except Reject as x:
            try:
                got = mod.compute(st, e, prop)
            except (KeyError, ValueError, IndexError) as g:
                check(type(g).__name__ == str(x), f"expected {x}, got {type(g).__name__}", **info)
            else:
                raise Fail(f"value {got} returned where {x} is due", **info)
        else:
            try:
                got = mod.compute(st, e, prop) if r.b() else mod.compute(simulation_state=st, event=e, property_name=prop)
            except (KeyError, ValueError, IndexError, TypeError) as g:
                raise Fail(f"{type(g).__name__}: {g} where a rule or default applies", want=want, **info)
            check(close(got, want, 1e-12), f"barrier {got} is not the one of the first matching rule ({want})", **info)
            check(freeze(st, e) == b4, "evaluation changed the state or the event", **info)
    return mod


@case("C10", weight=3)
def first_matching_rule_wins(r):
    run_rules(r)


@case("C10", "C13")
def rules_survive_serialisation(r):
    run_rules(r, True)


@case("C10")
def value_depends_only_on_named_sites(r):
    State = need("kmcpy.simulator.state", "State")
    n, ns, evs, sp, rules = setup(r)
    rules = [x for x in rules if x[0].get("sites") in (None, "canonical", "local_env", "mobile_ion", "from", "to")]
    kw = {"site_species": sp} if sp else {}
    mod = build(r, rules, default_barrier=1.0, **kw)
    for e in evs:
        out = [i for i in range(n) if i not in canon(e)]
        if not out:
            continue
        occ = [r.randrange(ns) for _ in range(n)]

        def val(o):
            try:
                return mod.compute(State(occupations=list(o)), e)
            except (ValueError, KeyError) as x:
                return type(x).__name__
        v0 = val(occ)
        for _ in range(4):
            o2 = list(occ)
            for i in out:
                o2[i] = r.randrange(ns)
            check(val(o2) == v0, "barrier depends on a site the rules do not name", occ=occ, other=o2, event=(e.mobile_ion_indices, e.local_env_indices), rules=[clean(x[0]) for x in rules])


@case("C10")
def snapshot_rules_match_their_snapshot(r):
    State = need("kmcpy.simulator.state", "State")
    LBM = need("kmcpy.models", "LocalBarrierModel")
    n, ns = r.i(3, 8), r.i(2, 4)
    e = rand_event(r, n, env_max=6)
    entries, want = [], {}
    for k in range(r.i(1, 6)):
        occ = [r.randrange(ns) for _ in range(n)]
        key = tuple(occ[i] for i in canon(e))
        ent = LBM.entry_from_event_state(e, State(occupations=occ), {"barrier": 100.0 + k})
        if key in want:
            check(raises(ValueError, LBM.from_exact_entries, entries + [ent]), "duplicate exact rule accepted", entry=ent)
            continue
        entries.append(ent)
        want[key] = 100.0 + k
    mod = LBM.from_exact_entries(entries, default_barrier=5.0)
    for _ in range(15):
        occ = [r.randrange(ns) for _ in range(n)]
        if r.b(0.6):
            for i, v in zip(canon(e), r.choice(list(want))):
                occ[i] = v
        got = mod.compute(State(occupations=occ), e)
        w = want.get(tuple(occ[i] for i in canon(e)), 5.0)
        check(got == w, f"exact entry: got {got}, want {w}", occ=occ, entries=entries)
    # duplicates stay rejected after a rebuild and through any spelling
    ent = dict(r.choice(entries))
    ent["occupations"] = [spell(r, int(v)) for v in ent["occupations"]]
    ent["properties"] = {"barrier": 1.0}
    before = mod.as_dict()
    check(raises(ValueError, mod.add_rule, ent), "duplicate exact rule accepted", entry=ent)
    check(mod.as_dict() == before, "rejected rule changed the model")
    mod.build(rules=[ent])
    check(len(mod.rules) == 1, "build does not replace the rules", n=len(mod.rules))


@case("C10")
def malformed_rules_are_rejected(r):
    LBM = need("kmcpy.models", "LocalBarrierModel")
    State = need("kmcpy.simulator.state", "State")
    ok = {"exact": dict(type="exact", mobile_ion_indices=[0, 1], local_env_indices=[1, 2], occupations=[0, 1, 0], barrier=1.0),
          "pattern": dict(type="pattern", pattern=["*", 1], sites="mobile_ion", barrier=1.0),
          "state_count": dict(type="state_count", state=1, min_count=1, barrier=1.0),
          "species_count": dict(type="species_count", species="Si", count=1, barrier=1.0),
          "constant": dict(type="constant", barrier=1.0)}
    bad = []
    for t, d in ok.items():
        LBM(rules=[d])
        bad += [(t, dict(d, barrier=x)) for x in (True, "3", None)]
        bad += [(t, {k: v for k, v in d.items() if k != "barrier"})]
        bad += [(t, dict({k: v for k, v in d.items() if k != "barrier"}, properties=x)) for x in ({}, {"": 1.0}, {"barrier": True}, {"barrier": "1"}, {1: 2.0})]
        bad += [(t, dict(d, type=x)) for x in ("other", "", 3, "  ")]
        bad += [(t, dict(d, mobile_ion_indices=x)) for x in ([], [0, 1.0], [True, 1], "01", [0, "1"])]
        bad += [(t, dict(d, local_env_indices=x)) for x in ([0.5], [False], "1")]
    for t in ("state_count", "species_count"):
        d = {k: v for k, v in ok[t].items() if k not in ("count", "min_count", "max_count")}
        bad += [(t, dict(d, **x)) for x in ({}, {"count": -1}, {"min_count": -1}, {"max_count": -2}, {"count": 1.0}, {"min_count": True}, {"max_count": "2"},
                                            {"count": 1, "min_count": 1}, {"count": 1, "max_count": 2}, {"count": 0, "min_count": 0, "max_count": 0}, {"min_count": 1, "max_count": -1})]
    for t in ("state_count", "species_count", "pattern"):
        bad += [(t, dict(ok[t], sites=x)) for x in ("neighbours", "", [], [True], [0.0], 3)]
    bad += [("state_count", dict(ok["state_count"], state=x)) for x in (-1, True, None, "x", "-2", 1.0, [1])]
    bad += [("pattern", dict(ok["pattern"], pattern=x)) for x in ([], "*1", ["*", -1], [True, 1], ["?", 1], None, [1.5, 0])]
    bad += [("species_count", dict(ok["species_count"], species=x)) for x in ([], None, 3, [""], ["Si", 2], ["Si", " "])]
    bad += [("exact", dict(ok["exact"], occupations=x)) for x in ([], [0, 1], [0, 1, 0, 1], [0, 1, -1], [0, 1, True], "010", None, [0, "zz", 1])]
    bad += [("any", x) for x in (3, None, "constant", [])]
    t, d = bad[r.k % len(bad)]
    mod = LBM(rules=[ok["constant"]], default_barrier=4.0)
    before = mod.as_dict()
    for f in (lambda: LBM(rules=[d]), lambda: LBM(rules=[ok["constant"], d]), lambda: mod.add_rule(d)):
        try:
            f()
        except (TypeError, ValueError):
            continue
        except (KeyError, AttributeError) as x:
            raise Fail(f"malformed {t} rule not rejected cleanly: {type(x).__name__}", rule=d)
        raise Fail(f"malformed {t} rule accepted", rule=d)
    check(mod.as_dict() == before, "rejected rule changed the model", rule=d)
    if r.k < 40:
        for f in (lambda: LBM(rules={}), lambda: LBM(default_barrier=True), lambda: LBM(default_barrier="1"), lambda: LBM(default_properties={}),
                  lambda: LBM(default_properties={"barrier": None}), lambda: LBM(site_species=[1]), lambda: LBM(site_species={"a": {0: "P"}}),
                  lambda: LBM(site_species={0: ["P"]}), lambda: LBM(site_species={0: {0: ""}}), lambda: LBM(site_species={0: {-1: "P"}}), lambda: LBM(site_species={0: {0: 3}}),
                  lambda: LBM(rules=[], probability_mode="other")):
            check(raises((TypeError, ValueError), f), "malformed model argument accepted", case=short(f.__code__.co_consts))
        e = need("kmcpy.event", "Event")(mobile_ion_indices=(0, 1), local_env_indices=(2,))
        m2 = LBM(rules=[ok["constant"]], probability_mode="other") if False else LBM(rules=[ok["constant"]])
        m2.probability_mode = "other"
        check(raises(ValueError, m2.compute_probability, e, mk_config().runtime_config, State(occupations=[0, 1, 0])), "unsupported probability mode accepted")
        check(raises(ValueError, LBM(default_barrier=1.0).compute, None, e), "missing state accepted")
        check(raises(ValueError, LBM(default_barrier=1.0).compute, State(occupations=[0, 1, 0]), None), "missing event accepted")
        out = LBM(rules=[dict(ok["state_count"], sites=[7])], default_barrier=1.0)
        check(raises(IndexError, out.compute, State(occupations=[0, 1, 0]), e), "rule site outside the state accepted")

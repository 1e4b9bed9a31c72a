"""Local barrier rules: site selection, matching, first match, default."""
from pyvc.contract import *
from contracts.c_state import EV, ST, mk_state
from contracts.c_rates import site_event
from contracts.c_event import contains

LB = "kmcpy.models.local_barrier_model"
LBM = LB + ":LocalBarrierModel"


def kept(h, r):
    """(n, kept(k), value(k)): a sequence as the kept positions of a longer one"""
    s = h.it.as_seq(r)
    if s.filt is not None:
        n, c, v = s.filt
        return n, (lambda k: zbool(c(k))), v
    return s.length(), (lambda k: z3.BoolVal(True)), lambda k: h.it.seq_select(s, k)


def items_are(h, seq, n, f):
    """seq has n items, item i is f(i)"""
    s = h.it.as_seq(seq)
    if s.items is not None:
        return And(h.eq(n, len(s.items)), *[h.eq(x, f(i)) for i, x in enumerate(s.items)])
    return And(h.eq(s.length(), n), h.forall(0, n, lambda i: h.eq(h.it.seq_select(s, i), f(i)), "i"))


def least(h, n, p):
    """an index m with: either no k<n has p(k), or m is the smallest such k (well-ordering)"""
    m = h.nat("least")
    h.assume(Or(And(m < n, p(m), h.forall(0, m, lambda j: Not(p(j)), "j")), h.forall(0, n, lambda j: Not(p(j)), "j")))
    return m


@contract
class CanonicalSites(Contract):
    """mobile sites then environment, each site once, in order of first occurrence"""
    qual = LB + ":_canonical_site_indices"
    props = ("C10",)

    def inputs(self, h):
        return {"mobile_ion_indices": (h.int("from"), h.int("to")), "local_env_indices": h.ilist("env", kind="tuple")}

    def ensures(self, h, a, o, r):
        f, t = a["mobile_ion_indices"]
        env = a["local_env_indices"]
        ne = env.length()
        x = h.int("site")
        listed = h.it.seq_concat(SeqV("tuple", items=[f, t]), env, "tuple")
        at = lambda k: to_int(h.it.seq_select(listed, k))
        n, keep, val = kept(h, r)
        m = least(h, ne + 2, lambda k: at(k) == x)
        yield "a listed site appears", Implies(Or(x == f, x == t, contains(h, env, x)), h.exists(0, n, lambda k: And(keep(k), to_int(val(k)) == x), "k"))
        yield "only listed sites appear", Implies(h.exists(0, n, lambda k: And(keep(k), to_int(val(k)) == x), "k"), Or(x == f, x == t, contains(h, env, x)))
        i, j = h.int("i"), h.int("j")
        h.assume(And(0 <= i, i < j, j < n, keep(i), keep(j)))
        yield "no site twice", Not(to_int(val(i)) == to_int(val(j)))
        fi = least(h, ne + 2, lambda k: at(k) == to_int(val(i)))
        fj = least(h, ne + 2, lambda k: at(k) == to_int(val(j)))
        yield "order of first occurrence", fi < fj


def canon_stub(h, log):
    """an arbitrary canonical list; records the arguments it was computed from"""
    n = h.nat("n_canonical")
    f = h.fn("canonical", "int", "int")
    seq = SeqV("tuple", n=n, fn=lambda i: f(to_int(i)))

    def stub(it, fv, args, kw):
        log.append((args, kw))
        return seq
    return seq, stub


class _Norm(Contract):
    qual = LB + ":_normalize_index_sequence"
    props = ("C10",)
    kind = "list"

    def inputs(self, h):
        return {"values": h.ilist("v", kind=self.kind), "field_name": "f", "allow_empty": h.bool("allow_empty")}

    def raises(self, h, a, o):
        return [("ValueError", And(h.eq(h.len(a["values"]), 0), Not(zbool(a["allow_empty"]))))]

    def ensures(self, h, a, o, r):
        yield "a tuple of the same integers", h.eq(r, SeqV("tuple", n=a["values"].n, fn=a["values"].fn))


@contract
class NormList(_Norm):
    name = _Norm.qual + " [list]"


@contract
class NormTuple(_Norm):
    name = _Norm.qual + " [tuple]"
    kind = "tuple"


class _NormBad(Contract):
    qual = LB + ":_normalize_index_sequence"
    props = ("C10",)
    bad = None

    def inputs(self, h):
        items = [h.int("a"), h.int("b"), h.int("c")]
        if self.bad == "str":
            return {"values": "12", "field_name": "f"}
        items[self.pos] = {"bool": h.bool("t"), "float": h.real("x"), "text": h.str("s")}[self.bad]
        return {"values": SeqV("list", items=items), "field_name": "f"}

    def raises(self, h, a, o):
        return [("TypeError", True)]


for _b, _p in (("bool", 0), ("bool", 2), ("float", 1), ("text", 2), ("str", 0)):
    contract(type("NormBad_%s%d" % (_b, _p), (_NormBad,), {"name": f"{_NormBad.qual} [rejects {_b} at {_p}]", "bad": _b, "pos": _p}))


def ev_rec(h, n):
    f, t = h.int("from"), h.int("to")
    h.assume(And(0 <= f, f < n, 0 <= t, t < n))
    return h.rec(EV, mobile_ion_indices=(f, t), local_env_indices=h.ilist("env", kind="tuple"))


# ------------------------------------------------------------ selection
SELECTORS = ("canonical", "local_env", "mobile_ion", "from", "to", "all", "explicit")


def sel_of(h, sel, ev, canon, n, explicit):
    f, t = ev.fields["mobile_ion_indices"]
    return {"canonical": canon, "local_env": ev.fields["local_env_indices"], "mobile_ion": (f, t), "from": (f,), "to": (t,),
            "all": SeqV("tuple", n=n, fn=lambda i: i), "explicit": explicit}[sel]


class _WithCanon(Contract):
    """verified with _canonical_site_indices replaced by its (proved) contract's result"""

    def __init__(self):
        self.log = []
        self.stubs = {LB + ":_canonical_site_indices": self._stub}

    def _stub(self, it, f, args, kw):
        self.log.append((list(args), dict(kw)))
        return self.canon

    def world(self, h):
        self.log = []
        n = h.pos("n_sites")
        occ = h.ilist("occ", n)
        ev = ev_rec(h, n)
        nc = h.pos("n_canonical")
        c = h.fn("canonical", "int", "int")
        self.canon = SeqV("tuple", n=nc, fn=lambda i: c(to_int(i)))
        h.assume(h.forall(0, nc, lambda i: And(0 <= c(to_int(i)), c(to_int(i)) < n)))
        h.assume(h.forall(0, ev.fields["local_env_indices"].n, lambda i: And(0 <= to_int(ev.fields["local_env_indices"].fn(i)), to_int(ev.fields["local_env_indices"].fn(i)) < n)))
        return n, occ, ev

    def canon_ok(self, h, ev):
        """every call asked for the canonical order of this event"""
        out = []
        for args, kw in self.log:
            v = list(args) + list(kw.values())
            out.append(And(len(v) == 2, h.eq(v[0], ev.fields["mobile_ion_indices"]), h.eq(v[1], ev.fields["local_env_indices"])))
        return And(*out) if out else True


class _Selected(_WithCanon):
    qual = LBM + "._selected_sites"
    props = ("C10",)
    sel = None

    def inputs(self, h):
        n, occ, ev = self.world(h)
        ex = h.ilist("explicit", kind="tuple")
        return {"self": h.rec(LBM), "sites": ex if self.sel == "explicit" else self.sel, "event": ev, "occupations": occ, "_n": n, "_ex": ex}

    def ensures(self, h, a, o, r):
        yield "the sites the selector names", h.eq(r, sel_of(h, self.sel, a["event"], self.canon, a["_n"], a["_ex"]))
        yield "canonical order is this event's", self.canon_ok(h, a["event"])


for _s in SELECTORS:
    contract(type("Sel_" + _s, (_Selected,), {"name": f"{_Selected.qual} [{_s}]", "sel": _s}))


@contract
class SelUnknown(_Selected):
    name = _Selected.qual + " [unknown selector]"
    sel = "neighbours"

    def raises(self, h, a, o):
        return [("ValueError", True)]


@contract
class OccPattern(Contract):
    qual = LBM + "._occupation_pattern"
    props = ("C10",)

    def inputs(self, h):
        return {"self": h.rec(LBM), "sites": h.ilist("site", kind="tuple"), "occupations": h.ilist("occ")}

    def old(self, h, a):
        return a["occupations"].fn, a["occupations"].n

    def raises(self, h, a, o):
        s, n = a["sites"], o[1]
        return [("IndexError", h.exists(0, s.n, lambda k: Or(to_int(s.fn(k)) >= n, to_int(s.fn(k)) < -n), "k"))]

    def ensures(self, h, a, o, r):
        s, (occ, n) = a["sites"], o
        k = h.int("k")
        h.assume(And(0 <= k, k < s.n))
        yield "one value per site", h.eq(h.len(r), s.n)
        yield "the current state of that site", Implies(to_int(s.fn(k)) >= 0, h.eq(h.at(r, k), occ(s.fn(k))))


# ------------------------------------------------------------ counts
def counts_dict(h, extra=None):
    d = DictV({"count": h.int("count"), "min_count": h.int("min"), "max_count": h.int("max")} | (extra or {}))
    for k in ("count", "min_count", "max_count"):
        d.present[k] = h.bool("has_" + k)
    return d


def counts_ok(h, c, d):
    p = lambda k: zbool(d.present.get(k, k in d.d))
    g = lambda k: d.d.get(k, 0)
    return And(Implies(p("count"), c == g("count")), Implies(p("min_count"), c >= g("min_count")), Implies(p("max_count"), c <= g("max_count")))


@contract
class CountMatches(Contract):
    qual = LB + ":_count_matches"
    props = ("C10",)

    def inputs(self, h):
        return {"count": h.nat("n"), "constraints": counts_dict(h)}

    def old(self, h, a):
        d = a["constraints"]
        return counts_ok(h, a["count"], d)

    def havoc(self, h, a):
        return h.bool("within_bounds")

    def ensures(self, h, a, o, r):
        yield "every given bound holds, inclusively", zbool(r) == zbool(o)


@contract
class NormCounts(Contract):
    qual = LB + ":_normalize_count_constraints"
    props = ("C10",)

    def inputs(self, h):
        return {"rule": counts_dict(h, {"type": "state_count", "state": h.int("state")})}

    def old(self, h, a):
        d = a["rule"]
        return {k: (zbool(d.present[k]), d.d[k]) for k in ("count", "min_count", "max_count")}

    def raises(self, h, a, o):
        neg = Or(*[And(p, v < 0) for p, v in o.values()])
        none = Not(Or(*[p for p, _ in o.values()]))
        both = And(o["count"][0], Or(o["min_count"][0], o["max_count"][0]))
        return [("ValueError", Or(neg, none, both))]

    def ensures(self, h, a, o, r):
        for k, (p, v) in o.items():
            has = zbool(r.present.get(k, k in r.d))
            yield f"{k} kept as given", And(has == p, Implies(p, h.eq(r.d[k], v)) if k in r.d else True)
        yield "nothing else", set(r.d) <= {"count", "min_count", "max_count"}


class _NormCountsBad(Contract):
    qual = LB + ":_normalize_count_constraints"
    props = ("C10",)

    def inputs(self, h):
        v = {"bool": h.bool("flag"), "float": h.real("x"), "text": h.str("s")}[self.bad]
        return {"rule": DictV({self.key: v})}

    def raises(self, h, a, o):
        return [("TypeError", True)]


for _k in ("count", "min_count", "max_count"):
    for _b in ("bool", "float", "text"):
        contract(type(f"NormCountsBad_{_k}_{_b}", (_NormCountsBad,), {"name": f"{_NormCountsBad.qual} [{_k}: {_b}]", "key": _k, "bad": _b}))


# ------------------------------------------------------------ matching
def rule_constraints(h, d, ev):
    """optional restriction of a rule to one event"""
    d.d["mobile_ion_indices"] = (h.int("rule_from"), h.int("rule_to"))
    d.d["local_env_indices"] = h.ilist("rule_env", kind="tuple")
    for k in ("mobile_ion_indices", "local_env_indices"):
        d.present[k] = h.bool("has_" + k)
    return d


def event_ok(h, d, ev):
    out = []
    for k in ("mobile_ion_indices", "local_env_indices"):
        if k in d.d:
            out.append(Implies(zbool(d.present.get(k, True)), h.eq(d.d[k], ev.fields[k])))
    return And(*out)


@contract
class EventConstraints(_WithCanon):
    qual = LBM + "._event_constraints_match"
    props = ("C10",)

    def inputs(self, h):
        n, occ, ev = self.world(h)
        return {"self": h.rec(LBM), "rule": rule_constraints(h, DictV({"name": "r"}), ev), "event": ev}

    def old(self, h, a):
        return event_ok(h, a["rule"], a["event"])

    def havoc(self, h, a):
        return h.bool("is_named_event")

    def ensures(self, h, a, o, r):
        yield "exactly the event a restricted rule names", zbool(r) == zbool(o)


class _Match(_WithCanon):
    qual = LBM + "._rule_matches"
    props = ("C10",)
    uses = (LB + ":_count_matches", LBM + "._event_constraints_match")
    max_s = 180
    sel = "local_env"

    def inputs(self, h):
        n, occ, ev = self.world(h)
        self.n, self.ex = n, h.ilist("explicit", kind="tuple")
        h.assume(h.forall(0, self.ex.n, lambda i: And(0 <= to_int(self.ex.fn(i)), to_int(self.ex.fn(i)) < n)))
        rule = rule_constraints(h, self.rule(h), ev)
        # the event itself names at least its two endpoints; constrained only through event_ok
        return {"self": self.model(h), "rule": rule, "simulation_state": h.rec(ST, occupations=occ), "event": ev}

    def model(self, h):
        return h.rec(LBM)

    def sites(self, h, a):
        return sel_of(h, self.sel, a["event"], self.canon, self.n, self.ex)

    def rule_sites(self):
        return self.ex if self.sel == "explicit" else self.sel

    def old(self, h, a):
        self.occ0 = a["simulation_state"].fields["occupations"].fn
        return event_ok(h, a["rule"], a["event"])

    def ensures(self, h, a, o, r):
        yield "matches exactly when its conditions hold", zbool(r) == And(zbool(o), self.cond(h, a))
        k = h.int("site")
        yield "state unchanged", h.eq(a["simulation_state"].fields["occupations"].fn(k), self.occ0(k))
        yield "canonical order is this event's", self.canon_ok(h, a["event"])


@contract
class MatchConstant(_Match):
    name = _Match.qual + " [constant]"

    def rule(self, h):
        return DictV({"type": "constant", "name": "r"})

    def cond(self, h, a):
        return True


@contract
class MatchExact(_Match):
    name = _Match.qual + " [exact]"

    def rule(self, h):
        self.rc, self.ro = h.ilist("rule_canonical", kind="tuple"), h.ilist("rule_occ", kind="tuple")
        return DictV({"type": "exact", "name": "r", "canonical_site_indices": self.rc, "occupations": self.ro})

    def cond(self, h, a):
        c = self.canon
        return And(h.eq(c, self.rc), h.eq(self.ro.n, c.n), h.forall(0, c.n, lambda i: h.eq(self.ro.fn(i), self.occ0(c.fn(i))), "i"))


def count_of(h, sites, p):
    s = h.it.as_seq(sites)
    return h.sum(s.length(), lambda k: z3.If(zbool(p(to_int(h.it.seq_select(s, k)))), 1, 0))


class _MatchState(_Match):
    def rule(self, h):
        self.state = h.int("state")
        return counts_dict(h, {"type": "state_count", "name": "r", "sites": self.rule_sites(), "state": self.state})

    def cond(self, h, a):
        return counts_ok(h, count_of(h, self.sites(h, a), lambda x: h.eq(self.occ0(x), self.state)), a["rule"])


for _s in SELECTORS:
    contract(type("MatchState_" + _s, (_MatchState,), {"name": f"{_Match.qual} [state_count, {_s}]", "sel": _s}))


class _MatchPattern(_Match):
    """pattern of arbitrary length; entry k is a wildcard or a state"""

    def rule(self, h):
        self.pn = h.nat("n_pattern")
        self.wild, self.val = h.fn("wildcard", "int", "bool"), h.fn("pattern", "int", "int")
        return DictV({"type": "pattern", "name": "r", "sites": self.rule_sites(),
                      "pattern": SeqV("tuple", n=self.pn, fn=lambda k: IteV(self.wild(to_int(k)), "*", self.val(to_int(k))))})

    def cond(self, h, a):
        s = h.it.as_seq(self.sites(h, a))
        return h.forall(0, self.pn, lambda k: Or(self.wild(to_int(k)), h.eq(self.val(to_int(k)), self.occ0(h.it.seq_select(s, k)))), "k")

    def raises(self, h, a, o):
        s = h.it.as_seq(self.sites(h, a))
        return [("ValueError", And(zbool(o), Not(h.eq(s.length(), self.pn))))]


for _s in SELECTORS:
    contract(type("MatchPattern_" + _s, (_MatchPattern,), {"name": f"{_Match.qual} [pattern, {_s}]", "sel": _s}))


class _MatchSpecies(_Match):
    def model(self, h):
        self.hs, self.ho, self.sp = h.fn("has_site", "int", "bool"), h.fn("has_state", "int", "int", "bool"), h.fn("species", "int", "int", "str")
        I = z3.IntSort()
        return h.rec(LBM, site_species=MapV(lambda s: self.hs(to_int(s)), lambda s: MapV(lambda x, s=s: self.ho(to_int(s), to_int(x)), lambda x, s=s: self.sp(to_int(s), to_int(x)), I), I))

    def rule(self, h):
        self.names = [h.str(f"species{i}") for i in range(self.k)]
        return counts_dict(h, {"type": "species_count", "name": "r", "sites": self.rule_sites(), "species": tuple(self.names)})

    def cond(self, h, a):
        return counts_ok(h, count_of(h, self.sites(h, a), lambda x: Or(*[self.sp(x, to_int(self.occ0(x))) == s for s in self.names])), a["rule"])

    def raises(self, h, a, o):
        s = h.it.as_seq(self.sites(h, a))
        at = lambda k: to_int(h.it.seq_select(s, k))
        return [("ValueError", And(zbool(o), h.exists(0, s.length(), lambda k: Not(And(self.hs(at(k)), self.ho(at(k), to_int(self.occ0(at(k)))))), "k")))]


for _s in SELECTORS:
    for _k in (1, 2):
        contract(type(f"MatchSpecies_{_s}{_k}", (_MatchSpecies,), {"name": f"{_Match.qual} [species_count of {_k}, {_s}]", "sel": _s, "k": _k}))


# ------------------------------------------------------------ first match and value
class _First(_WithCanon):
    qual = LBM + "._matched_properties"
    props = ("C10",)
    default = True

    def inputs(self, h):
        n, occ, ev = self.world(h)
        m = h.nat("n_rules")
        self.M, self.bar = h.fn("matches", "int", "bool"), h.fn("barrier", "int", "real")
        self.m = m
        rules = SeqV("list", n=m, fn=lambda i: DictV({"properties": DictV({"barrier": self.bar(to_int(i))}), "index": i}))
        self.calls = []
        st = h.rec(ST, occupations=occ)

        def match(it, s, rule, *args, **kw):
            self.calls.append(list(args) + list(kw.values()))
            return self.M(to_int(it.getitem(rule, "index")))
        self.d = h.real("default")
        slf = h.rec(LBM, rules=rules, default_properties=DictV({"barrier": self.d}) if self.default else None)
        slf.stubs = {"_rule_matches": match}
        return {"self": slf, "simulation_state": st, "event": ev}

    def raises(self, h, a, o):
        if self.default:
            return []
        return [("KeyError", h.forall(0, self.m, lambda j: Not(self.M(to_int(j))), "j"))]

    def ensures(self, h, a, o, r):
        v = r.d["barrier"]
        i = h.int("rule")
        h.assume(And(0 <= i, i < self.m, self.M(i), h.forall(0, i, lambda j: Not(self.M(to_int(j))), "j")))
        yield "the first matching rule's values", h.eq(v, self.bar(i))
        yield "rules judged on this state and event", And(*[And(len(c) == 2, c[0] is a["simulation_state"], c[1] is a["event"]) for c in self.calls])

    
@contract
class FirstMatch(_First):
    name = _First.qual + " [a rule matches]"


@contract
class FirstMatchNoDefault(_First):
    name = _First.qual + " [no default]"
    default = False


@contract
class Fallback(_First):
    name = _First.qual + " [default]"

    def ensures(self, h, a, o, r):
        h.assume(h.forall(0, self.m, lambda j: Not(self.M(to_int(j))), "j"))
        yield "default values when no rule matches", h.eq(r.d["barrier"], self.d)


class _Compute(Contract):
    qual = LBM + ".compute"
    props = ("C10",)
    given = None

    def inputs(self, h):
        self.p = DictV({"barrier": h.real("barrier"), "extra": h.real("extra")})
        for k in self.p.d:
            self.p.present[k] = h.bool("has_" + k)
        self.pres = dict(self.p.present)
        self.calls = []
        slf = h.rec(LBM, default_property=self.default)

        def mp(it, s, *args, **kw):
            self.calls.append((args, kw))
            return self.p
        slf.stubs = {"_matched_properties": mp}
        return {"self": slf, "simulation_state": h.rec(ST), "event": h.rec(EV), "property_name": self.given}

    def want(self):
        return self.given or self.default

    def raises(self, h, a, o):
        w = self.want()
        return [("KeyError", Not(zbool(self.pres[w])) if w in self.pres else True)]

    def ensures(self, h, a, o, r):
        yield "the requested property of the matched rule", h.eq(r, self.p.d[self.want()]) if self.want() in self.p.d else False
        ok = [And(list(x) + list(kw.values()) == [a["simulation_state"], a["event"]] or (kw.get("simulation_state") is a["simulation_state"] and kw.get("event") is a["event"])) for x, kw in self.calls]
        yield "matched on this state and event", And(len(self.calls) >= 1, *ok)


for _g, _d in ((None, "barrier"), ("extra", "barrier"), ("barrier", "extra"), (None, "extra"), ("other", "barrier")):
    contract(type(f"Compute_{_g}_{_d}", (_Compute,), {"name": f"{_Compute.qual} [property {_g}, default {_d}]", "given": _g, "default": _d}))


# ------------------------------------------------------------ normalisation of rules
class _StateVal(Contract):
    qual = LB + ":_normalize_state_value"
    props = ("C10",)
    val, want = None, None

    def inputs(self, h):
        return {"value": self.val(h) if callable(self.val) else self.val, "field_name": "state"}

    def raises(self, h, a, o):
        return [] if self.exc == "any" else [("ValueError", a["value"] < 0)] if self.exc == "neg" else [(self.exc, True)]

    def ensures(self, h, a, o, r):
        yield "the state index", h.eq(r, a["value"] if self.want is None else self.want)


_sv = [("int", lambda h: h.int("v"), None, "neg"), ("bool", lambda h: h.bool("v"), None, "TypeError"), ("None", None, None, "ValueError"), ("float", lambda h: h.real("v"), None, "ValueError")]
_sv += [(k, k, 0, "any") for k in ("occupied", "match", "template", " Occupied ")] + [(k, k, 1, "any") for k in ("vacant", "vacancy", "mismatch", "other", "VACANT")]
_sv += [(k, k, w, "any") for k, w in (("0", 0), ("3", 3), (" 12 ", 12))] + [(k, k, None, "ValueError") for k in ("-1", "x", "", "1.5")]
for _n, _v, _w, _e in _sv:
    contract(type("StateVal_" + str(len(_n)) + _n.strip(), (_StateVal,), {"name": f"{_StateVal.qual} [{_n!r}]", "val": staticmethod(_v) if callable(_v) else _v, "want": _w, "exc": _e}))


# ------------------------------------------------------------ snapshot to rule
@contract
class EntryFromEvent(_WithCanon):
    qual = LBM + ".entry_from_event_state"
    props = ("C10",)

    def inputs(self, h):
        n, occ, ev = self.world(h)
        self.b = h.real("barrier")
        return {"cls": h.cls(LBM), "event": ev, "state": h.rec(ST, occupations=occ), "properties": DictV({"barrier": self.b}), "name": "snap"}

    def ensures(self, h, a, o, r):
        ev = a["event"]
        g = lambda k: h.it.resolve(h.it.getitem(r, k))
        c = self.canon
        occ = a["state"].fields["occupations"]
        tup = lambda s: SeqV("tuple", n=h.it.as_seq(s).length(), fn=lambda i, s=s: h.it.seq_select(h.it.as_seq(s), i))
        yield "an exact rule", h.eq(g("type"), "exact")
        f, t = ev.fields["mobile_ion_indices"]
        m = g("mobile_ion_indices")
        yield "of this event's mobile sites", And(h.eq(h.len(m), 2), h.eq(h.at(m, 0), f), h.eq(h.at(m, 1), t))
        e, env = g("local_env_indices"), ev.fields["local_env_indices"]
        yield "of this event's environment", items_are(h, e, env.n, env.fn)
        oc = g("occupations")
        yield "with the current states in canonical order", items_are(h, oc, c.n, lambda i: h.at(occ, c.fn(i)))
        yield "with the given values", h.eq(h.it.getitem(g("properties"), "barrier"), self.b)
        yield "canonical order is this event's", self.canon_ok(h, ev)


class _NormRule(_WithCanon):
    """the stored rule says what the given one says"""
    qual = LB + ":_normalize_rule"
    props = ("C10", "C13")

    def base(self, h, typ, **kw):
        self.bar = h.real("barrier")
        d = DictV({"type": typ, "name": "given", "barrier": self.bar, **kw})
        self.cons = None
        if typ != "exact":
            d.d["mobile_ion_indices"] = SeqV("list", items=[h.int("rf"), h.int("rt")])
            d.d["local_env_indices"] = h.ilist("renv")
            for k in ("mobile_ion_indices", "local_env_indices"):
                d.present[k] = h.bool("has_" + k)
            self.cons = dict(d.present)
        return d

    def inputs(self, h):
        self.world(h)
        return {"rule": self.rule(h), "default_name": "rule_0"}

    def ensures(self, h, a, o, r):
        g = lambda k: h.it.resolve(h.it.getitem(r, k))
        yield "type kept", h.eq(g("type"), a["rule"].d["type"])
        yield "name kept", h.eq(g("name"), "given")
        p = g("properties")
        yield "barrier kept", h.eq(h.it.getitem(p, "barrier"), self.bar)
        if self.cons:
            for k in ("mobile_ion_indices", "local_env_indices"):
                has = zbool(r.present.get(k, k in r.d))
                yield f"{k} restriction kept", And(has == self.cons[k], Implies(has, items_are(h, r.d[k], h.len(a["rule"].d[k]), lambda i, k=k: h.at(a["rule"].d[k], i))) if k in r.d else True)
        yield from self.more(h, a, r, g)


@contract
class NormRuleExact(_NormRule):
    name = _NormRule.qual + " [exact]"

    def rule(self, h):
        self.f, self.t = h.int("rf"), h.int("rt")
        self.env, self.occ = h.ilist("renv"), h.ilist("rocc")
        return self.base(h, "exact", mobile_ion_indices=SeqV("list", items=[self.f, self.t]), local_env_indices=self.env, occupations=self.occ)

    def raises(self, h, a, o):
        return [("ValueError", Or(Not(h.eq(self.occ.n, self.canon.n)), h.exists(0, self.occ.n, lambda i: to_int(self.occ.fn(i)) < 0, "i")))]

    def more(self, h, a, r, g):
        m = g("mobile_ion_indices")
        yield "mobile sites kept", And(h.eq(h.len(m), 2), h.eq(h.at(m, 0), self.f), h.eq(h.at(m, 1), self.t))
        yield "environment kept", items_are(h, g("local_env_indices"), self.env.n, self.env.fn)
        yield "occupations kept", items_are(h, g("occupations"), self.occ.n, self.occ.fn)
        yield "canonical sites of that event", And(h.eq(g("canonical_site_indices"), self.canon), *[And(len(x) == 2, items_are(h, x[0], 2, lambda i: h.at(m, i)), items_are(h, x[1], self.env.n, self.env.fn)) for x, kw in self.log])


@contract
class NormRuleState(_NormRule):
    name = _NormRule.qual + " [state_count]"
    max_s = 200

    def rule(self, h):
        self.s, self.c = h.int("state"), h.int("min")
        return self.base(h, "state_count", state=self.s, min_count=self.c, sites="canonical")

    def raises(self, h, a, o):
        return [("ValueError", Or(self.s < 0, self.c < 0))]

    def more(self, h, a, r, g):
        yield "state kept", h.eq(g("state"), self.s)
        yield "bound kept", And(h.eq(g("min_count"), self.c), "count" not in r.d, "max_count" not in r.d)
        yield "selector kept", h.eq(g("sites"), "canonical")


@contract
class NormRulePattern(_NormRule):
    name = _NormRule.qual + " [pattern]"
    max_s = 200

    def rule(self, h):
        self.n = h.pos("n_pattern")
        self.wild, self.val = h.fn("wildcard", "int", "bool"), h.fn("pattern", "int", "int")
        return self.base(h, "pattern", sites=SeqV("list", items=[h.int("s0"), h.int("s1")]),
                         pattern=SeqV("list", n=self.n, fn=lambda k: IteV(self.wild(to_int(k)), "*", self.val(to_int(k)))))

    def raises(self, h, a, o):
        return [("ValueError", h.exists(0, self.n, lambda k: And(Not(self.wild(to_int(k))), self.val(to_int(k)) < 0), "k"))]

    def more(self, h, a, r, g):
        yield "pattern kept", items_are(h, g("pattern"), self.n, a["rule"].d["pattern"].fn)
        yield "explicit sites kept", items_are(h, g("sites"), 2, lambda i: h.at(a["rule"].d["sites"], i))


@contract
class NormRuleSpecies(_NormRule):
    name = _NormRule.qual + " [species_count]"
    max_s = 200

    def rule(self, h):
        self.c = h.int("max")
        return self.base(h, "species_count", species="Si", max_count=self.c)

    def raises(self, h, a, o):
        return [("ValueError", self.c < 0)]

    def more(self, h, a, r, g):
        yield "species kept", h.eq(g("species"), ("Si",))
        yield "bound kept", And(h.eq(g("max_count"), self.c), "count" not in r.d, "min_count" not in r.d)
        yield "local environment by default", h.eq(g("sites"), "local_env")

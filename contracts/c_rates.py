"""Hop direction, Arrhenius rates, detailed balance."""
from pyvc.contract import *
from pyvc.core import EXP
from contracts.c_state import EV, ST, mk_state

HOP = "kmcpy.event.hop"
CM = "kmcpy.models.composite_lce_model"
LB = "kmcpy.models.local_barrier_model"
LCE = "kmcpy.models.local_cluster_expansion:LocalClusterExpansion"
KB = z3.RealVal("0.08617333262145")


def direction(fo, to, c):
    return z3.If(And(fo == c[0], to == c[1]), 1, z3.If(And(fo == c[2], to == c[3]), -1, 0))


@contract
class EndpointDirection(Contract):
    qual = HOP + ":endpoint_direction_from_codes"
    props = ("C04",)

    def inputs(self, h):
        return {"from_occ": h.int("from_occ"), "to_occ": h.int("to_occ"), "codes": tuple(h.int(f"code{i}") for i in range(4))}

    def havoc(self, h, a):
        return h.int("direction")

    def ensures(self, h, a, o, r):
        yield "+1 / -1 / 0 by the endpoint codes", h.eq(r, direction(a["from_occ"], a["to_occ"], [h.at(a["codes"], i) for i in range(4)]))


def site_event(h, n, codes=True):
    f, t = h.int("from"), h.int("to")
    h.assume(And(0 <= f, f < n, 0 <= t, t < n))
    kw = {}
    if codes:
        kw["hop_state_codes"] = tuple(h.int(f"code{i}") for i in range(4))
    return h.rec(EV, mobile_ion_indices=(f, t), local_env_indices=h.ilist("env", kind="tuple"), **kw)


def spec_direction(h, occ, ev):
    f, t = ev.fields["mobile_ion_indices"]
    c = ev.fields.get("hop_state_codes", (0, 1, 1, 0))
    return direction(h.at(occ, f), h.at(occ, t), c)


class _EvDir(Contract):
    qual = HOP + ":event_direction"
    props = ("C04", "C06")
    uses = (HOP + ":endpoint_direction_from_codes",)
    codes = True

    def inputs(self, h):
        n = h.pos("n_sites")
        return {"occupations": h.ilist("occ", n), "event": site_event(h, n, self.codes)}

    def havoc(self, h, a):
        return h.int("direction")

    def ensures(self, h, a, o, r):
        yield "direction from the event's own endpoint codes", h.eq(r, spec_direction(h, a["occupations"], h.it.resolve(a["event"])))


@contract
class EventDirection(_EvDir):
    pass


@contract
class EventDirectionDefault(_EvDir):
    """events that carry no codes: mobile ion is 0, vacancy is 1 on both endpoints"""
    name = HOP + ":event_direction [default codes]"
    codes = False


@contract
class Annotate(Contract):
    qual = HOP + ":HopStateLookup.annotate_event"
    props = ("C04", "C06")

    def inputs(self, h):
        n = h.pos("n_sites")
        return {"self": h.rec(HOP + ":HopStateLookup", mobile_state_by_site=h.nd("mobile", (n,), "int"), vacancy_state_by_site=h.nd("vacancy", (n,), "int")),
                "event": site_event(h, n, False)}

    def ensures(self, h, a, o, r):
        s, e = a["self"], a["event"]
        f, t = e.fields["mobile_ion_indices"]
        m, v = s.fields["mobile_state_by_site"], s.fields["vacancy_state_by_site"]
        yield "codes are the endpoints' own mobile and vacancy states", h.eq(e.fields["hop_state_codes"], (m.fn(f), v.fn(t), v.fn(f), m.fn(t)))
        fo, to = h.int("occ_from"), h.int("occ_to")
        c = e.fields["hop_state_codes"]
        yield "direction read with these codes", direction(fo, to, c) == z3.If(
            And(fo == m.fn(f), to == v.fn(t)), 1, z3.If(And(fo == v.fn(f), to == m.fn(t)), -1, 0))


VAC = ("X", "Vacancy", "vacancy", "Va", "VA")


@contract
class Lookup(Contract):
    qual = HOP + ":HopStateLookup.from_active_site_order"
    props = ("C04",)

    def inputs(self, h):
        n, p = h.nat("n_active"), h.nat("n_primitive")
        a2p = h.fn("prim", "int", "int")
        ln, lab = h.fn("n_allowed", "int", "int"), h.fn("label", "int", "int", "str")
        h.assume(h.forall(0, n, lambda i: And(0 <= a2p(to_int(i)), a2p(to_int(i)) < p)))
        h.assume(h.forall(0, p, lambda i: ln(to_int(i)) >= 0))
        # a site lists each species once
        h.assume(h.forall(0, p, lambda q: h.forall(0, ln(to_int(q)), lambda i: h.forall(0, ln(to_int(q)), lambda j: Implies(
            lab(to_int(q), to_int(i)) == lab(to_int(q), to_int(j)), i == j), "j"), "i"), "q"))
        order = h.stub("order", active_site_count=n, active_to_primitive=SeqV("tuple", n=n, fn=lambda i: a2p(to_int(i))),
                       allowed_species_by_primitive_site=SeqV("tuple", n=p, fn=lambda q: SeqV("tuple", n=ln(to_int(q)), fn=lambda k, q=q: lab(to_int(q), to_int(k)))))
        return {"cls": h.cls(HOP + ":HopStateLookup"), "active_site_order": order, "mobile_ion_specie": h.str("mobile"), "_s": (n, a2p, ln, lab)}

    def ensures(self, h, a, o, r):
        n, a2p, ln, lab = a["_s"]
        k, s = h.int("site"), h.int("state")
        h.assume(And(0 <= k, k < n, 0 <= s, s < ln(a2p(k))))
        m = h.it.resolve(r.fields["mobile_state_by_site"])
        v = h.it.resolve(r.fields["vacancy_state_by_site"])
        yield "one entry per site", And(h.eq(h.len(m), n), h.eq(h.len(v), n))
        yield "the mobile ion's state is recorded", Implies(lab(a2p(k), s) == a["mobile_ion_specie"], h.at(m, k) == s)
        yield "recorded state is the mobile ion's", Implies(h.at(m, k) == s, lab(a2p(k), s) == a["mobile_ion_specie"])
        isv = lambda x: Or(*[x == z3.StringVal(c) if x.sort() == z3.StringSort() else h.eq(x, c) for c in VAC])
        yield "recorded vacancy state is a vacancy", Implies(h.at(v, k) == s, isv(lab(a2p(k), s)))
        one = h.forall(0, ln(a2p(k)), lambda j: Implies(isv(lab(a2p(k), to_int(j))), to_int(j) == s), "j")
        yield "the only vacancy state is recorded", Implies(And(isv(lab(a2p(k), s)), one), h.at(v, k) == s)


# ------------------------------------------------------------ composite model
def lce_stub(h, name):
    """a cluster expansion with an arbitrary energy"""
    e = h.real(name)
    calls = []

    def compute(it, self, *args, **kw):
        calls.append((args, kw))
        return e
    r = h.rec(LCE)
    r.stubs = {"compute": compute}
    return r, e, calls


class _Composite(Contract):
    qual = CM + ":CompositeLCEModel.compute_probability"
    props = ("C04", "C05")
    uses = (HOP + ":event_direction",)
    site = None

    def inputs(self, h):
        n = h.pos("n_sites")
        st = mk_state(h, n)
        ev = site_event(h, n)
        T, v = h.real("T"), h.real("v")
        h.assume(And(T > 0, v > 0))
        kra, K, _ = lce_stub(h, "E_KRA")
        if self.site is None:
            site, D = None, z3.RealVal(0)
        elif self.site == "lce":
            site, D, _ = lce_stub(h, "dE_canonical")
        else:
            D = h.real("dE_external")
            site = h.stub("external", {"compute": lambda it, self, *x, **k: D})
        model = h.rec(CM + ":CompositeLCEModel", kra_model=kra, site_model=site)
        rc = h.stub("runtime_config", temperature=T, attempt_frequency=v)
        return {"self": model, "event": ev, "runtime_config": rc, "simulation_state": st, "_x": (K, D, T, v)}

    def old(self, h, a):
        s = a["simulation_state"]
        return {"occ": h.it.seq_copy(s.fields["occupations"]), "st": dict(s.fields), "ev": dict(a["event"].fields), "m": dict(a["self"].fields)}

    def dE(self, h, a):
        K, D, T, v = a["_x"]
        d = spec_direction(h, a["simulation_state"].fields["occupations"], a["event"])
        return z3.ToReal(d) * D if self.site == "lce" else D

    def ensures(self, h, a, o, r):
        K, D, T, v = a["_x"]
        s = a["simulation_state"]
        d = spec_direction(h, s.fields["occupations"], a["event"])
        r = to_real(r)
        yield "blocked hop has rate zero", Implies(d == 0, r == 0)
        yield "Arrhenius rate with barrier E_KRA + dE/2", Implies(d != 0, r == v * EXP(-(K + self.dE(h, a) / 2) / (KB * T)))
        yield "rate not negative", r >= 0
        yield "possible hop has positive rate", Implies(d != 0, r > 0)
        yield "state and event unchanged", And(h.eq(s.fields["occupations"], o["occ"]), h.eq(s.fields["time"], o["st"]["time"]), h.eq(s.fields["step"], o["st"]["step"]),
                                               set(s.fields) == set(o["st"]), set(a["event"].fields) == set(o["ev"]),
                                               *[h.eq(a["event"].fields[k], o["ev"][k]) for k in o["ev"]])


@contract
class CompositeNoSite(_Composite):
    name = _Composite.qual + " [no site model]"


@contract
class CompositeLce(_Composite):
    name = _Composite.qual + " [site cluster expansion]"
    site = "lce"


@contract
class CompositeExt(_Composite):
    name = _Composite.qual + " [external site energy]"
    site = "ext"


class _Balance(_Composite):
    """rate(before) / rate(after) for a hop and its reverse: same barrier, opposite energy difference."""
    props = ("C05",)

    def ensures(self, h, a, o, r):
        K, D, T, v = a["_x"]
        s, ev = a["simulation_state"], a["event"]
        occ = s.fields["occupations"]
        f, t = ev.fields["mobile_ion_indices"]
        c = ev.fields["hop_state_codes"]
        d = spec_direction(h, occ, ev)
        h.assume(And(d != 0, f != t, c[0] == c[3], c[1] == c[2], c[0] != c[1]))
        n = h.len(occ)
        after = SeqV("list", n=n, fn=lambda k: z3.If(to_int(k) == f, h.at(occ, t), z3.If(to_int(k) == t, h.at(occ, f), h.at(occ, k))))
        st2 = h.rec(ST, occupations=after, time=s.fields["time"], step=s.fields["step"])
        m = a["self"]
        if self.site == "ext":   # external models report after - before: the reverse hop has the opposite sign
            m = h.rec(CM + ":CompositeLCEModel", kra_model=m.fields["kra_model"], site_model=h.stub("external", {"compute": lambda it, self, *x, **k: -D}))
        r2 = h.call(h.func(self.qual), m, ev, a["runtime_config"], st2)
        dE = self.dE(h, a)
        x1, x2, x3 = -(K + dE / 2) / (KB * T), -(K - dE / 2) / (KB * T), -dE / (KB * T)
        yield "lemma: exponents add", x1 == x2 + x3
        h.assume(x1 == x2 + x3)
        h.assume(EXP(x2 + x3) == EXP(x2) * EXP(x3))   # exp is a homomorphism
        R2 = to_real(r2)
        yield "reverse rate carries the opposite difference", R2 == v * EXP(x2)
        h.assume(R2 == v * EXP(x2))
        yield "forward rate", to_real(r) == v * EXP(x1)
        h.assume(to_real(r) == v * EXP(x1))
        yield "forward = backward * exp(-dE/kT)", to_real(r) == R2 * EXP(x3)


@contract
class BalanceLce(_Balance):
    name = _Composite.qual + " [detailed balance, site cluster expansion]"
    site = "lce"


@contract
class BalanceExt(_Balance):
    name = _Composite.qual + " [detailed balance, external site energy]"
    site = "ext"


@contract
class BalanceNone(_Balance):
    name = _Composite.qual + " [detailed balance, no site model]"


@contract
class LbmRate(Contract):
    qual = LB + ":LocalBarrierModel.compute_probability"
    props = ("C04",)
    uses = (HOP + ":event_direction",)

    def inputs(self, h):
        n = h.pos("n_sites")
        st = mk_state(h, n)
        ev = site_event(h, n)
        T, v, B = h.real("T"), h.real("v"), h.real("barrier")
        h.assume(And(T > 0, v > 0))
        prop = "barrier"

        def compute(it, self, *args, **kw):
            p = kw.get("property_name", args[2] if len(args) > 2 else None)
            return B if p == prop else it.ctx.fresh("other_property", z3.RealSort())
        m = h.rec(LB + ":LocalBarrierModel", probability_mode="barrier_arrhenius", probability_property=prop, default_property="other", name="m")
        m.stubs = {"compute": compute}
        return {"self": m, "event": ev, "runtime_config": h.stub("runtime_config", temperature=T, attempt_frequency=v), "simulation_state": st, "_x": (B, T, v)}

    def ensures(self, h, a, o, r):
        B, T, v = a["_x"]
        d = spec_direction(h, a["simulation_state"].fields["occupations"], a["event"])
        r = to_real(r)
        yield "blocked hop has rate zero", Implies(d == 0, r == 0)
        yield "Arrhenius rate", Implies(d != 0, r == v * EXP(-B / (KB * T)))
        yield "rate not negative", r >= 0

from pyvc.contract import *

EV = "kmcpy.event.base:Event"
ST = "kmcpy.simulator.state:State"


def mk_state(h, n=None, t=None):
    occ = h.ilist("occ", n)
    return h.rec(ST, occupations=occ, time=h.real("time"), step=h.int("step"))


def mk_event(h, n=None):
    f, t = h.int("from"), h.int("to")
    if n is not None:
        h.assume(z3.And(0 <= f, f < n, 0 <= t, t < n))
    return h.rec(EV, mobile_ion_indices=(f, t), local_env_indices=h.ilist("env", kind="tuple"))


@contract
class ApplyEvent(Contract):
    qual = ST + ".apply_event"
    props = ("C01",)

    def inputs(self, h):
        s = mk_state(h)
        return {"self": s, "event": mk_event(h, h.len(s.fields["occupations"])), "dt": h.real("dt")}

    def old(self, h, a):
        s = a["self"]
        occ = h.get(s, "occupations")
        return {"occ": h.it.seq_copy(occ), "list": occ, "time": s.fields["time"], "step": s.fields["step"],
                "m": h.get(a["event"], "mobile_ion_indices"), "e": h.get(a["event"], "local_env_indices")}

    def ensures(self, h, a, o, r):
        s = a["self"]
        occ = s.fields["occupations"]
        f, t = o["m"]
        n = h.len(o["occ"])
        yield "length kept", h.eq(h.len(occ), n)
        yield "source gets destination value", h.eq(h.at(occ, f), h.at(o["occ"], t))
        yield "destination gets source value", h.eq(h.at(occ, t), h.at(o["occ"], f))
        yield "other sites unchanged", h.forall(0, n, lambda k: Implies(And(k != f, k != t), h.eq(h.at(occ, k), h.at(o["occ"], k))))
        yield "time advances by dt", h.eq(s.fields["time"], o["time"] + a["dt"])
        yield "step advances by one", h.eq(s.fields["step"], o["step"] + 1)
        yield "event unchanged", h.eq(h.get(a["event"], "mobile_ion_indices"), o["m"])


@contract
class Copy(Contract):
    qual = ST + ".copy"
    props = ("C01",)

    def inputs(self, h):
        return {"self": mk_state(h)}

    def ensures(self, h, a, o, r):
        s = a["self"]
        yield "same contents", And(h.eq(r.fields["occupations"], s.fields["occupations"]), h.eq(r.fields["time"], s.fields["time"]), h.eq(r.fields["step"], s.fields["step"]))
        yield "no shared storage", r.fields["occupations"] is not s.fields["occupations"] and r is not s

"""Event dependency table, selection, rate refresh."""
import ast
from pyvc.contract import *
from pyvc.core import LOG
from contracts.c_state import EV, ST, mk_event, mk_state

EB = "kmcpy.event.base"
EL = EB + ":EventLib"
KM = "kmcpy.simulator.kmc"


def asc(h, a, n):
    return h.forall(0, n, lambda i: h.forall(0, n, lambda j: Implies(i <= j, a(i) <= a(j)), "j"), "i")


def two_pointer_inv(it, env, st, names, phase):
    """cursor c1 into the first array, c2 into the second: everything before a cursor
    differs from everything in the other array."""
    f = env
    while getattr(f, "func", None) is None:
        f = f.parent
    par = [x.arg for x in f.func.node.args.args]
    role = {}
    for n in ast.walk(st):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Name) and n.slice.id in names:
            if n.value.id in par:
                role.setdefault(par.index(n.value.id), n.slice.id)
    if set(role) != {0, 1}:
        raise Unsupported("two-pointer roles not recognised")
    h = H(it)
    A, B = (it.resolve(it.lookup(par[k], env)) for k in (0, 1))
    i, j = (env.vars[role[k]] for k in (0, 1))
    n, m = h.len(A), h.len(B)
    return [
        ("cursor ranges", And(0 <= to_int(i), to_int(i) <= n, 0 <= to_int(j), to_int(j) <= m)),
        ("passed elements of the first array match nothing", h.forall(0, i, lambda a: h.forall(0, m, lambda b: h.at(A, a) != h.at(B, b), "b"), "a")),
        ("passed elements of the second array match nothing", h.forall(0, j, lambda b: h.forall(0, n, lambda a: h.at(A, a) != h.at(B, b), "a"), "b")),
    ]


@contract
class Intersect(Contract):
    qual = EB + ":_arrays_intersect"
    props = ("C02",)
    invariants = {EB + ":_arrays_intersect": two_pointer_inv}

    def inputs(self, h):
        return {"arr1": h.nd("a", (h.nat("n"),), "int"), "arr2": h.nd("b", (h.nat("m"),), "int")}

    def requires(self, h, a):
        x, y = a["arr1"], a["arr2"]
        return [("first array ascending", asc(h, x.fn, x.shape[0])), ("second array ascending", asc(h, y.fn, y.shape[0]))]

    def havoc(self, h, a):
        return h.bool("intersect")

    def ensures(self, h, a, o, r):
        x, y = a["arr1"], a["arr2"]
        ex = h.exists(0, x.shape[0], lambda i: h.exists(0, y.shape[0], lambda j: x.fn(i) == y.fn(j), "j"), "i")
        yield "true iff the arrays share an element", zbool(r) == zbool(ex)


@contract
class DepMatrix(Contract):
    qual = EB + ":_generate_event_dependency_matrix"
    props = ("C02",)
    uses = (EB + ":_arrays_intersect",)

    def inputs(self, h):
        n = h.nat("n_events")
        ln = h.fn("sites_len", "int", "int")
        el = h.fn("site", "int", "int", "int")
        h.assume(forall(0, n, lambda i: ln(to_int(i)) >= 0))
        return {"events_site_list": SeqV("list", n=n, fn=lambda i: SeqV("list", n=ln(to_int(i)), fn=lambda k, i=i: el(to_int(i), to_int(k)))),
                "_ln": ln, "_el": el, "_n": n}

    def havoc(self, h, a):
        n = h.len(a["events_site_list"])
        rl, de = h.fn("row_len", "int", "int"), h.fn("dep", "int", "int", "int")
        h.assume(h.forall(0, n, lambda i: rl(to_int(i)) >= 0))
        return SeqV("list", n=n, fn=lambda i: SeqV("list", n=rl(to_int(i)), fn=lambda k, i=i: de(to_int(i), to_int(k))))

    def call_facts(self, h, a, o, r):
        ev = a["events_site_list"]
        n = h.len(ev)
        pos = h.fn("dep_pos", "int", "int", "int")     # where j stands in row i (Skolem function of the ensures clause)
        yield "one row per event", h.eq(h.len(r), n)
        i, j, x, y = (z3.FreshInt(c) for c in "ijxy")
        si, sj = h.it.resolve(h.at(ev, i)), h.it.resolve(h.at(ev, j))
        row = h.it.resolve(h.at(r, i))
        p = pos(i, j)
        yield "sharing events are listed", z3.ForAll([i, j, x, y], z3.Implies(
            zbool(And(0 <= i, i < n, 0 <= j, j < n, 0 <= x, x < h.len(si), 0 <= y, y < h.len(sj), h.eq(h.at(si, x), h.at(sj, y)))),
            zbool(And(0 <= p, p < h.len(row), h.eq(h.at(row, p), j)))))

    def ensures(self, h, a, o, r):
        ev = a["events_site_list"]
        n = h.len(ev)
        yield "one row per event", h.eq(h.len(r), n)

        def share(i, j):
            si, sj = h.it.resolve(h.at(ev, i)), h.it.resolve(h.at(ev, j))
            return h.exists(0, h.len(si), lambda x: h.exists(0, h.len(sj), lambda y: h.eq(h.at(si, x), h.at(sj, y)), "y"), "x")
        yield "event j listed for i iff they share a site", h.forall(0, n, lambda i: h.forall(0, n, lambda j: zbool(
            contains(h, h.it.resolve(h.at(r, i)), j)) == zbool(share(i, j)), "j"), "i")


def contains(h, seq, v):
    s = h.it.as_seq(seq)
    if s.filt is not None:
        n, cond, val = s.filt
        return h.exists(0, n, lambda k: And(zbool(cond(k)), h.eq(val(k), v)), "k")
    return h.exists(0, s.length(), lambda k: h.eq(h.it.seq_select(s, k), v), "k")


@contract
class Dependent(Contract):
    qual = EL + ".get_dependent_events"
    props = ("C02",)

    def inputs(self, h):
        n = h.nat("n_rows")
        ln = h.fn("row_len", "int", "int")
        el = h.fn("dep", "int", "int", "int")
        h.assume(forall(0, n, lambda i: ln(to_int(i)) >= 0))
        deps = SeqV("list", n=n, fn=lambda i: SeqV("list", n=ln(to_int(i)), fn=lambda k, i=i: el(to_int(i), to_int(k))))
        i = h.int("event_index")
        h.assume(And(0 <= i, i < n))
        return {"self": h.rec(EL, events=SeqV("list", items=[]), event_dependencies=deps, site_to_events=DictV({}), index_metadata=None),
                "event_index": i, "_ln": ln, "_el": el}

    def ensures(self, h, a, o, r):
        i, ln, el = a["event_index"], a["_ln"], a["_el"]
        yield "returns the whole stored row", And(h.eq(h.len(r), ln(i)), h.forall(0, ln(i), lambda k: h.at(r, k) == el(i, to_int(k))))


@contract
class Propose(Contract):
    qual = KM + ":_propose"
    props = ("C03",)

    def inputs(self, h):
        n = h.pos("n_events")
        cum = h.nd("cum", (n,))
        u1, u2 = h.real("u1"), h.real("u2")
        rng = h.stub("rng", {"random": draws([u1, u2])})
        return {"prob_cum_list": cum, "rng": rng, "_u": (u1, u2), "_n": n}

    def requires(self, h, a):
        c, n = a["prob_cum_list"].fn, a["_n"]
        u1, u2 = a["_u"]
        return [("running sums of non-negative rates", And(asc(h, c, n), c(0) >= 0)), ("positive total", c(n - 1) > 0),
                ("draws in range", And(0 <= u1, u1 < 1, 0 < u2, u2 < 1))]

    def ensures(self, h, a, o, r):
        c, n = a["prob_cum_list"].fn, a["_n"]
        u1, u2 = a["_u"]
        i, dt = r
        i = to_int(i)
        R = c(n - 1)
        yield "index valid", And(0 <= i, i < n)
        yield "draw below the upper edge", u1 * R < c(i)
        yield "draw at or above the lower edge", Implies(i > 0, c(i - 1) <= u1 * R)
        yield "never a zero-rate event", c(i) > z3.If(i > 0, c(i - 1), z3.RealVal(0))
        yield "waiting time is -ln(u2)/total", dt * R == -LOG(u2)
        h.assume(LOG(u2) < 0)  # ln is negative on (0,1)
        yield "waiting time not negative", dt >= 0


def draws(us):
    st = {"k": 0}

    def random(it, self):
        k = st["k"]
        st["k"] = k + 1
        return us[k] if k < len(us) else it.ctx.fresh("extra_draw", z3.RealSort())
    return random


# ---------------------------------------------------------------- library and simulator
def mk_events(h, n=None):
    """n events with arbitrary endpoints and environments; site(e,k) runs over all of them."""
    n = h.nat("n_events") if n is None else n
    f, t = h.fn("ev_from", "int", "int"), h.fn("ev_to", "int", "int")
    ln, el = h.fn("env_len", "int", "int"), h.fn("env_site", "int", "int", "int")
    h.assume(forall(0, n, lambda i: ln(to_int(i)) >= 0))
    evs = RecListV(h.cls(EV), n, {
        "mobile_ion_indices": lambda i: (f(to_int(i)), t(to_int(i))),
        "local_env_indices": lambda i: SeqV("tuple", n=ln(to_int(i)), fn=lambda k, i=i: el(to_int(i), to_int(k)))})
    evs._spec = (n, f, t, ln, el)
    return evs


def site_at(evs, e, x):
    """x-th site of event e: its two endpoints, then its environment"""
    n, f, t, ln, el = evs._spec
    return z3.If(x == 0, f(e), z3.If(x == 1, t(e), el(e, x - 2)))


def share(h, evs, i, j):
    ln = evs._spec[3]
    return h.exists(0, ln(i) + 2, lambda x: h.exists(0, ln(j) + 2, lambda y: site_at(evs, i, to_int(x)) == site_at(evs, j, to_int(y)), "y"), "x")


@contract
class GenDeps(Contract):
    qual = EL + ".generate_event_dependencies"
    props = ("C02",)
    uses = (EB + ":_generate_event_dependency_matrix",)

    def inputs(self, h):
        evs = mk_events(h)
        return {"self": h.rec(EL, events=evs, event_dependencies=None, site_to_events=DictV({}), index_metadata=None), "_evs": evs}

    def ensures(self, h, a, o, r):
        evs = a["_evs"]
        n = evs._spec[0]
        deps = a["self"].fields["event_dependencies"]
        yield "one row per event", h.eq(h.len(deps), n)
        i, j = h.int("ev_i"), h.int("ev_j")
        h.assume(And(0 <= i, i < n, 0 <= j, j < n))
        row = h.it.resolve(h.at(deps, i))
        yield "events sharing a site depend on each other", Implies(share(h, evs, i, j), contains(h, row, j))
        # with j = i in the clause above this makes every event depend on itself
        yield "an event shares a site with itself", share(h, evs, i, i)


def rate_stub(h, evs, st, old, new, rold, rnew):
    """model.compute_probability: the rate of event e for the occupations it is shown"""
    def compute_probability(it, self, *args, **kw):
        ev = it.resolve(kw.get("event", args[0] if args else None))
        s = it.resolve(kw.get("simulation_state", args[-1] if args else None))
        if not isinstance(ev, ElemRec) or ev.lst is not evs:
            raise Unsupported("rate of an event outside the library")
        if s is not st:
            raise Unsupported("rate for another state")
        hh = H(it)
        if it.ctx.entails(zbool(hh.eq(s.fields["occupations"], new()))):
            return rnew(to_int(ev.i))
        if it.ctx.entails(zbool(hh.eq(s.fields["occupations"], old))):
            return rold(to_int(ev.i))
        return it.ctx.fresh("rate_unknown_state", z3.RealSort())
    return compute_probability


@contract
class KmcUpdate(Contract):
    """After any update every stored rate is the rate of the current occupations."""
    qual = KM + ":KMC.update"
    props = ("C02", "C15")
    max_s = 200

    def inputs(self, h):
        evs = mk_events(h)
        n, f, t, ln, el = evs._spec
        N = h.pos("n_sites")
        h.assume(h.forall(0, n, lambda i: And(0 <= f(to_int(i)), f(to_int(i)) < N, 0 <= t(to_int(i)), t(to_int(i)) < N)))
        st = mk_state(h, N)
        old = h.it.seq_copy(st.fields["occupations"])
        e0 = h.int("executed")
        h.assume(And(0 <= e0, e0 < n))
        fr, to = f(e0), t(e0)
        new = SeqV("list", n=N, fn=lambda k: z3.If(to_int(k) == fr, h.at(old, to), z3.If(to_int(k) == to, h.at(old, fr), h.at(old, k))))
        rold, rnew = h.fn("rate_before", "int", "real"), h.fn("rate_after", "int", "real")
        # locality: the rate changes only if the occupation of one of the event's own sites may have changed
        h.assume(h.forall(0, n, lambda e: Or(rold(to_int(e)) == rnew(to_int(e)), share(h, evs, e0, to_int(e))), "e"))
        rl, de = h.fn("row_len", "int", "int"), h.fn("dep", "int", "int", "int")
        pos = h.fn("dep_pos", "int", "int", "int")
        h.assume(h.forall(0, n, lambda i: rl(to_int(i)) >= 0))
        deps = SeqV("list", n=n, fn=lambda i: SeqV("list", n=rl(to_int(i)), fn=lambda k, i=i: de(to_int(i), to_int(k))))
        # what GenDeps proves about the table
        h.assume(h.forall(0, n, lambda i: h.forall(0, rl(to_int(i)), lambda k: And(0 <= de(to_int(i), to_int(k)), de(to_int(i), to_int(k)) < n), "k"), "i"))
        h.assume(h.forall(0, n, lambda i: h.forall(0, n, lambda j: Implies(share(h, evs, to_int(i), to_int(j)), And(
            0 <= pos(to_int(i), to_int(j)), pos(to_int(i), to_int(j)) < rl(to_int(i)), de(to_int(i), pos(to_int(i), to_int(j))) == to_int(j))), "j"), "i"))
        lib = h.rec(EL, events=evs, event_dependencies=deps, site_to_events=DictV({}), index_metadata=None)
        prob = NdV((n,), lambda i: rold(to_int(i)), "float")
        model = h.stub("model", {"compute_probability": rate_stub(h, evs, st, old, lambda: new, rold, rnew)})
        model.absent = {"initialize_state", "apply_event"}
        cfg = h.stub("config", runtime_config=h.stub("runtime_config"))
        k = h.rec(KM + ":KMC", simulation_state=st, event_lib=lib, model=model, config=cfg, prob_list=prob,
                  prob_cum_list=h.nd("cum", (n,)))
        return {"self": k, "event": h.at(evs, e0), "dt": h.real("dt"), "_n": n, "_new": new, "_rnew": rnew, "_old": old, "_e0": e0}

    def old(self, h, a):
        s = a["self"].fields["simulation_state"]
        return {"time": s.fields["time"], "step": s.fields["step"]}

    def ensures(self, h, a, o, r):
        k = a["self"]
        n, rnew = a["_n"], a["_rnew"]
        st = k.fields["simulation_state"]
        yield "occupations are those after the hop", h.eq(st.fields["occupations"], a["_new"])
        yield "time advances by dt", h.eq(st.fields["time"], o["time"] + a["dt"])
        yield "step advances by one", h.eq(st.fields["step"], o["step"] + 1)
        e = h.int("some_event")
        h.assume(And(0 <= e, e < n))
        prob = h.it.resolve(k.fields["prob_list"])
        yield "every stored rate is current", h.eq(h.at(prob, e), rnew(e))
        cum = h.it.resolve(k.fields["prob_cum_list"])
        yield "cumulative table has one entry per event", h.eq(h.len(cum), n)
        yield "cumulative table is the running sum of current rates", h.eq(h.at(cum, e), h.sum(e + 1, lambda i: rnew(to_int(i))))


@contract
class KmcPropose(Contract):
    qual = KM + ":KMC.propose"
    props = ("C03",)

    def inputs(self, h):
        evs = mk_events(h)
        n = evs._spec[0]
        u1, u2 = h.real("u1"), h.real("u2")
        cum = h.nd("cum", (n,))
        h.assume(And(n > 0, asc(h, cum.fn, n), cum.fn(0) >= 0, cum.fn(n - 1) > 0, 0 <= u1, u1 < 1, 0 < u2, u2 < 1))
        k = h.rec(KM + ":KMC", prob_cum_list=cum, rng=h.stub("rng", {"random": draws([u1, u2])}))
        return {"self": k, "events": evs, "_cum": cum, "_u": (u1, u2), "_n": n}

    def ensures(self, h, a, o, r):
        u1, u2 = a["_u"]
        c, n = a["_cum"].fn, a["_n"]
        ev, dt = r[0], r[1]
        ev = h.it.resolve(ev)
        if not isinstance(ev, ElemRec):
            raise Unsupported("selected event is not an element of the list")
        i = to_int(ev.i)
        yield "the event returned is the selected one", And(ev.lst is a["events"], 0 <= i, i < n, u1 * c(n - 1) < c(i), Implies(i > 0, c(i - 1) <= u1 * c(n - 1)))
        yield "its waiting time is -ln(u2)/total", dt * c(n - 1) == -LOG(u2)

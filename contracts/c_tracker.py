"""Ion tracking: identity, displacement and hop counts."""
from pyvc.contract import *
from pyvc.core import EXP, RINT
from contracts.c_state import EV, ST, mk_state
from contracts.c_event import contains
from contracts.c_rates import HOP, site_event, spec_direction

TR = "kmcpy.simulator.tracker"
TK = TR + ":Tracker"


def rnd(h, x):
    """a nearest integer of x"""
    return h.it.models.rint(h.it, x)


def tie(h, x):
    r = z3.ToReal(rnd(h, x))
    return Or(x - r == z3.RealVal("1/2"), r - x == z3.RealVal("1/2"))


def mk_tracker(h, n, ions, st, **kw):
    frac = h.nd("frac", (n, 3))
    mat = h.nd("lattice", (3, 3))

    def cart(it, self, fc):
        fc = it.resolve(fc)
        v = [H(it).at(fc, j) for j in range(3)]
        return NdV((3,), lambda j: sum(to_real(v[i]) * mat.fn(i, j) for i in range(3)), "float")
    latt = h.stub("lattice", {"get_cartesian_coords": cart}, matrix=mat)
    s = h.stub("structure", frac_coords=frac, lattice=latt)
    f = dict(state=st, structure=s, config=h.stub("config"), hop_state_lookup=None)
    f.update(kw)
    return h.rec(TK, **f), frac, mat


class _Update(Contract):
    qual = TK + ".update"
    props = ("C06",)
    uses = (HOP + ":event_direction",)
    max_s = 200

    def inputs(self, h):
        n = h.pos("n_sites")
        ions = h.nat("n_ions")
        st = mk_state(h, n)
        ev = site_event(h, n)
        loc = h.nd("location", (ions,), "int")
        disp = h.nd("displacement", (ions, 3))
        hops = h.nd("hops", (ions,), "int")
        t, frac, mat = mk_tracker(h, n, ions, st, mobile_ion_specie_locations=loc, displacement=disp, hop_counter=hops,
                                  n_mobile_ion_specie=ions)
        occ = st.fields["occupations"]
        mob, at = h.fn("mobile_code", "int", "int"), h.fn("ion_at", "int", "int")
        c = ev.fields["hop_state_codes"]
        f, to = ev.fields["mobile_ion_indices"]
        # the tracked locations are exactly the sites holding the mobile ion, one ion each
        h.assume(h.forall(0, ions, lambda i: And(0 <= loc.fn(i), loc.fn(i) < n, h.at(occ, loc.fn(i)) == mob(loc.fn(i)), at(loc.fn(i)) == to_int(i))))
        h.assume(h.forall(0, n, lambda s: Implies(h.at(occ, s) == mob(to_int(s)), And(0 <= at(to_int(s)), at(to_int(s)) < ions, loc.fn(at(to_int(s))) == to_int(s)))))
        # codes on the event come from the sites' own mobile states; vacancy differs from the mobile ion; both endpoints share one coding
        h.assume(And(c[0] == mob(f), c[3] == mob(to), c[1] != c[3], c[2] != c[0], f != to))
        return {"self": t, "event": ev, "dt": h.real("dt"), "_x": (n, ions, frac, mat, mob, at)}

    def old(self, h, a):
        t = a["self"]
        cp = h.it.models.nd_copy if hasattr(h.it.models, "nd_copy") else None
        g = lambda k: (lambda v: NdV(v.shape, v.fn, v.dtype))(t.fields[k])
        s = t.fields["state"]
        return {"loc": g("mobile_ion_specie_locations"), "disp": g("displacement"), "hops": g("hop_counter"),
                "occ": h.it.seq_copy(s.fields["occupations"]), "time": s.fields["time"], "step": s.fields["step"]}

    def ensures(self, h, a, o, r):
        n, ions, frac, mat, mob, at = a["_x"]
        t, ev = a["self"], a["event"]
        occ = o["occ"]
        d = spec_direction(h, occ, ev)
        f, to = ev.fields["mobile_ion_indices"]
        src, dst = z3.If(d == 1, f, to), z3.If(d == 1, to, f)
        k = at(src)
        L, D, C = (h.it.resolve(t.fields[x]) for x in ("mobile_ion_specie_locations", "displacement", "hop_counter"))
        i = h.int("ion")
        h.assume(And(0 <= i, i < ions))
        st = t.fields["state"]
        yield "state not touched", And(h.eq(st.fields["occupations"], o["occ"]), h.eq(st.fields["time"], o["time"]), h.eq(st.fields["step"], o["step"]))
        yield "as many ions as before", And(h.eq(h.len(L), ions), h.eq(h.len(D), ions), h.eq(h.len(C), ions))
        yield "the moving ion is at the destination, the others stay", h.eq(h.at(L, i), z3.If(And(d != 0, i == k), dst, o["loc"].fn(i)))
        yield "exactly the moving ion's hop count grows by one", h.eq(h.at(C, i), o["hops"].fn(i) + z3.If(And(d != 0, i == k), 1, 0))
        delta = [z3.ToReal(d) * (frac.fn(to, j) - frac.fn(f, j)) for j in range(3)]
        w = [x - to_real(rnd(h, x)) for x in delta]
        for j in range(3):
            cart = sum(w[x] * mat.fn(x, j) for x in range(3))
            # where the midpoint between two images is hit exactly, either image is nearest
            yield f"displacement component {j} grows by the nearest-image hop vector", Or(And(d != 0, i == k, Or(*[tie(h, x) for x in delta])), h.eq(
                D.fn(i, j), o["disp"].fn(i, j) + z3.If(And(d != 0, i == k), cart, z3.RealVal(0))))
        # the tracked locations are again the mobile sites of the state after the hop
        c = ev.fields["hop_state_codes"]
        if self.same_codes:
            h.assume(And(c[0] == c[3], c[1] == c[2]))
        s = h.int("site")
        h.assume(And(0 <= s, s < n))
        new = z3.If(d == 0, h.at(occ, s), z3.If(s == f, h.at(occ, to), z3.If(s == to, h.at(occ, f), h.at(occ, s))))
        at2 = z3.If(And(d != 0, s == dst), k, at(s))
        here = And(0 <= at2, at2 < ions, h.eq(h.at(L, at2), s))
        yield "every mobile site of the new state has its ion", Implies(new == mob(s), here)
        li = to_int(h.at(L, i))
        newl = z3.If(d == 0, h.at(occ, li), z3.If(li == f, h.at(occ, to), z3.If(li == to, h.at(occ, f), h.at(occ, li))))
        yield "every ion is on a mobile site of the new state", newl == mob(li)
    same_codes = True


@contract
class Update(_Update):
    pass


@contract
class Reverse(_Update):
    """a hop followed by its reverse leaves no displacement and the ion where it was"""
    name = TK + ".update [hop and reverse]"

    def ensures(self, h, a, o, r):
        n, ions, frac, mat, mob, at = a["_x"]
        t, ev = a["self"], a["event"]
        st = t.fields["state"]
        c = ev.fields["hop_state_codes"]
        h.assume(And(c[0] == c[3], c[1] == c[2]))
        d = spec_direction(h, o["occ"], ev)
        h.assume(d != 0)
        f, to = ev.fields["mobile_ion_indices"]
        occ = o["occ"]
        st.fields["occupations"] = SeqV("list", n=n, fn=lambda s: z3.If(to_int(s) == f, h.at(occ, to), z3.If(to_int(s) == to, h.at(occ, f), h.at(occ, s))))
        h.call(h.func(self.qual), t, ev, h.real("dt2"))
        L, D, C = (h.it.resolve(t.fields[x]) for x in ("mobile_ion_specie_locations", "displacement", "hop_counter"))
        i = h.int("ion")
        h.assume(And(0 <= i, i < ions))
        yield "ion back at its site", h.eq(h.at(L, i), o["loc"].fn(i))
        for j in range(3):
            x = z3.ToReal(d) * (frac.fn(to, j) - frac.fn(f, j))
            h.assume(RINT(-x) == -RINT(x))    # rounding to nearest-even is odd
        for j in range(3):
            yield f"net displacement component {j} is zero", h.eq(D.fn(i, j), o["disp"].fn(i, j))
        src = z3.If(d == 1, f, to)
        yield "two hops counted", h.eq(h.at(C, i), o["hops"].fn(i) + z3.If(i == at(src), 2, 0))


class _Init(Contract):
    qual = TK + "._initialize_mobile_ion_tracking"
    props = ("C06",)
    lookup = True

    def inputs(self, h):
        n = h.pos("n_sites")
        st = mk_state(h, n)
        kw = {}
        if self.lookup:
            m = h.nd("mobile_state", (n,), "int")
            kw["hop_state_lookup"] = h.stub("lookup", mobile_state_by_site=m, vacancy_state_by_site=h.nd("vac_state", (n,), "int"))
        t, frac, mat = mk_tracker(h, n, None, st, **kw)
        if not self.lookup:
            # no lookup: state 0 is the mobile ion; every site of the structure carries the mobile species
            t.fields["config"] = h.stub("config", mobile_ion_specie="Na")
            sp = SeqV("list", n=n, fn=lambda i: h.stub("specie", symbol="Na"))
            t.fields["structure"].fields["species"] = sp
        return {"self": t, "initial_occ": st.fields["occupations"], "_x": (n, m if self.lookup else None)}

    def ensures(self, h, a, o, r):
        n, m = a["_x"]
        t = a["self"]
        occ = a["initial_occ"]
        s = h.int("site")
        h.assume(And(0 <= s, s < n))
        L = h.it.resolve(t.fields["mobile_ion_specie_locations"])
        is_mob = (h.at(occ, s) == 0) if m is None else And(m.fn(s) != -1, h.at(occ, s) == m.fn(s))
        yield "a site is tracked iff it holds the mobile ion", zbool(contains(h, L, s)) == zbool(is_mob)
        k = h.len(L)
        yield "ion count", h.eq(t.fields["n_mobile_ion_specie"], k)
        i, j = h.int("i"), h.int("j")
        h.assume(And(0 <= i, i < j, j < k))
        yield "each site tracked once", Not(h.eq(h.at(L, i), h.at(L, j)))
        D, C = h.it.resolve(t.fields["displacement"]), h.it.resolve(t.fields["hop_counter"])
        yield "no displacement and no hops yet", And(h.eq(h.len(D), k), h.eq(h.len(C), k), h.eq(h.at(C, i), 0), *[h.eq(D.fn(i, x), z3.RealVal(0)) for x in range(3)])


@contract
class InitLookup(_Init):
    name = _Init.qual + " [site codes]"


@contract
class InitPlain(_Init):
    name = _Init.qual + " [default codes]"
    lookup = False

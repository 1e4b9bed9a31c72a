"""Basis values, occupations, species <-> occupation value."""
from pyvc.contract import *

B = "kmcpy.structure.basis"
LS = "kmcpy.structure.lattice_structure:LatticeStructure"
OB, CB, OC = B + ":OccupationBasis", B + ":ChebyshevBasis", B + ":Occupation"


def occ_basis(h):
    return h.rec(OB, name="occupation")


def cheb_basis(h, q=None):
    q = h.int("max_states") if q is None else q
    h.assume(q >= 2)
    return h.rec(CB, name="chebyshev", max_states=q)


MK = {"occupation": occ_basis, "chebyshev": cheb_basis}
MATCH = {"occupation": 1, "chebyshev": 0}


class _Const(Contract):
    props = ("C17", "C09")
    which, want = None, None

    def inputs(self, h):
        return {"self": MK[self.which](h)}

    def ensures(self, h, a, o, r):
        yield f"is {self.want}", h.eq(r, self.want)


for _b, _c in (("occupation", OB), ("chebyshev", CB)):
    for _m, _v in (("match_value", MATCH[_b]), ("mismatch_value", 1 - MATCH[_b]), ("occupied_value", MATCH[_b]), ("vacant_value", 1 - MATCH[_b])):
        contract(type(f"{_b}_{_m}", (_Const,), dict(qual=f"{_c}.{_m}", which=_b, want=_v)))


@contract
class StateValueOcc(Contract):
    qual = B + ":BasisFunction.state_value"
    props = ("C17", "C09", "C13")

    def inputs(self, h):
        self.s = h.nat("state_index")
        return {"self": occ_basis(h), "state_index": self.s, "n_states": h.pos("n_states")}

    def ensures(self, h, a, o, r):
        yield "1 for the template species, 0 for the other", h.eq(r, z3.If(self.s == 0, 1, 0))


@contract
class StateValueCheb(Contract):
    qual = CB + ".state_value"
    props = ("C17", "C09", "C13")

    def inputs(self, h):
        self.s = h.nat("state_index")
        return {"self": cheb_basis(h), "state_index": self.s, "n_states": h.pos("n_states")}

    def ensures(self, h, a, o, r):
        yield "the state index itself", h.eq(r, self.s)


class _Flip(Contract):
    props = ("C17",)
    which = None

    def inputs(self, h):
        self.v = h.int("value")
        h.assume(Or(self.v == 0, self.v == 1))
        return {"self": MK[self.which](h), "value": self.v}

    def ensures(self, h, a, o, r):
        yield "the other one of the two values", h.eq(r, 1 - self.v)


contract(type("FlipOcc", (_Flip,), dict(qual=OB + ".flip", which="occupation")))
contract(type("FlipCheb", (_Flip,), dict(qual=CB + ".flip", which="chebyshev")))


class _Convert(Contract):
    qual = B + ":BasisFunction.convert_to"
    props = ("C17",)
    src = dst = None

    def inputs(self, h):
        self.v = h.int("value")
        b = MK[self.src](h)
        q = b.fields.get("max_states", 2)
        h.assume(And(self.v >= 0, self.v < q))
        return {"self": b, "value": self.v, "target_basis": MK[self.dst](h)}

    def ensures(self, h, a, o, r):
        m, t = MATCH[self.src], MATCH[self.dst]
        yield "template species stays template species, any other state is a mismatch", h.eq(r, z3.If(self.v == m, t, 1 - t))


for _s in MK:
    for _d in MK:
        contract(type(f"Convert_{_s}_{_d}", (_Convert,), dict(name=_Convert.qual + f" [{_s} to {_d}]", src=_s, dst=_d)))


class _Map1(Contract):
    props = ("C17",)
    which, spec = None, None

    def inputs(self, h):
        self.v = h.int("value")
        h.assume(Or(self.v == 0, self.v == 1))
        return {"self": MK[self.which](h), "value": self.v}

    def ensures(self, h, a, o, r):
        yield "as defined", zbool(h.eq(r, type(self).spec(self.v)))


for _q, _w, _f in ((OB + ".to_chebyshev", "occupation", lambda v: 1 - v), (OB + ".from_chebyshev", "occupation", lambda v: 1 - v),
                   (CB + ".to_occupation", "chebyshev", lambda v: 1 - v), (CB + ".from_occupation", "chebyshev", lambda v: 1 - v),
                   (OB + ".is_occupied", "occupation", lambda v: v == 1), (OB + ".is_vacant", "occupation", lambda v: v == 0),
                   (CB + ".is_occupied", "chebyshev", lambda v: v == 0), (CB + ".is_vacant", "chebyshev", lambda v: v == 1)):
    contract(type(_q.split(":")[1].replace(".", "_"), (_Map1,), dict(qual=_q, which=_w, spec=staticmethod(_f))))


@contract
class NumFunctions(Contract):
    qual = CB + ".num_site_basis_functions"
    props = ("C17", "C09")

    def inputs(self, h):
        self.q = h.pos("n_states")
        return {"self": cheb_basis(h), "n_states": self.q}

    def ensures(self, h, a, o, r):
        yield "q - 1 for q states", h.eq(r, z3.If(self.q < 2, 1, self.q - 1))


@contract
class ChebInit(Contract):
    qual = CB + ".__init__"
    props = ("C17",)

    def inputs(self, h):
        self.q = h.int("max_states")
        self.s = RecV(h.cls(CB), {})
        return {"self": self.s, "max_states": self.q}

    def raises(self, h, a, o):
        return [("ValueError", self.q < 2)]

    def ensures(self, h, a, o, r):
        yield "number of states", h.eq(self.s.fields["max_states"], self.q)


@contract
class ChebValid(Contract):
    qual = CB + ".valid_values"
    props = ("C17",)

    def inputs(self, h):
        self.q = h.int("max_states")
        return {"self": cheb_basis(h, self.q)}

    def ensures(self, h, a, o, r):
        x = h.int("x")
        yield "0 .. max_states - 1", zbool(h.it.contains(r, x)) == And(x >= 0, x < self.q)


@contract
class OccValid(Contract):
    qual = OB + ".valid_values"
    props = ("C17",)

    def inputs(self, h):
        return {"self": occ_basis(h)}

    def ensures(self, h, a, o, r):
        x = h.int("x")
        yield "0 and 1", zbool(h.it.contains(r, x)) == Or(x == 0, x == 1)


@contract
class SiteValues(Contract):
    """Chebyshev polynomials T_1 .. T_{q-1} at q equally spaced points of [-1, 1], for every q"""
    qual = CB + ".site_basis_values"
    props = ("C17", "C09")

    def inputs(self, h):
        self.q = h.pos("n_states")
        return {"self": cheb_basis(h), "n_states": self.q}

    def ensures(self, h, a, o, r):
        from pyvc.models import cheb_T
        r = h.it.resolve(r)
        q = self.q
        s, t, k = h.int("state"), h.int("other_state"), h.int("k")
        h.assume(And(0 <= s, s < q, 0 <= t, t < q, s != t))
        yield "one row per state", And(len(r.shape) == 2, h.eq(r.shape[0], q))
        yield "q - 1 functions", Implies(q >= 2, h.eq(r.shape[1], q - 1))
        h.assume(And(1 <= k, k < q))
        x = lambda s: z3.RealVal(-1) + 2 * z3.ToReal(s) / z3.ToReal(q - 1)
        yield "function k is T_k at the point of the state", Implies(q >= 2, h.eq(to_real(r.fn(s, k - 1)), cheb_T(k, x(s))))
        yield "the first function separates the states", Implies(q >= 2, to_real(r.fn(s, 0)) != to_real(r.fn(t, 0)))


class _SiteValuesAt(Contract):
    """the same for a fixed number of states, with the polynomials written out"""
    qual = CB + ".site_basis_values"
    props = ("C17", "C09")
    q = 2

    def inputs(self, h):
        return {"self": cheb_basis(h), "n_states": self.q}

    def ensures(self, h, a, o, r):
        from fractions import Fraction as F
        r = h.it.resolve(r)
        q = self.q
        yield "one row per state, q - 1 columns", And(len(r.shape) == 2, h.eq(r.shape[0], q), h.eq(r.shape[1], q - 1))
        for s in range(q):
            x = F(-1) + F(2 * s, q - 1)
            t0, t1 = F(1), x
            for k in range(1, q):
                yield f"state {s}, function {k}", h.eq(to_real(r.fn(s, k - 1)), z3.RealVal(t1))
                t0, t1 = t1, 2 * x * t1 - t0


for _q in (2, 3, 4):
    contract(type(f"SiteValues{_q}", (_SiteValuesAt,), dict(name=_SiteValuesAt.qual + f" [{_q} states]", q=_q)))


@contract
class SiteValuesOcc(Contract):
    qual = B + ":BasisFunction.site_basis_values"
    props = ("C17", "C09")

    def inputs(self, h):
        self.q = h.pos("n_states")
        return {"self": occ_basis(h), "n_states": self.q}

    def ensures(self, h, a, o, r):
        i = h.int("i")
        h.assume(And(0 <= i, i < self.q))
        r = h.it.resolve(r)
        yield "one row per state", h.eq(r.shape[0], self.q)
        yield "1 for the template species, else 0", h.eq(to_real(r.fn(i, 0)), z3.If(i == 0, z3.RealVal(1), z3.RealVal(0)))


class _GetBasis(Contract):
    qual = B + ":get_basis"
    props = ("C17", "C13")
    nm, cls = None, None

    def inputs(self, h):
        return {"name": self.nm}

    def ensures(self, h, a, o, r):
        yield "instance of the registered class", isinstance(r, RecV) and r.cls is h.cls(self.cls)


contract(type("GetOcc", (_GetBasis,), dict(name=_GetBasis.qual + " [occupation]", nm="occupation", cls=OB)))
contract(type("GetCheb", (_GetBasis,), dict(name=_GetBasis.qual + " [chebyshev]", nm="chebyshev", cls=CB)))


@contract
class GetUnknown(Contract):
    qual = B + ":get_basis"
    name = qual + " [unknown]"
    props = ("C17",)

    def inputs(self, h):
        return {"name": "spin"}

    def raises(self, h, a, o):
        return [("ValueError", True)]

    def ensures(self, h, a, o, r):
        yield "never accepted", False


# ------------------------------------------------------------ Occupation
def occ(h, which, n=None, name="value"):
    n = h.nat("n_sites") if n is None else n
    f = h.fn(name, "int", "int")
    b = MK[which](h)
    q = b.fields.get("max_states", 2)
    i = z3.FreshInt("i")
    h.assume(z3.ForAll([i], z3.And(0 <= f(i), f(i) < q), patterns=[f(i)]))
    d = NdV((n,), lambda i: f(to_int(i)), "int")
    return h.rec(OC, _basis_obj=b, _basis_name=which, _data=d), n, f, b


class _Occ(Contract):
    props = ("C17",)
    which = None
    args = {}

    def inputs(self, h):
        self.s, self.n, self.f, self.b = occ(h, self.which)
        return dict(self=self.s, **self.more(h))

    def more(self, h):
        return {}

    def same(self, h):
        i = h.int("i")
        d = h.it.resolve(self.s.fields["_data"])
        return Implies(And(0 <= i, i < self.n), h.eq(d.fn(i), self.f(i)))


def both(cls):
    for w in MK:
        contract(type(cls.__name__ + w, (cls,), dict(name=f"{cls.qual} [{w}]", which=w)))
    return cls


def counts(method, value):
    class C(_Occ):
        qual = f"{OC}.{method}"

        def ensures(self, h, a, o, r):
            v = value(self.which)
            yield "number of such sites", h.eq(r, h.sum(self.n, lambda i: z3.If(self.f(i) == v, 1, 0)))
            yield "occupation untouched", self.same(h)
    C.__name__ = method
    both(C)


def indices(method, value):
    class C(_Occ):
        qual = f"{OC}.{method}"

        def ensures(self, h, a, o, r):
            from contracts.c_order import pick
            v = value(self.which)
            m, keep, val = pick(h, r)
            k = h.int("k")
            inb = lambda q, b: And(0 <= q, q < b)
            yield "only such sites", Implies(And(inb(k, m), keep(k)), And(inb(to_int(val(k)), self.n), self.f(to_int(val(k))) == v))
            yield "all such sites", Implies(And(inb(k, self.n), self.f(k) == v), h.exists(0, m, lambda q: And(keep(q), h.eq(val(q), k)), "q"))
    C.__name__ = method
    both(C)


M_ = lambda w: MATCH[w]
X_ = lambda w: 1 - MATCH[w]
for _n, _f in (("match", M_), ("mismatch", X_), ("occupied", M_), ("vacant", X_)):
    counts("count_" + _n, _f)
    indices(f"get_{_n}_indices", _f)


class Flip(_Occ):
    qual = OC + ".flip"

    def more(self, h):
        self.k = h.nat("site")
        h.assume(self.k < self.n)
        i = z3.FreshInt("i")
        h.assume(z3.ForAll([i], z3.And(0 <= self.f(i), self.f(i) <= 1), patterns=[self.f(i)]))
        return {"indices": self.k}

    def ensures(self, h, a, o, r):
        i = h.int("i")
        h.assume(And(0 <= i, i < self.n))
        d = h.it.resolve(h.get(r, "_data"))
        yield "length", h.eq(d.shape[0], self.n)
        yield "only that site, to the other value", h.eq(d.fn(i), z3.If(i == self.k, 1 - self.f(i), self.f(i)))
        yield "original untouched", self.same(h)
        yield "same basis", h.get(r, "_basis_obj") is self.b


both(Flip)


class FlipInplace(_Occ):
    qual = OC + ".flip_inplace"
    more = Flip.more

    def ensures(self, h, a, o, r):
        i = h.int("i")
        h.assume(And(0 <= i, i < self.n))
        d = h.it.resolve(self.s.fields["_data"])
        yield "only that site, to the other value", h.eq(d.fn(i), z3.If(i == self.k, 1 - self.f(i), self.f(i)))


both(FlipInplace)


class Copy(_Occ):
    qual = OC + ".copy"

    def ensures(self, h, a, o, r):
        i = h.int("i")
        h.assume(And(0 <= i, i < self.n))
        d = h.it.resolve(h.get(r, "_data"))
        yield "same values", And(h.eq(d.shape[0], self.n), h.eq(d.fn(i), self.f(i)))
        yield "own storage", d is not self.s.fields["_data"] and d.parent is None
        yield "same basis", h.get(r, "_basis_obj") is self.b


both(Copy)


class ToBasis(_Occ):
    qual = OC + ".to_basis"
    other = None

    def more(self, h):
        self.t = MK[self.dst](h)
        return {"target_basis": self.t}

    def ensures(self, h, a, o, r):
        i = h.int("i")
        h.assume(And(0 <= i, i < self.n))
        d = h.it.resolve(h.get(r, "_data"))
        m, t = MATCH[self.which], MATCH[self.dst]
        yield "length", h.eq(d.shape[0], self.n)
        if self.which == self.dst:
            yield "unchanged", h.eq(d.fn(i), self.f(i))
        else:
            yield "template species stays template species, any other state is a mismatch", h.eq(d.fn(i), z3.If(self.f(i) == m, t, 1 - t))
        yield "in the target basis", h.get(r, "_basis_obj") is self.t
        yield "original untouched", self.same(h)


for _s in MK:
    for _d in MK:
        contract(type(f"ToBasis_{_s}_{_d}", (ToBasis,), dict(name=f"{ToBasis.qual} [{_s} to {_d}]", which=_s, dst=_d)))


class Equivalent(_Occ):
    qual = OC + ".equivalent_to"
    dst = None

    def more(self, h):
        self.o2, self.n2, self.g, _ = occ(h, self.dst, name="other")
        return {"other": self.o2}

    def ensures(self, h, a, o, r):
        m, t = MATCH[self.which], MATCH[self.dst]
        if self.which == self.dst:
            same = h.forall(0, self.n, lambda i: self.f(i) == self.g(i))
        else:
            same = h.forall(0, self.n, lambda i: (self.f(i) == m) == (self.g(i) == t))
        yield "exactly when both describe the same pattern", zbool(h.it.truth(r)) == And(self.n == self.n2, same)


for _s in MK:
    for _d in MK:
        contract(type(f"Equivalent_{_s}_{_d}", (Equivalent,), dict(name=f"{Equivalent.qual} [{_s}, {_d}]", which=_s, dst=_d)))


class Validate(_Occ):
    qual = OC + "._validate"

    def inputs(self, h):
        self.n = h.nat("n_sites")
        self.f = h.fn("value", "int", "int")
        self.b = MK[self.which](h)
        self.q = self.b.fields.get("max_states", 2)
        self.s = h.rec(OC, _basis_obj=self.b, _basis_name=self.which, _data=NdV((self.n,), lambda i: self.f(to_int(i)), "int"))
        return {"self": self.s}

    def raises(self, h, a, o):
        return [("ValueError", h.exists(0, self.n, lambda i: Or(self.f(i) < 0, self.f(i) >= self.q)))]

    def ensures(self, h, a, o, r):
        yield "accepted", r is None


both(Validate)


# ------------------------------------------------------------ lattice structure
class _Lat(Contract):
    props = ("C17", "C13")
    which = "chebyshev"

    def __init__(self):
        self.stubs = {"kmcpy.structure.species:species_equivalent": lambda it, f, a, k: self.same(to_int(a[0]), to_int(a[1])),
                      "kmcpy.structure.species:is_vacancy_species": lambda it, f, a, k: self.vac(to_int(a[0]))}

    def setup(self, h):
        self.same, self.vac = h.fn("equivalent", "int", "int", "bool"), h.fn("is_vacancy", "int", "bool")
        self.N, self.q = h.pos("n_sites"), h.pos("n_allowed")
        self.al = h.fn("allowed", "int", "int", "int")
        self.i = h.nat("site_index")
        h.assume(self.i < self.N)
        if self.which == "occupation":
            h.assume(self.q <= 2)
        self.b = MK[self.which](h)
        return h.rec(LS, allowed_species=SeqV("list", n=self.N, fn=lambda i: SeqV("list", n=self.q, fn=lambda j, i=i: self.al(to_int(i), to_int(j)))), basis=self.b)

    def val(self, s):
        return s if self.which == "chebyshev" else z3.If(to_int(s) == 0, 1, 0)


class ValueFor(_Lat):
    qual = LS + ".occupation_value_for_species"

    def inputs(self, h):
        s = self.setup(h)
        self.sp = h.int("specie")
        return {"self": s, "site_index": self.i, "specie": self.sp, "allowed_species": None}

    def hit(self, j):
        return self.same(self.sp, self.al(self.i, j))

    def raises(self, h, a, o):
        return [("ValueError", h.forall(0, self.q, lambda j: Not(self.hit(j))))]

    def ensures(self, h, a, o, r):
        yield "value of the first allowed species that matches", h.exists(0, self.q, lambda j: And(self.hit(j), h.forall(0, j, lambda k: Not(self.hit(k)), "k"), h.eq(r, self.val(j))))


both(ValueFor)


class SpeciesFor(_Lat):
    qual = LS + ".species_for_occupation_value"

    def inputs(self, h):
        s = self.setup(h)
        self.v = h.int("value")
        return {"self": s, "site_index": self.i, "value": self.v}

    def raises(self, h, a, o):
        return [("ValueError", h.forall(0, self.q, lambda j: Not(h.eq(self.v, self.val(j)))))]

    def ensures(self, h, a, o, r):
        yield "the allowed species whose value this is", h.exists(0, self.q, lambda j: And(h.eq(self.v, self.val(j)), h.eq(r, self.al(self.i, j))))


both(SpeciesFor)


class Missing(_Lat):
    qual = LS + "._missing_occupation_value"

    def inputs(self, h):
        s = self.setup(h)
        return {"self": s, "allowed_species": SeqV("list", n=self.q, fn=lambda j: self.al(self.i, to_int(j)))}

    def ensures(self, h, a, o, r):
        v = lambda j: self.vac(self.al(self.i, j))
        some = h.exists(0, self.q, v)
        yield "the vacancy state when vacancies are allowed", Implies(some, h.exists(0, self.q, lambda j: And(v(j), h.forall(0, j, lambda k: Not(v(k)), "k"), h.eq(r, self.val(j)))))


both(Missing)


@contract
class MakeSupercell(Contract):
    """every site of the supercell keeps the allowed species of the template site it is an image of"""
    qual = LS + ".make_supercell"
    props = ("C17",)

    def inputs(self, h):
        self.n, self.N = h.pos("n_template"), h.pos("n_supercell")
        self.src = h.fn("image_of", "int", "int")
        self.al = h.fn("allowed", "int", "int")
        i = z3.FreshInt("i")
        h.assume(z3.ForAll([i], z3.And(0 <= self.src(i), self.src(i) < self.n), patterns=[self.src(i)]))
        self.props_ = {}
        self.log = []
        st = {}

        def add(it, s, name, values):
            st[name] = it.as_seq(values)

        def sup(it, s, m, *a, **k):
            self.log.append(m)
            for nm, v in list(st.items()):
                st[nm] = SeqV("list", n=self.N, fn=lambda i, v=v: it.seq_select(v, self.src(to_int(i))))
            s.fields["_n"] = self.N

        def rem(it, s, name):
            st.pop(name, None)

        def props(it, s):
            return DictV(dict(st))
        props.is_property = True

        self.t = h.stub("Structure", {"add_site_property": add, "make_supercell": sup, "remove_site_property": rem, "site_properties": props,
                                      "__len__": lambda it, s: s.fields["_n"]}, _n=self.n)
        self.m = h.stub("Matrix")
        self.st = st
        self.s = h.rec(LS, template_structure=self.t, allowed_species=SeqV("list", n=self.n, fn=lambda i: self.al(to_int(i))), site_mapping=Opaque("m"), basis_type="chebyshev")
        return {"self": self.s, "sc_matrix": self.m}

    def ensures(self, h, a, o, r):
        i = h.int("i")
        h.assume(And(0 <= i, i < self.N))
        al = self.s.fields["allowed_species"]
        yield "the template becomes the supercell", len(self.log) == 1 and self.log[0] is self.m
        yield "one entry per supercell site", h.eq(h.len(al), self.N)
        yield "allowed species of the site it is an image of", h.eq(h.at(al, i), self.al(self.src(i)))
        yield "no helper property left behind", not self.st

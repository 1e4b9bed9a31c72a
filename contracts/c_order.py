"""The compact active-site index space."""
from pyvc.contract import *

SO = "kmcpy.structure.active_site_order"
AO = SO + ":ActiveSiteOrder"


def order(h, n=None, full=None, **kw):
    """an order: strictly increasing active_to_original inside the full site range"""
    n = h.pos("n_active") if n is None else n
    full = h.pos("n_full") if full is None else full
    f, p = h.fn("original_of", "int", "int"), h.fn("primitive_of", "int", "int")
    i, j = z3.FreshInt("i"), z3.FreshInt("j")
    h.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= f(i), f(i) < full)), patterns=[f(i)]))
    h.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
    a2o = SeqV("tuple", n=n, fn=lambda i: f(to_int(i)))
    k = h.pos("n_primitive_active")
    g = h.fn("primitive_active", "int", "int")
    h.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < k), g(i) < g(j)), patterns=[z3.MultiPattern(g(i), g(j))]))
    fields = dict(primitive_site_count=h.pos("n_primitive"), original_site_count=full, primitive_active_indices=SeqV("tuple", n=k, fn=lambda i: g(to_int(i))),
                  active_to_original=a2o, active_to_primitive=SeqV("tuple", n=n, fn=lambda i: p(to_int(i))), fixed_original_indices=h.ilist("fixed", kind="tuple"),
                  supercell_shape=(h.pos("s0"), h.pos("s1"), h.pos("s2")), species_by_primitive_site=h.ilist("species", kind="tuple", sort="str"),
                  allowed_species_by_primitive_site=h.ilist("allowed", kind="tuple", sort="str"), fingerprint=h.str("fingerprint"), template_structure=None)
    fields.update(kw)
    return h.rec(AO, **fields), n, full, f, k, g


@contract
class ShapeNone(Contract):
    qual = SO + ":_normalize_supercell_shape"
    name = qual + " [none]"
    props = ("C12",)

    def inputs(self, h):
        return {"supercell_shape": None}

    def ensures(self, h, a, o, r):
        yield "one cell", h.eq(r, (1, 1, 1))


@contract
class Shape(Contract):
    qual = SO + ":_normalize_supercell_shape"
    props = ("C12",)

    def inputs(self, h):
        self.n = h.nat("n")
        self.s = h.ilist("shape", self.n)
        return {"supercell_shape": self.s}

    def raises(self, h, a, o):
        return [("ValueError", Or(self.n != 3, h.exists(0, self.n, lambda i: self.s.fn(i) <= 0)))]

    def ensures(self, h, a, o, r):
        yield "three values", h.eq(h.len(r), 3)
        yield "as given", And(*[h.eq(h.at(r, i), self.s.fn(i)) for i in range(3)])


@contract
class Select(Contract):
    qual = AO + ".select_active_values"
    props = ("C12",)

    def inputs(self, h):
        s, self.n, self.full, self.f, _, _ = order(h)
        self.m = h.nat("n_values")
        self.v = h.fn("value", "int", "int")
        return {"self": s, "values": SeqV("list", n=self.m, fn=lambda i: self.v(to_int(i)))}

    def raises(self, h, a, o):
        return [("ValueError", And(self.m != self.n, self.m != self.full))]

    def ensures(self, h, a, o, r):
        i = h.int("i")
        h.assume(And(0 <= i, i < self.n))
        yield "one value per active site", h.eq(h.len(r), self.n)
        yield "compact values unchanged", Implies(self.m == self.n, h.eq(h.at(r, i), self.v(i)))
        yield "full values picked at the active sites in order", Implies(And(self.m == self.full, self.m != self.n), h.eq(h.at(r, i), self.v(self.f(i))))


@contract
class Validate(Contract):
    qual = AO + ".validate_active_indices"
    props = ("C12", "C18")

    def inputs(self, h):
        s, self.n, *_ = order(h)
        self.m = h.nat("n_indices")
        self.v = h.fn("index", "int", "int")
        return {"self": s, "indices": SeqV("tuple", n=self.m, fn=lambda i: self.v(to_int(i))), "field_name": "indices"}

    def raises(self, h, a, o):
        return [("IndexError", h.exists(0, self.m, lambda i: Or(self.v(i) < 0, self.v(i) >= self.n)))]

    def ensures(self, h, a, o, r):
        yield "nothing returned", r is None


class _Inverse(Contract):
    props = ("C12",)

    def ensures(self, h, a, o, r):
        i, x = h.int("i"), h.int("x")
        h.assume(And(0 <= i, i < self.n))
        f = self.f
        yield "inverse of the forward map", And(zbool(h.it.contains(r, f(i))), h.eq(h.it.getitem(r, f(i)), i))
        h.assume(h.forall(0, self.n, lambda k: f(k) != x))
        yield "nothing else", Not(zbool(h.it.contains(r, x)))


@contract
class OriginalToActive(_Inverse):
    qual = AO + ".original_to_active"

    def inputs(self, h):
        s, self.n, self.full, self.f, _, _ = order(h)
        return {"self": s}


@contract
class PrimitiveToActive(_Inverse):
    qual = AO + ".primitive_to_active"

    def inputs(self, h):
        s, _, _, _, self.n, self.f = order(h)
        return {"self": s}


@contract
class ActiveCount(Contract):
    qual = AO + ".active_site_count"
    props = ("C12",)

    def inputs(self, h):
        s, self.n, *_ = order(h)
        return {"self": s}

    def ensures(self, h, a, o, r):
        yield "number of active sites", h.eq(r, self.n)


@contract
class SameOrder(Contract):
    qual = AO + ".assert_same_order"
    props = ("C12", "C13")

    def inputs(self, h):
        return {"self": order(h)[0], "other": order(h)[0]}

    def raises(self, h, a, o):
        return [("ValueError", a["self"].fields["fingerprint"] != a["other"].fields["fingerprint"])]

    def ensures(self, h, a, o, r):
        yield "accepted", r is None


# ------------------------------------------------------------ construction
def pick(h, r):
    """sequence r as kept(k) positions of a longer one: (n, kept, value)"""
    s = h.it.as_seq(r)
    if s.filt is not None:
        n, c, v = s.filt
        return n, (lambda k: zbool(c(k))), v
    return s.length(), (lambda k: z3.BoolVal(True)), lambda k: h.it.seq_select(s, k)


def lists_exactly(h, r, n, cond, val, what):
    """r lists, in increasing k < n with cond(k), the value val(k)"""
    x = h.int("x")
    m, keep, v = pick(h, r)
    i, j, k = h.int("i"), h.int("j"), h.int("k")
    inb = lambda q, b: And(0 <= q, q < b)
    yield f"{what}: only those, at their value", Implies(And(inb(i, m), keep(i)), h.exists(0, n, lambda q: And(cond(q), h.eq(v(i), val(q))), "q"))
    yield f"{what}: all of those", Implies(And(inb(k, n), cond(k)), h.exists(0, m, lambda q: And(keep(q), h.eq(v(q), val(k))), "q"))


def increasing(h, r, what):
    m, keep, v = pick(h, r)
    i, j = h.int("i"), h.int("j")
    yield f"{what}: increasing, hence unique", Implies(And(0 <= i, i < j, j < m, keep(i), keep(j)), to_int(v(i)) < to_int(v(j)))


def structure(h, n, **fields):
    s = RecListV(StubClass("Site"), n, fields)
    return s


class _Build(Contract):
    qual = AO + ".from_structure_and_mapping"
    props = ("C12",)

    def __init__(self):
        self.stubs = {SO + ":_normalize_supercell_shape": lambda it, f, a, k: self.shape,
                      SO + ":_allowed_species_by_site": lambda it, f, a, k: self._log("allowed", a, k, self.allowed),
                      SO + ":_make_supercell_with_properties": lambda it, f, a, k: self._log("cell", a, k, self.full),
                      SO + ":_fingerprint": lambda it, f, a, k: self._log("print", a, k, self.fp),
                      "kmcpy.structure.species:species_label": lambda it, f, a, k: self.label(to_int(a[0]))}

    def _log(self, what, a, k, r):
        self.calls.append((what, a, k))
        return r

    def inputs(self, h):
        self.calls = []
        self.shape = (h.pos("s0"), h.pos("s1"), h.pos("s2"))
        self.P, self.N = h.pos("n_primitive"), h.pos("n_full")
        sp, self.na, al = h.fn("specie", "int", "int"), h.fn("n_allowed", "int", "int"), h.fn("allowed", "int", "int", "int")
        self.prim, self.label = h.fn("primitive_of", "int", "int"), h.fn("label", "int", "str")
        i = z3.FreshInt("i")
        h.assume(z3.ForAll([i], self.na(i) >= 0, patterns=[self.na(i)]))
        h.assume(z3.ForAll([i], z3.And(0 <= self.prim(i), self.prim(i) < self.P), patterns=[self.prim(i)]))
        self.sp, self.al = sp, al
        self.allowed = SeqV("list", n=self.P, fn=lambda i: SeqV("tuple", n=self.na(to_int(i)), fn=lambda j, i=i: al(to_int(i), to_int(j))))
        tmpl = structure(h, self.P, specie=lambda i: sp(to_int(i)))
        self.full = structure(h, self.N, properties=lambda i: DictV({"_kmcpy_primitive_site_index": self.prim(to_int(i))}))
        self.fp = h.str("fingerprint")
        self.tmpl = tmpl
        return {"cls": h.cls(AO), "template_structure": tmpl, "site_mapping": Opaque("mapping"), "supercell_shape": Opaque("shape")}

    def raises(self, h, a, o):
        return [("ValueError", h.forall(0, self.P, lambda i: self.na(to_int(i)) <= 1))]

    def ensures(self, h, a, o, r):
        F = r.fields
        act = lambda j: self.na(to_int(j)) > 1
        ident = lambda j: to_int(j)
        yield from lists_exactly(h, F["primitive_active_indices"], self.P, act, ident, "primitive active sites")
        yield from increasing(h, F["primitive_active_indices"], "primitive active sites")
        yield from lists_exactly(h, F["active_to_original"], self.N, lambda j: act(self.prim(to_int(j))), ident, "active sites")
        yield from increasing(h, F["active_to_original"], "active sites")
        yield from lists_exactly(h, F["fixed_original_indices"], self.N, lambda j: Not(act(self.prim(to_int(j)))), ident, "fixed sites")
        n, keep, v = pick(h, F["active_to_original"])
        n2, keep2, v2 = pick(h, F["active_to_primitive"])
        k = h.int("k")
        yield "the primitive site of each active site", And(h.eq(n, n2), Implies(And(0 <= k, k < n), And(keep(k) == keep2(k), h.eq(v2(k), self.prim(to_int(v(k)))))))
        yield "counts", And(h.eq(F["primitive_site_count"], self.P), h.eq(F["original_site_count"], self.N))
        yield "shape", h.eq(F["supercell_shape"], self.shape)
        i, j = h.int("site"), h.int("entry")
        h.assume(And(0 <= i, i < self.P))
        yield "species labels", And(h.eq(h.len(F["species_by_primitive_site"]), self.P), h.eq(h.at(F["species_by_primitive_site"], i), self.label(self.sp(i))))
        al = h.at(F["allowed_species_by_primitive_site"], i)
        h.assume(And(0 <= j, j < self.na(i)))
        yield "allowed species labels", And(h.eq(h.len(al), self.na(i)), h.eq(h.at(al, j), self.label(self.al(i, j))))
        (_, pa, pk), = [c for c in self.calls if c[0] == "print"]
        d = (pa or list(pk.values()))[0].d
        need = ("primitive_active_indices", "active_to_original", "active_to_primitive", "supercell_shape", "species_by_primitive_site", "allowed_species_by_primitive_site", "primitive_site_count", "original_site_count")
        yield "fingerprint is that of exactly this order", And(r.fields["fingerprint"] is self.fp or h.eq(r.fields["fingerprint"], self.fp), *[k in d for k in need])
        for k in ("supercell_shape", "primitive_site_count", "original_site_count"):
            yield f"fingerprint covers {k}", h.eq(d[k], F[k])
        for k in ("species_by_primitive_site", "primitive_active_indices", "active_to_original", "active_to_primitive"):
            n1, k1, v1 = pick(h, d[k])
            n2, k2, v2 = pick(h, F[k])
            q = h.int("q")
            yield f"fingerprint covers {k}", And(h.eq(n1, n2), Implies(And(0 <= q, q < n1), And(k1(q) == k2(q), h.eq(v1(q), v2(q)))))
        ad = h.at(d["allowed_species_by_primitive_site"], i)
        yield "fingerprint covers the allowed species", And(h.eq(h.len(ad), self.na(i)), h.eq(h.at(ad, j), self.label(self.al(i, j))))
        for what, ca, ck in self.calls:
            vals = list(ca) + list(ck.values())
            if what == "allowed":
                yield "allowed species from this template and mapping", And(any(x is a["template_structure"] for x in vals), any(x is a["site_mapping"] for x in vals))
            elif what == "cell":
                yield "supercell of this template and shape", And(any(x is a["template_structure"] for x in vals), any(x is self.shape for x in vals))


@contract
class Build(_Build):
    pass


@contract
class AllowedSpecies(Contract):
    qual = SO + ":_allowed_species_by_site"
    props = ("C12",)

    def __init__(self):
        self.stubs = {"kmcpy.structure.species:normalize_species": lambda it, f, a, k: self.norm(to_int(a[0])),
                      SO + ":_normalize_allowed_species": lambda it, f, a, k: self.nal(to_int(a[0])),
                      "kmcpy.structure.species:species_equivalent": lambda it, f, a, k: self.same(to_int(a[0]), to_int(a[1]))}

    def inputs(self, h):
        self.P, self.M = h.nat("n_sites"), h.nat("n_entries")
        self.sp, self.key, self.val = h.fn("specie", "int", "int"), h.fn("key", "int", "int"), h.fn("value", "int", "int")
        self.norm, self.nal, self.same = h.fn("normalized", "int", "int"), h.fn("normalized_allowed", "int", "int"), h.fn("equivalent", "int", "int", "bool")
        tmpl = structure(h, self.P, specie=lambda i: self.sp(to_int(i)), species_string=lambda i: "?")
        items = SeqV("list", n=self.M, fn=lambda i: (self.key(to_int(i)), self.val(to_int(i))))
        return {"template_structure": tmpl, "site_mapping": h.stub("mapping", {"items": lambda it, s: items})}

    def hit(self, i, k):
        return self.same(self.sp(to_int(i)), self.norm(self.key(to_int(k))))

    def raises(self, h, a, o):
        return [("ValueError", h.exists(0, self.P, lambda i: h.forall(0, self.M, lambda k: Not(self.hit(i, k)), "k"), "i"))]

    def ensures(self, h, a, o, r):
        i, k = h.int("site"), h.int("entry")
        h.assume(And(0 <= i, i < self.P, 0 <= k, k < self.M, self.hit(i, k), h.forall(0, k, lambda q: Not(self.hit(i, q)), "q")))
        yield "one entry per template site", h.eq(h.len(r), self.P)
        yield "the first matching entry of the mapping", h.eq(h.at(r, i), self.nal(self.val(k)))


@contract
class Labels(Contract):
    """each site of the full supercell carries its own index, its primitive site and its compact index (-1 if fixed)"""
    qual = SO + ":_make_supercell_with_properties"
    props = ("C12",)

    def __init__(self):
        self.stubs = {"kmcpy.structure.sites:make_kmc_supercell": lambda it, f, a, k: self.cell(a, k),
                      "kmcpy.structure.sites:structure_from_sites": lambda it, f, a, k: self.rebuilt(a, k)}

    def inputs(self, h):
        self.put, self.base_put, self.log = {}, {}, []
        self.P, self.N = h.pos("n_primitive"), h.pos("n_full")
        self.prim = h.fn("primitive_of", "int", "int")
        self.has, self.to = h.fn("is_active", "int", "bool"), h.fn("primitive_active", "int", "int")
        i = z3.FreshInt("i")
        h.assume(z3.ForAll([i], z3.And(0 <= self.prim(i), self.prim(i) < self.P), patterns=[self.prim(i)]))
        base = RecListV(StubClass("Site"), self.P, {})
        base.stubs = {"add_site_property": lambda it, s, k, v: self.base_put.__setitem__(k, v)}
        self.base = base
        self.sites = Opaque("sites of the copy")
        base.fields["x"] = lambda i: 0
        tmpl = h.stub("template", {"copy": lambda it, s: self.copy()})
        full = RecListV(StubClass("Site"), self.N, {"properties": lambda i: DictV({"_kmcpy_primitive_site_index": self.prim(to_int(i))})})
        full.stubs = {"add_site_property": lambda it, s, k, v: self.put.__setitem__(k, v)}
        self.full = full
        self.shape = (h.pos("s0"), h.pos("s1"), h.pos("s2"))
        base.stubs["sites"] = None
        return {"template_structure": tmpl, "primitive_active_lookup": MapV(lambda k: self.has(to_int(k)), lambda k: self.to(to_int(k)), z3.IntSort()), "supercell_shape": self.shape}

    def copy(self):
        self.log.append("copied")
        return self.base

    def rebuilt(self, a, k):
        self.log.append("rebuilt")
        return Opaque("rebuilt")

    def cell(self, a, k):
        self.log.append(("cell", list(a) + list(k.values())))
        return self.full

    def ensures(self, h, a, o, r):
        g = lambda k: self.put[k]
        i, j = h.int("site"), h.int("other")
        ok = And(0 <= i, i < j, j < self.N)
        A, O = h.it.as_seq(self.put["_kmcpy_active_site_index"]), self.put["_kmcpy_original_site_index"]
        act = lambda q: self.has(self.prim(q))
        yield "one label per site", And(h.eq(A.length(), self.N), h.eq(h.len(O), self.N))
        yield "full index", Implies(And(0 <= i, i < self.N), h.eq(h.at(O, i), i))
        ai, aj = to_int(h.at(A, i)), to_int(h.at(A, j))
        yield "fixed sites carry -1", Implies(And(0 <= i, i < self.N, Not(act(i))), ai == -1)
        yield "active sites carry a valid index", Implies(And(0 <= i, i < self.N, act(i)), ai >= 0)
        B = self.base_put["_kmcpy_primitive_site_index"]
        p = h.int("p")
        yield "primitive index", And(h.eq(h.len(B), self.P), Implies(And(0 <= p, p < self.P), h.eq(h.at(B, p), p)))
        C = self.base_put["_kmcpy_primitive_active_site_index"]
        yield "primitive compact index", And(h.eq(h.len(C), self.P), Implies(And(0 <= p, p < self.P), h.eq(h.at(C, p), z3.If(self.has(p), self.to(p), -1))))
        cnt = h.sum(i, lambda q: z3.If(act(q), z3.IntVal(1), z3.IntVal(0)))
        yield "compact index is the number of active sites before", Implies(And(0 <= i, i < self.N, act(i)), h.eq(ai, cnt))
        yield "template left alone", "copied" in self.log
        yield "this supercell", And(r is self.full, any(isinstance(x, tuple) and x[0] == "cell" and any(y is self.shape for y in x[1]) for x in self.log))


@contract
class OrderRoundTrip(Contract):
    qual = AO + ".from_dict"
    props = ("C12", "C13")

    def inputs(self, h):
        s, self.n, self.full, self.f, _, _ = order(h)
        self.src = s
        k, na, al = h.pos("n_species"), h.fn("n_allowed", "int", "int"), h.fn("allowed_label", "int", "int", "str")
        i = z3.FreshInt("i")
        h.assume(z3.ForAll([i], na(i) >= 0, patterns=[na(i)]))
        s.fields["allowed_species_by_primitive_site"] = SeqV("tuple", n=k, fn=lambda i: SeqV("tuple", n=na(to_int(i)), fn=lambda j, i=i: al(to_int(i), to_int(j))))
        return {"cls": h.cls(AO), "data": h.call(h.get(s, "as_dict"))}

    def ensures(self, h, a, o, r):
        for k, v in self.src.fields.items():
            yield f"{k} restored", h.eq(r.fields[k], v)


@contract
class OrderBadFormat(Contract):
    qual = AO + ".from_dict"
    name = qual + " [other format]"
    props = ("C12", "C13")

    def inputs(self, h):
        self.tag = h.str("format")
        return {"cls": h.cls(AO), "data": DictV({"format": self.tag})}

    def raises(self, h, a, o):
        return [("ValueError", Not(h.eq(self.tag, "kmcpy.active_site_order.v1"))), ("KeyError", h.eq(self.tag, "kmcpy.active_site_order.v1"))]


@contract
class ActiveStructure(Contract):
    qual = AO + ".active_structure"
    props = ("C12",)

    def inputs(self, h):
        s, self.n, self.full, self.f, _, _ = order(h)
        full = RecListV(StubClass("Site"), self.full, {"tag": lambda i: to_int(i)})
        self.cells, self.put = full, {}
        self.given = []
        cls = h.stub("StructureClass", {"from_sites": lambda it, c, sites: self.made(it, sites)})
        full.type_stub = cls
        s.stubs = {"full_structure_with_properties": lambda it, me: full}
        return {"self": s}

    def made(self, it, sites):
        self.given.append(sites)
        return RecV(StubClass("Structure"), {}, {"add_site_property": lambda it, s, k, v: self.put.__setitem__(k, v)})

    def ensures(self, h, a, o, r):
        i = h.int("i")
        h.assume(And(0 <= i, i < self.n))
        sites = self.given[0]
        yield "one site per active index", h.eq(h.len(sites), self.n)
        e = h.at(sites, i)
        yield "the site of that index", isinstance(e, ElemRec) and e.lst is self.cells and h.eq(e.i, self.f(i))
        p = self.put["_kmcpy_active_site_index"]
        yield "labelled by compact index", And(h.eq(h.len(p), self.n), h.eq(h.at(p, i), i))


@contract
class FilterFull(ActiveStructure):
    qual = AO + ".filter_active_structure"
    name = qual + " [full structure]"

    def inputs(self, h):
        a = super().inputs(h)
        a["structure"] = self.cells
        self.cells.stubs = {"copy": lambda it, s: Opaque("copy")}
        prop = lambda it, s: DictV({})
        self.cells.attrs = {"site_properties": DictV({})}
        return a


def species_stub(h, sym, text, element=None):
    f = {"symbol": sym}
    if element is not None:
        f["element"] = element
    return h.stub("Species", {"__str__": lambda it, s: text}, **f)


class _Label(Contract):
    qual = "kmcpy.structure.species:species_label"
    props = ("C12", "C17")

    def inputs(self, h):
        return {"specie": self.given}

    def ensures(self, h, a, o, r):
        yield "one label for every spelling of the vacancy, other names kept", r == self.want


for _v, _w in (("X", "X"), ("Vacancy", "X"), ("vacancy", "X"), ("Va", "X"), ("VA", "X"), ("Na", "Na"), ("Na+", "Na+"), ("Xe", "Xe"), ("V", "V")):
    contract(type("Label_" + _v, (_Label,), {"name": f"{_Label.qual} [{_v}]", "given": _v, "want": _w}))


class _Same(Contract):
    qual = "kmcpy.structure.species:species_equivalent"
    props = ("C12", "C17")

    def inputs(self, h):
        return {"left": self.l, "right": self.r}

    def ensures(self, h, a, o, r):
        yield "same name or both a vacancy", r is self.want or h.eq(r, self.want)


for _l, _r, _w in (("X", "Vacancy", True), ("Va", "vacancy", True), ("Na", "Na", True), ("Na", "X", False), ("X", "Na", False), ("Na", "K", False), ("V", "Va", False), ("Xe", "X", False), ("N", "Na", False)):
    contract(type(f"Same_{_l}_{_r}", (_Same,), {"name": f"{_Same.qual} [{_l},{_r}]", "l": _l, "r": _r, "want": _w}))

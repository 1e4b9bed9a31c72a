"""Event generation: selection of sites, neighbours within cutoffs, periodic index mapping, library assembly."""
from pyvc.contract import *
from contracts.c_order import pick, lists_exactly, increasing

GE = "kmcpy.event.generators"
EG = GE + ":EventGenerator"
NB = "kmcpy.structure.neighbors"
ST = "kmcpy.structure.sites"


# ------------------------------------------------------------ periodic wrap and site keys
class _Wrap(Contract):
    qual = GE + ":normalize_supercell_tuple"
    props = ("C18",)
    extra = False

    def inputs(self, h):
        self.c = [h.nat("cell%d" % i) for i in range(3)]
        self.u = [h.int("image%d" % i) for i in range(3)]
        self.s = [h.pos("shape%d" % i) for i in range(3)]
        d = {"site_belongs_to_supercell": tuple(self.c), "image_of_site": tuple(self.u), "supercell_shape": SeqV("list", items=list(self.s))}
        if self.extra:
            self.x = d["additional_input"] = h.pos("extra")
        return d

    def ensures(self, h, a, o, r):
        yield "three components" + (" and the extra one" if self.extra else ""), h.eq(h.len(r), 4 if self.extra else 3)
        for i in range(3):
            v = to_int(h.at(r, i))
            k = h.int("k")
            yield f"component {i} inside the supercell", And(0 <= v, v < self.s[i])
            yield f"component {i} is the periodic image", h.eq(v, (self.c[i] + self.u[i]) % self.s[i])
        if self.extra:
            yield "extra component last", h.eq(h.at(r, 3), self.x)


@contract
class Wrap(_Wrap):
    pass


@contract
class WrapExtra(_Wrap):
    name = _Wrap.qual + " [with extra component]"
    extra = True


class _Key(Contract):
    props = ("C18",)

    def inputs(self, h):
        self.t = [h.int("t%d" % i) for i in range(3)]
        self.l, self.k = h.str("label"), h.int("k")
        return {"supercell": tuple(self.t), "label": self.l, self.arg: self.k}

    def ensures(self, h, a, o, r):
        yield "key holds cell, label and local index and nothing else", And(h.eq(h.len(r), 5), *[h.eq(h.at(r, i), v) for i, v in enumerate(self.t + [self.l, self.k])])


@contract
class SiteKey(_Key):
    qual = ST + ":site_index_key"
    arg = "local_index"


@contract
class InfoKey(_Key):
    qual = ST + ":kmc_info_key"
    arg = "wyckoff_sequence"


# ------------------------------------------------------------ site selection
class _Find(Contract):
    qual = GE + ":find_atom_indices"
    props = ("C18",)
    kind = "species"

    def __init__(self):
        self.stubs = {EG + "._site_matches_species_identifier": lambda it, f, a, k: self._ask("species", a, k),
                      EG + "._site_matches_label_identifier": lambda it, f, a, k: self._ask("label", a, k)}

    def _ask(self, what, a, k):
        v = list(a) + list(k.values())
        site = next(x for x in v if isinstance(x, ElemRec))
        if not any(x is self.ident for x in v):
            return z3.FreshConst(z3.BoolSort(), "other_identifier")
        return self.hit[what](site.i)

    def inputs(self, h):
        self.n = h.nat("n_sites")
        self.hit = {"species": h.fn("matches_species", "int", "bool"), "label": h.fn("matches_label", "int", "bool")}
        self.ident = Opaque("identifier")
        return {"structure": RecListV(StubClass("Site"), self.n, {"tag": lambda i: to_int(i)}), "site_selection_kind": self.kind, "atom_identifier": self.ident}

    def ensures(self, h, a, o, r):
        yield from lists_exactly(h, r, self.n, lambda q: self.hit[self.kind](to_int(q)), lambda q: to_int(q), "sites matching the identifier")
        yield from increasing(h, r, "sites matching the identifier")


@contract
class FindSpecies(_Find):
    name = _Find.qual + " [species]"


@contract
class FindLabel(_Find):
    name = _Find.qual + " [label]"
    kind = "label"


@contract
class FindOther(_Find):
    name = _Find.qual + " [unknown kind]"
    kind = "wyckoff"

    def raises(self, h, a, o):
        return [("ValueError", True)]


class _Target(Contract):
    qual = EG + "._is_valid_target_site"
    props = ("C18",)
    kind = "species"

    def __init__(self):
        self.stubs = {EG + "._site_matches_species_identifier": lambda it, f, a, k: self._ask("species", a, k),
                      EG + "._site_matches_label_identifier": lambda it, f, a, k: self._ask("label", a, k)}

    def _ask(self, what, a, k):
        v = list(a) + list(k.values())
        self.ok = any(x is self.site for x in v) and any(x is self.ident for x in v)
        return self.hit[what]

    def inputs(self, h):
        self.ok = False
        self.hit = {k: h.bool("matches_" + k) for k in ("species", "label")}
        self.site, self.ident = Opaque("site"), Opaque("identifier")
        return {"self": h.rec(EG), "site": self.site, "site_selection_kind": self.kind, "target_identifier": self.ident}

    def ensures(self, h, a, o, r):
        yield "this site against this identifier", self.ok
        yield "as matched by " + self.kind, zbool(h.it.truth(r)) == self.hit[self.kind]


@contract
class TargetSpecies(_Target):
    name = _Target.qual + " [species]"


@contract
class TargetLabel(_Target):
    name = _Target.qual + " [label]"
    kind = "label"


@contract
class TargetOther(_Target):
    name = _Target.qual + " [unknown kind]"
    kind = "wyckoff"

    def raises(self, h, a, o):
        return [("ValueError", True)]


class _LabelMatch(Contract):
    qual = EG + "._site_matches_label_identifier"
    props = ("C18",)

    def inputs(self, h):
        self.l = h.str("label")
        self.ids = [h.str("id%d" % i) for i in range(2)]
        return {"cls": h.cls(EG), "site": h.stub("Site", properties=DictV({"label": self.l})), "identifier": self.ids[0] if self.one else SeqV(self.seq, items=list(self.ids))}

    def ensures(self, h, a, o, r):
        yield "label is one of the identifiers", zbool(h.it.truth(r)) == Or(*[h.eq(self.l, x) for x in (self.ids[:1] if self.one else self.ids)])


@contract
class LabelOne(_LabelMatch):
    name = _LabelMatch.qual + " [one]"
    one = True


@contract
class LabelList(_LabelMatch):
    name = _LabelMatch.qual + " [list of two]"
    one, seq = False, "list"


@contract
class LabelTuple(_LabelMatch):
    name = _LabelMatch.qual + " [tuple of two]"
    one, seq = False, "tuple"


class _SpeciesMatch(Contract):
    """a site of species `text` (symbol `sym`) against an identifier"""
    qual = EG + "._site_matches_species_identifier"
    props = ("C18",)

    def inputs(self, h):
        f = {"symbol": self.sym}
        if self.el:
            f["element"] = h.stub("Element", {"__str__": lambda it, s: self.sym}, symbol=self.sym)
        sp = h.stub("Species", {"__str__": lambda it, s: self.text}, **f)
        sp.absent = {"element"}
        comp = h.stub("Composition", {"keys": lambda it, s: SeqV("list", items=[sp])})
        return {"cls": h.cls(EG), "site": h.stub("Site", species_string=self.text, specie=sp, species=comp), "identifier": self.ident if isinstance(self.ident, str) else SeqV("list", items=list(self.ident))}

    def ensures(self, h, a, o, r):
        yield "matches by name or element exactly", r is self.want or h.eq(r, self.want)


for _t, _s, _e, _i, _w in (("Na+", "Na", True, "Na", True), ("Na+", "Na", True, "Na+", True), ("Na+", "Na", True, "N", False), ("N", "N", False, "Na", False), ("Na+", "Na", True, ["K", "Na"], True),
                           ("Na+", "Na", True, ["K", "Li+"], False), ("Na", "Na", False, "Na", True), ("Na+", "Na", True, "Na2+", False), ("Na+", "Na", True, "K", False)):
    _n = "".join(_i) if isinstance(_i, list) else _i
    contract(type("Species_%s_%s" % (_t, _n), (_SpeciesMatch,), {"name": "%s [%s is %s]" % (_SpeciesMatch.qual, _t, _i), "text": _t, "sym": _s, "el": _e, "ident": _i, "want": _w}))


# ------------------------------------------------------------ site index
@contract
class BuildIndex(Contract):
    """skip_check False: a lookup that inverts the key, or KeyError when two sites share one"""
    qual = ST + ":build_site_index"
    props = ("C18",)

    def __init__(self):
        self.stubs = {ST + ":site_index_key": self._key}

    def _key(self, it, f, a, kw):
        d = dict(zip(("supercell", "label", "local_index"), a), **kw)
        i = {k: self.tag_of(k, d.get(k)) for k in ("supercell", "label", "local_index")}
        v = list(i.values())
        self.whole = self.whole and all(x is not None for x in v) and all(z3.eq(to_int(x), to_int(v[0])) for x in v)
        return self.key(to_int(v[0])) if self.whole else z3.FreshInt("other_key")

    def tag_of(self, k, v):
        # properties are tagged by (name, site): encoded as 3*site + position
        p = {"supercell": 0, "label": 1, "local_index": 2}[k]
        t = z3.simplify(to_int(v) - p)
        for q in self.sites:
            if z3.is_true(z3.simplify(t == 3 * q)):
                return q
        return None

    def inputs(self, h):
        self.whole, self.sites = True, []
        self.n = h.nat("n_sites")
        self.key = h.fn("key", "int", "int")
        S = RecListV(StubClass("Site"), self.n, {"properties": self._props})
        S.attrs = {"site_properties": DictV({"supercell": 0, "label": 0, "local_index": 0})}
        return {"structure": S, "skip_check": False}

    def _props(self, i):
        i = to_int(i)
        self.sites.append(i)
        return DictV({"supercell": 3 * i, "label": 3 * i + 1, "local_index": 3 * i + 2})

    def raises(self, h, a, o):
        return [("KeyError", h.exists(0, self.n, lambda j: h.exists(0, j, lambda i: self.key(to_int(i)) == self.key(to_int(j)), "i"), "j"))]

    def ensures(self, h, a, o, r):
        i, x = h.int("i"), h.int("x")
        yield "key made of the site's own cell, label and local index", self.whole
        h.assume(And(0 <= i, i < self.n))
        yield "each key leads to its site", And(zbool(h.it.contains(r, self.key(i))), h.eq(h.it.getitem(r, self.key(i)), i))
        h.assume(h.forall(0, self.n, lambda q: self.key(to_int(q)) != x))
        yield "no other keys", Not(zbool(h.it.contains(r, x)))


# ------------------------------------------------------------ neighbours within the cutoffs
class _Lookup(Contract):
    """species-pair table: symmetric, later entries win, radius = largest cutoff (three entries, symbolic cutoffs)"""
    props = ("C18",)
    keys = (("Na", "Na"), ("Si", "Na"), ("O", "Si"))

    def inputs(self, h):
        self.c = [self.val(h, i) for i in range(3)]
        return {"cutoff_dict": DictV(dict(zip(self.keys, self.c)))}

    def look(self, h, r, table, a, b):
        t = h.it.getitem(h.it.getitem(r, table), a)
        return h.it.getitem(t, b)


@contract
class Lookup(_Lookup):
    qual = NB + ":prepare_cutoff_neighbor_lookup"

    def val(self, h, i):
        v = h.real("cutoff%d" % i)
        h.assume(v >= 0)
        return v

    def ensures(self, h, a, o, r):
        for (x, y), v in zip(self.keys, self.c):
            yield f"cutoff {x}-{y} both ways", And(h.eq(self.look(h, r, "lookup_dict", x, y), v), h.eq(self.look(h, r, "lookup_dict", y, x), v))
        m = h.it.getitem(r, "max_dist")
        yield "search radius covers every cutoff", And(*[m >= v for v in self.c])


@contract
class LookupNone(Contract):
    qual = NB + ":prepare_cutoff_neighbor_lookup"
    name = qual + " [none]"
    props = ("C18",)

    def inputs(self, h):
        return {"cutoff_dict": None}

    def ensures(self, h, a, o, r):
        yield "no pair", h.eq(h.len(h.it.getitem(r, "lookup_dict")), 0)


@contract
class RangeLookup(_Lookup):
    qual = NB + ":prepare_range_cutoff_neighbor_lookup"

    def val(self, h, i):
        lo, hi = h.real("min%d" % i), h.real("max%d" % i)
        h.assume(And(0 <= lo, lo <= hi))
        return (lo, hi)

    def ensures(self, h, a, o, r):
        for (x, y), v in zip(self.keys, self.c):
            for t, w in (("lookup_dict_min", v[0]), ("lookup_dict_max", v[1])):
                yield f"{t} {x}-{y} both ways", And(h.eq(self.look(h, r, t, x, y), w), h.eq(self.look(h, r, t, y, x), w))
        yield "search radius covers every range", And(*[h.it.getitem(r, "max_dist") >= v[1] for v in self.c])


class _Near(Contract):
    """neighbour records: exactly the images pymatgen finds in the search radius whose distance is within the pair's cutoff"""
    props = ("C18",)
    listed = True     # species pair listed in the table

    def __init__(self):
        self.stubs = {NB + ":_neighbor_base_info": lambda it, f, a, k: self._info(a, k), NB + ":_copy_kmc_site_metadata": lambda it, f, a, k: self._meta(it, a, k)}

    def _info(self, a, k):
        e = next(x for x in list(a) + list(k.values()) if isinstance(x, ElemRec))
        return DictV({"tag": to_int(e.i)})

    def _meta(self, it, a, k):
        d = next(x for x in list(a) + list(k.values()) if isinstance(x, DictV))
        e = next(x for x in list(a) + list(k.values()) if isinstance(x, ElemRec))
        it.setitem(d, "metadata of", to_int(e.i))

    def inputs(self, h):
        self.asked = []
        self.n, self.m = h.nat("n"), h.nat("n_found")
        self.d, self.sp = h.fn("distance", "int", "real"), h.fn("species", "int", "int")
        self.rmax = h.real("max_dist")
        i = z3.FreshInt("i")
        names = ["Na", "Si", "O"]
        species = lambda i: IteV(self.sp(to_int(i)) == 0, "Na", IteV(self.sp(to_int(i)) == 1, "Si", "O"))
        self.nb = RecListV(StubClass("Neighbor"), self.m, {"nn_distance": lambda i: self.d(to_int(i)), "species_string": species})
        self.site = h.stub("Site", species_string="Na")
        S = h.stub("Structure", {"__getitem__": lambda it, s, i: self._at(i), "get_neighbors": lambda it, s, *a, **k: self._get(a, k)})
        self.tabs = {}
        for t in self.tables:
            na, si = h.real(t + "_Na"), h.real(t + "_Si")
            self.tabs[t] = [na, si, 0]
        look = {t: DictV({"Na": DictV({"Na": v[0], "Si": v[1]})} if self.listed else {"Si": DictV({"Si": v[0]})}) for t, v in self.tabs.items()}
        return {"structure": S, "n": self.n, "cutoff_lookup": DictV(dict(look, max_dist=self.rmax, min_dist=h.real("min_dist")))}

    def _at(self, i):
        self.asked.append(("site", i))
        return self.site

    def _get(self, a, k):
        self.asked.append(("neighbours", list(a) + list(k.values())))
        return self.nb

    def cut(self, t, q):
        if not self.listed:
            return z3.RealVal(0)
        v = [to_real(x) for x in self.tabs[t]]
        s = self.sp(to_int(q))
        return z3.If(s == 0, v[0], z3.If(s == 1, v[1], v[2]))

    def ensures(self, h, a, o, r):
        yield "the site asked for", And(*[h.eq(x[1], self.n) for x in self.asked if x[0] == "site"])
        yield "searched around it with the largest cutoff", And(*[And(any(y is self.site for y in x[1]), Or(*[to_real(y) >= self.rmax for y in x[1] if is_num(y)])) for x in self.asked if x[0] == "neighbours"])
        n, keep, v = pick(h, r)
        k = h.int("k")
        h.assume(And(0 <= k, k < self.m))
        yield "one candidate per image found", h.eq(n, self.m)
        yield "kept exactly within the cutoff of its species pair", keep(k) == self.inside(k)
        e = v(k)
        yield "record of that neighbour with its metadata", Implies(keep(k), And(h.eq(h.it.getitem(e, "tag"), k), h.eq(h.it.getitem(e, "metadata of"), k)))


class _Cut(_Near):
    qual = NB + ":get_cutoff_neighbor_info"
    tables = ("lookup_dict",)

    def inside(self, k):
        return self.d(k) < self.cut("lookup_dict", k)


class _Range(_Near):
    qual = NB + ":get_range_cutoff_neighbor_info"
    tables = ("lookup_dict_min", "lookup_dict_max")

    def inside(self, k):
        return And(self.cut("lookup_dict_min", k) < self.d(k), self.d(k) < self.cut("lookup_dict_max", k))


@contract
class Cut(_Cut):
    pass


@contract
class CutUnlisted(_Cut):
    name = _Cut.qual + " [species without cutoffs]"
    listed = False


@contract
class Range(_Range):
    pass


@contract
class BaseInfo(Contract):
    qual = NB + ":_neighbor_base_info"
    props = ("C18",)

    def __init__(self):
        nn = "pymatgen.analysis.local_env.NearNeighbors."
        self.ext = {nn + "_get_image": lambda it, a, kw: self._q("image", a, kw), nn + "_get_original_site": lambda it, a, kw: self._q("index", a, kw)}

    def inputs(self, h):
        self.img, self.idx, self.dist = Opaque("image"), h.int("site_index"), h.real("distance")
        self.nb, self.st = h.stub("Neighbor", nn_distance=self.dist), Opaque("structure")
        self.ok = True
        return {"structure": self.st, "neighbor": self.nb}

    def _q(self, what, a, kw):
        a = list(a) + list(kw.values())
        self.ok = self.ok and len(a) == 2 and a[0] is self.st and a[1] is self.nb
        return self.img if what == "image" else self.idx

    def ensures(self, h, a, o, r):
        g = lambda k: h.it.getitem(r, k)
        yield "image and site index of this neighbour in this structure", And(self.ok, g("image") is self.img, h.eq(g("site_index"), self.idx))
        yield "the neighbour and its distance", And(g("site") is self.nb, h.eq(g("weight"), self.dist))


class _Meta(Contract):
    qual = NB + ":_copy_kmc_site_metadata"
    props = ("C18",)

    def inputs(self, h):
        self.v = {k: h.int(k) for k in ("wyckoff_sequence", "local_index", "label", "supercell")}
        self.info = DictV({"site": 1})
        return {"structure": h.stub("Structure", site_properties=DictV({k: 0 for k in self.has})), "neighbor": h.stub("Neighbor", properties=DictV(dict(self.v))), "info": self.info}

    def ensures(self, h, a, o, r):
        want = [k for k in self.v if k in self.has] if "wyckoff_sequence" in self.has else []
        yield "the neighbour's own metadata, as far as the structure has it", And(set(self.info.d) == {"site", *want}, *[h.eq(self.info.d[k], self.v[k]) for k in want])


@contract
class MetaPrimitive(_Meta):
    name = _Meta.qual + " [primitive cell]"
    has = ("wyckoff_sequence", "local_index", "label")


@contract
class MetaSuper(_Meta):
    name = _Meta.qual + " [supercell]"
    has = ("wyckoff_sequence", "local_index", "label", "supercell")


@contract
class MetaNone(_Meta):
    name = _Meta.qual + " [unlabelled]"
    has = ()


# ------------------------------------------------------------ generation
class _Generate(Contract):
    """generate_events over the contracts of its parts, for any number of ions, neighbours and any supercell.

    Ghosts: primitive site p(i) of ion i, its ordered neighbour records, cells and images; KEY / INDEX are the
    site key and the supercell lookup; TARGET(s) says whether supercell site s is a valid target."""
    qual = EG + ".generate_events"
    props = ("C18",)
    uniform = False

    def __init__(self):
        LLS = "kmcpy.structure.local_lattice_structure:LocalLatticeStructure"
        AOQ = "kmcpy.structure.active_site_order:ActiveSiteOrder"
        w = self._w
        self.stubs = {EG + "._normalize_generate_events_inputs": w(self._norm), "kmcpy.io.cif:load_labeled_structure_from_cif": w(self._load),
                      AOQ + ".from_structure_and_mapping": w(self._order), ST + ":structure_from_sites": w(self._from_sites), EG + "._build_uniform_cutoff_dict": w(self._uniform),
                      GE + ":find_atom_indices": w(self._find), NB + ":prepare_cutoff_neighbor_lookup": w(self._prep), NB + ":get_cutoff_neighbor_info": w(self._near),
                      LLS + ".sort_neighbor_info": w(self._sort), EG + "._match_or_register_local_environment": w(self._match), EG + "._export_reference_local_environment": w(self._export),
                      ST + ":make_kmc_supercell": w(self._super), ST + ":build_site_index": w(self._index), GE + ":normalize_supercell_tuple": w(self._wrap), ST + ":site_index_key": w(self._key),
                      EG + "._is_valid_target_site": w(self._target), "kmcpy.event.base:EventLib": lambda it, f, a, k: self.lib,
                      "kmcpy:get_logo": lambda it, f, a, k: "logo"}

    @staticmethod
    def _w(g):
        return lambda it, f, a, k: g(it, a, k)

    @staticmethod
    def args(names, a, k):
        return dict(zip(names, a), **k)

    def inputs(self, h):
        self.h, self.log = h, []
        I = lambda nm, *s: h.fn(nm, *s)
        self.P, self.N = h.nat("n_primitive_ions"), h.nat("n_supercell_ions")
        self.pidx, self.sidx = I("primitive_ion", "int", "int"), I("supercell_ion", "int", "int")
        self.plocal, self.slocal = I("local_index_of_primitive", "int", "int"), I("local_index_of_site", "int", "int")
        self.cell = [I("cell%d" % i, "int", "int") for i in range(3)]
        self.M, self.img = I("n_neighbours", "int", "int"), [I("image%d" % i, "int", "int", "int") for i in range(3)]
        self.nloc, self.nlab = I("neighbour_local", "int", "int", "int"), I("neighbour_label", "int", "int", "int")
        self.KEY, self.IDX = I("KEY", "int", "int", "int", "int", "int", "int"), I("INDEX", "int", "int")
        self.TGT = I("TARGET", "int", "bool")
        self.WRAP = I("WRAP", "int", "int", "int", "int")   # (cell + image) mod shape: contract of normalize_supercell_tuple
        self.prim_of = I("primitive_ion_of", "int", "int")
        self.shape = [h.pos("shape%d" % i) for i in range(3)]
        p, q = z3.FreshInt("p"), z3.FreshInt("q")
        h.assume(z3.ForAll([p], self.M(p) >= 0, patterns=[self.M(p)]))
        # primitive ions have distinct local indices; a supercell ion has the local index of one of them (contract of make_kmc_supercell: sites are copies of primitive sites)
        h.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < self.P), self.plocal(self.pidx(p)) != self.plocal(self.pidx(q))), patterns=[z3.MultiPattern(self.pidx(p), self.pidx(q))]))
        h.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < self.N), z3.And(0 <= self.prim_of(p), self.prim_of(p) < self.P, self.slocal(self.sidx(p)) == self.plocal(self.pidx(self.prim_of(p))))), patterns=[self.sidx(p)]))
        self.ids = (Opaque("initial"), Opaque("target"))
        self.cut = None if self.uniform else Opaque("cutoffs")
        self.kind = h.str("kind")
        self.full = h.stub("FullCell", {"add_oxidation_state_by_guess": lambda it, s: self.log.append("oxidation"), "__getitem__": lambda it, s, i: Opaque("site")}, sites=Opaque("sites"))
        self.prim = RecListV(StubClass("Site"), h.pos("n_primitive"), {"properties": lambda i: DictV({"local_index": self.plocal(to_int(i))})})
        self.prim.attrs = {"composition": "composition"}
        self.sup = RecListV(StubClass("Site"), h.pos("n_super"), {"properties": lambda i: DictV({"local_index": self.slocal(to_int(i)), "supercell": tuple(c(to_int(i)) for c in self.cell)})})
        # contracts of find_atom_indices and build_site_index: indices of the structure searched
        h.assume(z3.ForAll([p], z3.And(0 <= self.pidx(p), self.pidx(p) < self.prim.n), patterns=[self.pidx(p)]))
        h.assume(z3.ForAll([p], z3.And(0 <= self.sidx(p), self.sidx(p) < self.sup.n), patterns=[self.sidx(p)]))
        h.assume(z3.ForAll([p], z3.And(0 <= self.IDX(p), self.IDX(p) < self.sup.n), patterns=[self.IDX(p)]))
        self.added = SeqV("list", items=[])
        self.saved = []
        add = lambda it, s, e: it.models.list_append(it, self.added, e)
        self.lib = h.stub("EventLib", {"add_event": add, "set_index_metadata": lambda it, s, o: self.log.append(("metadata", o)), "generate_event_dependencies": lambda it, s: self.log.append("dependencies"),
                                       "to": lambda it, s, f: self.log.append(("to", f)), "get_dependency_statistics": lambda it, s: DictV({}), "__len__": lambda it, s: 0})
        self.file, self.mapping = h.str("event_file"), Opaque("mapping")
        return {"self": h.rec(EG, reference_local_env_dict=DictV({}), local_env_info_dict=DictV({})), "structure_file": Opaque("cif"), "site_mapping": self.mapping, "event_file": self.file, "mobile_ion_identifiers": Opaque("given"), "export_local_env_structure": False}

    # -- contracts of the parts
    def _norm(self, it, a, k):
        return (self.kind, self.ids, self.h.real("rtol"), self.h.real("atol"), SeqV("list", items=list(self.shape)), self.cut, Opaque("mobile"), self.h.real("cutoff"))

    def _load(self, it, a, k):
        return self.full

    def _order(self, it, a, k):
        d = self.args(("cls", "template_structure", "site_mapping", "supercell_shape"), a, k)
        s = d.get("supercell_shape")
        ok = d.get("template_structure") is self.full and d.get("site_mapping") is self.mapping
        o = RecV(StubClass("Order"), {"sites": ok, "super": s is not None and [z3.is_true(z3.simplify(to_int(x) == y)) for x, y in zip(it.as_seq(s).items or [], self.shape)] == [True] * 3,
                                      "primitive_active_indices": SeqV("tuple", n=self.prim.n, fn=lambda i: to_int(i))},
                 {"active_structure": lambda it, s: RecV(StubClass("S"), {"sites": Opaque("sites")})})
        return o

    def _from_sites(self, it, a, k):
        return self.prim

    def _uniform(self, it, a, k):
        return Opaque("cutoffs")

    def _find(self, it, a, k):
        d = self.args(("structure", "site_selection_kind", "atom_identifier"), a, k)
        ok = d.get("atom_identifier") is self.ids[0] and is_z3(d.get("site_selection_kind")) and d["site_selection_kind"].eq(self.kind)
        if not ok:
            raise Unsupported("selection by other identifiers")
        if d["structure"] is self.prim:
            return SeqV("list", n=self.P, fn=lambda i: self.pidx(to_int(i)))
        if d["structure"] is self.sup:
            return SeqV("list", n=self.N, fn=lambda i: self.sidx(to_int(i)))
        raise Unsupported("selection in another structure")

    def _prep(self, it, a, k):
        return Opaque("lookup")

    def _near(self, it, a, k):
        d = self.args(("structure", "n", "cutoff_lookup"), a, k)
        if d["structure"] is not self.prim or not (isinstance(d["cutoff_lookup"], Opaque) and d["cutoff_lookup"].what == "lookup"):
            raise Unsupported("neighbours elsewhere")
        return RecV(StubClass("Neighbours"), {"of": d["n"], "sorted": False})

    def _sort(self, it, a, k):
        v = (list(a) + list(k.values()))[-1]
        return RecV(StubClass("Neighbours"), {"of": v.fields["of"], "sorted": True})

    def _match(self, it, a, k):
        d = self.args(("self", "primitive_cell", "migrating_ion_index", "unsorted_neighbor_sequence", "reference_local_env_dict", "local_env_info_dict"), a, k)
        s = d["unsorted_neighbor_sequence"]
        i = d["migrating_ion_index"]
        if d["primitive_cell"] is not self.prim or not z3.is_true(z3.simplify(to_int(s.fields["of"]) == to_int(i))) or not s.fields["sorted"]:
            raise Unsupported("environment of another site")
        i = to_int(i)
        rec = SeqV("list", n=self.M(i), fn=lambda q: DictV({"image": tuple(f(i, to_int(q)) for f in self.img), "local_index": self.nloc(i, to_int(q)), "label": self.nlab(i, to_int(q))}))
        it.setitem(d["local_env_info_dict"], self.plocal(i), rec)
        return (False, Opaque("species"), RecV(StubClass("Cluster"), {"distance_matrix": Opaque("D")}))

    def _export(self, it, a, k):
        return 0

    def _super(self, it, a, k):
        d = self.args(("structure", "scaling_matrix"), a, k)
        s = it.as_seq(d["scaling_matrix"])
        if d["structure"] is not self.prim or not all(z3.is_true(z3.simplify(to_int(x) == y)) for x, y in zip(s.items, self.shape)):
            raise Unsupported("another supercell")
        return self.sup

    def _index(self, it, a, k):
        d = self.args(("structure", "skip_check"), a, k)
        if d["structure"] is not self.sup or d.get("skip_check") is not False:
            raise Unsupported("another index")
        return MapV(lambda y: z3.BoolVal(True), lambda y: self.IDX(to_int(y)), z3.IntSort())

    def _wrap(self, it, a, k):
        d = self.args(("site_belongs_to_supercell", "image_of_site", "supercell_shape"), a, k)
        g = lambda x: [to_int(it.getitem(d[x], i)) for i in range(3)]
        return tuple(self.WRAP(c, u, s) for c, u, s in zip(g("site_belongs_to_supercell"), g("image_of_site"), g("supercell_shape")))

    def _key(self, it, a, k):
        d = self.args(("supercell", "label", "local_index"), a, k)
        return self.KEY(*[to_int(it.getitem(d["supercell"], i)) for i in range(3)], to_int(d["label"]), to_int(d["local_index"]))

    def _target(self, it, a, k):
        d = self.args(("self", "site", "site_selection_kind", "target_identifier"), a, k)
        e = d["site"]
        if not isinstance(e, ElemRec) or e.lst is not self.sup or d["target_identifier"] is not self.ids[1] or not d["site_selection_kind"].eq(self.kind):
            raise Unsupported("target test of another kind")
        return self.TGT(to_int(e.i))

    # -- specification
    def where(self, i, q):
        """supercell site of neighbour q of the i-th selected supercell ion"""
        s = self.sidx(i)
        p = self.pidx(self.prim_of(i))
        w = [self.WRAP(c(s), f(p, q), n) for c, f, n in zip(self.cell, self.img, self.shape)]
        return self.IDX(self.KEY(*w, self.nlab(p, q), self.nloc(p, q)))

    def count(self, i):
        return self.M(self.pidx(self.prim_of(i)))

    def raises(self, h, a, o):
        return [("ValueError", h.forall(0, self.N, lambda i: h.forall(0, self.count(to_int(i)), lambda q: Not(self.TGT(self.where(to_int(i), to_int(q)))), "q"), "i"))]

    def ensures(self, h, a, o, r):
        i, q, e = h.int("ion"), h.int("neighbour"), h.int("other")
        h.assume(And(0 <= i, i < self.N, 0 <= q, q < self.count(i), 0 <= e, e < self.count(i)))
        L = self.added
        if L.flat is None:
            raise Unsupported("library not built by nested iteration")
        n, c, chunk = L.flat
        yield "one block of events per selected supercell ion", And(h.eq(n, self.N), zbool(c(i)))
        ch = chunk(i)
        m, keep, v = pick(h, ch) if ch.filt is None else ch.filt
        yield "one candidate per neighbour of the ion", h.eq(m, self.count(i))
        yield "an event exactly for the valid targets", zbool(keep(q)) == self.TGT(self.where(i, q))
        ev = v(q)
        mi, le = h.get(ev, "mobile_ion_indices"), h.get(ev, "local_env_indices")
        yield "hop from the ion to the neighbour's periodic image", And(h.eq(h.len(mi), 2), h.eq(h.at(mi, 0), self.sidx(i)), h.eq(h.at(mi, 1), self.where(i, q)))
        yield "environment: every neighbour, in the reference order", And(h.eq(h.len(le), self.count(i)), h.eq(h.at(le, e), self.where(i, e)))
        names = [x if isinstance(x, str) else x[0] for x in self.log]
        yield "dependencies computed, then saved", "dependencies" in names and "to" in names and names.index("dependencies") < names.index("to")
        md = [x[1] for x in self.log if x[0] == "metadata"]
        yield "recorded active-site order is that of this template, mapping and supercell", len(md) == 1 and bool(md[0].fields["sites"]) and md[0].fields["super"]
        yield "saved under the given name", And(*[h.eq(x[1], self.file) for x in self.log if x[0] == "to"])


@contract
class Generate(_Generate):
    pass


@contract
class GenerateUniform(_Generate):
    name = _Generate.qual + " [uniform cutoff]"
    uniform = True

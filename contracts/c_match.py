"""Cluster matching and local-site ordering."""
from pyvc.contract import *

CL = "kmcpy.structure.cluster"
CM = CL + ":ClusterMatcher"
LO = "kmcpy.structure.local_site_order:LocalSiteOrder"
LL = "kmcpy.structure.local_lattice_structure:LocalLatticeStructure"


def ab(x):
    return z3.If(x >= 0, x, -x)


def close(a, b, rtol, atol):
    return ab(a - b) <= atol + rtol * ab(b)


def matcher(h, n, ref=None, **kw):
    D = h.fn("d_ref", "int", "int", "real")
    E = h.fn("d_cand", "int", "int", "real")
    rt, at = h.real("rtol"), h.real("atol")
    h.assume(And(rt >= 0, at >= 0))
    nd = lambda f: NdV((n, n), lambda i, j: f(to_int(i), to_int(j)), "float")
    ref = h.stub("Cluster", distance_matrix=nd(D), **kw)
    cand = h.stub("Cluster", distance_matrix=nd(E), **kw)
    return h.rec(CM, reference=ref, rtol=rt, atol=at), cand, D, E, rt, at


@contract
class PartialMatch(Contract):
    qual = CM + "._is_partial_distance_match"
    props = ("C16",)

    def inputs(self, h):
        self.n = h.pos("n")
        s, cand, self.D, self.E, self.rt, self.at_ = matcher(h, self.n)
        self.un, self.c = h.fn("unassigned", "int", "bool"), h.fn("assigned", "int", "int")
        i = z3.FreshInt("i")
        h.assume(z3.ForAll([i], z3.And(0 <= self.c(i), self.c(i) < self.n), patterns=[self.c(i)]))
        self.r, self.k = h.nat("ref_index"), h.nat("candidate_index")
        h.assume(And(self.r < self.n, self.k < self.n))
        part = SeqV("list", n=self.n, fn=lambda i: OptV(self.un(to_int(i)), self.c(to_int(i))))
        return {"self": s, "candidate": cand, "ref_index": self.r, "candidate_index": self.k, "reference_to_candidate": part}

    def ensures(self, h, a, o, r):
        ok = h.forall(0, self.n, lambda i: Or(self.un(i), close(self.D(self.r, i), self.E(self.k, self.c(i)), self.rt, self.at_)))
        yield "accepted exactly when every distance to an assigned site agrees within the tolerance", zbool(h.it.truth(r)) == zbool(ok)


class _Match(Contract):
    """match over the contracts of its parts: signature check, permutation search (at most two), fallback, assembly"""
    qual = CM + ".match"
    props = ("C16",)
    found = 0
    nearest = False

    def __init__(self):
        self.stubs = {CM + "._validate_signature": self._sig, CM + "._matching_permutations": self._perms,
                      CM + "._nearest_permutation": self._near, CM + "._build_match": self._build}

    def _sig(self, it, f, a, kw):
        self.calls.append("signature")
        if it.ctx.branch(self.same):
            return None
        it.raise_("ValueError", "signatures")

    def _perms(self, it, f, a, kw):
        self.calls.append("search")
        self.seen = (a, kw)
        return SeqV("list", items=[Opaque("p%d" % i) for i in range(self.found)])

    def _near(self, it, f, a, kw):
        self.calls.append("nearest")
        self.P = Opaque("nearest permutation")
        return (self.P, self.score)

    def _build(self, it, f, a, kw):
        self.built = (a, kw)
        return self.out

    def inputs(self, h):
        self.calls, self.built, self.seen = [], None, None
        self.same, self.ru, self.fn_ = h.bool("same_signature"), h.bool("require_unique"), h.bool("find_nearest_if_fail")
        self.score = h.real("score")
        self.out = Opaque("match")
        self.cand = Opaque("candidate")
        return {"self": h.rec(CM, reference=Opaque("reference"), rtol=h.real("rtol"), atol=h.real("atol")), "candidate": self.cand,
                "require_unique": self.ru, "find_nearest_if_fail": self.fn_}

    def raises(self, h, a, o):
        bad = {0: Not(self.fn_), 1: False, 2: self.ru}[self.found]
        return [("ValueError", Or(Not(self.same), bad))]

    def ensures(self, h, a, o, r):
        yield "the assembled match is returned", r is self.out
        args, kw = self.built
        names = ["self", "candidate", "reference_to_candidate", "is_unique"]
        got = dict(zip(names, args), **kw)
        yield "for the candidate given", got.get("candidate") is self.cand
        if self.found:
            p = got.get("reference_to_candidate")
            yield "a permutation found by the search", isinstance(p, Opaque) and p.what.startswith("p")
            yield "unique exactly when the search found a single one", h.eq(got.get("is_unique"), self.found == 1)
            yield "an exact match has score 0", h.eq(got.get("score"), 0)
            yield "no approximate search when an exact match exists", "nearest" not in self.calls
        else:
            yield "the nearest permutation", got.get("reference_to_candidate") is self.P
            yield "with its deviation", h.eq(got.get("score"), self.score)
        stop = dict(zip(["self", "candidate"], self.seen[0]), **self.seen[1]).get("stop_after", None)
        yield "the search looks far enough to tell unique from ambiguous", stop is None or (isinstance(stop, int) and stop >= 2)
        yield "signature checked", "signature" in self.calls


@contract
class MatchNone(_Match):
    name = _Match.qual + " [no exact match]"
    found = 0


@contract
class MatchOne(_Match):
    name = _Match.qual + " [unique]"
    found = 1


@contract
class MatchTwo(_Match):
    name = _Match.qual + " [ambiguous]"
    found = 2


@contract
class BuildMatch(Contract):
    qual = CM + "._build_match"
    props = ("C16",)

    def __init__(self):
        self.stubs = {CL + ":Cluster": self._cluster, CL + ":Cluster.__init__": lambda it, f, a, kw: self._init(it, a, kw), CL + ":Cluster.fingerprint": lambda it, f, a, kw: self.fp}

    def _cluster(self, it, f, a, kw):
        self.made.append((a, kw))
        return self.new

    def _init(self, it, a, kw):
        self.made.append((a[1:], kw))
        a[0].fields["_ghost"] = True

    def inputs(self, h):
        self.made = []
        self.n = h.pos("n")
        n = self.n
        s, cand, self.D, self.E, _, _ = matcher(h, n)
        P, Q = h.fn("perm", "int", "int"), h.fn("perm_inv", "int", "int")
        i = z3.FreshInt("i")
        h.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= P(i), P(i) < n, Q(P(i)) == i)), patterns=[P(i)]))
        h.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= Q(i), Q(i) < n, P(Q(i)) == i)), patterns=[Q(i)]))
        self.P, self.Q = P, Q
        self.idx, self.sp, self.ro, self.me = h.fn("site_index", "int", "int"), h.fn("species", "int", "str"), h.fn("role", "int", "str"), h.fn("metadata", "int", "int")
        self.X = h.fn("coord", "int", "int", "real")
        t = lambda f: SeqV("tuple", n=n, fn=lambda i: f(to_int(i)))
        cand.fields.update(site_indices=t(self.idx), species=t(self.sp), roles=t(self.ro), metadata=t(self.me),
                           coords=NdV((n, 3), lambda i, j: self.X(to_int(i), to_int(j)), "float"))
        self.fp = h.str("fingerprint")
        self.new = h.stub("Cluster", fingerprint=self.fp)
        self.uni, self.score = h.bool("is_unique"), h.real("score")
        return {"self": s, "candidate": cand, "reference_to_candidate": t(P), "is_unique": self.uni, "score": self.score}

    def ensures(self, h, a, o, r):
        i, j = h.int("i"), h.int("j")
        h.assume(And(0 <= i, i < self.n, 0 <= j, j < self.n))
        g = lambda k: h.get(r, k)
        for nm in ("reference_to_candidate", "candidate_to_reference", "ordered_candidate_indices"):
            yield nm + ": one entry per site", h.eq(h.len(g(nm)), self.n)
        yield "the permutation is reported", h.eq(h.at(g("reference_to_candidate"), i), self.P(i))
        yield "with its inverse", h.eq(h.at(g("candidate_to_reference"), i), self.Q(i))
        yield "and the candidate's site indices in reference order", h.eq(h.at(g("ordered_candidate_indices"), i), self.idx(self.P(i)))
        yield "uniqueness as found", h.eq(g("is_unique"), self.uni)
        yield "score as found", h.eq(g("score"), self.score)
        yield "fingerprint of the reordered candidate", h.eq(g("fingerprint"), self.fp)
        yield "one reordered candidate", len(self.made) == 1
        kw = self.made[0][1]
        yield "reordered species", h.eq(h.at(kw["species"], i), self.sp(self.P(i)))
        yield "reordered roles", h.eq(h.at(kw["roles"], i), self.ro(self.P(i)))
        dm = h.it.resolve(kw["distance_matrix"])
        yield "reordered distances", h.eq(dm.fn(i, j), self.E(self.P(i), self.P(j)))


@contract
class ValidateSignature(Contract):
    qual = CM + "._validate_signature"
    props = ("C16",)

    def inputs(self, h):
        self.x, self.y = h.str("sig_reference"), h.str("sig_candidate")
        return {"self": h.rec(CM, reference=h.stub("Cluster", signature=self.x), rtol=h.real("rtol"), atol=h.real("atol")), "candidate": h.stub("Cluster", signature=self.y)}

    def raises(self, h, a, o):
        return [("ValueError", self.x != self.y)]

    def ensures(self, h, a, o, r):
        yield "accepted", r is None


@contract
class DistanceMatrix(Contract):
    qual = CL + ":Cluster._build_distance_matrix"
    props = ("C16",)

    def inputs(self, h):
        self.n = h.nat("n")
        self.X = h.fn("coord", "int", "int", "real")
        return {"coords": NdV((self.n, 3), lambda i, j: self.X(to_int(i), to_int(j)), "float")}

    def ensures(self, h, a, o, r):
        i, j = h.int("i"), h.int("j")
        h.assume(And(0 <= i, i < self.n, 0 <= j, j < self.n))
        r = h.it.resolve(r)
        yield "square", And(len(r.shape) == 2, h.eq(r.shape[0], self.n), h.eq(r.shape[1], self.n))
        sq = lambda k: (self.X(i, k) - self.X(j, k)) * (self.X(i, k) - self.X(j, k))
        yield "Euclidean distance of the two sites", h.eq(r.fn(i, j), h.it.models.SQRT(to_real(sq(0) + sq(1) + sq(2))))


@contract
class DistanceMatrixSites(Contract):
    qual = CL + ":Cluster._build_distance_matrix_from_sites"
    props = ("C16",)

    def __init__(self):
        self.stubs = {CL + ":_site_distance": lambda it, f, a, k: self.d(to_int(a[0]), to_int(a[1]))}

    def inputs(self, h):
        self.n = h.nat("n")
        self.d, self.s = h.fn("distance", "int", "int", "real"), h.fn("site", "int", "int")
        return {"sites": SeqV("list", n=self.n, fn=lambda i: self.s(to_int(i)))}

    def ensures(self, h, a, o, r):
        i, j = h.int("i"), h.int("j")
        h.assume(And(0 <= i, i < self.n, 0 <= j, j < self.n))
        r = h.it.resolve(r)
        yield "square", And(len(r.shape) == 2, h.eq(r.shape[0], self.n), h.eq(r.shape[1], self.n))
        yield "distance of the two sites", h.eq(r.fn(i, j), self.d(self.s(i), self.s(j)))


@contract
class Labels(Contract):
    qual = CL + ":Cluster.labels"
    props = ("C16",)

    def inputs(self, h):
        self.n = h.nat("n")
        self.sp, self.ro = h.ilist("species", self.n, kind="tuple", sort="str"), h.ilist("roles", self.n, kind="tuple", sort="str")
        return {"self": h.rec(CL + ":Cluster", species=self.sp, roles=self.ro)}

    def ensures(self, h, a, o, r):
        i = h.int("i")
        h.assume(And(0 <= i, i < self.n))
        yield "one label per site", h.eq(h.len(r), self.n)
        yield "species and role", h.eq(h.at(r, i), (self.sp.fn(i), self.ro.fn(i)))


class _Entry(Contract):
    props = ("C16",)

    def __init__(self):
        self.stubs = {CM + ".match": self._m}

    def _m(self, it, f, a, kw):
        self.call = (a, kw)
        return self.out

    def ok(self, h):
        a, kw = self.call
        yield "the candidate is matched", a[1] is self.cand
        yield "with the options given", And(h.eq(kw.get("require_unique", False), self.ru), h.eq(kw.get("find_nearest_if_fail", False), self.fn_))

    def opts(self, h):
        self.ru, self.fn_, self.cand = h.bool("require_unique"), h.bool("find_nearest_if_fail"), Opaque("candidate")
        self.idx = Opaque("indices")
        self.out = h.stub("ClusterMatch", ordered_candidate_indices=self.idx)
        return {"candidate": self.cand, "require_unique": self.ru, "find_nearest_if_fail": self.fn_}


@contract
class MatchClusters(_Entry):
    qual = CL + ":match_clusters"

    def inputs(self, h):
        self.ref, self.rt, self.at_ = Opaque("reference"), h.real("rtol"), h.real("atol")
        return dict(self.opts(h), reference=self.ref, rtol=self.rt, atol=self.at_)

    def ensures(self, h, a, o, r):
        yield "the match is returned", r is self.out
        yield from self.ok(h)
        m = self.call[0][0]
        yield "against the reference", h.get(m, "reference") is self.ref
        yield "with the tolerances given", And(h.eq(h.get(m, "rtol"), self.rt), h.eq(h.get(m, "atol"), self.at_))


@contract
class OrderedIndices(_Entry):
    qual = CM + ".ordered_candidate_indices"

    def inputs(self, h):
        return dict(self.opts(h), self=h.rec(CM, reference=Opaque("reference"), rtol=h.real("rtol"), atol=h.real("atol")))

    def ensures(self, h, a, o, r):
        yield "site indices of the match", r is self.idx
        yield from self.ok(h)


# ------------------------------------------------------------ local site order
BUILTIN = {"kmcpy_default": (("species_string",), False), "nasicon_nat_commun_2022": (("species", "cartesian_x"), True)}


class _FromName(Contract):
    qual = LO + ".from_name"
    props = ("C16",)
    which = None

    def inputs(self, h):
        return {"cls": h.cls(LO), "name": self.which}

    def ensures(self, h, a, o, r):
        k, x = BUILTIN[self.which]
        yield "name", h.eq(h.get(r, "name"), self.which)
        yield "sort keys", h.eq(h.get(r, "sort_keys"), k)
        yield "centre policy", h.eq(h.get(r, "exclude_center_site"), x)


@contract
class FromNameDefault(_FromName):
    name = _FromName.qual + " [kmcpy_default]"
    which = "kmcpy_default"


@contract
class FromNameNasicon(_FromName):
    name = _FromName.qual + " [nasicon]"
    which = "nasicon_nat_commun_2022"


@contract
class FromNameUnknown(Contract):
    qual = LO + ".from_name"
    name = qual + " [unknown]"
    props = ("C16",)

    def inputs(self, h):
        return {"cls": h.cls(LO), "name": "no_such_order"}

    def raises(self, h, a, o):
        return [("ValueError", True)]

    def ensures(self, h, a, o, r):
        yield "never accepted", False


def an_order(h, keys=("species_string",)):
    return h.rec(LO, name=h.str("name"), sort_keys=keys, exclude_center_site=h.bool("exclude"), center_match_tolerance=h.real("tol"))


@contract
class WithExclude(Contract):
    qual = LO + ".with_exclude_center_site"
    props = ("C16",)

    def inputs(self, h):
        self.s, self.b = an_order(h), h.bool("new_exclude")
        return {"self": self.s, "exclude_center_site": self.b}

    def ensures(self, h, a, o, r):
        yield "new policy", h.eq(h.get(r, "exclude_center_site"), self.b)
        for k in ("name", "sort_keys", "center_match_tolerance"):
            yield k + " kept", h.eq(h.get(r, k), h.get(self.s, k))


class _Key(Contract):
    qual = LO + "._sort_key"
    props = ("C16", "C18")
    keys = ()

    def inputs(self, h):
        self.X = [h.real("x"), h.real("y"), h.real("z")]
        self.ss, self.sp = h.str("species_string"), h.str("specie")
        xs = self.X
        site = h.stub("Site", species_string=self.ss, specie=self.sp, coords=NdV((3,), lambda i: xs[i] if isinstance(i, int) else z3.If(i == 0, xs[0], z3.If(i == 1, xs[1], xs[2])), "float"))
        return {"self": an_order(h, self.keys), "site": site}

    def ensures(self, h, a, o, r):
        want = {"species_string": self.ss, "species": self.sp, "cartesian_x": self.X[0], "cartesian_y": self.X[1], "cartesian_z": self.X[2]}
        yield "one value per key", h.eq(h.len(r), len(self.keys))
        for i, k in enumerate(self.keys):
            yield f"key {i}: {k}", h.eq(h.at(r, i), want[k])


@contract
class KeyDefault(_Key):
    name = _Key.qual + " [species_string]"
    keys = ("species_string",)


@contract
class KeyNasicon(_Key):
    name = _Key.qual + " [species, x]"
    keys = ("species", "cartesian_x")


@contract
class KeyAll(_Key):
    name = _Key.qual + " [x, y, z, species]"
    keys = ("cartesian_x", "cartesian_y", "cartesian_z", "species_string")


@contract
class KeyBad(_Key):
    name = _Key.qual + " [unknown key]"
    keys = ("distance",)

    def raises(self, h, a, o):
        return [("ValueError", True)]

    def ensures(self, h, a, o, r):
        yield "never accepted", False


@contract
class IsCenter(Contract):
    qual = LL + "._is_center_site"
    props = ("C16",)

    def inputs(self, h):
        X, C = h.fn("site_coord", "int", "real"), h.fn("centre_coord", "int", "real")
        nd = lambda f: NdV((3,), lambda i: f(to_int(i)), "float")
        self.X, self.C = X, C
        self.tol, self.ci, self.none, self.i = h.real("tolerance"), h.int("center_index"), h.bool("abstract_centre"), h.int("site_index")
        s = h.rec(LL, center_index=OptV(self.none, self.ci), center_site=h.stub("Site", coords=nd(C)), local_site_order=h.rec(LO, name="o", sort_keys=(), exclude_center_site=True, center_match_tolerance=self.tol))
        return {"self": s, "site_info": (h.stub("Site", coords=nd(X)), h.real("distance"), self.i)}

    def ensures(self, h, a, o, r):
        d = lambda k: (self.X(k) - self.C(k)) * (self.X(k) - self.C(k))
        dist = h.it.models.SQRT(to_real(d(0) + d(1) + d(2)))
        yield "the centre's own index, or a site at the centre within the tolerance", zbool(h.it.truth(r)) == Or(And(Not(self.none), self.i == self.ci), dist <= self.tol)

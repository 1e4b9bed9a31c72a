"""C16: matching of local environments."""
import itertools
import math
from .common import *
from .build import *

SHAPES = {
    "pair": [[0, 0, 0], [2, 0, 0]],
    "triangle": [[0, 0, 0], [2, 0, 0], [1, math.sqrt(3), 0]],
    "square": [[1, 1, 0], [1, -1, 0], [-1, -1, 0], [-1, 1, 0]],
    "tetrahedron": [[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]],
    "octahedron": [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]],
    "line": [[0, 0, 0], [1, 0, 0], [2.5, 0, 0]],
    "prism": [[0, 0, 0], [1, 0, 0], [0.5, 0.9, 0], [0, 0, 2], [1, 0, 2], [0.5, 0.9, 2]],
}


def rotation(r):
    m = np.array([[r.gauss(0, 1) for _ in range(3)] for _ in range(3)])
    q, _ = np.linalg.qr(m)
    if r.b() and np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def geometry(r):
    if r.b(0.5):
        c = np.array(SHAPES[r.choice(sorted(SHAPES))], float) * r.uniform(1, 3)
        if r.b(0.4):
            c = np.vstack([c, [[r.uniform(-3, 3) for _ in range(3)]]])
    else:
        c = np.array([[r.uniform(-3, 3) for _ in range(3)] for _ in range(r.i(1, 6))])
    return c


def labels(r, n):
    sp = r.choice([["Na"], ["Na", "Si"], ["Na", "Si", "P"], ["Na", "Na", "Si"]])
    s = [r.choice(sp) for _ in range(n)]
    if r.b(0.25):
        ro = [r.choice(["", "a", "b"]) for _ in range(n)]
    else:
        ro = None
    return s, ro


def dm(c):
    c = np.asarray(c, float)
    return np.sqrt(((c[:, None, :] - c[None, :, :]) ** 2).sum(-1))


def groups(la, lb):
    """all label-preserving bijections reference index -> candidate index"""
    if sorted(la) != sorted(lb):
        return
    for p in itertools.permutations(range(len(la))):
        if all(la[i] == lb[p[i]] for i in range(len(la))):
            yield p


def truth(la, da, lb, db, rtol, atol):
    """(surely valid, possibly valid) permutations; the difference is what rounding decides"""
    sure, maybe = [], []
    for p in groups(la, lb):
        d = db[np.ix_(p, p)]
        ex = np.abs(da - d) - (atol + rtol * np.abs(d))
        if (ex <= 1e-9).all():
            maybe.append(p)
            if (ex <= -1e-9).all():
                sure.append(p)
    return sure, maybe


def clusters():
    return need("kmcpy.structure.cluster", "Cluster", "ClusterMatcher")


def mk(r, Cluster, c, s, ro, idx=None):
    k = dict(site_indices=idx) if idx is not None else {}
    if ro is not None:
        k["roles"] = ro
    return Cluster(species=s, coords=c, **k)


def moved(r, c, s, ro):
    n = len(s)
    p = list(range(n))
    r.shuffle(p)
    c2 = (np.asarray(c) @ rotation(r).T + np.array([r.uniform(-9, 9) for _ in range(3)]))[p]
    return c2, [s[i] for i in p], None if ro is None else [ro[i] for i in p], p


def lab(s, ro):
    return list(zip(s, ro or [""] * len(s)))


@case("C16", weight=3)
def match_is_right(r):
    Cluster, Matcher = clusters()
    c = geometry(r)
    n = len(c)
    s, ro = labels(r, n)
    c2, s2, ro2, _ = moved(r, c, s, ro)
    tol = r.choice([(1e-3, 1e-3), (1e-5, 1e-5), (0.0, 1e-2), (1e-2, 0.0), (0.05, 0.05)])
    what = r.choice(["same", "same", "noise", "big", "species", "swap", "extra", "missing", "role"])
    if what == "noise":
        a = r.choice([0.1, 0.5, 1, 2, 5]) * (tol[1] + tol[0])
        c2 = c2 + np.array([[r.uniform(-a, a) for _ in range(3)] for _ in range(n)])
    elif what == "big":
        i = r.randrange(n)
        c2[i] += np.array([r.uniform(0.3, 1), r.uniform(-1, 1), 0.2])
    elif what == "species":
        s2[r.randrange(n)] = r.choice(["K", "Na", "Si"])
    elif what == "swap" and n > 1:
        i, j = r.sample(range(n), 2)
        s2[i], s2[j] = s2[j], s2[i]
    elif what == "extra":
        c2 = np.vstack([c2, c2[r.randrange(n)] + r.uniform(0.5, 2)])
        s2 = s2 + [r.choice(s2)]
        ro2 = None if ro2 is None else ro2 + [r.choice(ro2)]
    elif what == "missing" and n > 1:
        i = r.randrange(n)
        c2 = np.delete(c2, i, 0)
        s2 = s2[:i] + s2[i + 1:]
        ro2 = None if ro2 is None else ro2[:i] + ro2[i + 1:]
    elif what == "role":
        ro2 = list(ro2 or [""] * n)
        ro2[r.randrange(n)] = r.choice(["a", "z"])
    m = len(s2)
    idx = r.sample(range(100), m)
    A = mk(r, Cluster, c, s, ro)
    B = mk(r, Cluster, c2, s2, ro2, idx)
    sure, maybe = truth(lab(s, ro), dm(c), lab(s2, ro2), dm(c2), *tol)
    info = dict(reference=dict(coords=np.asarray(c).tolist(), species=s, roles=ro), candidate=dict(coords=c2.tolist(), species=s2, roles=ro2), tol=tol, change=what, valid=maybe[:5])
    M = Matcher(A, rtol=tol[0], atol=tol[1])
    try:
        got = M.match(B)
    except ValueError:
        got = None
    if got is None:
        check(not sure, "a matching environment was rejected", **info)
    else:
        p = tuple(got.reference_to_candidate)
        check(p in maybe, f"returned permutation {p} is not a match", **info)
        check([p[i] for i in got.candidate_to_reference] == list(range(m)) and len(got.candidate_to_reference) == m, "the two directions of the permutation are not inverse", got=(p, got.candidate_to_reference), **info)
        check(list(got.ordered_candidate_indices) == [idx[i] for i in p], "ordered site indices", got=got.ordered_candidate_indices, **info)
        check(got.score == 0.0, "score of an exact match", got=got.score, **info)
        if len(sure) == len(maybe):
            check(bool(got.is_unique) == (len(sure) == 1), f"is_unique is {got.is_unique} with {len(sure)} matching permutations", **info)
            check(raises(ValueError, M.match, B, require_unique=True) == (len(sure) > 1), "require_unique", **info)
        check(list(M.ordered_candidate_indices(B)) == list(got.ordered_candidate_indices), "ordered_candidate_indices differs from match", **info)
    # the nearest fallback still respects species and roles and is the best such permutation
    if sorted(lab(s, ro)) == sorted(lab(s2, ro2)) and n <= 5 and got is None:
        nr = M.match(B, find_nearest_if_fail=True)
        cand = {p: float(np.abs(dm(c) - dm(c2)[np.ix_(p, p)]).sum()) for p in groups(lab(s, ro), lab(s2, ro2))}
        p = tuple(nr.reference_to_candidate)
        check(p in cand, "nearest permutation mixes species", got=p, **info)
        check(close(cand[p], min(cand.values()), 1e-7, 1e-7) and close(nr.score, cand[p], 1e-7, 1e-7), "nearest permutation is not the nearest", got=(p, nr.score), best=min(cand.values()), **info)
    elif got is None and sorted(lab(s, ro)) != sorted(lab(s2, ro2)):
        check(raises(ValueError, M.match, B, find_nearest_if_fail=True), "different composition accepted as nearest", **info)


@case("C16", weight=1)
def order_and_motion_do_not_matter(r):
    """any two listings / placements of one environment order its sites consistently"""
    Cluster, Matcher = clusters()
    c = geometry(r)
    s, ro = labels(r, len(c))
    A = mk(r, Cluster, c, s, ro)
    base = dm(c)
    for _ in range(3):
        c2, s2, ro2, p = moved(r, c, s, ro)
        B = mk(r, Cluster, c2, s2, ro2)
        m = Matcher(A).match(B)
        q = list(m.reference_to_candidate)
        d = dm(c2)[np.ix_(q, q)]
        info = dict(coords=np.asarray(c).tolist(), species=s, roles=ro, order=p, got=q)
        check([lab(s2, ro2)[i] for i in q] == lab(s, ro), "species order differs from the reference", **info)
        check(allclose(d, base, 3e-3, 3e-3), "distances differ from the reference", **info)
        check((A == B) is True and (B == A) is True, "moved copy is not equal", **info)
        check(A.signature == B.signature, "signature depends on the listing", **info)
        back = Matcher(B).match(A)
        check(sorted(back.reference_to_candidate) == list(range(len(s))), "reverse match", **info)
    i = r.randrange(len(s))
    s3 = list(s)
    s3[i] = "K"
    check((A == mk(r, Cluster, c, s3, ro)) is False, "equal to a copy with another species", coords=np.asarray(c).tolist(), species=s)


@case("C16", weight=0.7)
def distances_of_a_cluster(r):
    Cluster, _ = clusters()
    from pymatgen.core import Site
    from pymatgen.core.sites import PeriodicSite
    from .r_tracker import lattice
    c = geometry(r)
    s, _ = labels(r, len(c))
    A = Cluster(species=s, coords=c)
    B = Cluster(sites=[Site(a, b) for a, b in zip(s, c)])
    lat = lattice(r)
    P = Cluster(sites=[PeriodicSite(a, b, lat, coords_are_cartesian=True, to_unit_cell=False) for a, b in zip(s, c)])
    D = dm(c)
    for X, what in ((A, "coordinates"), (B, "sites"), (P, "periodic sites")):
        check(allclose(X.distance_matrix, D, 1e-9, 1e-9), f"distance matrix from {what}", got=X.distance_matrix, want=D)
        check(tuple(X.species) == tuple(s), "species", got=X.species)
    bd = sorted(D[i, j] for i in range(len(s)) for j in range(i))
    check(allclose(list(A.bond_distances), bd, 1e-9, 1e-9), "pair distances", got=A.bond_distances, want=bd)
    check(close(A.max_length, bd[-1] if bd else 0) and close(A.min_length, bd[0] if bd else 0), "longest and shortest distance", got=(A.max_length, A.min_length))
    Z = Cluster.from_dict(json.loads(json.dumps(A.as_dict(), default=float)))
    check(allclose(Z.distance_matrix, D, 1e-9, 1e-9) and Z.species == A.species and Z.site_indices == A.site_indices and Z.labels == A.labels, "cluster changed through a dictionary")


def crystal(r):
    from pymatgen.core import Lattice, Structure
    a = r.uniform(3.5, 6)
    kind = r.choice(["sc", "bcc", "rs", "rand"])
    if kind == "sc":
        st = Structure(Lattice.cubic(a), ["Na"], [[0, 0, 0]])
    elif kind == "bcc":
        st = Structure(Lattice.cubic(a), ["Na", "Na"], [[0, 0, 0], [0.5, 0.5, 0.5]])
    elif kind == "rs":
        st = Structure.from_spacegroup("Fm-3m", Lattice.cubic(a), ["Na", "Cl"], [[0, 0, 0], [0.5, 0.5, 0.5]])
    else:
        st = Structure(Lattice.from_parameters(*[r.uniform(4, 6) for _ in range(3)], *[r.uniform(75, 105) for _ in range(3)]), [r.choice(["Na", "Si"]) for _ in range(4)] + ["Na"],
                       [[r.random() for _ in range(3)] for _ in range(5)])
    return st, kind


@case("C16", weight=1.2)
def local_environments_of_crystals(r):
    """the sites of a local environment are exactly those within the cutoff, under every listing of the structure"""
    L = need("kmcpy.structure.local_lattice_structure", "LocalLatticeStructure")
    from pymatgen.core import Structure
    st, kind = crystal(r)
    site_mapping = {"Na": ["Na", "X"], "Si": ["Si", "P"], "Cl": ["Cl"] if r.b() else ["Cl", "Br"]}
    site_mapping = {k: v for k, v in site_mapping.items() if any(str(x.specie) == k for x in st)}
    act = [i for i, x in enumerate(st) if len(site_mapping[str(x.specie)]) > 1]
    lat = st.lattice
    center = r.choice(act) if r.b(0.7) else [r.random() for _ in range(3)]
    fc = np.array(st[center].frac_coords if isinstance(center, int) else center)
    want = []
    for i in act:
        for t in itertools.product(range(-2, 3), repeat=3):
            d = np.linalg.norm(lat.get_cartesian_coords(st[i].frac_coords + np.array(t) - fc))
            want.append((d, i))
    ds = sorted(d for d, _ in want)
    cut = r.uniform(2.0, 4.4)
    if min(abs(d - cut) for d in ds) < 1e-3:
        raise Skip("site at the cutoff")
    ex = r.b()
    if ex and isinstance(center, int) and any(d < cut and i == center and d > 1e-3 for d, i in want):
        raise Skip("image of the centre inside the cutoff")
    if ex and any(1e-4 < d < 2e-3 for d in ds):
        raise Skip("site near the centre")
    exp = sorted((round(d, 4), str(st[i].specie)) for d, i in want if d < cut and not (ex and d < 1e-3))
    info = dict(kind=kind, lattice=lat.matrix.tolist(), sites=[(str(x.specie), x.frac_coords.tolist()) for x in st], center=center, cutoff=cut, exclude=ex)
    if not exp:
        raise Skip("empty environment")
    E = L(template_structure=st, center=center, cutoff=cut, site_mapping=site_mapping, exclude_center_site=ex)
    got = sorted((round(float(np.linalg.norm(x.coords)), 4), x.species_string) for x in E.structure)
    check(len(got) == len(exp) and all(abs(a[0] - b[0]) < 2e-4 and a[1] == b[1] for a, b in zip(got, exp)), "sites of the local environment", got=got, want=exp, **info)
    inv = {a: k for k, a in enumerate(act)}
    for x, k in zip(E.structure, E.site_indices):
        i = act[k]
        f = lat.get_fractional_coords(x.coords) + fc - st[i].frac_coords
        check(np.abs(f - np.round(f)).max() < 1e-6 and str(st[i].specie) == x.species_string, "site index does not point at the site", got=k, **info)
    # another listing of the same structure, moved by a translation
    p = list(range(len(st)))
    r.shuffle(p)
    sh = np.array([r.random() for _ in range(3)])
    st2 = Structure(lat, [st[i].specie for i in p], [st[i].frac_coords + sh for i in p])
    c2 = p.index(center) if isinstance(center, int) else (fc + sh).tolist()
    if len(exp) > 12:
        return
    E2 = L(template_structure=st2, center=c2, cutoff=cut, site_mapping=site_mapping, exclude_center_site=ex)
    check(E.is_equivalent_to(E2) and E2.is_equivalent_to(E), "environment depends on the listing or origin of the structure", **info)
    M = E2.match_with_reference(E)
    check([x.species_string for x in M.structure] == [x.species_string for x in E.structure], "matched environment: species order", **info)
    check(allclose(dm([x.coords for x in M.structure]), dm([x.coords for x in E.structure]), 3e-3, 3e-3), "matched environment: distances", **info)
    inv = {}
    for x, k in zip(E2.structure, E2.site_indices):
        inv.setdefault(tuple(np.round(x.coords, 5)), k)
    check([inv[tuple(np.round(x.coords, 5))] for x in M.structure] == list(M.site_indices), "matched environment: site indices do not follow the sites", **info)
    check(sorted(M.site_indices) == sorted(E2.site_indices), "matched environment: sites lost", **info)
    # a structure with one site substituted or removed is another environment
    if len(exp) >= 2:
        k = r.choice([i for i in range(len(st)) if i in act])
        nm = {"Na": "K", "Si": "Ge", "Cl": "I"}[str(st[k].specie)]
        st3 = st.copy()
        st3.replace(k, nm)
        sm = dict(site_mapping, **{nm: [nm, "X"]})
        sm = {a: v for a, v in sm.items() if any(str(x.specie) == a for x in st3)}
        E3 = L(template_structure=st3, center=center, cutoff=cut, site_mapping=sm, exclude_center_site=ex)
        if k in {act[q] for q in E.site_indices}:
            check(not E.is_equivalent_to(E3), "environment with a substituted site accepted", site=k, **info)
            check(raises(ValueError, E3.match_with_reference, E), "environment with a substituted site matched", site=k, **info)
        if not isinstance(center, int) or (k != center):
            st4 = st.copy()
            st4.remove_sites([k])
            if any(str(x.specie) == "Na" for x in st4) and k in {act[q] for q in E.site_indices}:
                c4 = center - (1 if isinstance(center, int) and k < center else 0) if isinstance(center, int) else center
                sm4 = {a: v for a, v in site_mapping.items() if any(str(x.specie) == a for x in st4)}
                try:
                    E4 = L(template_structure=st4, center=c4, cutoff=cut, site_mapping=sm4, exclude_center_site=ex)
                except (ValueError, IndexError):
                    return
                check(not E.is_equivalent_to(E4), "environment with a missing site accepted", site=k, **info)

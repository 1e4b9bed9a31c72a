"""C12: the compact active-site index space."""
import json as _json
from .common import *
from .build import *

SPECIES = ["Na", "Cl", "K", "O", "Zr", "Si", "Li"]


def template(r, nmax=6):
    S, L = need("pymatgen.core", "Structure", "Lattice")
    n = r.i(1, nmax)
    lat = r.choice([L.cubic(6.0), L.orthorhombic(5.0, 6.5, 8.0), L.hexagonal(5.0, 9.0), L.from_parameters(5.5, 6.5, 7.5, 80, 95, 102)])
    grid = r.sample([(i / 4 + 0.01, j / 4 + 0.02, k / 3 + 0.03) for i in range(4) for j in range(4) for k in range(3)], n)
    k = r.i(1, min(4, len(SPECIES)))
    pool = r.sample(SPECIES, k)
    sp = [r.choice(pool) for _ in range(n)]
    mapping, act = {}, {}
    for s in pool:
        m = r.random()
        if m < 0.55:
            v = r.choice([[s, "X"], ["X", s], [s, "Vacancy"], [s, "Ca"], (s, "X", "Ca")])
        elif m < 0.7:
            v = [s]
        else:
            v = s
        mapping[s] = v
        act[s] = isinstance(v, (list, tuple)) and len(v) > 1
    if r.b(0.4):
        ks = list(mapping)
        r.shuffle(ks)
        mapping = {q: mapping[q] for q in ks}
    if r.b(0.2):
        mapping["Mg"] = ["Mg", "X"]
    return S(lat, sp, grid), mapping, [act[s] for s in sp], sp


def shape(r, big=False):
    return r.choice([None, (1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 3), (2, 2, 1), (1, 3, 2), [2, 1, 2]] + ([(3, 4, 1)] if big else []))


@case("C12", weight=3)
def order_is_a_bijection(r):
    ASO, ASP, OSP, PSP = need("kmcpy.structure.active_site_order", "ActiveSiteOrder", "ACTIVE_SITE_PROPERTY", "ORIGINAL_SITE_PROPERTY", "PRIMITIVE_SITE_PROPERTY")
    t, mp, act, sp = template(r)
    sh = shape(r, True)
    info = dict(species=sp, mapping=mp, shape=sh)
    if not any(act):
        check(raises(ValueError, ASO.from_structure_and_mapping, t, mp, supercell_shape=sh), "a mapping without any mutable site was accepted", **info)
        return
    before = (t.frac_coords.copy(), [str(s.specie) for s in t], dict(t.site_properties))
    o = ASO.from_structure_and_mapping(t, mp, supercell_shape=sh)
    check(allclose(t.frac_coords, before[0]) and [str(s.specie) for s in t] == before[1] and dict(t.site_properties) == before[2], "template changed", **info)
    cells = sh or (1, 1, 1)
    nc = cells[0] * cells[1] * cells[2]
    full = o.full_structure_with_properties()
    N = len(t) * nc
    check(len(full) == N and o.original_site_count == N and o.primitive_site_count == len(t), "site counts", full=len(full), got=o.original_site_count, **info)
    check(tuple(o.supercell_shape) == tuple(cells), "supercell shape", got=o.supercell_shape, **info)
    check(o.active_site_count == sum(act) * nc, "number of active sites", got=o.active_site_count, want=sum(act) * nc, **info)
    check(list(o.primitive_active_indices) == [i for i, x in enumerate(act) if x], "primitive active sites", got=o.primitive_active_indices, **info)
    a2o, a2p = list(o.active_to_original), list(o.active_to_primitive)
    check(len(set(a2o)) == len(a2o) and all(0 <= x < N for x in a2o) and a2o == sorted(a2o), "compact indices are not unique, valid and in order", got=a2o, **info)
    check(sorted(a2o + list(o.fixed_original_indices)) == list(range(N)), "active and fixed sites do not partition the structure", a2o=a2o, fixed=o.fixed_original_indices, **info)
    check(len(a2p) == len(a2o), "primitive indices missing", **info)
    # the full supercell is the periodic repetition of the template; each site knows where it comes from
    ref = t.copy()
    ref.make_supercell(list(cells))
    check(allclose(full.lattice.matrix, ref.lattice.matrix, 1e-8, 1e-8), "supercell lattice", **info)
    used = set()
    for i, s in enumerate(full):
        d = full.lattice.get_all_distances([s.frac_coords], ref.frac_coords)[0]
        j = int(d.argmin())
        check(d[j] < 1e-4 and j not in used and str(ref[j].specie) == str(s.specie), "supercell is not the repetition of the template", site=i, **info)
        used.add(j)
        p = int(s.properties[PSP])
        check(int(s.properties[OSP]) == i, "full index label", site=i, got=s.properties[OSP], **info)
        dd = (t.lattice.get_fractional_coords(s.coords) - t[p].frac_coords)
        check(np.allclose(dd, np.round(dd), atol=1e-5), "primitive label is not the site it repeats", site=i, got=p, **info)
        check((i in a2o) == act[p], "active if and only if the mapping allows more than one species", site=i, primitive=p, **info)
        want = a2o.index(i) if i in a2o else -1
        check(int(s.properties[ASP]) == want, "compact index label of a supercell site", site=i, got=s.properties[ASP], want=want, **info)
        if i in a2o:
            check(a2p[a2o.index(i)] == p, "primitive index of an active site", site=i, **info)
    inv = o.original_to_active
    check(inv == {x: k for k, x in enumerate(a2o)}, "inverse map", got=inv, **info)
    check(o.primitive_to_active == {x: k for k, x in enumerate(o.primitive_active_indices)}, "primitive inverse map", got=o.primitive_to_active, **info)
    # values
    vals = [r.randrange(1000) for _ in range(N)]
    check(list(o.select_active_values(vals if r.b() else tuple(vals))) == [vals[x] for x in a2o] or len(a2o) == N, "full values are not picked at the active sites", got=o.select_active_values(vals), **info)
    cv = [r.randrange(1000) for _ in a2o]
    check(list(o.select_active_values(cv)) == cv, "compact values changed", **info)
    for m in {N + 1, max(a2o.__len__() - 1, 0), len(a2o) + 1, 0, len(t)} - {N, len(a2o)}:
        check(raises(ValueError, o.select_active_values, [0] * m), "occupations of a wrong length accepted", length=m, **info)
    n = len(a2o)
    good = [r.randrange(n) for _ in range(r.i(0, 5))]
    o.validate_active_indices(good)
    for bad in (-1, n, n + 3, -n, N if N > n else n):
        x = list(good)
        x.insert(r.randrange(len(x) + 1), bad)
        check(raises(IndexError, o.validate_active_indices, x), "index outside the active range accepted", indices=x, **info)
    # structures
    ac = o.active_structure()
    check(len(ac) == n and [int(x) for x in ac.site_properties[ASP]] == list(range(n)), "active structure", **info)
    for k in range(n):
        check(ac.lattice.get_all_distances([ac[k].frac_coords], [full[a2o[k]].frac_coords])[0][0] < 1e-6, "active structure site order", index=k, **info)
    fa = o.filter_active_structure(full)
    check(len(fa) == n and allclose(fa.frac_coords, ac.frac_coords, 1e-8, 1e-8), "filtering the full structure", **info)
    keep = sorted(r.sample(range(N), r.i(1, N)))
    if len(keep) not in (n, N) and any(k in a2o for k in keep):
        order = list(keep)
        r.shuffle(order)
        part = type(full).from_sites([full[k] for k in order])
        fp = o.filter_active_structure(part)
        want = [a2o.index(k) for k in keep if k in a2o]
        check([int(x) for x in fp.site_properties[ASP]] == want, "filtering a partial structure by position", got=fp.site_properties[ASP], want=want, kept=order, **info)
        check(all(fp.lattice.get_all_distances([fp[q].frac_coords], [full[a2o[w]].frac_coords])[0][0] < 1e-6 for q, w in enumerate(want)), "sites of a filtered structure", **info)


@case("C12", "C13", weight=1.5)
def orders_are_compared_and_restored(r):
    ASO = need("kmcpy.structure.active_site_order", "ActiveSiteOrder")
    t, mp, act, sp = template(r)
    if not any(act):
        raise Skip("no active sites")
    sh = shape(r)
    o = ASO.from_structure_and_mapping(t, mp, supercell_shape=sh)
    info = dict(species=sp, mapping=mp, shape=sh)
    d = _json.loads(_json.dumps(o.as_dict()))
    b = ASO.from_dict(d)
    for f in ("primitive_site_count", "original_site_count", "primitive_active_indices", "active_to_original", "active_to_primitive", "fixed_original_indices", "supercell_shape",
              "species_by_primitive_site", "allowed_species_by_primitive_site", "fingerprint", "active_site_count", "original_to_active", "primitive_to_active"):
        check(getattr(b, f) == getattr(o, f), "an order changed in serialisation", field=f, before=getattr(o, f), after=getattr(b, f), **info)
    o.assert_same_order(b)
    o.assert_same_order(d)
    o.assert_same_order(ASO.from_structure_and_mapping(t.copy(), dict(mp), supercell_shape=sh))
    bad = dict(d)
    bad["format"] = "other"
    check(raises(ValueError, ASO.from_dict, bad), "unknown format accepted", **info)
    used = [s for s in mp if s in sp]
    acts = [s for s in used if isinstance(mp[s], (list, tuple)) and len(mp[s]) > 1]
    muts = []
    s = r.choice(acts)
    m2 = dict(mp)
    m2[s] = list(reversed(mp[s])) if r.b() else list(mp[s]) + ["Ba"]
    muts.append(("allowed species", t, m2, sh))
    c = list(sh or (1, 1, 1))
    k = r.randrange(3)
    c[k] += 1
    muts.append(("supercell", t, mp, tuple(c)))
    t3 = t.copy()
    t3.append(r.choice(used), [0.37, 0.61, 0.53])
    muts.append(("an extra site", t3, mp, sh))
    perm = list(range(len(t)))
    r.shuffle(perm)
    if [sp[p] for p in perm] != sp:
        muts.append(("site order", type(t).from_sites([t[p] for p in perm]), mp, sh))
    t5 = t.copy()
    q = r.randrange(len(t))
    t5.replace(q, "Ba")
    m5 = dict(mp)
    m5["Ba"] = mp[sp[q]]
    muts.append(("species of a site", t5, m5, sh))
    p3 = sorted(sh or (1, 1, 1))
    for alt in {(p3[0], p3[1], p3[2]), (p3[2], p3[1], p3[0]), (p3[1], p3[2], p3[0])} - {tuple(sh or (1, 1, 1))}:
        muts.append(("orientation of the supercell", t, mp, alt))
    for what, tt, mm, ss in muts:
        x = ASO.from_structure_and_mapping(tt, mm, supercell_shape=ss)
        for other in (x, _json.loads(_json.dumps(x.as_dict()))):
            check(raises(ValueError, o.assert_same_order, other) and raises(ValueError, x.assert_same_order, b), "different orders taken as the same", difference=what, other_mapping=mm, other_shape=ss, **info)


@case("C12", weight=0.6)
def bad_orders_are_rejected(r):
    ASO = need("kmcpy.structure.active_site_order", "ActiveSiteOrder")
    t, mp, act, sp = template(r)
    if not any(act):
        raise Skip("no active sites")
    for sh in ((0, 1, 1), (1, -1, 1), (1, 1), (1, 1, 1, 1), (2, 2, 0), ()):
        check(raises(ValueError, ASO.from_structure_and_mapping, t, mp, supercell_shape=sh), "bad supercell shape accepted", shape=sh)
    m = dict(mp)
    s = r.choice(sp)
    del m[s]
    check(raises(ValueError, ASO.from_structure_and_mapping, t, m), "a template species without mapping entry was accepted", missing=s, mapping=m, species=sp)


@case("C12", weight=1)
def supercell_site_index(r):
    mk, bsi, key = need("kmcpy.structure.sites", "make_kmc_supercell", "build_site_index", "site_index_key")
    t, mp, act, sp = template(r)
    labels = [f"{s}{r.i(1, 2)}" for s in sp]
    cnt, loc = {}, []
    for l in labels:
        loc.append(cnt.get(l, 0))
        cnt[l] = loc[-1] + 1
    t.add_site_property("label", labels)
    t.add_site_property("local_index", loc)
    sh = shape(r) or (1, 1, 1)
    sc = mk(t, sh)
    ix = bsi(sc, skip_check=False)
    info = dict(labels=labels, local=loc, shape=sh)
    check(len(ix) == len(sc) == len(t) * sh[0] * sh[1] * sh[2] and sorted(ix.values()) == list(range(len(sc))), "site index is not one-to-one", n=len(ix), sites=len(sc), **info)
    for p in range(len(t)):
        for i in range(sh[0]):
            for j in range(sh[1]):
                for k in range(sh[2]):
                    q = ix[key((i, j, k), labels[p], loc[p])]
                    c = t[p].coords + t.lattice.get_cartesian_coords([i, j, k])
                    d = sc.lattice.get_all_distances([sc.lattice.get_fractional_coords(c)], [sc[q].frac_coords])[0][0]
                    check(d < 1e-5, "site index points to another site", primitive=p, cell=(i, j, k), got=q, distance=d, **info)

"""C18: generated event libraries against a brute-force enumeration of the hops."""
import itertools
import math
import tempfile
from collections import Counter
from .common import *
from .build import *


def gen_mod():
    return need("kmcpy.event.generators", "EventGenerator")


def write_cif(path, lat, sites, shift=None):
    """P1 CIF with explicit labels; sites: (label, symbol, frac)"""
    a, b, c = lat.abc
    al, be, ga = lat.angles
    L = ["data_t", "_symmetry_space_group_name_H-M 'P 1'", f"_cell_length_a {a:.10f}", f"_cell_length_b {b:.10f}", f"_cell_length_c {c:.10f}",
         f"_cell_angle_alpha {al:.10f}", f"_cell_angle_beta {be:.10f}", f"_cell_angle_gamma {ga:.10f}", "loop_", "_symmetry_equiv_pos_site_id", "_symmetry_equiv_pos_as_xyz", "1 'x, y, z'",
         "loop_", "_atom_site_type_symbol", "_atom_site_label", "_atom_site_symmetry_multiplicity", "_atom_site_fract_x", "_atom_site_fract_y", "_atom_site_fract_z", "_atom_site_occupancy"]
    for (lb, s, f), u in zip(sites, shift or [(0, 0, 0)] * len(sites)):
        f = [a + b for a, b in zip(f, u)]
        L.append(f"{s} {lb} 1 {f[0]:.8f} {f[1]:.8f} {f[2]:.8f} 1")
    with open(path, "w") as fh:
        fh.write("\n".join(L) + "\n")


def framework(r):
    """a small crystal: mobile Na sites (one or two labels), other active sites, fixed sites"""
    from pymatgen.core import Lattice
    kind = r.choice(["cubic", "tet", "tri", "tri"])
    if kind == "cubic":
        lat = Lattice.cubic(r.uniform(3.6, 5))
    elif kind == "tet":
        lat = Lattice.tetragonal(r.uniform(3.4, 5), r.uniform(4, 6))
    else:
        lat = Lattice.from_parameters(*[r.uniform(4, 6.5) for _ in range(3)], *[r.uniform(75, 105) for _ in range(3)])
    special = [(0, 0, 0), (0.5, 0.5, 0.5), (0.5, 0, 0), (0, 0.5, 0), (0, 0, 0.5), (0.5, 0.5, 0), (0.25, 0.25, 0.25), (0.75, 0.75, 0.75)]
    pool = r.sample(special, len(special)) if kind != "tri" or r.b() else [tuple(round(r.random(), 6) for _ in range(3)) for _ in range(8)]
    nna, nsi, no = r.i(1, 4), r.i(0, 2), r.i(0, 2)
    two = r.b() and nna > 1
    sites = []
    for i in range(nna):
        sites.append(("Na2" if two and i % 2 else "Na1", "Na", pool.pop()))
    for i in range(nsi):
        sites.append(("Si1", "Si", pool.pop()))
    for i in range(no):
        sites.append(("O1", "O", pool.pop()))
    if r.b(0.5):
        r.shuffle(sites)
    # no two sites closer than the CIF reader's merging tolerance
    for (a, _, f), (b, _, g) in itertools.combinations(sites, 2):
        if lat.get_all_distances([f], [g])[0][0] < 0.4:
            raise Skip("sites too close")
    mapping = {"Na": ["Na", "X"]}
    if nsi:
        mapping["Si"] = r.choice([["Si", "P"], ["Si"]])
    if no:
        mapping["O"] = r.choice([["O"], "O", ["O", "S"]])
    return lat, sites, mapping, two


def active(mapping, s):
    v = mapping[s]
    return isinstance(v, list) and len(v) > 1


def neighbours(lat, A, i, rmax):
    """(distance, j, image) of every other periodic site within rmax of site i (A: list of fractional coordinates)"""
    n = [int(math.ceil(rmax / h)) + 1 for h in (lat.volume / np.linalg.norm(np.cross(lat.matrix[1], lat.matrix[2])), lat.volume / np.linalg.norm(np.cross(lat.matrix[2], lat.matrix[0])),
                                                lat.volume / np.linalg.norm(np.cross(lat.matrix[0], lat.matrix[1])))]
    T = np.array(list(itertools.product(*[range(-k - 1, k + 2) for k in n])))
    out = []
    for j, f in enumerate(A):
        d = np.linalg.norm((f - A[i] + T) @ lat.matrix, axis=1)
        for q in np.nonzero(d < rmax + 1e-2)[0]:
            if d[q] > 1e-6:
                out.append((float(d[q]), j, tuple(int(x) for x in T[q])))
    return out


@case("C18", weight=3)
def generated_library(r):
    Gen = gen_mod()
    EventLib = need("kmcpy.event", "EventLib")
    Order = need("kmcpy.structure.active_site_order", "ActiveSiteOrder")
    lat, sites, mapping, two = framework(r)
    shape = [r.choice([1, 1, 2, 2, 3]) for _ in range(3)]
    d = tempfile.mkdtemp(prefix="kmcpy_ev_")
    try:
        run_case(r, Gen, EventLib, Order, lat, sites, mapping, two, shape, d)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def run_case(r, Gen, EventLib, Order, lat, sites, mapping, two, shape, d):
    from pymatgen.core import Structure
    load = need("kmcpy.io.cif", "load_labeled_structure_from_cif")
    cif = os.path.join(d, "s.cif")
    write_cif(cif, lat, sites, [tuple(r.choice([-1, 0, 0, 0, 1]) for _ in range(3)) for _ in sites] if r.b(0.2) else None)
    full = load(cif)
    check(len(full) == len(sites) and sorted(str(x.properties["label"]) for x in full) == sorted(s[0] for s in sites), "CIF reader lost a site or label", sites=sites)
    # the order of the sites is the reader's (P1: grouped by species); find it by position
    perm = []
    for x in full:
        df = np.array([np.array(s[2]) - x.frac_coords for s in sites])
        perm.append(int(np.argmin(np.abs(df - np.round(df)).sum(1))))
    sites = [sites[i] for i in perm]
    check([s[1] for s in sites] == [x.specie.symbol for x in full] and [s[0] for s in sites] == [x.properties["label"] for x in full], "CIF reader attached a wrong label or species", sites=sites)
    ox = full.copy()
    ox.add_oxidation_state_by_guess()
    names = [x.species_string for x in ox]
    act = [i for i, s in enumerate(sites) if active(mapping, s[1])]
    A = [np.array(full[i].frac_coords) for i in act]
    L = full.lattice
    # cutoffs
    kw = {}
    if r.b(0.6):
        cut = r.uniform(2.0, 4.5)
        kw["local_env_cutoff"] = cut
        cutoff = lambda a, b: cut
        cuts = [cut]
    else:
        sp = sorted({names[i] for i in act})
        table = {}
        for a in sp:
            for b in sp:
                if (b, a) not in table and r.b(0.8):
                    table[(a, b)] = r.uniform(2.0, 4.5)
        if not table:
            table[(sp[0], sp[0])] = 3.0
        kw["local_env_cutoff_dict"] = table
        cutoff = lambda a, b: table.get((a, b), table.get((b, a), 0.0))
        cuts = list(table.values())
    init, targ = "Na", "Na"
    mode = r.choice(["default", "species", "label"] if two else ["default", "species", "label1"])
    if mode == "species":
        nm = names[[i for i in act if sites[i][1] == "Na"][0]]
        kw["mobile_ion_identifiers"] = r.choice([("Na", "Na"), (nm, nm), (["Na"], ["Na"])])
    elif mode == "label":
        init, targ = r.choice([("Na1", "Na2"), ("Na2", "Na1"), ("Na1", "Na1")])
        kw["mobile_ion_identifiers"] = (init, targ)
    elif mode == "label1":
        init = targ = "Na1"
        kw["mobile_ion_identifiers"] = ("Na1", "Na1")
    is_i = lambda k: sites[act[k]][1] == "Na" if init == "Na" else sites[act[k]][0] == init
    is_t = lambda k: sites[act[k]][1] == "Na" if targ == "Na" else sites[act[k]][0] == targ
    info = dict(lattice=np.round(lat.matrix, 5).tolist(), sites=sites, mapping=mapping, shape=shape, **{k: str(v) for k, v in kw.items()})
    # brute force in the primitive cell
    rmax = max(cuts)
    nb = {}
    for k in range(len(act)):
        if not is_i(k):
            continue
        lst = []
        for dist, j, t in neighbours(L, A, k, rmax):
            c = cutoff(names[act[k]], names[act[j]])
            if c and abs(dist - c) < 1e-3:
                raise Skip("neighbour at the cutoff")
            if dist < c:
                lst.append((j, t))
        nb[k] = lst
    if sum(len(v) for v in nb.values()) * math.prod(shape) > 3000 or any(len(v) > 30 for v in nb.values()):
        raise Skip("too many neighbours")
    if matching_cost(L, A, names, act, nb) > 6000:
        raise Skip("matching too expensive")
    hops = sum(is_t(j) for v in nb.values() for j, _ in v)
    f = os.path.join(d, "ev.json")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        call = lambda: Gen().generate_events(structure_file=cif, supercell_shape=list(shape), event_file=f, site_mapping=mapping, find_nearest_if_fail=True, **kw)
        if not hops:
            check(raises(ValueError, call), "no hop possible but no error", **info)
            return
        call()
    finally:
        os.chdir(cwd)
    lib = EventLib.from_file(f) if hasattr(EventLib, "from_file") else EventLib.from_json(f)
    # index space: positions of the active sites of the supercell, from the recorded order
    order = Order.from_dict(lib.index_metadata)
    ref = Order.from_structure_and_mapping(ox, mapping, supercell_shape=list(shape))
    check(order.fingerprint == ref.fingerprint, "recorded active-site order is not that of the structure", **info)
    S = ref.active_structure()
    n = len(S)
    check(n == len(act) * math.prod(shape), "number of active sites", got=n, **info)
    which = []
    for x in S:
        fr = L.get_fractional_coords(x.coords)
        hit = [(k, tuple(int(v) % m for v, m in zip(np.round(fr - A[k]), shape))) for k in range(len(act)) if np.abs(fr - A[k] - np.round(fr - A[k])).max() < 1e-5]
        check(len(hit) == 1, "active site not on the lattice", got=x.frac_coords.tolist(), **info)
        which.append(hit[0])
    index = {w: i for i, w in enumerate(which)}
    check(len(index) == n, "two active sites coincide", **info)
    wrap = lambda t: tuple(int(v) % m for v, m in zip(t, shape))
    want, want_env = Counter(), {}
    for i, (k, t) in enumerate(which):
        if k not in nb:
            continue
        img = [index[(j, wrap(np.add(t, u)))] for j, u in nb[k]]
        want_env[i] = Counter(img)
        for (j, _), q in zip(nb[k], img):
            if is_t(j):
                want[(i, q)] += 1
    got, env = Counter(), {}
    for e in lib.events:
        a, b = (int(x) for x in e.mobile_ion_indices)
        le = tuple(int(x) for x in e.local_env_indices)
        check(all(0 <= x < n for x in (a, b) + le), "index outside the active-site space", event=(a, b, le), n=n, **info)
        got[(a, b)] += 1
        env.setdefault(a, set()).add(le)
    pos = lambda i: (which[i][0], which[i][1])
    miss, extra = want - got, got - want
    check(not miss, "hops within the cutoff are missing", missing=[(pos(a), pos(b)) for a, b in list(miss)[:4]], **info)
    check(not extra, "events that are no hops within the cutoff", extra=[(pos(a), pos(b), c) for (a, b), c in list(extra.items())[:4]], **info)
    for a, es in env.items():
        check(len(es) == 1, "events of one site list different environments", site=a, got=es, **info)
        check(Counter(next(iter(es))) == want_env[a], "environment is not the set of neighbours within the cutoff", site=pos(a), got=[pos(x) for x in next(iter(es))], want=[pos(x) for x in want_env[a].elements()], **info)
    # translated copies have translated environments
    byk = {}
    for a, es in env.items():
        k, t = which[a]
        rel = [(which[x][0], wrap(np.subtract(which[x][1], t))) for x in next(iter(es))]
        if k in byk:
            check(byk[k] == rel, "translated events have different environments", site=pos(a), got=rel, want=byk[k], **info)
        byk[k] = rel
    # reference order: same species sequence; reference itself sorted by species then x; distances of the reference where some order achieves them
    first = {}
    for k in sorted(nb):
        if k not in byk:
            continue
        sp = [names[act[j]] for j, _ in byk[k]]
        sig = tuple(sorted(Counter(names[act[j]] for j, _ in nb[k]).items()))
        if sig in first:
            check(sp == first[sig][1], "species order differs from the reference environment", site=k, got=sp, want=first[sig][1], **info)
        else:
            if all(kk in byk for kk in nb if kk < k):
                first[sig] = (k, sp)
    geometry_order(r, L, A, names, act, nb, byk, which, shape, info)
    # dependencies recorded with the library are those of its events
    fresh = EventLib()
    for e in lib.events:
        fresh.add_event(e)
    fresh.generate_event_dependencies()
    a, b = lib.event_dependencies, fresh.event_dependencies
    check([sorted(x) for x in a] == [sorted(x) for x in b], "saved dependencies are not those of the events", **info)


def matching_cost(L, A, names, act, nb):
    """orders the nearest-match fallback would try, for environments of one composition that are not congruent"""
    groups = {}
    for lst in nb.values():
        c = Counter(names[act[j]] for j, _ in lst)
        xyz = [(names[act[j]], (A[j] + np.array(u)) @ L.matrix) for j, u in lst]
        spec = sorted((min(a, b), max(a, b), round(float(np.linalg.norm(x - y)), 3)) for (a, x), (b, y) in itertools.combinations(xyz, 2))
        groups.setdefault(tuple(sorted(c.items())), []).append((c, spec))
    cost = 0
    for g in groups.values():
        n = sum(any(x[:2] != y[:2] or abs(x[2] - y[2]) > 0.0021 for x, y in zip(spec, g[0][1])) for _, spec in g[1:])
        cost += n * math.prod(math.factorial(v) for v in g[0][0].values())
    return cost


def geometry_order(r, L, A, names, act, nb, byk, which, shape, info):
    """unfold the environments in space: with the images known, ordered environments of one kind have the reference's distances when an exact match exists"""
    xyz = {}
    for k, rel in byk.items():
        cand = {}
        for j, u in nb[k]:
            cand.setdefault((j, tuple(int(v) % m for v, m in zip(u, shape))), []).append((A[j] + np.array(u)) @ L.matrix)
        if any(len(v) > 1 for v in cand.values()):
            return
        xyz[k] = np.array([cand[x][0] for x in rel]) if rel else np.zeros((0, 3))
    ks = sorted(xyz)
    dm = lambda c: np.sqrt(((c[:, None] - c[None]) ** 2).sum(-1))
    sig = lambda k: tuple(sorted(Counter(names[act[j]] for j, _ in nb[k]).items()))
    ref = {}
    for k in sorted(nb):
        s = sig(k)
        if s not in ref:
            ref[s] = k
            if k not in xyz:
                ref[s] = None
            elif len(xyz[k]):
                key = [(names[act[j]], x[0]) for (j, _), x in zip(byk[k], xyz[k])]
                # pymatgen orders species by electronegativity; within one species x must not decrease
                for (n1, x1), (n2, x2) in zip(key, key[1:]):
                    if n1 == n2:
                        check(x1 <= x2 + 1e-6, "reference environment is not ordered by x within a species", site=k, got=key, **info)
                seen = [n for n, _ in itertools.groupby([n for n, _ in key])]
                check(len(seen) == len(set(seen)), "reference environment is not grouped by species", site=k, got=key, **info)
            continue
        k0 = ref[s]
        if k0 is None or k not in xyz:
            continue
        a, b = dm(xyz[k0]), dm(xyz[k])
        m = len(a)
        if m > 7:
            continue
        lab = [names[act[j]] for j, _ in byk[k]]
        lab0 = [names[act[j]] for j, _ in byk[k0]]
        ok = False
        for p in itertools.permutations(range(m)):
            if all(lab[p[i]] == lab0[i] for i in range(m)) and (np.abs(a - b[np.ix_(p, p)]) <= 0.0099 + 0.0099 * np.abs(b[np.ix_(p, p)])).all():
                ok = True
                break
        if ok:
            check((np.abs(a - b) <= 0.0101 + 0.0101 * np.abs(b)).all(), "environment is not in the reference order although a matching order exists", site=k, reference=k0, **info)


@case("C18", weight=0.5)
def index_helpers(r):
    norm = need("kmcpy.event.generators", "normalize_supercell_tuple")
    from kmcpy.structure import sites as S
    shape = [r.i(1, 6) for _ in range(3)]
    t = [r.randrange(m) for m in shape]
    u = [r.i(-7, 7) for _ in range(3)]
    got = norm(site_belongs_to_supercell=tuple(t), image_of_site=tuple(u), supercell_shape=list(shape))
    check(tuple(got) == tuple((a + b) % m for a, b, m in zip(t, u, shape)), "periodic wrap of a cell", cell=t, image=u, shape=shape, got=got)
    st = mk_structure(r.i(1, 4), r, others=["Cl"] * r.i(0, 2))
    st.add_site_property("label", [r.choice(["Na1", "Na2"]) for _ in st])
    st.add_site_property("local_index", list(range(len(st))))
    st.add_site_property("wyckoff_sequence", list(range(len(st))))
    sc = need("kmcpy.structure.sites", "make_kmc_supercell")(st, shape)
    big = st.copy()
    big.make_supercell(shape)
    check(len(sc) == len(big), "number of supercell sites", shape=shape)
    for x, y in zip(sc, big):
        dd = x.frac_coords - y.frac_coords
        check(np.abs(dd - np.round(dd)).max() < 1e-7 and x.species_string == y.species_string, "supercell numbering differs from the active-site order's", shape=shape)
    for x in sc:
        k = x.properties["local_index"]
        want = st[k].coords + np.array(x.properties["supercell"]) @ st.lattice.matrix
        dd = sc.lattice.get_fractional_coords(want - x.coords)
        check(np.abs(dd - np.round(dd)).max() < 1e-7, "recorded cell of a supercell site", shape=shape, site=k, cell=x.properties["supercell"])
        check(all(0 <= v < m for v, m in zip(x.properties["supercell"], shape)), "recorded cell outside the supercell", shape=shape, cell=x.properties["supercell"])
        check(x.properties["label"] == st[k].properties["label"], "label of a supercell site")
    idx = need("kmcpy.structure.sites", "build_site_index")(sc, skip_check=False)
    key = need("kmcpy.structure.sites", "site_index_key")
    check(len(idx) == len(sc), "site index is incomplete", shape=shape)
    for i, x in enumerate(sc):
        kk = key(supercell=x.properties["supercell"], label=x.properties["label"], local_index=x.properties["local_index"])
        check(idx[kk] == i, "site index points at another site", shape=shape, key=kk)
    dup = sc.copy()
    dup.append(dup[0].specie, dup[0].frac_coords, properties=dict(dup[0].properties), validate_proximity=False)
    check(raises(KeyError, need("kmcpy.structure.sites", "build_site_index"), dup, skip_check=False), "duplicate site identifier accepted", shape=shape)


@case("C18", weight=0.5)
def cutoff_neighbours(r):
    N = need("kmcpy.structure.neighbors", "prepare_cutoff_neighbor_lookup", "get_cutoff_neighbor_info", "prepare_range_cutoff_neighbor_lookup", "get_range_cutoff_neighbor_info")
    st = mk_structure(r.i(1, 3), r, skew=True, others=[r.choice(["Cl", "Si"]) for _ in range(r.i(0, 3))])
    sp = sorted({x.species_string for x in st})
    tab, rng = {}, {}
    for a in sp:
        for b in sp:
            if a <= b and r.b(0.8):
                k = (a, b) if r.b() else (b, a)
                tab[k] = r.uniform(2, 6)
                rng[k] = (r.uniform(1, 3), r.uniform(3, 6))
    i = r.randrange(len(st))
    A = [x.frac_coords for x in st]
    f = lambda t, a, b, z: t.get((a, b), t.get((b, a), z))
    for table, prep, get, inside in ((tab, N[0], N[1], lambda d, c: d < c), (rng, N[2], N[3], lambda d, c: c[0] < d < c[1])):
        rmax = max([v if isinstance(v, float) else v[1] for v in table.values()] or [0.1])
        z = 0.0 if table is tab else (0.0, 0.0)
        want = []
        for d, j, t in neighbours(st.lattice, A, i, rmax):
            c = f(table, st[i].species_string, st[j].species_string, z)
            if any(abs(d - v) < 1e-3 for v in (c if isinstance(c, tuple) else (c,))):
                raise Skip("at the cutoff")
            if inside(d, c):
                want.append((j, t, round(d, 5)))
        got = get(st, i, prep(table))
        g = sorted((int(x["site_index"]), tuple(int(v) for v in x["image"]), round(float(x["weight"]), 5)) for x in got)
        ok = len(g) == len(want) and all(a[:2] == b[:2] and abs(a[2] - b[2]) < 2e-5 for a, b in zip(g, sorted(want)))
        check(ok, "neighbours within the cutoffs", got=g, want=sorted(want), table={str(k): v for k, v in table.items()}, site=i)

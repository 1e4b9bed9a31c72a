"""C17: species <-> occupation conversion, basis values."""
import itertools
from .common import *
from .build import *


def basis_mod():
    return need("kmcpy.structure.basis", "get_basis", "Occupation", "ChebyshevBasis", "OccupationBasis")


def cheb(k, x):
    a, b = 1.0, x
    for _ in range(k - 1):
        a, b = b, 2 * x * b - a
    return b if k else a


@case("C17", "C09", weight=0.6)
def basis_definitions(r):
    get_basis, Occ, Ch, Oc = basis_mod()
    q = r.i(1, 7)
    cb = get_basis("chebyshev", max_states=max(q, 2))
    ob = get_basis("occupation")
    V = np.asarray(cb.site_basis_values(q), float)
    if q >= 2:
        want = np.array([[cheb(k, -1.0 + 2.0 * s / (q - 1)) for k in range(1, q)] for s in range(q)])
        check(V.shape == want.shape and allclose(V, want, 1e-9, 1e-12), f"Chebyshev site functions for {q} states", got=V, want=want)
        check(len({tuple(np.round(v, 9)) for v in V}) == q, "Chebyshev values do not separate the states", got=V)
        check(cb.num_site_basis_functions(q) == q - 1, "number of site functions", got=cb.num_site_basis_functions(q), states=q)
    check(np.asarray(ob.site_basis_values(2)).tolist() == [[1.0], [0.0]], "occupation site functions", got=ob.site_basis_values(2))
    for s in range(q):
        check(cb.state_value(s, q) == s, "Chebyshev state value", state=s, got=cb.state_value(s, q))
    check([ob.state_value(0, 2), ob.state_value(1, 2)] == [1, 0], "occupation state value")
    check(set(cb.valid_values) == set(range(max(q, 2))) and set(ob.valid_values) == {0, 1}, "valid values", got=(cb.valid_values, ob.valid_values))
    check(cb.uses_state_indices and not ob.uses_state_indices, "which basis stores states")
    for b in (cb, ob):
        check(b.match_value != b.mismatch_value, "match and mismatch coincide")
        check(b.flip(b.match_value) == b.mismatch_value and b.flip(b.mismatch_value) == b.match_value, "flip", basis=str(b))
        check(b.is_occupied(b.occupied_value) and not b.is_occupied(b.vacant_value) and b.is_vacant(b.vacant_value) and not b.is_vacant(b.occupied_value), "occupied/vacant", basis=str(b))
        b2 = type(b).from_dict(b.as_dict())
        check(type(b2) is type(b) and set(b2.valid_values) == set(b.valid_values), "basis changed through a dictionary", basis=str(b))
    for v, w in ((cb.match_value, ob.match_value), (cb.mismatch_value, ob.mismatch_value)):
        check(cb.convert_to(v, ob) == w and ob.convert_to(w, cb) == v, "conversion between bases", value=v)
    check(cb.to_occupation(0) == 1 and cb.to_occupation(1) == 0 and cb.from_occupation(1) == 0 and cb.from_occupation(0) == 1, "Chebyshev <-> occupation")
    check(ob.to_chebyshev(1) == 0 and ob.to_chebyshev(0) == 1 and ob.from_chebyshev(0) == 1 and ob.from_chebyshev(1) == 0, "occupation <-> Chebyshev")
    if q > 2:
        s = r.i(1, q - 1)
        check(cb.convert_to(s, ob) == ob.mismatch_value, "a state other than the template species converts to a match", state=s, states=q)
    check(raises(ValueError, get_basis, r.choice(["spin", "Chebyshev", "", "occ"])), "unknown basis accepted")
    check(raises(ValueError, Ch, max_states=r.choice([1, 0, -1])), "Chebyshev basis with one state accepted")


@case("C17", weight=1)
def occupation_object(r):
    get_basis, Occ, Ch, Oc = basis_mod()
    name = r.choice(["chebyshev", "occupation", "multi"])
    q = 2 if name != "multi" else r.i(3, 5)
    b = get_basis("occupation") if name == "occupation" else get_basis("chebyshev", max_states=q)
    n = r.i(1, 12)
    d = [r.randrange(q) for _ in range(n)]
    info = dict(basis=name, states=q, data=d)
    arg = r.choice([list, tuple, np.array])(d)
    o = Occ(arg, basis=b if name == "multi" or r.b() else name)
    check(list(o) == d and o.values == d and len(o) == n and o.array_equal(d) and o.data.tolist() == d, "values", **info)
    if isinstance(arg, np.ndarray):
        arg[0] = 1 - min(1, arg[0])
        check(o.values == d, "shares the caller's array", **info)
    x = o.data
    x[...] = 9
    check(o.values == d, "handed-out data aliases the occupation", **info)
    bad = list(d)
    bad[r.randrange(n)] = r.choice([q, -1, q + 3, -2])
    check(raises(ValueError, Occ, bad, basis=b), "value outside the basis accepted", bad=bad, **info)
    c = o.copy()
    check(raises(ValueError, c.__setitem__, r.randrange(n), r.choice([q, -1])), "assignment of a value outside the basis accepted", **info)
    check(o.values == d, "copy is not independent", **info)
    i = r.randrange(n)
    c = o.copy()
    v = r.randrange(q)
    c[i] = v
    check(c.values == d[:i] + [v] + d[i + 1:] and o.values == d, "assignment", at=i, value=v, **info)
    M, X = b.match_value, b.mismatch_value
    m = lambda u: [k for k, z in enumerate(d) if z == u]
    check(o.count_match() == len(m(M)) and o.count_mismatch() == len(m(X)), "match counts", **info)
    check(o.get_match_indices() == m(M) and o.get_mismatch_indices() == m(X), "match indices", **info)
    check(o.count_occupied() == len(m(b.occupied_value)) and o.count_vacant() == len(m(b.vacant_value)), "occupied counts", **info)
    check(o.get_occupied_indices() == m(b.occupied_value) and o.get_vacant_indices() == m(b.vacant_value), "occupied indices", **info)
    if q == 2:
        idx = [r.randrange(n) for _ in range(r.i(0, 4))]
        e = list(d)
        for k in idx:
            e[k] = 1 - e[k]
        f = o.flip(idx)
        check(f.values == e and o.values == d, "flip", at=idx, got=f.values, **info)
        check(f.flip(list(reversed(idx))).values == d, "flipping twice is not the identity", at=idx, **info)
        check(o.flip(i).values == d[:i] + [1 - d[i]] + d[i + 1:], "flip of one site", at=i, **info)
        g = o.copy()
        g.flip_inplace(idx)
        check(g.values == e and o.values == d, "flip in place", at=idx, got=g.values, **info)
        t = "occupation" if name == "chebyshev" else "chebyshev"
        u = o.to_basis(t)
        check(u.values == [1 - z for z in d], "conversion to the other basis", got=u.values, **info)
        check(u.to_basis(name).values == d, "conversion there and back", **info)
        check(o.equivalent_to(u) and u.equivalent_to(o), "not equivalent to itself in the other basis", **info)
        check(not o.equivalent_to(u.flip(i)) and not u.flip(i).equivalent_to(o), "equivalent to a different pattern", at=i, **info)
        check(o != u or n == 0, "equal across bases", **info)
    else:
        z = list(d)
        z[i] = r.choice([s for s in range(q) if s != z[i]])
        other = Occ(z, basis=b)
        check(not o.equivalent_to(other), "different species count as the same pattern", other=z, **info)
        check(o.equivalent_to(Occ(d, basis=b)), "not equivalent to itself", **info)
        check(o.to_basis("occupation").values == [1 if s == 0 else 0 for s in d], "multi-state occupation in the occupation basis", got=o.to_basis("occupation").values, **info)
    check(o == Occ(d, basis=b) and (o != o.copy()) is False, "equality", **info)
    check(o.to_basis(b).values == d, "conversion to its own basis", **info)
    bn = "occupation" if name == "occupation" else "chebyshev"
    B = get_basis(bn)
    check(Occ.zeros(n, bn).values == [B.vacant_value] * n and Occ.ones(n, bn).values == [B.occupied_value] * n, "all vacant / all occupied", basis=bn)
    ff, sd = r.choice([0.0, 1.0, 0.5, 0.2]), r.i(0, 999)
    st = np.random.get_state()
    try:
        w = Occ.random(n, bn, fill_fraction=ff, seed=sd).values
        w2 = Occ.random(n, bn, fill_fraction=ff, seed=sd).values
    finally:
        np.random.set_state(st)
    check(w == w2 and set(w) <= {0, 1}, "random occupation not reproducible or outside the basis", got=w)
    if ff in (0.0, 1.0):
        check(w == [B.occupied_value if ff else B.vacant_value] * n, "fill fraction", fill=ff, got=w, basis=bn)


NAMES = ["Na", "Si", "P", "O", "Cl", "K", "Zr"]
ALT = {"Na": ["K", "Li"], "Si": ["P", "Ge"], "P": ["Si", "As"], "O": ["S"], "Cl": ["Br", "I"], "K": ["Na", "Rb"], "Zr": ["Ti", "Hf"]}


def lattice_case(r):
    from pymatgen.core import Lattice, Structure
    k = r.i(1, 3)
    kinds = r.sample(NAMES, k)
    mapping = {}
    for s in kinds:
        al = [s] + r.sample(ALT[s], r.i(0, len(ALT[s])))
        if r.b(0.6):
            al.append(r.choice(["X", "Vacancy", "Va"]))
        if r.b(0.3):
            r.shuffle(al)
        mapping[s] = al if len(al) > 1 or r.b() else al[0]
    if all(isinstance(v, str) or len(v) < 2 for v in mapping.values()):
        s = kinds[0]
        mapping[s] = [s, "X"]
    n = r.i(1, 5)
    sp = [r.choice(kinds) for _ in range(n)]
    if not any(isinstance(mapping[s], list) and len(mapping[s]) > 1 for s in sp):
        sp[0] = next(s for s in kinds if isinstance(mapping[s], list) and len(mapping[s]) > 1)
    lat = Lattice.from_parameters(r.uniform(5, 8), r.uniform(5, 8), r.uniform(5, 8), r.uniform(75, 105), r.uniform(75, 105), r.uniform(75, 105)) if r.b() else Lattice.cubic(6.0)
    base = [(0, 0, 0), (0.5, 0.5, 0.5), (0.5, 0, 0), (0, 0.5, 0.25), (0.25, 0.75, 0.75)]
    st = Structure(lat, sp, base[:n])
    return st, mapping, sp


VAC = {"X", "Vacancy", "Va", "vacancy", "VA"}


def allowed_of(mapping, s):
    v = mapping[s]
    v = v if isinstance(v, (list, tuple)) else [v]
    return ["X" if x in VAC else x for x in v]


def sym(x):
    x = getattr(x, "symbol", None) or str(x)
    return "X" if x in VAC else x


def scmat(r):
    k = r.b(0.6)
    if k:
        return np.diag([r.i(1, 3) for _ in range(3)])
    for _ in range(50):
        m = np.array([[r.randint(-1, 2) for _ in range(3)] for _ in range(3)])
        if 1 <= round(np.linalg.det(m)) <= 5:
            return m
    return np.eye(3, dtype=int)


@case("C17", weight=2.5)
def structure_round_trip(r):
    LS = need("kmcpy.structure.lattice_structure", "LatticeStructure")
    Occ = need("kmcpy.structure.basis", "Occupation")
    st, mapping, sp = lattice_case(r)
    two = all(len(allowed_of(mapping, s)) <= 2 for s in sp)
    basis = "occupation" if two and r.b() else "chebyshev"
    keep = st.copy()
    L = LS(st, mapping, basis)
    al = [allowed_of(mapping, s) for s in sp]
    info = dict(species=sp, mapping=mapping, basis=basis)
    check([[sym(y) for y in x] for x in L.allowed_species] == al, "allowed species per site", got=L.allowed_species, **info)
    for i in range(len(sp)):
        vals = []
        for k, s in enumerate(al[i]):
            v = L.occupation_value_for_species(i, L.allowed_species[i][k])
            check(L.occupation_value_for_species(i, s) == v, "value of a species given by name", site=i, specie=s, **info)
            vals.append(v)
            check(sym(L.species_for_occupation_value(i, v)) == s, "species of a value is another species", site=i, specie=s, value=v, **info)
            check(v == (k if basis == "chebyshev" else 1 - k), "value of an allowed species", site=i, specie=s, got=v, **info)
        check(len(set(vals)) == len(vals), "two species share a value", site=i, got=vals, **info)
        check(raises(ValueError, L.occupation_value_for_species, i, "U"), "unknown species accepted", site=i, **info)
        check(raises(ValueError, L.species_for_occupation_value, i, r.choice([len(al[i]) if basis == "chebyshev" else 2, -1, 7])), "unknown value accepted", site=i, **info)
    m = r.choice([None, np.eye(3, dtype=int)]) if r.b(0.3) else scmat(r)
    M = np.eye(3, dtype=int) if m is None else m
    S = L.copy()
    S.make_supercell(M if r.b(0.7) else M.tolist())
    big = keep.copy()
    big.make_supercell(M)
    check(len(S.template_structure) == len(big) and [sym(x.specie) for x in S.template_structure] == [sym(x.specie) for x in big], "supercell template", matrix=M.tolist(), **info)
    bal = [allowed_of(mapping, sym(x.specie)) for x in big]
    check([[sym(y) for y in x] for x in S.allowed_species] == bal, "allowed species in the supercell", matrix=M.tolist(), got=S.allowed_species, want=bal, **info)
    check(len(L.template_structure) == len(sp) and not L.template_structure.site_properties.get("_kmcpy_template_index"), "the template was changed", **info)
    states = [r.randrange(len(a)) for a in bal]
    vals = [k if basis == "chebyshev" else 1 - k for k in states]
    want = [a[k] for a, k in zip(bal, states)]
    T = L.get_structure_from_occ(Occ(vals, basis=L.basis), sc_matrix=m)
    keep_i = [i for i, w in enumerate(want) if w != "X"]
    info.update(matrix=M.tolist(), values=vals, want=want)
    check(len(T) == len(keep_i), "number of atoms", got=[sym(x.specie) for x in T], **info)
    for x, i in zip(T, keep_i):
        d = x.frac_coords - big[i].frac_coords
        check(np.abs(d - np.round(d)).max() < 1e-8 and sym(x.specie) == want[i], "atom of the built structure", site=i, got=str(x), **info)
    check(allclose(T.lattice.matrix, big.lattice.matrix, 1e-9, 1e-9), "lattice", **info)
    check([sym(x.specie) for x in st] == sp and len(st) == len(sp), "the caller's template was changed", **info)
    if len(T):
        p = list(range(len(T)))
        r.shuffle(p)
        from pymatgen.core import Structure
        jit = 0.0 if r.b() else 0.01
        from pymatgen.core import Species
        dec = (lambda x: Species(sym(x), {"O": -2, "S": -2, "Cl": -1, "Br": -1, "I": -1}.get(sym(x), 1))) if r.b(0.3) else (lambda x: x)
        U = Structure(T.lattice, [dec(T[i].specie) for i in p], [T[i].frac_coords + np.array([r.uniform(-jit, jit) / 2 for _ in range(3)]) + np.array([r.randint(-1, 1) for _ in range(3)]) for i in p])
    else:
        U = T
    kw = {}
    if r.b(0.4) and len(U):
        kw["sc_matrix"] = M
    if r.b(0.3) and len(U):
        kw["structure_site_mapping"] = [keep_i[i] for i in p]
    if not len(U):
        kw["sc_matrix"] = M
    got = L.get_occ_from_structure(U, **kw)
    check(got.values == vals, "structure -> occupation -> structure changes the occupation", got=got.values, options=sorted(kw), **info)
    if len(U):
        # errors
        V = U.copy()
        V.replace(r.randrange(len(V)), "U")
        check(raises(ValueError, L.get_occ_from_structure, V), "species that is not allowed accepted", **info)
        if len(U) >= 2:
            mp = [keep_i[i] for i in p]
            dup = list(mp)
            dup[0] = dup[1]
            check(raises(ValueError, L.get_occ_from_structure, U, sc_matrix=M, structure_site_mapping=dup), "two atoms on one site accepted", **info)
            check(raises(ValueError, L.get_occ_from_structure, U, sc_matrix=M, structure_site_mapping=mp[:-1]), "short mapping accepted", **info)
            for bad in (-1, len(big)):
                check(raises(ValueError, L.get_occ_from_structure, U, sc_matrix=M, structure_site_mapping=mp[:-1] + [bad]), "mapping outside the supercell accepted", bad=bad, **info)
    check(raises(ValueError, L.get_structure_from_occ, Occ(vals + [vals[0]], basis=L.basis), m), "occupation of the wrong length accepted", **info)
    # a stretched cell is not a supercell
    from pymatgen.core import Lattice, Structure
    if len(U):
        Z = Structure(Lattice(np.array(U.lattice.matrix) * 1.37), [x.specie for x in U], [x.frac_coords for x in U])
        check(raises(ValueError, L.get_occ_from_structure, Z), "cell that is no supercell accepted", **info)


@case("C17", weight=0.4)
def far_atoms_are_rejected(r):
    LS = need("kmcpy.structure.lattice_structure", "LatticeStructure")
    from pymatgen.core import Lattice, Structure
    st = Structure(Lattice.cubic(6.0), ["Na", "Na"], [[0, 0, 0], [0.5, 0.5, 0.5]])
    L = LS(st, {"Na": ["Na", "X"]}, r.choice(["chebyshev", "occupation"]))
    tol = r.choice([0.05, 0.1, 0.15])
    d = np.array([r.gauss(0, 1) for _ in range(3)])
    far = r.b()
    d = d / np.linalg.norm(d) * tol * (r.uniform(1.05, 1.5) if far else r.uniform(0, 0.95))
    i = r.randrange(2)
    U = Structure(st.lattice, ["Na"], [st[i].frac_coords + d])
    if far:
        check(raises(ValueError, L.get_occ_from_structure, U, tol=tol), "atom far from every site accepted", shift=d.tolist(), tol=tol)
    else:
        got = L.get_occ_from_structure(U, tol=tol)
        check(got.get_occupied_indices() == [i], "atom near a site not put there", site=i, shift=d.tolist(), tol=tol, got=got.values)
    check(raises(ValueError, LS, st, {"Na": ["Na", "X"]}, "spin"), "unknown basis accepted")

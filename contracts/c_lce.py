"""Cluster-expansion correlations and energies."""
from pyvc.contract import *
from contracts.c_state import mk_state
from contracts.c_rates import site_event

LM = "kmcpy.models.local_cluster_expansion"
LC = LM + ":LocalClusterExpansion"


def nested(h, name, n_orb):
    """[orbit][cluster][position] -> value, all lengths arbitrary"""
    nc, ns = h.fn(name + "_clusters", "int", "int"), h.fn(name + "_size", "int", "int", "int")
    el = h.fn(name, "int", "int", "int", "int")
    h.assume(h.forall(0, n_orb, lambda o: And(nc(to_int(o)) >= 0, h.forall(0, nc(to_int(o)), lambda c: ns(to_int(o), to_int(c)) >= 0, "c")), "o"))
    seq = SeqV("list", n=n_orb, fn=lambda o: SeqV("list", n=nc(to_int(o)), fn=lambda c, o=o: SeqV("list", n=ns(to_int(o), to_int(c)), fn=lambda s, o=o, c=c: el(to_int(o), to_int(c), to_int(s)))))
    return seq, nc, ns, el


def all_sites(h, n_orb, nc, ns, el, p):
    o, c, s = (z3.FreshInt(x) for x in "ocs")
    return z3.ForAll([o, c, s], z3.Implies(z3.And(0 <= o, o < n_orb, 0 <= c, c < nc(o), 0 <= s, s < ns(o, c)), zbool(p(o, c, s))), patterns=[el(o, c, s)])


def prod(h, n, f):
    from pyvc import loops
    k = z3.Const(h.ctx.name("k"), z3.IntSort())
    return h.ctx.w.folds.fold("mul", n, k, f(k))


def spec_corr(h, seq, o, val):
    """sum over the clusters of feature o of the product over the cluster's positions"""
    cl = h.it.resolve(h.at(seq, o))

    def one(c):
        si = h.it.resolve(h.at(cl, c))
        return to_real(prod(h, h.len(si), lambda s: to_real(val(c, s, h.at(si, s)))))
    return h.sum(h.len(cl), one)


def plain_value(h, occ):
    return lambda o: lambda c, s, x: occ(x)


def decorated_value(h, occ, phi, bas):
    return lambda o: lambda c, s, x: phi(x, occ(x), h.at(h.it.resolve(h.at(h.it.resolve(h.at(bas, o)), c)), s))


class _Kernel(Contract):
    def old(self, h, a):
        return a["occ_latt"].fn, a["site_basis_values"].fn if "site_basis_values" in a else None

    def value(self, h, a, o):
        if o[1] is None:
            return plain_value(h, o[0])
        return decorated_value(h, o[0], o[1], a["cluster_basis_indices"])

    def havoc(self, h, a):
        n = h.len(a["corr"])
        f = h.fn("corr", "int", "real")
        a["corr"].fn = lambda i: f(to_int(i))
        return None

    def requires(self, h, a):
        seq = a["cluster_site_indices"]
        yield "one slot per feature", h.eq(h.len(a["corr"]), h.len(seq))

    def call_facts(self, h, a, o, r):
        seq = a["cluster_site_indices"]
        v = self.value(h, a, o)
        yield "correlations", h.forall(0, h.len(seq), lambda i: h.eq(a["corr"].fn(i), spec_corr(h, seq, i, v(i))), "i")

    def ensures(self, h, a, o, r):
        seq = a["cluster_site_indices"]
        i = h.int("feature")
        h.assume(And(0 <= i, i < h.len(seq)))
        yield "correlation = sum over clusters of the product of site values", h.eq(a["corr"].fn(i), spec_corr(h, seq, i, self.value(h, a, o)(i)))
        j = h.int("local")
        yield "occupation unchanged", a["occ_latt"].fn(j) == o[0](j)


@contract
class CalcCorr(_Kernel):
    qual = LM + ":_calc_corr"
    props = ("C09",)

    def inputs(self, h):
        n_orb, n = h.nat("n_features"), h.nat("n_local")
        seq, nc, ns, el = nested(h, "site", n_orb)
        h.assume(all_sites(h, n_orb, nc, ns, el, lambda o, c, s: And(0 <= el(o, c, s), el(o, c, s) < n)))
        return {"corr": h.nd("corr", (n_orb,)), "occ_latt": h.nd("occ", (n,), "int"), "cluster_site_indices": seq}


def decorated(h, n_orb, n):
    q, b = h.nat("n_states"), h.nat("n_basis")
    seq, nc, ns, el = nested(h, "site", n_orb)
    bi = h.fn("basis", "int", "int", "int", "int")
    bas = SeqV("list", n=n_orb, fn=lambda o: SeqV("list", n=nc(to_int(o)), fn=lambda c, o=o: SeqV("list", n=ns(to_int(o), to_int(c)), fn=lambda s, o=o, c=c: bi(to_int(o), to_int(c), to_int(s)))))
    h.assume(all_sites(h, n_orb, nc, ns, el, lambda o, c, s: And(0 <= el(o, c, s), el(o, c, s) < n)))
    h.assume(all_sites(h, n_orb, nc, ns, bi, lambda o, c, s: And(0 <= bi(o, c, s), bi(o, c, s) < b)))
    return seq, bas, h.nd("phi", (n, q, b)), q


@contract
class CalcCorrDecorated(_Kernel):
    qual = LM + ":_calc_corr_decorated"
    props = ("C09",)

    def inputs(self, h):
        n_orb, n = h.nat("n_features"), h.nat("n_local")
        seq, bas, phi, q = decorated(h, n_orb, n)
        occ = h.nd("occ", (n,), "int")
        h.assume(h.forall(0, n, lambda i: And(0 <= occ.fn(i), occ.fn(i) < q)))
        return {"corr": h.nd("corr", (n_orb,)), "occ_latt": occ, "cluster_site_indices": seq, "cluster_basis_indices": bas, "site_basis_values": phi}


class _Compute(Contract):
    qual = LC + ".compute"
    props = ("C09",)
    uses = (LM + ":_calc_corr", LM + ":_calc_corr_decorated")
    deco = False

    def inputs(self, h):
        n, n_orb, m = h.pos("n_sites"), h.nat("n_features"), h.nat("n_local")
        st, ev = mk_state(h, n), site_event(h, n)
        ev.fields["local_env_indices"] = h.ilist("env", m, kind="tuple")
        env = ev.fields["local_env_indices"]
        h.assume(h.forall(0, m, lambda i: And(0 <= h.at(env, i), h.at(env, i) < n)))
        kw = {}
        if self.deco:
            seq, bas, phi, q = decorated(h, n_orb, m)
            kw = dict(correlation_basis_indices=bas, site_basis_values=phi)
            occ = st.fields["occupations"]
            h.assume(h.forall(0, n, lambda i: And(0 <= h.at(occ, i), h.at(occ, i) < q)))
        else:
            seq, nc, ns, el = nested(h, "site", n_orb)
            h.assume(all_sites(h, n_orb, nc, ns, el, lambda o, c, s: And(0 <= el(o, c, s), el(o, c, s) < m)))
            kw = dict(correlation_basis_indices=None, site_basis_values=None)
        fp = h.ilist("fingerprint", n_orb, sort="str")
        hs = h.str("env_hash")
        keci = h.ilist("keci", n_orb, sort="real")
        e0 = h.real("empty_cluster")
        rec = h.rec(LC, name="m", keci=keci, empty_cluster=e0, cluster_site_indices=seq, correlation_fingerprints=fp,
                    parameter_orbit_fingerprints=fp, local_environment_hash=hs, parameter_local_environment_hash=hs, **kw)
        return {"self": rec, "simulation_state": st, "event": ev, "_x": (keci, e0)}

    def old(self, h, a):
        s = a["simulation_state"]
        return {"occ": h.it.seq_copy(s.fields["occupations"]), "env": a["event"].fields["local_env_indices"], "st": dict(s.fields), "ev": dict(a["event"].fields),
                "m": dict(a["self"].fields)}

    def ensures(self, h, a, o, r):
        m, s = a["self"], a["simulation_state"]
        keci, e0 = a["_x"]
        occ = lambda x: h.at(o["occ"], h.at(o["env"], x))
        seq = o["m"]["cluster_site_indices"]
        v = decorated_value(h, occ, o["m"]["site_basis_values"].fn, o["m"]["correlation_basis_indices"]) if self.deco else plain_value(h, occ)
        spec = h.sum(h.len(seq), lambda i: spec_corr(h, seq, i, v(i)) * to_real(h.at(keci, i)))
        yield "energy = correlations . coefficients + empty cluster", to_real(r) == spec + e0
        yield "coefficients kept", h.eq(m.fields["keci"], keci)
        yield "state and event unchanged", And(h.eq(s.fields["occupations"], o["occ"]), h.eq(s.fields["time"], o["st"]["time"]), h.eq(s.fields["step"], o["st"]["step"]),
                                               set(s.fields) == set(o["st"]), set(a["event"].fields) == set(o["ev"]),
                                               *[h.eq(a["event"].fields[k], o["ev"][k]) for k in o["ev"]])


@contract
class ComputePlain(_Compute):
    name = _Compute.qual + " [plain basis]"


@contract
class ComputeDecorated(_Compute):
    name = _Compute.qual + " [decorated]"
    deco = True


@contract
class ValidateOrbits(Contract):
    """coefficients are accepted exactly when their number, fingerprints and environment hash fit the model"""
    qual = LC + "._validate_parameter_orbits"
    props = ("C09",)

    def inputs(self, h):
        n, m, q = h.nat("n_features"), h.nat("n_keci"), h.nat("n_given")
        fp, gv = h.ilist("fingerprint", n, sort="str"), h.ilist("given", q, sort="str")
        hs, gh = h.str("env_hash"), h.str("given_hash")
        h.assume(hs != h.ctx.w.lit(""))
        keci = h.ilist("keci", m, sort="real")
        rec = h.rec(LC, name="m", correlation_fingerprints=fp, local_environment_hash=h.opt(hs, "no_model_hash"))
        return {"self": rec, "keci": keci, "orbit_fingerprints": h.opt(gv, "no_fp"), "local_environment_hash": h.opt(gh, "no_hash"), "_x": (n, m, q, fp, gv, hs, gh)}

    def bad(self, h, a):
        n, m, q, fp, gv, hs, gh = a["_x"]
        nf, nh = a["orbit_fingerprints"].is_none, a["local_environment_hash"].is_none
        mh = a["self"].fields["local_environment_hash"].is_none
        return Or(And(n > 0, m != n), And(Not(nf), Not(h.eq(fp, gv))), And(Not(mh), Not(nh), hs != gh))

    def raises(self, h, a, o):
        return [("ValueError", self.bad(h, a))]

    def ensures(self, h, a, o, r):
        yield "coefficients returned in order", h.eq(r, a["keci"])


class _SetParameters(Contract):
    qual = LC + ".set_parameters"
    props = ("C09", "C13")
    as_dict = True

    def inputs(self, h):
        n, m = h.nat("n_features"), h.nat("n_keci")
        fp, gv = h.ilist("fingerprint", n, sort="str"), h.ilist("given", n, sort="str")
        hs, gh = h.str("env_hash"), h.str("given_hash")
        h.assume(hs != h.ctx.w.lit(""))
        keci, e0 = h.ilist("keci", m, sort="real"), h.real("empty_cluster")
        rec = h.rec(LC, name="m", correlation_fingerprints=fp, local_environment_hash=hs)
        d = {"keci": keci, "empty_cluster": e0, "orbit_fingerprints": gv, "local_environment_hash": gh, "local_site_order": None}
        par = DictV(d) if self.as_dict else h.rec("kmcpy.models.parameters:LCEModelParameters", **d)
        return {"self": rec, "parameters": par, "_x": (n, m, fp, gv, hs, gh, keci, e0)}

    def raises(self, h, a, o):
        n, m, fp, gv, hs, gh, keci, e0 = a["_x"]
        return [("ValueError", Or(And(n > 0, m != n), Not(h.eq(fp, gv)), hs != gh))]

    def ensures(self, h, a, o, r):
        n, m, fp, gv, hs, gh, keci, e0 = a["_x"]
        f = a["self"].fields
        yield "coefficients stored unchanged", And(h.eq(f["keci"], keci), h.eq(f["empty_cluster"], e0))
        yield "provenance stored", And(h.eq(f["parameter_orbit_fingerprints"], gv), h.eq(f["parameter_local_environment_hash"], gh))


@contract
class SetParametersDict(_SetParameters):
    name = _SetParameters.qual + " [dict]"


@contract
class SetParametersObj(_SetParameters):
    name = _SetParameters.qual + " [object]"
    as_dict = False


@contract
class SiteBasisTable(Contract):
    """per-site lookup: entry (site, state, function) is the site basis' own value, zero outside"""
    qual = LC + "._build_site_basis_values"
    props = ("C09",)

    def inputs(self, h):
        n = h.pos("n_local")
        cnt = h.ilist("state_count", n)
        nb = h.fn("n_basis", "int", "int")
        phi = h.fn("phi", "int", "int", "int", "real")
        h.assume(h.forall(0, n, lambda i: And(h.at(cnt, i) >= 1, nb(h.at(cnt, i)) >= 1)))

        def values(it, self, q, **k):
            q = to_int(it.resolve(q))
            return NdV((q, nb(q)), lambda s, b: phi(q, to_int(s), to_int(b)))
        basis = h.stub("basis", {"num_site_basis_functions": lambda it, self, q, **k: nb(to_int(it.resolve(q))), "site_basis_values": values})
        return {"self": h.rec(LC, name="m", basis=basis), "site_state_counts": cnt, "_x": (n, cnt, nb, phi)}

    def ensures(self, h, a, o, r):
        n, cnt, nb, phi = a["_x"]
        i, s, b = h.int("site"), h.int("state"), h.int("function")
        q = h.at(cnt, i)
        h.assume(And(0 <= i, i < n, 0 <= s, s < q, 0 <= b, b < nb(q)))
        yield "table wide enough", And(h.eq(r.shape[0], n), s < to_int(r.shape[1]), b < to_int(r.shape[2]))
        yield "entry is the site's own basis value", h.eq(r.fn(i, s, b), phi(q, s, b))

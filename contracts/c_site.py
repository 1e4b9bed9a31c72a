"""External site-energy model: mapping, changes, difference, commit."""
from pyvc.contract import *
from contracts.c_state import EV, ST, mk_state

SM = "kmcpy.models.site_energy"
SE = SM + ":SiteEnergyModel"


# ------------------------------------------------------------ lookups
@contract
class SiteLookup(Contract):
    qual = SM + ":_build_site_lookup"
    props = ("C11",)

    def inputs(self, h):
        self.n = h.nat("n_sites")
        self.has, self.to = h.fn("mapped", "int", "bool"), h.fn("external", "int", "int")
        m = MapV(lambda s: self.has(to_int(s)), lambda s: self.to(to_int(s)), z3.IntSort())
        self.size = h.nat("external_size")
        return {"n_sites": self.n, "site_mapping": m, "external_size": h.opt(self.size, "no_size"), "initial_occupation": None}

    def old(self, h, a):
        z = a["external_size"]
        return zbool(z.is_none) if isinstance(z, OptV) else (z is None)

    def raises(self, h, a, o):
        to, n = self.to, self.n
        inc = h.exists(0, n, lambda s: Not(self.has(to_int(s))), "s")
        neg = h.exists(0, n, lambda s: to(to_int(s)) < 0, "s")
        out = And(Not(o), h.exists(0, n, lambda s: to(to_int(s)) >= self.size, "s"))
        dup = h.exists(0, n, lambda s: h.exists(0, n, lambda t: And(s < t, to(to_int(s)) == to(to_int(t))), "t"), "s")
        return [("ValueError", Or(inc, neg, out, dup))]

    def ensures(self, h, a, o, r):
        s = h.int("site")
        h.assume(And(0 <= s, s < self.n))
        yield "one entry per site", h.eq(h.len(r), self.n)
        yield "the mapped external site", h.eq(h.at(r, s), self.to(s))


@contract
class SiteLookupInit(SiteLookup):
    name = SiteLookup.qual + " [initial occupation]"

    def inputs(self, h):
        a = super().inputs(h)
        a["initial_occupation"] = h.nd("initial", (self.size,))
        a["external_size"] = None
        return a

    def old(self, h, a):
        return z3.BoolVal(False)


@contract
class SiteLookupIdentity(Contract):
    qual = SM + ":_build_site_lookup"
    name = qual + " [no mapping]"
    props = ("C11",)

    def inputs(self, h):
        self.n, self.size = h.nat("n_sites"), h.nat("external_size")
        return {"n_sites": self.n, "site_mapping": None, "external_size": self.size, "initial_occupation": None}

    def raises(self, h, a, o):
        return [("ValueError", And(self.n > 0, self.n - 1 >= self.size))]

    def ensures(self, h, a, o, r):
        s = h.int("site")
        h.assume(And(0 <= s, s < self.n))
        yield "sites map to themselves", And(h.eq(h.len(r), self.n), h.eq(h.at(r, s), s))


@contract
class LookupValue(Contract):
    qual = SM + ":_state_lookup_value"
    props = ("C11",)

    def inputs(self, h):
        self.n = h.nat("n_values")
        return {"lookup": h.rec(SM + ":_StateLookup", values=h.nd("value", (self.n,)), offset=h.int("offset")), "kmcpy_site": h.int("site"), "state_value": h.int("state")}

    def raises(self, h, a, o):
        i = a["state_value"] - a["lookup"].fields["offset"]
        return [("ValueError", Or(i < 0, i >= self.n))]

    def ensures(self, h, a, o, r):
        l = a["lookup"].fields
        yield "the value stored for that state", h.eq(r, l["values"].fn(a["state_value"] - l["offset"]))


class _ExtVal(Contract):
    qual = SM + ":_external_state_value_from_lookup"
    props = ("C11",)
    by_site = True

    def __init__(self):
        self.stubs = {SM + ":_state_lookup_value": lambda it, f, args, kw: self.read(None, args, kw)}

    def inputs(self, h):
        n = h.nat("n_sites")
        v = h.fn("value_of", "int", "int", "real")
        g = h.fn("global_value", "int", "real")
        self.n, self.v, self.g = n, v, g
        # lookups carry which table they are; reading one is the proved contract of _state_lookup_value
        self.by = SeqV("tuple", n=n, fn=lambda s: s)
        self.glob = Opaque("global lookup")
        return {"kmcpy_site": h.int("site"), "state_value": h.int("state"), "state_lookup": self.glob, "state_lookup_by_site": self.by if self.by_site else None}

    def read(self, h, args, kw):
        lk = args[0] if args else kw["lookup"]
        if lk is self.glob:
            return self.g(to_int(kw["state_value"]))
        return self.v(to_int(lk), to_int(kw["state_value"]))

    def raises(self, h, a, o):
        if not self.by_site:
            return []
        s = a["kmcpy_site"]
        return [("ValueError", Or(s >= self.n, s < -self.n))]

    def ensures(self, h, a, o, r):
        s, x = a["kmcpy_site"], a["state_value"]
        if self.by_site:
            yield "the site's own table is used", Implies(s >= 0, h.eq(r, self.v(s, x)))
        else:
            yield "the common table is used", h.eq(r, self.g(x))


@contract
class ExtValSite(_ExtVal):
    name = _ExtVal.qual + " [per site]"


@contract
class ExtValGlobal(_ExtVal):
    name = _ExtVal.qual + " [common]"
    by_site = False


@contract
class ExtValNone(Contract):
    qual = SM + ":_external_state_value_from_lookup"
    name = qual + " [no mapping]"
    props = ("C11",)

    def inputs(self, h):
        return {"kmcpy_site": h.int("site"), "state_value": h.int("state"), "state_lookup": None, "state_lookup_by_site": None}

    def ensures(self, h, a, o, r):
        yield "states are passed as they are", h.eq(r, a["state_value"])


# ------------------------------------------------------------ units
class _Units(Contract):
    qual = SM + ":_normalize_energy_units"
    props = ("C11",)

    def inputs(self, h):
        return {"units": self.u}

    def raises(self, h, a, o):
        return [] if self.want else [("ValueError", True)]

    def ensures(self, h, a, o, r):
        yield "normalised unit", r == self.want
        if self.want:
            yield "factor to meV", h.eq(h.call(h.func(SM + ":_unit_factor_to_mev"), r), z3.RealVal(1000 if self.want == "eV" else 1))


for _u, _w in (("eV", "eV"), ("ev", "eV"), (" EV ", "eV"), ("meV", "meV"), ("mev", "meV"), ("J", None), ("kJ/mol", None), ("", None)):
    contract(type("Units_%d%s" % (len(_u), _u.strip()), (_Units,), {"name": f"{_Units.qual} [{_u!r}]", "u": _u, "want": _w}))


@contract
class Delta(Contract):
    qual = SM + ":_numeric_delta_to_mev"
    props = ("C11", "C05")

    def inputs(self, h):
        return {"value": h.real("value"), "unit_factor_to_mev": h.real("factor")}

    def ensures(self, h, a, o, r):
        yield "value times the unit factor", h.eq(r, a["value"] * a["unit_factor_to_mev"])


# ------------------------------------------------------------ the model
def model(h, n):
    """an initialised model: arbitrary injective site lookup, arbitrary value per (site, state)"""
    look, val = h.nd("lookup", (n,), "int"), h.fn("value", "int", "int", "real")
    size = h.nat("external_size")
    h.assume(h.forall(0, n, lambda s: And(0 <= look.fn(s), look.fn(s) < size)))
    i, j = z3.FreshInt("i"), z3.FreshInt("j")
    h.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, look.fn(i) == look.fn(j)), i == j), patterns=[z3.MultiPattern(look.fn(i), look.fn(j))]))
    ext = h.nd("external", (size,))
    m = h.rec(SE, external_occupation=ext, _site_lookup=look, units="eV", compute_kwargs=DictV({}), apply_kwargs=DictV({}), runtime=None, runtime_ref=None,
              compute_fn=None, compute_ref=None, apply_fn=None, apply_ref=None, _compute_callable=None, _apply_callable=None, _state_lookup=None, _state_lookup_by_site=None)
    m.stubs = {"_external_value": lambda it, s, *args, **kw: val(*[to_int(x) for x in (list(args) + list(kw.values()))[:2]])}
    return m, look, val, ext, size


def hop_event(h, n):
    f, t = h.int("from"), h.int("to")
    h.assume(And(0 <= f, f < n, 0 <= t, t < n, f != t))
    return h.rec(EV, mobile_ion_indices=(f, t), local_env_indices=h.ilist("env", kind="tuple")), f, t


class _Commit(Contract):
    """the mirror equals the mapped state before the hop => it does after it"""
    qual = SE + ".apply_event"
    props = ("C11",)
    with_fn = False

    def inputs(self, h):
        n = h.pos("n_sites")
        m, look, val, ext, size = model(h, n)
        self.n, self.look, self.val, self.size = n, look, val, size
        pre = h.fn("pre", "int", "int")
        ev, f, t = hop_event(h, n)
        post = lambda s: z3.If(to_int(s) == f, pre(t), z3.If(to_int(s) == t, pre(f), pre(to_int(s))))
        self.post = post
        st = h.rec(ST, occupations=SeqV("list", n=n, fn=post))
        s = z3.FreshInt("s")
        h.assume(z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < n), ext.fn(look.fn(s)) == val(s, pre(s))), patterns=[look.fn(s)]))
        self.calls = []
        if self.with_fn:
            def fn(it, *args, **kw):
                e = kw["external_occupation"]
                self.calls.append((kw, e.fn))
                return None
            m.fields["apply_fn"] = h.stub("apply_fn", {"__call__": lambda it, s, *a, **k: fn(it, *a, **k)})
        self.pre, self.f, self.t = pre, f, t
        return {"self": m, "event": ev, "simulation_state": st}

    def old(self, h, a):
        return a["self"].fields["external_occupation"].fn

    def ensures(self, h, a, o, r):
        e = a["self"].fields["external_occupation"]
        s, x = h.int("site"), h.int("external_site")
        h.assume(And(0 <= s, s < self.n))
        yield "mirror equals the mapped state", e.fn(self.look.fn(s)) == self.val(s, self.post(s))
        h.assume(And(x != self.look.fn(self.f), x != self.look.fn(self.t), 0 <= x, x < self.size))
        yield "every other external site untouched", e.fn(x) == o(x)
        for kw, before in self.calls:
            y = h.int("y")
            yield "backend told before the mirror moves", before(y) == o(y)


@contract
class Commit(_Commit):
    pass


@contract
class CommitFn(_Commit):
    name = _Commit.qual + " [with apply function]"
    with_fn = True

    def ensures(self, h, a, o, r):
        yield from super().ensures(h, a, o, r)
        f, t, pre, val = self.f, self.t, self.pre, self.val
        cf, ct = Not(val(f, pre(f)) == val(f, pre(t))), Not(val(t, pre(t)) == val(t, pre(f)))
        yield "told exactly when something changed", Or(cf, ct) == (len(self.calls) == 1)
        for kw, _ in self.calls:
            yield from change_list(h, kw["changes"], self.look, val, f, t, pre(f), pre(t))
            yield "about this event and state", And(kw.get("event") is a["event"], kw.get("simulation_state") is a["simulation_state"], kw.get("external_occupation") is a["self"].fields["external_occupation"])


def change_list(h, ch, look, val, f, t, of, ot):
    """the changes are those of the two endpoints whose mapped value differs, in order"""
    cf, ct = Not(val(f, of) == val(f, ot)), Not(val(t, ot) == val(t, of))
    ch = h.it.as_seq(ch)
    n = ch.length()
    yield "as many changes as endpoints that change", h.eq(n, z3.If(cf, 1, 0) + z3.If(ct, 1, 0))
    if not isinstance(n, int):
        return

    def is_(c, site, old, new):
        g = lambda k: h.it.getattr(c, k)
        return And(h.eq(g("kmcpy_site"), site), h.eq(g("external_site"), look.fn(site)), h.eq(g("old_state"), old), h.eq(g("new_state"), new),
                   h.eq(g("old_value"), val(site, old)), h.eq(g("new_value"), val(site, new)))
    items = [h.it.resolve(h.it.seq_select(ch, i)) for i in range(n)]
    if n == 2:
        yield "both endpoints, old and new values", And(is_(items[0], f, of, ot), is_(items[1], t, ot, of))
    elif n == 1:
        yield "the endpoint that changes, old and new value", Or(And(cf, is_(items[0], f, of, ot)), And(ct, is_(items[0], t, ot, of)))


class _Diff(Contract):
    qual = SE + ".compute"
    props = ("C11", "C05")
    unit = "eV"

    def __init__(self):
        self.stubs = {SM + ":_call_with_supported_keywords": lambda it, f, args, kw: self._call(args, kw)}

    def _call(self, args, kw):
        self.calls.append((list(args), kw))
        return self.dE

    def inputs(self, h):
        self.calls = []
        self.dE = h.real("backend_difference")
        n = h.pos("n_sites")
        m, look, val, ext, size = model(h, n)
        m.fields["units"] = self.unit
        fn = h.stub("compute_fn")
        m.fields["compute_fn"] = fn
        self.fn = fn
        m.fields["compute_kwargs"] = DictV({"scale": h.int("scale")})
        ev, f, t = hop_event(h, n)
        st = mk_state(h, n)
        self.look, self.val, self.f, self.t = look, val, f, t
        return {"self": m, "event": ev, "simulation_state": st}

    def old(self, h, a):
        return a["self"].fields["external_occupation"].fn, a["simulation_state"].fields["occupations"].fn

    def ensures(self, h, a, o, r):
        ext0, occ = o
        f, t, val = self.f, self.t, self.val
        of, ot = to_int(occ(f)), to_int(occ(t))
        cf, ct = Not(val(f, of) == val(f, ot)), Not(val(t, ot) == val(t, of))
        fac = 1000 if self.unit == "eV" else 1
        yield "backend's after-minus-before energy in meV, zero when nothing changes", h.eq(r, z3.If(Or(cf, ct), self.dE * fac, z3.RealVal(0)))
        yield "backend asked exactly when something changes", Or(cf, ct) == (len(self.calls) == 1)
        for args, kw in self.calls:
            yield "the configured function", args[0] is self.fn
            d = args[1] if len(args) > 1 else kw["kwargs"]
            yield from change_list(h, d.d["changes"], self.look, val, f, t, of, ot)
            yield "this event and state", And(d.d["event"] is a["event"], d.d["simulation_state"] is a["simulation_state"])
            yield "the mirror", d.d["external_occupation"] is a["self"].fields["external_occupation"]
            yield "the user's own arguments", h.eq(d.d["scale"], a["self"].fields["compute_kwargs"].d["scale"])
        x, s = h.int("external_site"), h.int("site")
        yield "mirror unchanged", a["self"].fields["external_occupation"].fn(x) == ext0(x)
        yield "state unchanged", h.eq(a["simulation_state"].fields["occupations"].fn(s), occ(s))


@contract
class DiffEv(_Diff):
    name = _Diff.qual + " [eV]"


@contract
class DiffMev(_Diff):
    name = _Diff.qual + " [meV]"
    unit = "meV"


class _BuildExt(Contract):
    qual = SE + "._build_external_occupation"
    props = ("C11",)
    init = False

    def __init__(self):
        self.stubs = {SM + ":_resolve_external_dtype": lambda it, f, args, kw: h_float(it)}

    def inputs(self, h):
        n = h.pos("n_sites")
        m, look, val, ext, size = model(h, n)
        fill = h.real("fill")
        m.fields.update(external_occupation=None, external_fill_value=fill, external_dtype=None, external_size=None if self.init else size,
                        initial_occupation=h.nd("initial", (size,)) if self.init else None)
        m.stubs["_lookup_values"] = lambda it, s, *a, **k: SeqV("list", items=[])
        self.n, self.look, self.val, self.size, self.fill = n, look, val, size, fill
        return {"self": m, "occupations": h.ilist("occ", n)}

    def old(self, h, a):
        i = a["self"].fields["initial_occupation"]
        return i.fn if i is not None else (lambda x: self.fill)

    def ensures(self, h, a, o, r):
        s, x = h.int("site"), h.int("external_site")
        h.assume(And(0 <= s, s < self.n, 0 <= x, x < self.size))
        yield "size of the external occupation", h.eq(h.len(r), self.size)
        yield "each site's mapped value at its external site", r.fn(self.look.fn(s)) == self.val(s, to_int(a["occupations"].fn(s)))
        h.assume(h.forall(0, self.n, lambda k: self.look.fn(k) != x, "k"))
        yield "all other external sites as given", r.fn(x) == o(x)


def h_float(it):
    return it.builtins["float"]


@contract
class BuildExt(_BuildExt):
    name = _BuildExt.qual + " [fill value]"


@contract
class BuildExtInit(_BuildExt):
    name = _BuildExt.qual + " [initial occupation]"
    init = True

"""Models of Python built-ins, numpy, math, and container methods.

Each model is an *assumed contract* on a dependency; `world.models_used` records
which ones an obligation relied on, and they are listed in the evidence and
cross-checked against CPython/numpy by tools/crosscheck.py."""
from __future__ import annotations
import itertools
import math
import z3
from .values import *
from . import core, ops
from .core import EXP, LOG, SQRT, RINT
from .ops import And, Or, Not, eq_val, ite_val, zbool, subst_val

STR_OF = z3.Function("str_of_int", z3.IntSort(), StrSort)
STR_LOWER = z3.Function("str_lower", StrSort, StrSort)
STR_STRIP = z3.Function("str_strip", StrSort, StrSort)
FLOOR_PI = real_of_float(math.pi)


def used(it, name):
    it.w.models_used.add(name)


# ---------------------------------------------------------------- scalars
def trunc(it, r):
    """int(real): truncation toward zero"""
    if z3.is_rational_value(r):
        return int(r.as_fraction())
    if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_TO_REAL:
        return r.arg(0)
    return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))


def b_int(it, a, kw):
    if not a:
        return 0
    v = it.resolve(a[0])
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        it.raise_("ValueError" if math.isnan(v) else "OverflowError")
    if is_bool(v):
        return to_int(v)
    if is_int(v):
        return v
    if is_real(v):
        return trunc(it, v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            it.raise_("ValueError")
    if is_z3(v) and v.sort() == StrSort:
        if z3.is_app(v) and v.decl().name() == "str_of_int":
            return v.arg(0)
        raise Unsupported("int(str)")
    if isinstance(v, NdV):
        if v.ndim == 0:
            return b_int(it, [v.fn()], {})
        if all(isinstance(s, int) and s == 1 for s in v.shape):
            return b_int(it, [v.fn(*[0] * v.ndim)], {})
        it.raise_("TypeError")
    if v is None or isinstance(v, (SeqV, tuple, DictV, SetV, RecV)):
        it.raise_("TypeError")
    raise Unsupported(f"int({type(v).__name__})")


def b_float(it, a, kw):
    if not a:
        return z3.RealVal(0)
    v = it.resolve(a[0])
    if isinstance(v, float):
        return v
    if is_num(v) or is_bool(v):
        return to_real(v)
    if isinstance(v, str):
        try:
            f = float(v)
        except ValueError:
            it.raise_("ValueError")
        return f if math.isnan(f) or math.isinf(f) else real_of_float(f)
    if isinstance(v, NdV):
        if v.ndim == 0:
            return b_float(it, [v.fn()], {})
        if all(isinstance(s, int) and s == 1 for s in v.shape):
            return b_float(it, [v.fn(*[0] * v.ndim)], {})
        it.raise_("TypeError")
    if v is None or isinstance(v, (SeqV, tuple, DictV, SetV, RecV)):
        it.raise_("TypeError")
    raise Unsupported(f"float({type(v).__name__})")


def b_bool(it, a, kw):
    return it.truth(a[0]) if a else False


def b_str(it, a, kw):
    if not a:
        return ""
    v = it.resolve(a[0])
    if is_str(v):
        return v
    if isinstance(v, (int, bool)) or v is None:
        return str(v)
    if is_int(v):
        return STR_OF(v)
    if isinstance(v, (RecV, ElemRec)):
        if isinstance(v, RecV) and (v.stubs or {}).get("__str__") is not None:
            return v.stubs["__str__"](it, v)
    return Opaque("str()")


def b_len(it, a, kw):
    v = it.resolve(a[0])
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, SeqV):
        n = v.length()
        if isinstance(n, Poison):
            raise Unsupported("len of list under construction")
        return n
    if isinstance(v, NdV):
        if v.ndim == 0:
            it.raise_("TypeError")
        return v.shape[0]
    if isinstance(v, DictV):
        if v.present:
            raise Unsupported("len of dict with conditional keys")
        return len(v.d)
    if isinstance(v, SetV):
        if v.items is not None:
            return it.as_seq(v).length()
        return set_card(it, v)
    if isinstance(v, (RecV, ElemRec)):
        if isinstance(v, RecV) and "__len__" in v.stubs:
            return v.stubs["__len__"](it, v)
        if isinstance(v.cls, ClassV):
            _, f = v.cls.lookup("__len__")
            if f is not None:
                return it.call(BoundV(f, v), [], {})
    if v is None or isinstance(v, (int, float)) or is_num(v):
        it.raise_("TypeError")
    raise Unsupported(f"len({type(v).__name__})")


def set_card(it, s):
    """|set(seq)|: only its relation to distinctness is modelled."""
    if s.card is not None:
        return s.card
    src = getattr(s, "src", None)
    if src is None:
        raise Unsupported("cardinality of symbolic set")
    ctx = it.ctx
    used(it, "len(set(seq)): 0<=card<=len(seq); card==len(seq) iff elements pairwise distinct")
    n = to_int(src.length())
    c = ctx.fresh("card", z3.IntSort())
    ctx.assume(z3.And(c >= 0, c <= n, z3.Implies(n > 0, c > 0)))
    i = z3.Const(ctx.name("ci"), z3.IntSort())
    j = z3.Const(ctx.name("cj"), z3.IntSort())
    a, b = it.seq_select(src, i), it.seq_select(src, j)
    e = eq_val(ctx, a, b)
    ctx.assume((c == n) == z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(zbool(e)))))
    s.card = c
    return c


def b_range(it, a, kw):
    a = [it.resolve(x) for x in a]
    a = [b_int(it, [x], {}) if not is_int(x) else x for x in a]
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if all(isinstance(x, int) for x in (lo, hi, st)):
        r = SeqV("range", items=list(range(lo, hi, st)))
        return r
    if not isinstance(st, int) or st != 1:
        raise Unsupported("range step")
    n = ops.num_sub(hi, lo)
    n = z3.simplify(n) if is_z3(n) else n
    if not it.ctx.entails(n >= 0):
        n = z3.simplify(z3.If(n < 0, z3.IntVal(0), n))
    if isinstance(lo, int) and lo == 0:
        return SeqV("range", n=n, fn=lambda i: i)
    return SeqV("range", n=n, fn=lambda i: z3.simplify(to_int(lo) + to_int(i)))


def seq_of(it, v):
    """Immutable snapshot of an iterable."""
    s = it.as_seq(v)
    if s.items is not None:
        return SeqV("list", items=list(s.items))
    return s


def map_seq(it, s, f, kind="list"):
    if s.items is not None:
        return SeqV(kind, items=[f(x) for x in s.items])
    fn0 = s.fn
    r = SeqV(kind, n=s.n, fn=lambda i: f(fn0(i)))
    if s.filt is not None:
        bn, c, v = s.filt
        r.filt = (bn, c, lambda k: f(v(k)))
    return r


def b_enumerate(it, a, kw):
    s = it.as_seq(a[0])
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    if s.items is not None:
        return SeqV("list", items=[(ops.num_add(start, i), x) for i, x in enumerate(s.items)])
    fn = s.fn
    return SeqV("list", n=s.n, fn=lambda i: (i if isinstance(start, int) and start == 0 else ops.num_add(start, i), fn(i)))


def b_zip(it, a, kw):
    ss = [it.as_seq(x) for x in a]
    if kw.get("strict") is True and len(ss) > 1:
        l0 = ss[0].length()
        for s in ss[1:]:
            if not it.ctx.branch(zbool(eq_val(it.ctx, l0, s.length()))):
                it.raise_("ValueError")
    if not ss:
        return SeqV("list", items=[])
    ls = [s.length() for s in ss]
    if all(isinstance(l, int) for l in ls):
        m = min(ls)
        return SeqV("list", items=[tuple(it.seq_select(s, i) for s in ss) for i in range(m)])
    n = ls[0]
    for l in ls[1:]:
        if it.same_dim(n, l):
            continue
        if it.ctx.branch(to_int(n) <= to_int(l)):
            continue
        n = l
    if isinstance(n, int):
        return SeqV("list", items=[tuple(it.seq_select(s, i) for s in ss) for i in range(n)])
    ss = [SeqV("list", items=list(s.items)) if s.items is not None else SeqV("list", n=s.n, fn=s.fn) for s in ss]
    return SeqV("list", n=n, fn=lambda i: tuple(it.seq_select(s, i) for s in ss))


def zip_star(it, s):
    """zip(*seq) with a symbolic number of rows: transposition"""
    probe = s.fn(z3.FreshInt("probe"))
    row = it.as_seq(probe)
    m = row.length()
    if not isinstance(m, int):
        raise Unsupported("zip(*rows) with symbolic width")
    fn = s.fn
    return SeqV("list", items=[SeqV("tuple", n=s.n, fn=lambda i, q=q: it.seq_select(it.as_seq(fn(i)), q)) for q in range(m)])


def b_list(it, a, kw):
    if not a:
        return SeqV("list", items=[])
    return it.seq_copy(a[0], "list")


def b_tuple(it, a, kw):
    if not a:
        return ()
    s = it.seq_copy(a[0], "tuple")
    return tuple(s.items) if s.items is not None else s


def b_dict(it, a, kw):
    d = DictV()
    if a:
        src = it.resolve(a[0])
        if isinstance(src, DictV):
            d.d.update(src.d)
            d.present.update(src.present)
        elif isinstance(src, MapV):
            return MapV(src.has, src.get, src.keysort)
        else:
            d = dict_of_pairs(it, it.as_seq(src))
    for k, v in kw.items():
        it.dict_set(d, k, v)
    return d


def dict_of_pairs(it, s):
    if s.items is not None:
        d = DictV()
        for p in s.items:
            ps = it.as_seq(p)
            it.dict_set(d, ps.get(0), ps.get(1))
        return d
    # symbolic: last pair with that key wins
    from . import loops
    d = DictV()
    env = core.Env(None)

    def step(x):
        ps = it.as_seq(x)
        env.vars["%k"], env.vars["%v"] = ps.get(0), ps.get(1)

    loops.run_symbolic(it, s, step, lambda: it.setitem(d, env.vars["%k"], env.vars["%v"]), env)
    return d


def set_of_seq(it, s):
    s = it.as_seq(s)
    if s.items is not None:
        return SetV(items=list(s.items))
    if s.filt is not None:
        bn, cond, val = s.filt
        r = SetV(mem=lambda y: it.ctx.exists(0, bn, lambda k: And(cond(k), eq_val(it.ctx, val(k), y))))
        r.enum = (bn, cond, val)
    else:
        fn, n = s.fn, s.n
        r = SetV(mem=lambda y: it.ctx.exists(0, n, lambda k: eq_val(it.ctx, fn(k), y)))
        r.enum = (n, lambda k: True, fn)
    r.src = SeqV("list", n=s.n, fn=s.fn)
    return r


def b_set(it, a, kw):
    if not a:
        return SetV(items=[])
    v = it.resolve(a[0])
    if isinstance(v, SetV):
        r = SetV(items=list(v.items) if v.items is not None else None, mem=v.mem, card=v.card)
        r.src = getattr(v, "src", None)
        return r
    return set_of_seq(it, v)


def set_op(it, o, a, b):
    ctx = it.ctx
    if a.items is not None and not any(mem_symbolic(ctx, b, x) for x in a.items) and b.items is not None:
        keep = lambda x, s: ops.set_mem(ctx, s, x) is True
        if o == "BitAnd":
            return SetV(items=[x for x in a.items if keep(x, b)])
        if o == "Sub":
            return SetV(items=[x for x in a.items if not keep(x, b)])
        if o == "BitOr":
            return SetV(items=list(a.items) + [x for x in b.items if not keep(x, a)])
        if o == "BitXor":
            return SetV(items=[x for x in a.items if not keep(x, b)] + [x for x in b.items if not keep(x, a)])
    ma, mb = lambda y: zbool(ops.set_mem(ctx, a, y)), lambda y: zbool(ops.set_mem(ctx, b, y))
    def narrowed(r, x, other):
        """the set keeps an enumeration of x restricted by `other`, so that emptiness is decidable"""
        if x.items is not None:
            xs = SeqV("list", items=list(x.items))
            r.enum = (len(x.items), lambda k: other(it.seq_select(xs, k)), lambda k: it.seq_select(xs, k))
        elif getattr(x, "enum", None) is not None:
            n, c, v = x.enum
            r.enum = (n, lambda k: And(c(k), other(v(k))), v)
        return r
    if o == "BitAnd":
        r = SetV(mem=lambda y: z3.And(ma(y), mb(y)))
        return narrowed(r, a, mb) if a.items is not None or getattr(a, "enum", None) is not None else narrowed(r, b, ma)
    if o == "Sub":
        return narrowed(SetV(mem=lambda y: z3.And(ma(y), z3.Not(mb(y)))), a, lambda y: Not(mb(y)))
    if o == "BitOr":
        if a.items is not None and b.items is not None:
            return SetV(items=list(a.items) + list(b.items))
        return SetV(mem=lambda y: z3.Or(ma(y), mb(y)))
    raise Unsupported(f"set {o}")


def mem_symbolic(ctx, s, x):
    r = ops.set_mem(ctx, s, x)
    return not isinstance(r, bool)


# ---------------------------------------------------------------- reductions
def fold_add(it, n, f):
    """sum_{0<=k<n} f(k)"""
    from . import loops
    if isinstance(n, int):
        r = 0
        for k in range(n):
            r = ops.num_add(r, it.resolve(f(k)))
        return r
    ctx = it.ctx
    k, sps = ctx.lam(0, n, f)
    v = ctx.merged(sps)
    v = it.resolve(v)
    if isinstance(v, bool) or is_bool(v):
        v = to_int(v)
    v = to_int(v) if is_int(v) else to_real(v)
    return loops.fold_sum(it, n, k, v)


def b_sum(it, a, kw):
    s = it.as_seq(a[0])
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    if s.filt is not None:
        bn, cond, val = s.filt
        probe = it.resolve(val(z3.FreshInt("probe")))
        zero = 0 if is_int(probe) or is_bool(probe) else z3.RealVal(0)
        r = fold_add(it, bn, lambda k: ite_val(it.ctx, zbool(cond(k)), val(k), zero))
    else:
        probe = None
        if s.items is not None and s.items and isinstance(it.resolve(s.items[0]), NdV):
            r = s.items[0]
            for x in s.items[1:]:
                r = it.binop(core_add, r, x)
            return it.binop(core_add, r, start) if not (isinstance(start, int) and start == 0) else r
        r = fold_add(it, s.length(), lambda k: it.seq_select(s, k))
    return ops.num_add(start, r)


import ast as _ast
core_add = _ast.Add()


def b_any(it, a, kw):
    s = it.as_seq(a[0])
    if s.items is not None:
        for x in s.items:
            if it.test(x):
                return True
        return False
    if s.filt is not None:
        bn, cond, val = s.filt
        return it.ctx.exists(0, bn, lambda k: And(cond(k), it.truth(val(k))))
    return it.ctx.exists(0, s.n, lambda k: it.truth(s.fn(k)))


def b_all(it, a, kw):
    s = it.as_seq(a[0])
    if s.items is not None:
        for x in s.items:
            if not it.test(x):
                return False
        return True
    if s.filt is not None:
        bn, cond, val = s.filt
        return it.ctx.forall(0, bn, lambda k: Or(Not(cond(k)), it.truth(val(k))))
    return it.ctx.forall(0, s.n, lambda k: it.truth(s.fn(k)))


def minmax(it, a, kw, mx):
    if "key" in kw:
        raise Unsupported("min/max key")
    if len(a) > 1:
        items = [it.resolve(x) for x in a]
    else:
        s = it.as_seq(a[0])
        if s.items is None:
            ctx = it.ctx
            if not ctx.branch(to_int(s.n) > 0):
                if "default" in kw:
                    return kw["default"]
                it.raise_("ValueError")
            p = ctx.fresh("argopt", z3.IntSort())
            fn, n = s.fn, s.n
            v = it.resolve(fn(p))
            ctx.assume(z3.And(0 <= p, p < n))
            q = z3.Const(ctx.name("q"), z3.IntSort())
            w = fn(q)
            ctx.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), (w <= v) if mx else (w >= v))))
            return v
        items = [it.resolve(x) for x in s.items]
        if not items:
            if "default" in kw:
                return kw["default"]
            it.raise_("ValueError")
    r = items[0]
    for x in items[1:]:
        if isinstance(r, int) and isinstance(x, int):
            r = max(r, x) if mx else min(r, x)
            continue
        if not ((is_num(r) or is_bool(r)) and (is_num(x) or is_bool(x))):
            raise Unsupported("min/max of non-numbers")
        if isinstance(r, float) or isinstance(x, float):
            raise Unsupported("min/max nan/inf")
        c = it.compare(_ast.Gt() if mx else _ast.Lt(), x, r)
        r = ite_val(it.ctx, c, x, r)
    return r


def b_abs(it, a, kw):
    v = it.resolve(a[0])
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, NdV):
        return it.nd_map(lambda x: b_abs(it, [x], {}), v, dtype=v.dtype)
    if z3.is_rational_value(v):
        return z3.RealVal(abs(v.as_fraction()))
    return z3.If(v >= 0, v, -v)


def b_sorted(it, a, kw):
    s = it.as_seq(a[0])
    key = kw.get("key")
    rev = kw.get("reverse", False)
    if s.items is not None:
        items = list(s.items)
        if all(isinstance(x, (int, str)) for x in items) and key is None:
            return SeqV("list", items=sorted(items, reverse=bool(rev)))
        if len(items) <= 1:
            return SeqV("list", items=items)
        if len(items) == 2 and key is None and rev is False:
            x, y = items
            if it.test(it.compare(_ast.Lt(), y, x)):
                return SeqV("list", items=[y, x])
            return SeqV("list", items=[x, y])
        raise Unsupported("sorted of symbolic items")
    if key is not None or rev is not False:
        raise Unsupported("sorted with key")
    return sorted_seq(it, s)


def sorted_seq(it, s, probe=None):
    """fresh sequence: sorted permutation of s"""
    ctx = it.ctx
    used(it, "sort: result is an ascending permutation of the input")
    n, fn = to_int(s.length()), (s.fn if s.items is None else (lambda i: it.seq_select(s, i)))
    e = it.resolve(fn(z3.FreshInt("probe")))
    srt = z3.IntSort() if is_int(e) else z3.RealSort() if is_real(e) else None
    if srt is None:
        raise Unsupported("sort of non-numeric sequence")
    f = ctx.fresh_fn("sorted", z3.IntSort(), srt)
    p = ctx.fresh_fn("perm", z3.IntSort(), z3.IntSort())
    inv = ctx.fresh_fn("perminv", z3.IntSort(), z3.IntSort())
    i, j = z3.Const(ctx.name("si"), z3.IntSort()), z3.Const(ctx.name("sj"), z3.IntSort())
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(i), p(i) < n, inv(p(i)) == i, f(i) == fn(p(i)))), patterns=[f(i)]))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= inv(i), inv(i) < n, p(inv(i)) == i, f(inv(i)) == fn(i))), patterns=[inv(i)]))
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), f(i) <= f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= inv(i), inv(i) < n, p(inv(i)) == i, f(inv(i)) == fn(i)))))
    return SeqV("list", n=n, fn=lambda q: f(to_int(q)))


def type_names(it, t):
    t = it.resolve(t)
    if isinstance(t, (tuple, SeqV)):
        s = it.as_seq(t)
        out = []
        for x in s.items:
            out += type_names(it, x)
        return out
    return [t]


def b_isinstance(it, a, kw):
    v = it.resolve(a[0])
    return any(isinst(it, v, t) for t in type_names(it, a[1]))


BUILTIN_TYPES = {"int", "float", "str", "bool", "list", "tuple", "dict", "set", "frozenset", "object", "type"}


def isinst(it, v, t):
    if isinstance(t, ClassV):
        if isinstance(v, (RecV, ElemRec)) and isinstance(v.cls, ClassV):
            return t in v.cls.mro()
        if isinstance(v, RecV) and isinstance(v.cls, StubClass):
            return t.name == v.cls.name or t.name in v.cls.bases
        if isinstance(v, ExcV) and isinstance(v.cls, ClassV):
            return t in v.cls.mro()
        if isinstance(v, Opaque):
            raise Unsupported("isinstance of opaque")
        return False
    n = t.name.split(".")[-1] if isinstance(t, (BuiltinV, ExtV, StubClass)) else None
    if n is None:
        raise Unsupported("isinstance type")
    if isinstance(v, Opaque):
        raise Unsupported("isinstance of opaque")
    if n == "object":
        return True
    if n == "bool" or n == "bool_":
        return is_bool(v)
    if n in ("int", "Integral"):
        return is_int(v) or is_bool(v)
    if n in ("integer", "int64", "int32"):
        return False
    if n in ("float",):
        return is_real(v) or isinstance(v, float)
    if n in ("floating", "float64"):
        return False
    if n in ("Real", "Number"):
        return is_num(v) or is_bool(v)
    if n == "str":
        return is_str(v)
    if n == "list":
        return isinstance(v, SeqV) and v.kind == "list"
    if n == "tuple":
        return isinstance(v, tuple) or isinstance(v, SeqV) and v.kind == "tuple"
    if n in ("Sequence",):
        return is_str(v) or isinstance(v, tuple) or isinstance(v, SeqV)
    if n in ("Iterable",):
        return is_str(v) or isinstance(v, (tuple, SeqV, DictV, MapV, SetV, NdV))
    if n in ("dict", "Mapping", "MutableMapping"):
        return isinstance(v, (DictV, MapV))
    if n in ("set", "frozenset", "Set"):
        return isinstance(v, SetV)
    if n == "ndarray":
        return isinstance(v, NdV)
    if n in ("bytes", "bytearray"):
        return isinstance(v, RecV) and isinstance(v.cls, StubClass) and v.cls.name == n
    if n in ("generic",):
        return False
    if n in ("NoneType",):
        return v is None
    if n in it_exc():
        return isinstance(v, ExcV) and it.exc_matches(v, t)
    if isinstance(v, RecV) and isinstance(v.cls, StubClass):
        return v.cls.name == n or n in v.cls.bases
    if isinstance(v, RecV) and isinstance(v.cls, ClassV):
        return any(e.split(".")[-1] == n for c in v.cls.mro() for e in c.ext_bases)
    if isinstance(t, ExtV):
        # an external class none of our values inhabits
        return False
    raise Unsupported(f"isinstance {n}")


def it_exc():
    from .interp import EXC_PARENTS
    return EXC_PARENTS


def b_hasattr(it, a, kw):
    o, n = it.resolve(a[0]), a[1]
    try:
        it.getattr(o, n)
        return True
    except PyRaise as e:
        if e.exc.name == "AttributeError":
            return False
        raise


def b_getattr(it, a, kw):
    n = it.resolve(a[1])
    if not isinstance(n, str):
        raise Unsupported("getattr with symbolic name")
    return it.getattr(a[0], n, a[2] if len(a) > 2 else Ellipsis)


def b_setattr(it, a, kw):
    it.setattr(a[0], a[1], a[2])


def b_callable(it, a, kw):
    v = it.resolve(a[0])
    if isinstance(v, (FuncV, BoundV, ClassV, BuiltinV, ExtV)):
        return True
    if isinstance(v, RecV):
        if "__call__" in v.stubs:
            return True
        if isinstance(v.cls, ClassV):
            return v.cls.lookup("__call__")[1] is not None
        return False
    if v is None or is_num(v) or is_str(v) or isinstance(v, (SeqV, tuple, DictV, SetV, NdV)):
        return False
    raise Unsupported("callable")


def b_round(it, a, kw):
    v = it.resolve(a[0])
    nd = a[1] if len(a) > 1 else kw.get("ndigits", kw.get("decimals"))
    if nd is not None and not (isinstance(nd, int) and nd == 0):
        raise Unsupported("round with digits")
    if is_int(v):
        return v
    if isinstance(v, float):
        raise Unsupported("round nan/inf")
    return rint(it, v)


def rint(it, v):
    used(it, "round/np.round/np.rint: nearest integer, ties to even")
    if z3.is_rational_value(v):
        return round(v.as_fraction())
    return RINT(to_real(v))


def b_reversed(it, a, kw):
    s = it.as_seq(a[0])
    if s.items is not None:
        return SeqV("list", items=list(reversed(s.items)))
    fn, n = s.fn, s.n
    return SeqV("list", n=n, fn=lambda i: fn(n - 1 - i))


def b_type(it, a, kw):
    v = it.resolve(a[0])
    if getattr(v, "type_stub", None) is not None:
        return v.type_stub
    if isinstance(v, (RecV, ElemRec)):
        return v.cls
    if isinstance(v, ExcV):
        return v.cls if isinstance(v.cls, ClassV) else BuiltinV(v.cls, None)
    for n in ("bool", "int", "float", "str", "list", "tuple", "dict", "set"):
        if isinst(it, v, BuiltinV(n, None)):
            return it.builtins[n]
    raise Unsupported("type()")


def b_map(it, a, kw):
    if len(a) == 2:
        s = seq_of(it, a[1])
        if s.items is not None:
            return SeqV("list", items=[it.call(a[0], [x], {}) for x in s.items])
        # evaluate as a comprehension
        out = SeqV("list", items=[])
        env = core.Env(None)
        from . import loops
        loops.run_symbolic(it, s, lambda x: env.vars.__setitem__("%x", x), lambda: list_append(it, out, it.call(a[0], [env.vars["%x"]], {})), env)
        return out
    raise Unsupported("map")


def b_next(it, a, kw):
    s = it.as_seq(a[0])
    if s.items is not None:
        if s.items:
            return s.items[0]
        if len(a) > 1:
            return a[1]
        it.raise_("StopIteration")
    if it.ctx.branch(to_int(s.n) > 0):
        return s.fn(z3.IntVal(0))
    if len(a) > 1:
        return a[1]
    it.raise_("StopIteration")


def b_iter(it, a, kw):
    return it.as_seq(a[0])


def b_slice(it, a, kw):
    a = list(a)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


def b_id(it, a, kw):
    raise Unsupported("id()")


def b_opaque(name):
    return lambda it, a, kw: Opaque(name)


def make_builtins(it):
    t = {
        "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "int": b_int, "float": b_float,
        "bool": b_bool, "str": b_str, "list": b_list, "tuple": b_tuple, "dict": b_dict, "set": b_set,
        "frozenset": b_set, "sum": b_sum, "any": b_any, "all": b_all,
        "min": lambda it, a, kw: minmax(it, a, kw, False), "max": lambda it, a, kw: minmax(it, a, kw, True),
        "abs": b_abs, "sorted": b_sorted, "isinstance": b_isinstance, "hasattr": b_hasattr, "getattr": b_getattr,
        "setattr": b_setattr, "callable": b_callable, "round": b_round, "reversed": b_reversed, "type": b_type,
        "map": b_map, "next": b_next, "iter": b_iter, "slice": b_slice, "repr": b_opaque("repr()"), "id": b_id,
        "object": b_opaque("object()"), "bytes": b_opaque("bytes()"), "format": b_opaque("format()"), "open": lambda it, a, kw: unsup("open()"),
        "print": lambda it, a, kw: None, "vars": lambda it, a, kw: it.getattr(a[0], "__dict__"),
        "pow": lambda it, a, kw: it.binop(_ast.Pow(), a[0], a[1]),
        "divmod": lambda it, a, kw: (it.binop(_ast.FloorDiv(), a[0], a[1]), it.binop(_ast.Mod(), a[0], a[1])),
        "filter": lambda it, a, kw: unsup("filter()"),
        "issubclass": lambda it, a, kw: it.resolve(a[1]) in it.resolve(a[0]).mro() if isinstance(it.resolve(a[0]), ClassV) else unsup("issubclass"),
    }
    return {k: BuiltinV(k, f) for k, f in t.items()} | {"NotImplemented": Opaque("NotImplemented"), "Ellipsis": Opaque("..."), "__name__": "__module__"}


def unsup(what):
    raise Unsupported(what)


def no_attr(it, kind, name):
    """A name the model of a value does not know: an AttributeError only if the Python type
    (or a NumPy scalar the number may stand for) has no such attribute."""
    if kind == "object" or name.startswith("__"):
        raise Unsupported(f"attribute {name}")
    py = {"list": (list,), "dict": (dict,), "set": (set, frozenset), "str": (str,), "tuple": (tuple,),
          "float": (int, float)}[kind]
    if any(hasattr(t, name) for t in py) or kind == "float" and name in NUMPY_SCALAR:
        raise Unsupported(f"{kind}.{name}")
    it.raise_("AttributeError", name)


NUMPY_SCALAR = {"astype", "dtype", "shape", "size", "ndim", "sum", "mean", "min", "max", "all", "any",
                "item", "copy", "round", "flatten", "ravel", "reshape", "clip", "conj", "T",
                "nbytes", "itemsize", "view", "dot", "squeeze", "argmax", "argmin", "cumsum", "prod"}


# ---------------------------------------------------------------- list methods
def list_append(it, s, v):
    if s.kind == "tuple":
        it.raise_("AttributeError", "append")
    if s.log is not None:
        s.log.append(("append", v))
        if s.items is None and s.fn is None:
            return
    if s.items is not None:
        s.items = list(s.items) + [v]
        return
    if s.fn is None:
        raise Unsupported("append to a nested list")
    old, n = s.fn, s.n
    s.n = z3.simplify(n + 1)
    s.fn = lambda i: ite_val(it.ctx, it._idx_eq(i, n), v, old(i))
    s.filt = None


def list_extend(it, s, v):
    src = it.as_seq(v)
    if src.items is not None:
        for x in list(src.items):
            list_append(it, s, x)
        return
    if s.log is not None:
        s.log.append(("extend", it.seq_copy(src)))
        s.items, s.fn, s.n, s.filt, s.flat = None, None, Poison("list under construction"), None, None
        return
    if s.fn is None and s.items is None or src.fn is None and src.items is None:
        raise Unsupported("extend of a nested list")
    r = it.seq_concat(it.seq_copy(s), src, "list")
    s.items, s.n, s.fn = r.items, r.n, r.fn
    s.filt = src.filt if isinstance(r.n, type(src.n)) and r.n is src.n else None


def list_method(it, s, name):
    def m(f):
        return BuiltinV(f"list.{name}", lambda it2, a, kw: f(*a, **kw))
    if name == "append":
        return m(lambda v: list_append(it, s, v))
    if name == "extend":
        return m(lambda v: list_extend(it, s, v))
    if name == "copy":
        return m(lambda: it.seq_copy(s))
    if name == "index":
        return m(lambda x: list_index(it, s, x))
    if name == "count":
        return m(lambda x: fold_add(it, s.length(), lambda k: ite_val(it.ctx, zbool(eq_val(it.ctx, it.seq_select(s, k), x)), 1, 0)))
    if name == "clear":
        def clear():
            if s.log is not None:
                raise Unsupported("clear in loop")
            s.items, s.n, s.fn = [], None, None
        return m(clear)
    if name == "pop":
        def pop(i=-1):
            if s.log is not None:
                raise Unsupported("pop in loop")
            j = it.norm_index(i, s.length(), "pop")
            v = it.seq_select(s, j)
            it.delitem(s, SliceV(j, ops.num_add(j, 1), None))
            return v
        return m(pop)
    if name == "insert":
        def insert(i, v):
            if s.items is not None and isinstance(i, int) and s.log is None:
                its = list(s.items)
                its.insert(i, v)
                s.items = its
                return
            raise Unsupported("insert")
        return m(insert)
    if name == "remove":
        def remove(v):
            if s.log is not None:
                raise Unsupported("remove in loop")
            j = list_index(it, s, v)
            it.delitem(s, SliceV(j, ops.num_add(j, 1), None))
        return m(remove)
    if name == "sort":
        def sort(**kw):
            r = b_sorted(it, [s], kw)
            if s.log is not None:
                raise Unsupported("sort in loop")
            s.items, s.n, s.fn = r.items, r.n, r.fn
        return m(sort)
    if name == "reverse":
        def reverse():
            r = b_reversed(it, [it.seq_copy(s)], {})
            if s.log is not None:
                raise Unsupported("reverse in loop")
            s.items, s.n, s.fn = r.items, r.n, r.fn
        return m(reverse)
    if name == "tolist":
        no_attr(it, "list", name)
    no_attr(it, "list", name)


def list_index(it, s, x):
    """first index with equal element, ValueError otherwise"""
    ctx = it.ctx
    if s.items is not None:
        for i, y in enumerate(s.items):
            if it.test(eq_val(ctx, y, x)):
                return i
        it.raise_("ValueError", "not in list")
    n = to_int(s.n)
    p = ctx.fresh("index", z3.IntSort())
    used(it, "list.index: first equal element, ValueError if none")
    q = z3.Const(ctx.name("iq"), z3.IntSort())

    def eq_at(t):
        k = z3.Const(ctx.name("ik"), z3.IntSort())
        sps = ctx.lam_at(k, 0, n, lambda: eq_val(ctx, s.fn(k), x))
        return z3.substitute(zbool(ctx.merged(sps)), (k, t))
    if ctx.choose(2) == 0:
        ctx.assume(z3.And(0 <= p, p < n))
        ctx.assume(eq_at(p))
        ctx.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < p), z3.Not(eq_at(q)))))
        if not ctx.feasible(z3.BoolVal(True)):
            raise PathAbort()
        return p
    ctx.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.Not(eq_at(q)))))
    # a membership witness may make this infeasible
    if ctx._check([], True, 2000) == z3.unsat:
        raise PathAbort()
    it.raise_("ValueError", "not in list")


# ---------------------------------------------------------------- dict / set methods
def dict_method(it, d, name):
    def m(f):
        return BuiltinV(f"dict.{name}", lambda it2, a, kw: f(*a, **kw))

    def noconds():
        if d.present:
            raise Unsupported("iteration over dict with conditional keys")
    if name == "get":
        def get(k, default=None):
            kk = it.dict_find(d, k)
            if kk is None:
                return default
            if kk in d.present:
                return ite_val(it.ctx, d.present[kk], d.d[kk], default)
            v = d.d[kk]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        return m(get)
    if name == "items":
        noconds()
        return m(lambda: SeqV("list", items=[(it.unkey(k), v) for k, v in d.d.items()]))
    if name == "keys":
        noconds()
        return m(lambda: SeqV("list", items=[it.unkey(k) for k in d.d]))
    if name == "values":
        noconds()
        return m(lambda: SeqV("list", items=list(d.d.values())))
    if name == "copy":
        return m(lambda: b_dict(it, [d], {}))
    if name == "update":
        def update(o=None, **kw):
            if o is not None:
                o = it.resolve(o)
                if not isinstance(o, DictV):
                    o = dict_of_pairs(it, it.as_seq(o))
                for k, v in list(o.d.items()):
                    if k in o.present:
                        raise Unsupported("update with conditional keys")
                    it.dict_set(d, it.unkey(k), v)
            for k, v in kw.items():
                it.dict_set(d, k, v)
        return m(update)
    if name == "pop":
        def pop(k, *default):
            kk = it.dict_find(d, k)
            if kk is None or (kk in d.present and not it.ctx.branch(zbool(d.present[kk]))):
                if default:
                    return default[0]
                it.raise_("KeyError")
            v = d.d[kk]
            nd = dict(d.d)
            del nd[kk]
            d.d = nd
            d.present.pop(kk, None)
            return v
        return m(pop)
    if name == "setdefault":
        def setdefault(k, v=None):
            kk = it.dict_find(d, k)
            if kk is not None and (kk not in d.present or it.ctx.branch(zbool(d.present[kk]))):
                return d.d[kk]
            it.dict_set(d, k, v)
            return v
        return m(setdefault)
    if name == "clear":
        def clear():
            d.d = {}
            d.present = {}
        return m(clear)
    no_attr(it, "dict", name)


def map_method(it, d, name):
    def m(f):
        return BuiltinV(f"map.{name}", lambda it2, a, kw: f(*a, **kw))
    if name == "get":
        def get(k, default=None):
            k = it.resolve(k)
            k = ops.strz(it.ctx, k) if is_str(k) else k
            if it.ctx.branch(zbool(d.has(k))):
                return d.get(k)
            return default
        return m(get)
    if name == "copy":
        return m(lambda: MapV(d.has, d.get, d.keysort))
    raise Unsupported(f"method {name} of symbolic map")


def set_method(it, s, name):
    def m(f):
        return BuiltinV(f"set.{name}", lambda it2, a, kw: f(*a, **kw))
    if name == "add":
        def add(v):
            v = it.resolve(v)
            if s.log is not None:
                s.log.append(("add", v))
            if s.items is not None:
                s.items = list(s.items) + [v]
                return
            old = s.mem
            s.mem = lambda y: Or(old(y), eq_val(it.ctx, y, v))
        return m(add)
    if name == "copy":
        return m(lambda: b_set(it, [s], {}))
    if name in ("issubset", "issuperset", "isdisjoint"):
        def f(o):
            o = it.resolve(o)
            o = o if isinstance(o, SetV) else set_of_seq(it, it.as_seq(o))
            a, b = (s, o) if name != "issuperset" else (o, s)
            if a.items is not None:
                if name == "isdisjoint":
                    return And(*[Not(ops.set_mem(it.ctx, b, x)) for x in a.items])
                return And(*[ops.set_mem(it.ctx, b, x) for x in a.items])
            src = getattr(a, "src", None)
            if src is None:
                raise Unsupported("subset of symbolic sets")
            if name == "isdisjoint":
                return it.ctx.forall(0, src.n, lambda k: Not(ops.set_mem(it.ctx, b, src.fn(k))))
            return it.ctx.forall(0, src.n, lambda k: zbool(ops.set_mem(it.ctx, b, src.fn(k))))
        return m(f)
    if name in ("union", "intersection", "difference"):
        o = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub"}[name]

        def f(*os):
            r = s
            for x in os:
                x = it.resolve(x)
                r = set_op(it, o, r, x if isinstance(x, SetV) else set_of_seq(it, it.as_seq(x)))
            return r
        return m(f)
    if name == "update":
        def update(o):
            sq = it.as_seq(o)
            if sq.items is None:
                raise Unsupported("set.update symbolic")
            for x in sq.items:
                it.call(set_method(it, s, "add"), [x], {})
        return m(update)
    if name in ("discard", "remove"):
        raise Unsupported("set removal")
    no_attr(it, "set", name)


def str_method(it, s, name):
    def m(f):
        return BuiltinV(f"str.{name}", lambda it2, a, kw: f(*a, **kw))
    if isinstance(s, str):
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "split", "rsplit", "replace",
                    "isdigit", "title", "capitalize", "partition", "rpartition", "find", "isalpha", "count", "removeprefix", "removesuffix", "splitlines"):
            def f(*a, **kw):
                a = [it.resolve(x) for x in a]
                a = [tuple(x) if isinstance(x, tuple) else x for x in a]
                if not all(isinstance(x, (str, int, tuple)) or x is None for x in a):
                    raise Unsupported(f"str.{name} with symbolic argument")
                r = getattr(s, name)(*a)
                return SeqV("list", items=r) if isinstance(r, list) else r
            return m(f)
        if name == "join":
            def join(seq):
                sq = it.as_seq(seq)
                if sq.items is not None and all(isinstance(x, str) for x in sq.items):
                    return s.join(sq.items)
                return Opaque("join")
            return m(join)
        if name == "format":
            return m(lambda *a, **k: Opaque("format"))
        no_attr(it, "str", name)
    if name in ("lower", "strip"):
        g = STR_LOWER if name == "lower" else STR_STRIP
        return m(lambda: g(s))
    raise Unsupported(f"str.{name} on symbolic string")


# ---------------------------------------------------------------- numpy
def nd_size(v):
    r = 1
    for s in v.shape:
        r = ops.num_mul(r, s)
    return r


DTYPES = {"int": "int", "float": "float", "bool": "bool", "int64": "int", "int32": "int", "float64": "float", "float32": "float",
          "intp": "int", "bool_": "bool", "object": "object", "integer": "int", "floating": "float", "int8": "int", "uint8": "int"}


def dtype_of(it, d):
    d = it.resolve(d)
    if d is None:
        return None
    if isinstance(d, str):
        nm = d
    elif isinstance(d, (BuiltinV, ExtV)):
        nm = d.name.split(".")[-1]
    else:
        raise Unsupported("dtype")
    if nm not in DTYPES:
        raise Unsupported(f"dtype {nm}")
    return DTYPES[nm]


def cast(it, v, dt):
    v = it.resolve(v)
    if dt == "int":
        return b_int(it, [v], {})
    if dt == "float":
        return b_float(it, [v], {})
    if dt == "bool":
        return it.truth(v)
    return v


def nd_cast_to(it, a, dt):
    if dt is None or dt == a.dtype and dt != "float":
        return a
    fn = a.fn
    if dt == "float" and a.dtype == "float":
        # contents may still be ints at model level: normalise lazily
        return NdV(a.shape, lambda *i: cast_lazy(it, fn(*i), "float"), "float")
    return NdV(a.shape, lambda *i: cast_lazy(it, fn(*i), dt), dt)


def cast_lazy(it, v, dt):
    if dt == "float" and (is_num(v) or is_bool(v)) and not isinstance(v, float):
        return to_real(v)
    if dt == "int" and is_int(v):
        return v
    if isinstance(v, (NanV, OptV, IteV)) and dt == "float":
        return v
    return cast(it, v, dt)


def np_array(it, a, kw):
    dt = dtype_of(it, kw["dtype"] if "dtype" in kw else (a[1] if len(a) > 1 else None))
    v = it.resolve(a[0])
    r = it.nd_from(v)
    if dt == "float" and r.ndim == 1:
        # element None -> TypeError (float(None)); numpy gives nan for object->float: not modelled
        pass
    return nd_cast_to(it, r, dt)


def np_asarray(it, a, kw):
    v = it.resolve(a[0])
    dt = dtype_of(it, kw["dtype"] if "dtype" in kw else (a[1] if len(a) > 1 else None))
    if isinstance(v, NdV) and (dt is None or dt == v.dtype):
        return v
    return np_array(it, a, kw)


def shape_arg(it, v):
    v = it.resolve(v)
    if is_int(v):
        return (v,)
    s = it.as_seq(v)
    return tuple(it.resolve(x) for x in s.items)


def np_fill(val, dflt):
    def f(it, a, kw):
        sh = shape_arg(it, a[0] if a else kw["shape"])
        dt = dtype_of(it, kw["dtype"] if "dtype" in kw else (a[1] if len(a) > 1 else None)) or dflt
        v = {"float": z3.RealVal(val), "int": val, "bool": bool(val)}.get(dt)
        if v is None:
            raise Unsupported("fill dtype")
        return NdV(sh, lambda *i: v, dt)
    return f


def np_empty(it, a, kw):
    sh = shape_arg(it, a[0] if a else kw["shape"])
    dt = dtype_of(it, kw["dtype"] if "dtype" in kw else (a[1] if len(a) > 1 else None)) or "float"
    srt = {"int": z3.IntSort(), "bool": z3.BoolSort()}.get(dt, z3.RealSort())
    g = it.ctx.fresh_fn("uninit", *[z3.IntSort()] * len(sh), srt)
    return NdV(sh, lambda *i: g(*[to_int(x) for x in i]), dt)


def np_full(it, a, kw):
    sh = shape_arg(it, a[0])
    v = it.resolve(a[1] if len(a) > 1 else kw["fill_value"])
    dt = dtype_of(it, kw.get("dtype", a[2] if len(a) > 2 else None))
    if dt is None:
        dt = "int" if is_int(v) else "bool" if is_bool(v) else "float"
    v = cast_lazy(it, v, dt)
    return NdV(sh, lambda *i: v, dt)


def np_arange(it, a, kw):
    s = b_range(it, a, {})
    if s.items is not None:
        return it.nd_from(s) if s.items else NdV((0,), lambda i: 0, "int")
    return NdV((s.n,), s.fn, "int")


def axis_of(kw, a, i=1):
    return kw["axis"] if "axis" in kw else (a[i] if len(a) > i else None)


def np_reduce_sum(it, v, axis=None):
    v = v if isinstance(v, NdV) else it.nd_from(v)
    fn = v.fn
    if v.ndim == 0:
        return fn()
    if axis is None:
        if v.ndim == 1:
            if v.filt is not None:
                bn, c, val = v.filt
                pv = it.resolve(val(z3.FreshInt("probe")))
                zero = 0 if is_int(pv) or is_bool(pv) else z3.RealVal(0)
                return fold_add(it, bn, lambda k: ite_val(it.ctx, zbool(c(k)), val(k), zero))
            r = fold_add(it, v.shape[0], lambda k: fn(k))
            return to_real(r) if v.dtype == "float" and is_int(r) else r
        # sum over trailing concrete axes first
        if all(isinstance(s, int) for s in v.shape[1:]):
            idxs = list(itertools.product(*[range(s) for s in v.shape[1:]]))

            def row(k):
                r = 0
                for j in idxs:
                    r = ops.num_add(r, it.resolve(fn(k, *j)))
                return r
            return fold_add(it, v.shape[0], row)
        raise Unsupported("full sum of matrix with symbolic inner dimension")
    axis = axis if axis >= 0 else axis + v.ndim
    n = v.shape[axis]
    rest = v.shape[:axis] + v.shape[axis + 1:]

    def g(*i):
        return fold_add(it, n, lambda k: fn(*i[:axis], k, *i[axis:]))
    if not rest:
        return g()
    return NdV(rest, g, "float" if v.dtype == "float" else "int")


def np_sum(it, a, kw):
    for k in kw:
        if k not in ("axis", "dtype"):
            raise Unsupported(f"sum {k}")
    return np_reduce_sum(it, it.resolve(a[0]), axis_of(kw, a))


def np_mean(it, a, kw):
    v = it.resolve(a[0])
    v = v if isinstance(v, NdV) else it.nd_from(v)
    axis = axis_of(kw, a)
    s = np_reduce_sum(it, v, axis)
    n = nd_size(v) if axis is None else v.shape[axis]

    def div(x):
        if isinstance(n, int):
            if n == 0:
                return NAN
            return to_real(x) / z3.RealVal(n)
        return NanV(n == 0, to_real(x) / z3.ToReal(n))
    used(it, "np.mean: sum/n, nan for n=0")
    if isinstance(s, NdV):
        return it.nd_map(div, s)
    r = div(s)
    if isinstance(r, NanV) and it.ctx.entails(n > 0):
        return r.val
    return r


def np_cumsum(it, a, kw):
    v = it.resolve(a[0])
    v = v if isinstance(v, NdV) else it.nd_from(v)
    if v.ndim != 1:
        raise Unsupported("cumsum ndim")
    used(it, "np.cumsum: prefix sums (real arithmetic)")
    fn = v.fn
    n = v.shape[0]
    if isinstance(n, int):
        acc, vals = 0, []
        for i in range(n):
            acc = ops.num_add(acc, it.resolve(fn(i)))
            vals.append(acc)
        sv = SeqV("list", items=vals)
        r = NdV((n,), lambda i: it.seq_select(sv, i), v.dtype)
    else:
        k = z3.Const(it.ctx.name("k"), z3.IntSort())
        body = it.resolve(fn(k))
        body = to_int(body) if is_int(body) else to_real(body)
        r = NdV((n,), lambda i: it.ctx.w.folds.fold("add", z3.simplify(to_int(i) + 1), k, body), v.dtype)
    out = kw.get("out")
    if out is not None:
        out = it.resolve(out)
        if not it.same_dim(out.shape[0], n):
            it.raise_("ValueError")
        it.nd_assign_all(out, r)
        return out
    return r


def np_dot(it, a, kw):
    x, y = it.resolve(a[0]), it.resolve(a[1])
    x = x if isinstance(x, NdV) else it.nd_from(x)
    y = y if isinstance(y, NdV) else it.nd_from(y)
    fx, fy = x.fn, y.fn
    mul = lambda p, q: ops.num_mul(it.resolve(p), it.resolve(q))
    if x.ndim == 0 or y.ndim == 0:
        return it.nd_map(lambda p, q: mul(p, q), x, y)

    def chk(p, q):
        if not it.same_dim(p, q):
            if isinstance(p, int) and isinstance(q, int):
                it.raise_("ValueError", "shapes not aligned")
            if not it.ctx.branch(to_int(p) == to_int(q)):
                it.raise_("ValueError", "shapes not aligned")
    if x.ndim == 1 and y.ndim == 1:
        chk(x.shape[0], y.shape[0])
        return fold_add(it, x.shape[0], lambda k: mul(fx(k), fy(k)))
    if x.ndim == 2 and y.ndim == 1:
        chk(x.shape[1], y.shape[0])
        return NdV((x.shape[0],), lambda i: fold_add(it, x.shape[1], lambda k: mul(fx(i, k), fy(k))))
    if x.ndim == 1 and y.ndim == 2:
        chk(x.shape[0], y.shape[0])
        return NdV((y.shape[1],), lambda j: fold_add(it, x.shape[0], lambda k: mul(fx(k), fy(k, j))))
    if x.ndim == 2 and y.ndim == 2:
        chk(x.shape[1], y.shape[0])
        return NdV((x.shape[0], y.shape[1]), lambda i, j: fold_add(it, x.shape[1], lambda k: mul(fx(i, k), fy(k, j))))
    raise Unsupported("dot ndim")


def np_norm(it, a, kw):
    v = it.resolve(a[0])
    v = v if isinstance(v, NdV) else it.nd_from(v)
    axis = axis_of(kw, a, 2)
    if (len(a) > 1 and a[1] is not None) or kw.get("ord") is not None:
        raise Unsupported("norm ord")
    used(it, "np.linalg.norm: sqrt of sum of squares (real arithmetic)")
    sq = it.nd_map(lambda x: ops.num_mul(it.resolve(x), it.resolve(x)), v)
    if axis is None and v.ndim == 1:
        return SQRT(to_real(np_reduce_sum(it, sq)))
    if axis is None and v.ndim == 2:
        return SQRT(to_real(np_reduce_sum(it, sq)))
    s = np_reduce_sum(it, sq, axis)
    if isinstance(s, NdV):
        return it.nd_map(lambda x: SQRT(to_real(x)), s)
    return SQRT(to_real(s))


def np_searchsorted(it, a, kw):
    arr = it.resolve(a[0])
    arr = arr if isinstance(arr, NdV) else it.nd_from(arr)
    v = to_real(it.resolve(a[1]))
    side = it.resolve(kw.get("side", a[2] if len(a) > 2 else "left"))
    ctx = it.ctx
    used(it, "np.searchsorted: for ascending arrays the left/right insertion point")
    n, fn = to_int(arr.shape[0]), arr.fn
    r = ctx.fresh("searchsorted", z3.IntSort())
    q = z3.Const(ctx.name("q"), z3.IntSort())
    w = to_real(fn(q))
    q2 = z3.Const(ctx.name("q"), z3.IntSort())
    asc = z3.ForAll([q, q2], z3.Implies(z3.And(0 <= q, q <= q2, q2 < n), w <= to_real(fn(q2))))
    if side == "right":
        lo, hi = (lambda x: to_real(fn(x)) <= v), (lambda x: to_real(fn(x)) > v)
    elif side == "left":
        lo, hi = (lambda x: to_real(fn(x)) < v), (lambda x: to_real(fn(x)) >= v)
    else:
        raise Unsupported("searchsorted side")
    # on any input the result is in range; on ascending input it splits the array
    ctx.assume(z3.And(0 <= r, r <= n))
    split = z3.And(z3.Implies(r > 0, lo(r - 1)), z3.Implies(r < n, hi(r)))
    ctx.assume(z3.Implies(asc, split))
    it.ctx.obligations.append(("precondition of np.searchsorted: array ascending", list(ctx._formulas()), asc))
    ctx.assume(asc)
    return r


def nd_unary(f, name):
    def g(it, a, kw):
        v = it.resolve(a[0])
        used(it, name)
        if isinstance(v, (SeqV, tuple)):
            v = it.nd_from(v)
        if isinstance(v, NdV):
            return it.nd_map(lambda x: f(it, it.resolve(x)), v)
        return f(it, v)
    return g


def u_exp(it, v):
    if isinstance(v, float):
        raise Unsupported("exp of nan/inf")
    return EXP(to_real(v))


def u_log(it, v):
    if isinstance(v, float):
        raise Unsupported("log of nan/inf")
    return LOG(to_real(v))


def u_sqrt(it, v):
    if isinstance(v, float):
        return v
    r = to_real(v)
    return SQRT(r)


def u_rint(it, v):
    if isinstance(v, float):
        return v
    return to_real(rint(it, to_real(v)))


def u_floor(it, v):
    return z3.ToReal(z3.ToInt(to_real(v)))


def u_ceil(it, v):
    return -z3.ToReal(z3.ToInt(-to_real(v)))


def u_trunc(it, v):
    x = to_real(v)
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))


def u_sign(it, v):
    if isinstance(v, float):
        raise Unsupported("sign of a non-finite number")
    if isinstance(v, int) and not isinstance(v, bool):
        return (v > 0) - (v < 0)
    if is_z3(v) and z3.is_int(v):
        return z3.If(v > 0, z3.IntVal(1), z3.If(v < 0, z3.IntVal(-1), z3.IntVal(0)))
    x = to_real(v)
    return z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))


def np_pick(mx):
    """elementwise maximum/minimum"""
    def f(it, a, kw):
        if kw or len(a) != 2:
            raise Unsupported("maximum/minimum keywords")
        x, y = it.resolve(a[0]), it.resolve(a[1])

        def one(p, q):
            p, q = it.resolve(p), it.resolve(q)
            if isinstance(p, float) or isinstance(q, float):
                raise Unsupported("maximum/minimum of a non-finite number")
            c = it.compare(_ast.GtE() if mx else _ast.LtE(), p, q)
            return ite_val(it.ctx, c, p, q)
        if not isinstance(x, (NdV, SeqV, tuple)) and not isinstance(y, (NdV, SeqV, tuple)):
            return one(x, y)
        x, y = (it.nd_from(v) for v in (x, y))
        return it.nd_map(one, x, y, dtype="float" if "float" in (x.dtype, y.dtype) else x.dtype)
    return f


def np_clip(it, a, kw):
    v = a[0]
    lo = a[1] if len(a) > 1 else kw.get("a_min", kw.get("min"))
    hi = a[2] if len(a) > 2 else kw.get("a_max", kw.get("max"))
    if it.resolve(lo) is not None:
        v = np_pick(True)(it, [v, lo], {})
    if it.resolve(hi) is not None:
        v = np_pick(False)(it, [v, hi], {})
    return v


def np_logic(op):
    def f(it, a, kw):
        if kw:
            raise Unsupported("logical function keywords")
        g = {"and": lambda p, q: z3.And(zbool(it.truth(p)), zbool(it.truth(q))), "or": lambda p, q: z3.Or(zbool(it.truth(p)), zbool(it.truth(q))),
             "not": lambda p: z3.Not(zbool(it.truth(p)))}[op]
        vs = [it.resolve(x) for x in a]
        if not any(isinstance(v, (NdV, SeqV, tuple)) for v in vs):
            return g(*vs)
        return it.nd_map(lambda *x: g(*[it.resolve(y) for y in x]), *vs, dtype="bool")
    return f


def u_isnan(it, v):
    if isinstance(v, float):
        return math.isnan(v)
    return False


def u_isfinite(it, v):
    if isinstance(v, float):
        return False
    return True


def np_round(it, a, kw):
    if len(a) > 1 or "decimals" in kw:
        d = a[1] if len(a) > 1 else kw["decimals"]
        if not (isinstance(d, int) and d == 0):
            raise Unsupported("round decimals")
    return nd_unary(u_rint, "np.round")(it, a[:1], {})


def np_where(it, a, kw):
    if len(a) == 1:
        m = it.resolve(a[0])
        m = m if isinstance(m, NdV) else it.nd_from(m)
        if m.ndim != 1:
            raise Unsupported("where ndim")
        mf = m.fn
        s = it.filter_seq(m.shape[0], lambda k: it.truth(mf(k)), lambda k: k)
        used(it, "np.where(mask): ascending indices of true entries")
        if s.items is not None:
            return (it.nd_from(s) if s.items else NdV((0,), lambda i: 0, "int"),)
        r = NdV((s.n,), s.fn, "int")
        r.filt = s.filt
        return (r,)
    c, x, y = a
    return it.nd_map(lambda p, q, r: ite_val(it.ctx, zbool(it.truth(p)), q, r), c, x, y)


def np_any(it, a, kw):
    v = it.resolve(a[0])
    v = v if isinstance(v, NdV) else it.nd_from(v)
    if v.ndim == 0:
        return it.truth(v.fn())
    if v.ndim == 1:
        return b_any(it, [it.as_seq(v)], {})
    if all(isinstance(s, int) for s in v.shape):
        return Or(*[it.truth(v.fn(*i)) for i in itertools.product(*map(range, v.shape))])
    if all(isinstance(s, int) for s in v.shape[1:]):
        fn = v.fn
        return it.ctx.exists(0, v.shape[0], lambda k: Or(*[it.truth(fn(k, *i)) for i in itertools.product(*map(range, v.shape[1:]))]))
    raise Unsupported("any ndim")


def np_all(it, a, kw):
    v = it.resolve(a[0])
    v = v if isinstance(v, NdV) else it.nd_from(v)
    if v.ndim == 0:
        return it.truth(v.fn())
    if v.ndim == 1:
        return b_all(it, [it.as_seq(v)], {})
    if all(isinstance(s, int) for s in v.shape):
        return And(*[it.truth(v.fn(*i)) for i in itertools.product(*map(range, v.shape))])
    if all(isinstance(s, int) for s in v.shape[1:]):
        fn = v.fn
        return it.ctx.forall(0, v.shape[0], lambda k: And(*[it.truth(fn(k, *i)) for i in itertools.product(*map(range, v.shape[1:]))]))
    raise Unsupported("all ndim")


def np_prod(it, a, kw):
    s = it.as_seq(a[0])
    if s.items is not None:
        r = 1
        for x in s.items:
            r = ops.num_mul(r, it.resolve(x))
        return r
    k, sps = it.ctx.lam(0, s.n, lambda k: s.fn(k))
    v = it.resolve(it.ctx.merged(sps))
    return it.ctx.w.folds.fold("mul", s.n, k, to_int(v) if is_int(v) else to_real(v))


def np_array_equal(it, a, kw):
    x, y = [v if isinstance(v, NdV) else it.nd_from(v) for v in (it.resolve(a[0]), it.resolve(a[1]))]
    if x.ndim != y.ndim:
        return False
    for p, q in zip(x.shape, y.shape):
        if not it.same_dim(p, q):
            if isinstance(p, int) and isinstance(q, int):
                return False
            if not it.ctx.branch(to_int(p) == to_int(q)):
                return False
    return np_all(it, [it.nd_map(lambda p, q: eq_val(it.ctx, p, q), x, y, dtype="bool")], {})


def np_concatenate(it, a, kw):
    ss = it.as_seq(a[0])
    if axis_of(kw, a) not in (None, 0) or ss.items is None:
        raise Unsupported("concatenate")
    r = None
    dt = None
    for x in ss.items:
        nx = it.nd_from(x)
        if nx.ndim != 1:
            raise Unsupported("concatenate ndim")
        dt = nx.dtype if dt in (None, nx.dtype) else "float"
        r = it.as_seq(nx) if r is None else it.seq_concat(r, it.as_seq(nx), "list")
    out = it.nd_from(r) if not (r.items is not None and not r.items) else NdV((0,), lambda i: 0, dt)
    out.dtype = dt
    return out


def np_unique(it, a, kw):
    """sorted distinct values of a one-dimensional array"""
    if kw or len(a) != 1:
        raise Unsupported("np.unique with options")
    src = it.as_seq(a[0])
    if src.items is not None:
        if all(isinstance(x, int) for x in src.items):
            u = sorted(set(src.items))
            return NdV((len(u),), lambda i: it.seq_select(SeqV("list", items=u), i), "int")
        raise Unsupported("np.unique of symbolic items")
    if src.filt is not None:
        raise Unsupported("np.unique of a filtered sequence")
    used(it, "np.unique: strictly ascending, exactly the values of the input")
    ctx = it.ctx
    n, fn = to_int(src.length()), src.fn
    e = it.resolve(fn(z3.FreshInt("probe")))
    if not (is_int(e) or is_real(e)):
        raise Unsupported("np.unique of non-numeric values")
    st = set_of_seq(it, src)
    c = set_card(it, st)
    f = ctx.fresh_fn("unique", z3.IntSort(), z3.IntSort() if is_int(e) else z3.RealSort())
    w, inv = ctx.fresh_fn("unique_from", z3.IntSort(), z3.IntSort()), ctx.fresh_fn("unique_pos", z3.IntSort(), z3.IntSort())
    i, j = z3.Const(ctx.name("ui"), z3.IntSort()), z3.Const(ctx.name("uj"), z3.IntSort())
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c), z3.And(0 <= w(i), w(i) < n, f(i) == fn(w(i)))), patterns=[f(i)]))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= inv(i), inv(i) < c, f(inv(i)) == fn(i))), patterns=[inv(i)]))
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < c), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
    return NdV((c,), lambda q: f(to_int(q)), "int" if is_int(e) else "float")


def np_isin(it, a, kw):
    t = a[1]
    return it.nd_map(lambda x: it.contains(t, x), a[0] if isinstance(it.resolve(a[0]), NdV) else it.nd_from(a[0]), dtype="bool")


def np_isclose(it, a, kw):
    rtol = to_real(it.resolve(kw.get("rtol", a[2] if len(a) > 2 else real_of_float(1e-5))))
    atol = to_real(it.resolve(kw.get("atol", a[3] if len(a) > 3 else real_of_float(1e-8))))

    def f(x, y):
        x, y = to_real(it.resolve(x)), to_real(it.resolve(y))
        ab = lambda t: z3.If(t >= 0, t, -t)
        return ab(x - y) <= atol + rtol * ab(y)
    x, y = it.resolve(a[0]), it.resolve(a[1])
    if isinstance(x, (NdV, SeqV, tuple)) or isinstance(y, (NdV, SeqV, tuple)):
        return it.nd_map(f, x, y, dtype="bool")
    return f(x, y)


CHEB = z3.Function("chebyshev_T", z3.IntSort(), z3.RealSort(), z3.RealSort())


def cheb_T(j, x):
    """T_j(x), the Chebyshev polynomial of the first kind; expanded by its recurrence for literal j"""
    if z3.is_int_value(j) if is_z3(j) else True:
        j = j.as_long() if is_z3(j) else int(j)
        a, b = z3.RealVal(1), x
        for _ in range(j):
            a, b = b, 2 * x * b - a
        return a
    return CHEB(j, x)


def np_linspace(it, a, kw):
    if len(a) > 3 or set(kw) - {"start", "stop", "num", "dtype"}:
        raise Unsupported("linspace options")
    g = dict(zip(["start", "stop", "num"], a), **kw)
    lo, hi, n = to_real(it.resolve(g["start"])), to_real(it.resolve(g["stop"])), it.resolve(g.get("num", 50))
    used(it, "np.linspace: start + i (stop - start) / (num - 1), exact reals")
    if isinstance(n, int):
        return NdV((n,), lambda i: lo + (hi - lo) * to_real(i) / max(n - 1, 1), "float")
    if not it.ctx.branch(n > 1):
        if it.ctx.branch(n < 0):
            it.raise_("ValueError", "Number of samples, must be non-negative")
        return NdV((n,), lambda i: lo, "float")
    return NdV((n,), lambda i: lo + (hi - lo) * to_real(i) / z3.ToReal(n - 1), "float")


def np_chebvander(it, a, kw):
    x, d = it.nd_from(it.resolve(a[0])), it.resolve(a[1] if len(a) > 1 else kw["deg"])
    if x.ndim != 1:
        raise Unsupported("chebvander ndim")
    if it.ctx.branch(zbool(to_int(d) < 0)):
        it.raise_("ValueError", "deg must be non-negative")
    used(it, "numpy.polynomial.chebyshev.chebvander: column j is T_j of the argument")
    f = x.fn
    n = d + 1 if isinstance(d, int) else z3.simplify(d + 1)
    if not isinstance(d, int):
        y = z3.Const(it.ctx.name("x"), z3.RealSort())
        it.ctx.assume(z3.ForAll([y], z3.And(CHEB(0, y) == 1, CHEB(1, y) == y), patterns=[CHEB(1, y)]))
        it.ctx.__dict__.setdefault("havocs", set()).add("chebyshev_T")  # only partly specified: no refutation through it
    return NdV((x.shape[0], n), lambda i, j: cheb_T(z3.simplify(to_int(j)), to_real(f(i))), "float")


def np_ix(it, a, kw):
    used(it, "np.ix_: open mesh, x[np.ix_(p, q)][i, j] = x[p[i], q[j]]")
    out = []
    for x in a:
        v = it.nd_from(it.resolve(x))
        v = NdV(v.shape, v.fn, v.dtype)
        v.ix = True
        out.append(v)
    return tuple(out)


def np_nan_to(it, a, kw):
    raise Unsupported("nan_to_num")


def np_copy(it, a, kw):
    return it.nd_from(a[0])


def np_sort(it, a, kw):
    v = it.nd_from(a[0])
    if v.ndim != 1:
        raise Unsupported("sort ndim")
    s = sorted_seq(it, it.as_seq(v)) if not isinstance(v.shape[0], int) else b_sorted(it, [it.as_seq(v)], {})
    r = it.nd_from(s)
    r.dtype = v.dtype
    return r


def np_minmax(mx):
    def f(it, a, kw):
        v = it.resolve(a[0])
        if axis_of(kw, a) is not None:
            raise Unsupported("min/max axis")
        v = v if isinstance(v, NdV) else it.nd_from(v)
        if v.ndim != 1:
            raise Unsupported("min/max ndim")
        return minmax(it, [it.as_seq(v)], {}, mx)
    return f


def np_diff(it, a, kw):
    v = it.nd_from(a[0])
    fn = v.fn
    n = v.shape[0]
    if isinstance(n, int):
        m = max(n - 1, 0)
    else:
        m = z3.simplify(z3.If(n > 0, n - 1, z3.IntVal(0)))
    return NdV((m,), lambda i: ops.num_sub(fn(ops.num_add(i, 1)), fn(i)), v.dtype)


def np_vec(name, f):
    def g(it, a, kw):
        return it.nd_map(lambda x, y: f(it, it.resolve(x), it.resolve(y)), a[0], a[1])
    return g


NP = {
    "array": np_array, "asarray": np_asarray, "zeros": np_fill(0, "float"), "ones": np_fill(1, "float"), "empty": np_empty,
    "full": np_full, "arange": np_arange, "sum": np_sum, "mean": np_mean, "average": np_mean, "cumsum": np_cumsum,
    "dot": np_dot, "matmul": np_dot, "inner": np_dot, "vdot": np_dot, "linalg.norm": np_norm, "searchsorted": np_searchsorted,
    "exp": nd_unary(u_exp, "np.exp as an uninterpreted positive increasing function with exp(0)=1"),
    "log": nd_unary(u_log, "np.log as an uninterpreted function, sign by comparison with 1"),
    "sqrt": nd_unary(u_sqrt, "np.sqrt: nonnegative real root"), "round": np_round, "around": np_round, "rint": np_round,
    "floor": nd_unary(u_floor, "np.floor"), "isnan": nd_unary(u_isnan, "np.isnan"), "isfinite": nd_unary(u_isfinite, "np.isfinite: symbolic reals are finite"),
    "abs": b_abs, "absolute": b_abs, "fabs": b_abs,
    "ceil": nd_unary(u_ceil, "np.ceil"), "trunc": nd_unary(u_trunc, "np.trunc"), "fix": nd_unary(u_trunc, "np.fix"), "sign": nd_unary(u_sign, "np.sign"),
    "maximum": np_pick(True), "minimum": np_pick(False), "clip": np_clip, "logical_and": np_logic("and"), "logical_or": np_logic("or"), "logical_not": np_logic("not"),
    "negative": lambda it, a, kw: it.binop(_ast.Mult(), np_asarray(it, [a[0]], {}), -1), "true_divide": lambda it, a, kw: it.binop(_ast.Div(), np_asarray(it, [a[0]], {}), a[1]),
    "power": lambda it, a, kw: it.binop(_ast.Pow(), a[0], a[1]), "remainder": lambda it, a, kw: it.binop(_ast.Mod(), a[0], a[1]), "floor_divide": lambda it, a, kw: it.binop(_ast.FloorDiv(), a[0], a[1]),
    "where": np_where, "nonzero": np_where, "flatnonzero": lambda it, a, kw: np_where(it, a, kw)[0], "any": np_any, "all": np_all, "prod": np_prod,
    "array_equal": np_array_equal, "concatenate": np_concatenate, "hstack": np_concatenate, "isin": np_isin, "in1d": np_isin, "unique": np_unique,
    "ix_": np_ix, "linspace": np_linspace, "polynomial.chebyshev.chebvander": np_chebvander, "isclose": np_isclose, "allclose": lambda it, a, kw: np_all(it, [np_isclose(it, a, kw)], {}) if isinstance(np_isclose(it, a, kw), NdV) else np_isclose(it, a, kw),
    "copy": np_copy, "sort": np_sort, "max": np_minmax(True), "min": np_minmax(False), "amax": np_minmax(True), "amin": np_minmax(False), "diff": np_diff,
    "int64": b_int, "int32": b_int, "float64": b_float, "float32": b_float, "bool_": b_bool, "intp": b_int,
    "subtract": lambda it, a, kw: it.binop(_ast.Sub(), np_asarray(it, [a[0]], {}), a[1]),
    "add": lambda it, a, kw: it.binop(_ast.Add(), np_asarray(it, [a[0]], {}), a[1]),
    "multiply": lambda it, a, kw: it.binop(_ast.Mult(), np_asarray(it, [a[0]], {}), a[1]),
    "divide": lambda it, a, kw: it.binop(_ast.Div(), np_asarray(it, [a[0]], {}), a[1]),
    "square": lambda it, a, kw: it.binop(_ast.Pow(), a[0], 2),
    "mod": lambda it, a, kw: it.binop(_ast.Mod(), a[0], a[1]),
    "zeros_like": lambda it, a, kw: NdV(it.resolve(a[0]).shape, lambda *i, dt=it.resolve(a[0]).dtype: z3.RealVal(0) if dt == "float" else 0, it.resolve(a[0]).dtype),
    "atleast_1d": lambda it, a, kw: it.nd_from(a[0]) if it.nd_from(a[0]).ndim >= 1 else NdV((1,), lambda i, v=it.nd_from(a[0]).fn(): v),
    "size": lambda it, a, kw: nd_size(it.nd_from(a[0])), "shape": lambda it, a, kw: it.nd_from(a[0]).shape,
    "einsum": lambda it, a, kw: np_einsum(it, a, kw), "repeat": lambda it, a, kw: unsup("np.repeat"), "tile": lambda it, a, kw: unsup("np.tile"),
    "isscalar": lambda it, a, kw: is_num(it.resolve(a[0])),
    "count_nonzero": lambda it, a, kw: np_reduce_sum(it, it.nd_map(lambda x: ite_val(it.ctx, zbool(it.truth(x)), 1, 0), a[0], dtype="int")),
}


def np_einsum(it, a, kw):
    spec = it.resolve(a[0])
    if spec == "ij,ij->i":
        x, y = it.nd_from(a[1]), it.nd_from(a[2])
        return np_reduce_sum(it, it.nd_map(lambda p, q: ops.num_mul(p, q), x, y), 1)
    raise Unsupported("einsum")


def nd_method(it, v, name):
    def m(f):
        return BuiltinV(f"ndarray.{name}", lambda it2, a, kw: f(it, [v] + list(a), kw))
    if name == "shape":
        return tuple(v.shape)
    if name == "size":
        return nd_size(v)
    if name == "ndim":
        return v.ndim
    if name == "dtype":
        return Opaque("dtype")
    if name == "T":
        if v.ndim == 2:
            fn = v.fn
            return NdV((v.shape[1], v.shape[0]), lambda i, j: fn(j, i), v.dtype)
        return v
    if name == "tolist":
        def tolist(it, a, kw):
            return nd_tolist(it, v)
        return m(tolist)
    if name == "copy":
        return m(lambda it, a, kw: it.nd_from(v))
    if name == "astype":
        return m(lambda it, a, kw: nd_cast_to(it, it.nd_from(v), dtype_of(it, a[1])))
    if name == "sum":
        return m(np_sum)
    if name == "mean":
        return m(np_mean)
    if name == "cumsum":
        return m(np_cumsum)
    if name == "dot":
        return m(np_dot)
    if name == "any":
        return m(np_any)
    if name == "all":
        return m(np_all)
    if name == "max":
        return m(np_minmax(True))
    if name == "min":
        return m(np_minmax(False))
    if name == "item":
        return m(lambda it, a, kw: v.fn(*[0] * v.ndim))
    if name == "prod":
        return m(np_prod)
    if name == "round":
        return m(np_round)
    if name in ("flatten", "ravel"):
        if v.ndim == 1:
            return m(lambda it, a, kw: it.nd_from(v))
        raise Unsupported("flatten")
    if name == "fill":
        def fill(it, a, kw):
            x = it.nd_cast(v, it.resolve(a[1]))
            it.nd_assign_all(v, NdV(v.shape, lambda *i: x, v.dtype))
        return m(fill)
    if name == "sort":
        def sort(it, a, kw):
            r = np_sort(it, [v], {})
            if v.log is not None:
                raise Unsupported("sort in loop of outer array")
            it.nd_assign_all(v, r)
        return m(sort)
    if name == "setflags":
        return m(lambda it, a, kw: None)
    if name == "reshape":
        raise Unsupported("reshape")
    if name == "nonzero":
        return m(np_where)
    raise Unsupported(f"ndarray.{name}")


def nd_tolist(it, v):
    fn = v.fn
    if v.ndim == 0:
        return fn()
    if v.ndim == 1:
        if isinstance(v.shape[0], int):
            return SeqV("list", items=[fn(i) for i in range(v.shape[0])])
        r = SeqV("list", n=v.shape[0], fn=fn)
        r.filt = v.filt
        return r
    row = lambda i: nd_tolist(it, NdV(v.shape[1:], lambda *j: fn(i, *j), v.dtype))
    if isinstance(v.shape[0], int):
        return SeqV("list", items=[row(i) for i in range(v.shape[0])])
    return SeqV("list", n=v.shape[0], fn=row)


def value_attr(it, o, name):
    if isinstance(o, NdV):
        return nd_method(it, o, name)
    if isinstance(o, SeqV) and o.kind != "tuple":
        if o.kind == "range" and name in ("start", "stop"):
            raise Unsupported("range attribute")
        return list_method(it, o, name)
    if isinstance(o, (SeqV, tuple)):
        s = o if isinstance(o, SeqV) else SeqV("tuple", items=list(o))
        if name in ("index", "count"):
            return list_method(it, s, name)
        no_attr(it, "tuple", name)
    if isinstance(o, DictV):
        return dict_method(it, o, name)
    if isinstance(o, MapV):
        return map_method(it, o, name)
    if isinstance(o, SetV):
        return set_method(it, o, name)
    if is_str(o):
        return str_method(it, o, name)
    if is_num(o) or is_bool(o) or isinstance(o, float):
        if name == "item":
            return BuiltinV("item", lambda it, a, kw: o)
        if name == "is_integer":
            return BuiltinV("is_integer", lambda it, a, kw: z3.IsInt(to_real(o)) if is_z3(o) else True)
        if name in ("real",):
            return o
        no_attr(it, "float", name)
    no_attr(it, "object", name)


# ---------------------------------------------------------------- externals
def norm_name(n):
    for p in ("numpy.", "np."):
        if n.startswith(p):
            return "np", n[len(p):]
    return None, n


CONSTS = {"numpy.nan": NAN, "numpy.inf": INF, "math.nan": NAN, "math.inf": INF, "numpy.newaxis": None, "math.pi": real_of_float(math.pi), "numpy.pi": real_of_float(math.pi)}

MATH = {
    "exp": lambda it, a, kw: u_exp(it, it.resolve(a[0])), "log": lambda it, a, kw: u_log(it, it.resolve(a[0])),
    "sqrt": lambda it, a, kw: u_sqrt(it, it.resolve(a[0])), "isnan": lambda it, a, kw: u_isnan(it, it.resolve(a[0])),
    "isfinite": lambda it, a, kw: u_isfinite(it, it.resolve(a[0])), "prod": np_prod, "fabs": b_abs,
    "isclose": lambda it, a, kw: unsup("math.isclose"), "floor": lambda it, a, kw: z3.ToInt(to_real(it.resolve(a[0]))),
    "fsum": b_sum,
}


def ext_attr(it, o, name):
    full = f"{o.name}.{name}"
    full = full.replace("numpy.linalg", "numpy.linalg")
    if full in CONSTS:
        return CONSTS[full]
    if o.name.startswith("numpy.linalg") or full.startswith("numpy."):
        return ExtV(full)
    return ExtV(full)


def deepcopy(it, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, RecV):
        r = RecV(v.cls, {}, v.stubs, v.tag)
        memo[id(v)] = r
        r.fields = {k: deepcopy(it, x, memo) for k, x in v.fields.items()}
        return r
    if isinstance(v, DictV):
        r = DictV({k: deepcopy(it, x, memo) for k, x in v.d.items()})
        r.present = dict(v.present)
        return r
    if isinstance(v, SeqV) and not isinstance(v, RecListV):
        if v.items is not None:
            return SeqV(v.kind, items=[deepcopy(it, x, memo) for x in v.items])
        return it.seq_copy(v, v.kind)
    if isinstance(v, tuple):
        return tuple(deepcopy(it, x, memo) for x in v)
    if isinstance(v, NdV):
        return it.nd_from(v)
    if isinstance(v, SetV):
        return b_set(it, [v], {})
    if isinstance(v, MapV):
        return MapV(v.has, v.get, v.keysort)
    if isinstance(v, (OptV, IteV)):
        return deepcopy(it, it.resolve(v), memo)
    if is_z3(v) or v is None or isinstance(v, (int, float, str, FuncV, ClassV, ExtV, BuiltinV, NanV)):
        return v
    raise Unsupported(f"deepcopy of {type(v).__name__}")


def asdict(it, v):
    v = it.resolve(v)
    if isinstance(v, RecV) and isinstance(v.cls, ClassV) and v.cls.is_dataclass:
        return DictV({f: asdict(it, v.fields[f]) for f, _ in v.cls.dc_fields})
    if isinstance(v, RecV):
        raise Unsupported("asdict of " + repr(v))
    return deepcopy(it, v)


def ext_call(it, name, args, kw):
    hook = it.opt.get("ext", {}).get(name)
    if hook is not None:
        it.w.models_used.add(name + " (contract on dependency)")
        return hook(it, args, kw)
    if name.startswith("numpy."):
        n = name[6:]
        if n in NP:
            it.w.models_used.add("numpy." + n)
            return NP[n](it, args, kw)
        if n.startswith("random."):
            raise Unsupported(name)
    if name.startswith("math."):
        n = name[5:]
        if n in MATH:
            it.w.models_used.add(name)
            return MATH[n](it, args, kw)
    if name in ("numba.typed.List", "numba.typed.typedlist.List"):
        return b_list(it, args, kw)
    if name == "copy.deepcopy":
        return deepcopy(it, args[0])
    if name == "copy.copy":
        v = it.resolve(args[0])
        if isinstance(v, RecV):
            return RecV(v.cls, dict(v.fields), v.stubs, v.tag)
        if isinstance(v, SeqV):
            return it.seq_copy(v, v.kind)
        if isinstance(v, DictV):
            return b_dict(it, [v], {})
        raise Unsupported("copy.copy")
    if name == "dataclasses.replace":
        v = it.resolve(args[0])
        if isinstance(v, RecV) and isinstance(v.cls, ClassV) and v.cls.is_dataclass:
            vals = {f: v.fields[f] for f, _ in v.cls.dc_fields}
            for k, x in kw.items():
                if k not in vals:
                    it.raise_("TypeError", k)
                vals[k] = x
            return it.instantiate(v.cls, [], vals)
        raise Unsupported("replace")
    if name == "dataclasses.asdict":
        return asdict(it, args[0])
    if name in ("dataclasses.fields",):
        v = it.resolve(args[0])
        c = v if isinstance(v, ClassV) else v.cls
        return tuple(RecV(StubClass("Field"), {"name": f}) for f, _ in c.dc_fields)
    if name == "collections.defaultdict":
        r = DictV()
        if args:
            if len(args) > 1 or kw:
                raise Unsupported("defaultdict with contents")
            r.default = args[0]
        return r
    if name == "collections.Counter":
        raise Unsupported("Counter")
    if name == "itertools.product":
        return it_product(it, args, kw)
    if name == "itertools.chain":
        r = SeqV("list", items=[])
        for x in args:
            r = it.seq_concat(r, x, "list")
        return r
    if name == "itertools.combinations":
        s = it.as_seq(args[0])
        if s.items is not None and isinstance(args[1], int):
            return SeqV("list", items=list(itertools.combinations(s.items, args[1])))
    if name.startswith("logging."):
        return ExtV("logging.logger")
    if name.startswith("warnings."):
        return None
    if name.startswith("typing."):
        if name == "typing.cast":
            return args[1]
        return Opaque(name)
    raise Unsupported(f"external call {name}")


def it_product(it, args, kw):
    ss = [it.as_seq(x) for x in args]
    if kw.get("repeat"):
        ss = ss * kw["repeat"]
    if all(s.items is not None for s in ss):
        return SeqV("list", items=[tuple(x) for x in itertools.product(*[s.items for s in ss])])
    raise Unsupported("itertools.product symbolic")

"""Value-level operations: equality, truth, merging, substitution, arithmetic."""
from __future__ import annotations
import math
import itertools
import z3
from fractions import Fraction
from .values import *
from . import core
from .core import SQRT


def zbool(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def And(*xs):
    xs = [x for x in xs if not (isinstance(x, bool) and x)]
    if any(isinstance(x, bool) and not x for x in xs):
        return False
    if not xs:
        return True
    return z3.And(*xs) if len(xs) > 1 else xs[0]


def Or(*xs):
    xs = [x for x in xs if not (isinstance(x, bool) and not x)]
    if any(isinstance(x, bool) and x for x in xs):
        return True
    if not xs:
        return False
    return z3.Or(*xs) if len(xs) > 1 else xs[0]


def Not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def forall(lo, hi, f, name="q"):
    """forall lo<=i<hi. f(i)"""
    i = z3.FreshInt(name)
    b = f(i)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), b))


def exists(lo, hi, f, name="q"):
    i = z3.FreshInt(name)
    b = f(i)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    return z3.Exists([i], z3.And(lo <= i, i < hi, b))


# ---------------------------------------------------------------- merging
def ite_val(ctx, c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if is_z3(c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return a
    na, nb = isinstance(a, float) and math.isnan(a), isinstance(b, float) and math.isnan(b)
    if na and (is_num(b)):
        return NanV(c, to_real(b))
    if nb and (is_num(a)):
        return NanV(z3.Not(c), to_real(a))
    if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
        return IteV(c, a, b)
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool) and a == b:
            return a
        return z3.simplify(z3.If(c, zbool(a), zbool(b)))
    if is_int(a) and is_int(b):
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        return z3.simplify(z3.If(c, to_int(a), to_int(b)))
    if is_num(a) and is_num(b):
        return z3.simplify(z3.If(c, to_real(a), to_real(b)))
    if is_str(a) and is_str(b):
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        return z3.If(c, strz(ctx, a), strz(ctx, b))
    if a is None and b is None:
        return None
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return z3.If(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite_val(ctx, c, x, y) for x, y in zip(a, b))
    if isinstance(a, NanV) or isinstance(b, NanV):
        A = a if isinstance(a, NanV) else NanV(na, to_real(a) if is_num(a) and not na else z3.RealVal(0))
        B = b if isinstance(b, NanV) else NanV(nb, to_real(b) if is_num(b) and not nb else z3.RealVal(0))
        return NanV(z3.simplify(z3.If(c, zbool(A.is_nan), zbool(B.is_nan))), z3.If(c, A.val, B.val))
    if a is None and not isinstance(b, OptV):
        return OptV(c, b)
    if b is None and not isinstance(a, OptV):
        return OptV(z3.Not(c), a)
    if isinstance(a, OptV) and b is None:
        return OptV(z3.simplify(z3.Or(zbool(a.is_none), z3.Not(c))), a.val)
    if isinstance(b, OptV) and a is None:
        return OptV(z3.simplify(z3.Or(zbool(b.is_none), c)), b.val)
    return IteV(c, a, b)


def strz(ctx, s):
    return ctx.w.lit(s) if isinstance(s, str) else s


# ---------------------------------------------------------------- substitution
def subst_val(v, pairs, funs=()):
    """Substitute z3 terms inside an arbitrary value (pairs: [(old,new)])."""
    if not pairs and not funs:
        return v
    if is_z3(v):
        if funs:
            v = z3.substitute_funs(v, *funs)
        return z3.substitute(v, *pairs) if pairs else v
    if isinstance(v, tuple):
        return tuple(subst_val(x, pairs, funs) for x in v)
    if isinstance(v, OptV):
        return OptV(subst_val(v.is_none, pairs, funs), subst_val(v.val, pairs, funs))
    if isinstance(v, NanV):
        return NanV(subst_val(v.is_nan, pairs, funs), subst_val(v.val, pairs, funs))
    if isinstance(v, IteV):
        return IteV(subst_val(v.cond, pairs, funs), subst_val(v.a, pairs, funs), subst_val(v.b, pairs, funs))
    if isinstance(v, LastP):
        return LastP(subst_val(v.cond, pairs, funs), subst_val(v.val, pairs, funs))
    if isinstance(v, ElemRec):
        return ElemRec(v.lst, subst_val(v.i, pairs, funs))
    if isinstance(v, RecListV):
        return v
    if isinstance(v, SeqV):
        if v.items is not None:
            r = SeqV(v.kind, items=[subst_val(x, pairs, funs) for x in v.items])
        else:
            f = v.fn
            r = SeqV(v.kind, n=v.n if isinstance(v.n, Poison) else subst_val(v.n, pairs, funs), fn=None if f is None else lambda i: _subst_closure(f, (i,), pairs, funs))
            if v.flat is not None:
                fn_, fc, fk = v.flat
                r.flat = (subst_val(fn_, pairs, funs), lambda k: _subst_closure(fc, (k,), pairs, funs), lambda k: _subst_closure(fk, (k,), pairs, funs))
        if v.filt is not None:
            bn, cond, val = v.filt
            r.filt = (subst_val(bn, pairs, funs), lambda k: _subst_closure(cond, (k,), pairs, funs),
                      lambda k: _subst_closure(val, (k,), pairs, funs))
        return r
    if isinstance(v, NdV):
        f = v.fn
        r = NdV([subst_val(s, pairs, funs) for s in v.shape], lambda *i: _subst_closure(f, i, pairs, funs), v.dtype)
        if v.filt is not None:
            bn, cond, val = v.filt
            r.filt = (subst_val(bn, pairs, funs), lambda k: _subst_closure(cond, (k,), pairs, funs),
                      lambda k: _subst_closure(val, (k,), pairs, funs))
        return r
    if isinstance(v, RecV):
        r = RecV(v.cls, {k: subst_val(x, pairs, funs) for k, x in v.fields.items()}, v.stubs, v.tag)
        return r
    if isinstance(v, DictV):
        r = DictV({k: subst_val(x, pairs, funs) for k, x in v.d.items()})
        r.present = {k: subst_val(x, pairs, funs) for k, x in v.present.items()}
        return r
    if isinstance(v, SetV):
        if v.items is not None:
            return SetV(items=[subst_val(x, pairs, funs) for x in v.items])
        m = v.mem
        return SetV(mem=lambda y: _subst_closure(m, (y,), pairs, funs))
    if isinstance(v, MapV):
        h, g = v.has, v.get
        return MapV(lambda y: _subst_closure(h, (y,), pairs, funs), lambda y: _subst_closure(g, (y,), pairs, funs), v.keysort)
    return v


def _subst_closure(f, idx, pairs, funs):
    """Evaluate f at idx, substituting pairs in f's own terms but not in idx."""
    ph = []
    ids = []
    for t in idx:
        if is_z3(t) and not (z3.is_int_value(t)):
            c = z3.FreshConst(t.sort(), "ph")
            ph.append((c, t))
            ids.append(c)
        else:
            ids.append(t)
    r = subst_val(f(*ids), pairs, funs)
    return subst_val(r, ph) if ph else r


def mentions(v, names):
    """Does value v mention (uninterpreted) decl names? None = cannot tell."""
    if is_z3(v):
        return bool(core.decl_names(v) & names)
    if v is None or isinstance(v, (int, float, str, bool, FuncV, ClassV, ExtV, BuiltinV, StubClass, ModV)):
        return False
    if isinstance(v, tuple):
        return any(mentions(x, names) for x in v)
    if isinstance(v, OptV):
        return mentions(v.is_none, names) or mentions(v.val, names)
    if isinstance(v, LastP):
        return mentions(v.cond, names) or mentions(v.val, names)
    if isinstance(v, NanV):
        return mentions(v.is_nan, names) or mentions(v.val, names)
    if isinstance(v, IteV):
        return any(mentions(x, names) for x in (v.cond, v.a, v.b))
    if isinstance(v, ElemRec):
        return mentions(v.i, names)
    if isinstance(v, RecListV):
        return False
    if isinstance(v, SeqV):
        if v.items is not None:
            return any(mentions(x, names) for x in v.items)
        i = z3.FreshInt("probe")
        for t in (v.filt, v.flat):
            if t is not None and (mentions(t[0], names) or mentions(t[1](i), names) or mentions(t[2](i), names)):
                return True
        if isinstance(v.n, Poison):
            return False
        return mentions(v.n, names) or mentions(v.fn(i), names)
    if isinstance(v, NdV):
        dims = [[z3.FreshInt("probe")] if is_z3(s) else range(min(s, 8)) for s in v.shape]
        return any(mentions(s, names) for s in v.shape) or any(mentions(v.fn(*i), names) for i in itertools.product(*dims))
    if isinstance(v, RecV):
        return any(mentions(x, names) for x in v.fields.values())
    if isinstance(v, DictV):
        return any(mentions(x, names) for x in v.d.values())
    if isinstance(v, (Opaque, ExcV)):
        return False
    if isinstance(v, BoundV):
        return mentions(v.self_val, names)
    raise Unsupported(f"mentions {type(v).__name__}")


# ---------------------------------------------------------------- equality
def eq_val(ctx, a, b):
    """Python == as a bool or z3 Bool."""
    a, b = ctx.it.resolve(a), ctx.it.resolve(b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if a is b:
            return True
        raise Unsupported("comparison with opaque value")
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return a == b
        return False  # nan/inf against finite real
    if is_num(a) or is_bool(a):
        if is_bool(a) and is_bool(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return zbool(a) == zbool(b)
        if is_num(b) or is_bool(b):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            if is_real(a) or is_real(b):
                return z3.simplify(to_real(a) == to_real(b)) if not (is_z3(a) and is_z3(b)) else to_real(a) == to_real(b)
            return to_int(a) == to_int(b)
        if isinstance(b, NdV):
            return ctx.it.nd_binop(lambda x, y: eq_val(ctx, x, y), a, b)
        return False
    if is_str(a):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if is_str(b):
            return strz(ctx, a) == strz(ctx, b)
        return False
    if isinstance(a, NdV) or isinstance(b, NdV):
        return ctx.it.nd_binop(lambda x, y: eq_val(ctx, x, y), a, b)
    if is_z3(a) or is_z3(b):
        if is_z3(a) and is_z3(b) and a.sort() == b.sort():
            return a == b
        return False
    if isinstance(a, tuple):
        a = SeqV("tuple", items=list(a))
    if isinstance(b, tuple):
        b = SeqV("tuple", items=list(b))
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        ka = "tuple" if a.kind == "tuple" else "list"
        kb = "tuple" if b.kind == "tuple" else "list"
        if ka != kb:
            return False
        return seq_eq(ctx, a, b)
    if isinstance(a, DictV) and isinstance(b, DictV):
        if a.present or b.present:
            raise Unsupported("dict equality with conditional keys")
        if set(a.d) != set(b.d):
            return False
        return And(*[eq_val(ctx, a.d[k], b.d[k]) for k in a.d])
    if isinstance(a, (RecV, ElemRec)) and isinstance(b, (RecV, ElemRec)):
        if a is b:
            return True
        ca, cb = a.cls, b.cls
        if ca is not cb:
            return False
        if isinstance(ca, ClassV):
            owner, m = ca.lookup("__eq__")
            if m is not None:
                return ctx.it.truth(ctx.it.call(BoundV(m, a), [b], {}))
            if ca.is_dataclass:
                fs = [f[0] for f in ca.dc_fields]
                return And(*[eq_val(ctx, ctx.it.getattr(a, f), ctx.it.getattr(b, f)) for f in fs])
        if isinstance(a, ElemRec) and isinstance(b, ElemRec) and a.lst is b.lst:
            return eq_val(ctx, a.i, b.i)
        return False
    if isinstance(a, SetV) and isinstance(b, SetV):
        return set_eq(ctx, a, b)
    if type(a) in (FuncV, ClassV, ExtV, BuiltinV, ModV, StubClass, BoundV):
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return a.func is b.func and a.self_val is b.self_val
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a.name == b.name
        return a is b
    if type(a) is not type(b):
        return False
    if a is b:
        return True
    raise Unsupported(f"== on {type(a).__name__},{type(b).__name__}")


def seq_eq(ctx, a, b):
    na, nb = a.length(), b.length()
    if isinstance(na, int) and isinstance(nb, int):
        if na != nb:
            return False
        return And(*[eq_val(ctx, a.get(i), b.get(i)) for i in range(na)])
    if isinstance(na, int) or isinstance(nb, int):
        m = na if isinstance(na, int) else nb
        if m <= 16:
            return And(to_int(na) == to_int(nb), *[eq_val(ctx, ctx.it.seq_select(a, i), ctx.it.seq_select(b, i)) for i in range(m)])
    na = to_int(na)
    return z3.And(na == nb, ctx.forall(0, na, lambda i: eq_val(ctx, ctx.it.seq_select(a, i), ctx.it.seq_select(b, i))))


def set_mem(ctx, s, y):
    if s.items is not None:
        return Or(*[eq_val(ctx, x, y) for x in s.items])
    return s.mem(y)


def set_eq(ctx, a, b):
    if a.items is not None and b.items is not None:
        return And(*[set_mem(ctx, b, x) for x in a.items], *[set_mem(ctx, a, x) for x in b.items])
    return ctx.forall(None, None, lambda y: zbool(set_mem(ctx, a, y)) == zbool(set_mem(ctx, b, y)))


# ---------------------------------------------------------------- arithmetic
def is_nanf(v):
    return isinstance(v, float) and math.isnan(v)


def is_inff(v):
    return isinstance(v, float) and math.isinf(v)


def num_add(a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if is_real(a) or is_real(b):
        return z3.simplify(to_real(a) + to_real(b)) if not (is_z3(a) and is_z3(b)) else to_real(a) + to_real(b)
    return to_int(a) + to_int(b)


def num_neg(a):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(a, (int, float)):
        return -a
    if is_bool(a):
        a = to_int(a)
    return -a


def num_sub(a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if is_real(a) or is_real(b):
        return to_real(a) - to_real(b)
    return to_int(a) - to_int(b)


def sqrt_arg(t):
    if is_real(t) and z3.is_app(t) and t.decl().name() == "sqrt":
        return t.arg(0)
    return None


_nonneg_cache = {}


def _nonneg(t):
    key = t.get_id()
    if key not in _nonneg_cache:
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(t < 0)
        _nonneg_cache[key] = (s.check() == z3.unsat, t)
    return _nonneg_cache[key][0]


def num_mul(a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    sa, sb = sqrt_arg(a) if is_z3(a) else None, sqrt_arg(b) if is_z3(b) else None
    if sa is not None and sb is not None and sa.eq(sb) and _nonneg(sa):
        return sa
    if is_real(a) or is_real(b):
        return to_real(a) * to_real(b)
    return to_int(a) * to_int(b)


def num_pow(a, b):
    if isinstance(b, bool):
        b = int(b)
    if is_z3(b) and z3.is_int_value(b):
        b = b.as_long()
    if is_real(b) and z3.is_rational_value(b) and b.denominator_as_long() == 1:
        b = b.numerator_as_long()
        a = to_real(a)
    if is_real(b) and z3.is_rational_value(b) and b.as_fraction() == Fraction(1, 2):
        return SQRT(to_real(a))
    if not isinstance(b, int):
        raise Unsupported("symbolic exponent")
    if isinstance(a, int) and b >= 0:
        return a ** b
    if is_real(a) and z3.is_rational_value(a):
        return z3.RealVal(a.as_fraction() ** b)
    if b < 0 or b > 6:
        raise Unsupported("exponent")
    if b == 0:
        return z3.RealVal(1) if is_real(a) else 1
    r = a
    for _ in range(b - 1):
        r = num_mul(r, a)
    return r

"""Symbolic interpreter for the AST of the real functions."""
from __future__ import annotations
import ast
import math
import os
import z3
from .values import *
from . import core, ops
from .core import Env, EXP, LOG, SQRT, RINT
from .ops import And, Or, Not, eq_val, ite_val, zbool, subst_val

PLAIN_BASES = frozenset({"MSONable", "ABC", "object", "Generic"})    # bases without a __new__ of their own
EXC_PARENTS = {
    "BaseException": None, "Exception": "BaseException", "ValueError": "Exception",
    "TypeError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "RuntimeError": "Exception", "AttributeError": "Exception",
    "NotImplementedError": "RuntimeError", "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception", "ImportError": "Exception", "FileNotFoundError": "OSError",
    "OSError": "Exception", "StopIteration": "Exception", "AssertionError": "Exception",
    "OverflowError": "ArithmeticError", "UnicodeDecodeError": "ValueError", "JSONDecodeError": "ValueError",
    "ModuleNotFoundError": "ImportError", "UserWarning": "Exception", "DeprecationWarning": "Exception",
}

STR_CONTAINS = z3.Function("str_contains", StrSort, StrSort, z3.BoolSort())


class Repo:
    """Parses modules of the repository under verification, on every run."""

    def __init__(self, root, package="kmcpy"):
        self.root, self.package = root, package
        self.asts = {}

    def path_of(self, modname):
        p = os.path.join(self.root, *modname.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def has(self, modname):
        return (modname == self.package or modname.startswith(self.package + ".")) and os.path.exists(self.path_of(modname))

    def tree(self, modname):
        if modname not in self.asts:
            with open(self.path_of(modname)) as f:
                self.asts[modname] = ast.parse(f.read())
        return self.asts[modname]


DROPPED_DECORATORS = {"njit", "nb.njit", "numba.njit", "jit", "nb.jit", "lru_cache", "abstractmethod",
                      "functools.lru_cache", "abc.abstractmethod", "wraps", "typing.override", "override"}


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "discard", "popitem", "sort", "reverse", "fill"}


def mutated_names(tree):
    """names (and attribute names) of containers that code inside functions of this module changes in place"""
    r = getattr(tree, "_pyvc_mut", None)
    if r is not None:
        return r
    r = {"byfunc": set(), "attrs": set(), "rebound": set(), "registrars": set(), "decofor": {}}
    decos = {d.func.id for st in tree.body if isinstance(st, (ast.ClassDef, ast.FunctionDef)) for d in st.decorator_list if isinstance(d, ast.Call) and isinstance(d.func, ast.Name)}

    def base(x):
        while isinstance(x, ast.Subscript):
            x = x.value
        return x

    def scan(fn, top):
        local = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                local.add(x.id)
        for x in ast.walk(fn):
            hits = []
            if isinstance(x, ast.Global):
                r["rebound"].update(x.names)
            elif isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]
                hits = [base(t) for t in ts if isinstance(t, ast.Subscript)]
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                hits = [base(x.func.value)]
            for b in hits:
                if isinstance(b, ast.Name) and b.id not in local:
                    r["byfunc"].add(b.id)
                    if top.name in decos:
                        r["decofor"].setdefault(b.id, set()).add(top.name)
                    else:
                        r.setdefault("other", set()).add(b.id)
                elif isinstance(b, ast.Attribute):
                    r["attrs"].add(b.attr)
    for st in tree.body:
        if isinstance(st, ast.FunctionDef):
            scan(st, st)
        elif isinstance(st, ast.ClassDef):
            for m in st.body:
                if isinstance(m, ast.FunctionDef):
                    scan(m, m)
    r["registrars"] = set(r["decofor"]) - r.get("other", set())
    tree._pyvc_mut = r
    return r


def mutates_parameter(fn):
    ps = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    for x in ast.walk(fn):
        ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name) and x.func.value.id in ps:
            return True
        for t in ts:
            while isinstance(t, ast.Subscript):
                t = t.value
                if isinstance(t, ast.Name) and t.id in ps:
                    return True
    return False


class Interp:
    def __init__(self, ctx, world, options):
        self.ctx = ctx
        ctx.it = self
        self.w = world
        self.opt = options
        self.modules = {}
        self.depth = 0
        self.verifying = options.get("verifying")
        self.callee_contracts = options.get("callee_contracts", {})
        self.stub_functions = options.get("stub_functions", {})
        self.call_log = []
        from . import models
        self.models = models
        self.builtins = models.make_builtins(self)

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        tree = self.w.repo.tree(name)
        env = Env(None, name)
        mod = ModV(name, env)
        env.tree = tree
        env.lazy = {}
        self.modules[name] = mod
        is_pkg = self.w.repo.path_of(name).endswith("__init__.py")
        self._scan(tree.body, env, name, is_pkg)
        return mod

    def _scan(self, body, env, name, is_pkg):
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                for al in st.names:
                    nm = al.asname or al.name.split(".")[0]
                    env.lazy[nm] = ("import", st, al, is_pkg)
            elif isinstance(st, ast.FunctionDef):
                env.lazy[st.name] = ("func", st)
            elif isinstance(st, ast.ClassDef):
                env.lazy[st.name] = ("class", st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        env.lazy[t.id] = ("expr", st.value)
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                env.lazy[st.target.id] = ("expr", st.value)
            elif isinstance(st, ast.If):
                # TYPE_CHECKING blocks and the like: names only
                self._scan(st.body, env, name, is_pkg)
            elif isinstance(st, ast.Try):
                self._scan(st.body, env, name, is_pkg)

    def mod_lookup(self, env, name):
        if name in env.vars:
            return env.vars[name]
        if name not in env.lazy:
            raise KeyError(name)
        ent = env.lazy[name]
        if ent[0] == "import":
            v = self.do_import(ent[1], ent[2], env.module, ent[3])
        elif ent[0] == "func":
            v = self.make_func(ent[1], env)
        elif ent[0] == "class":
            v = self.make_class(ent[1], env)
        else:
            if name in ("logger", "log") or (isinstance(ent[1], ast.Call) and "getLogger" in ast.dump(ent[1].func)):
                v = ExtV("logging.logger")
            else:
                v = self.eval(ent[1], env)
                if isinstance(v, (SeqV, DictV, SetV, NdV, MapV, RecV)) and not (isinstance(v, SeqV) and v.kind == "tuple"):
                    env.vars[name] = v
                    self.module_state(env, name)
                elif name in mutated_names(env.tree)["rebound"]:
                    raise Unsupported(f"module state {name}")
        env.vars[name] = v
        return v

    def module_state(self, env, name):
        """a module-level container: run the top-level registrations; state changed by functions at run time is refused"""
        mut = mutated_names(env.tree)
        if name in mut["rebound"] or name in mut["byfunc"] - mut["registrars"]:
            del env.vars[name]
            raise Unsupported(f"module state {name} changes at run time")
        for st in env.tree.body:
            if isinstance(st, (ast.ClassDef, ast.FunctionDef)):
                for d in st.decorator_list:
                    if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in mut["decofor"].get(name, ()):
                        self.call(self.eval(d, env), [self.mod_lookup(env, st.name)], {})
            elif not isinstance(st, (ast.Import, ast.ImportFrom)) and not (isinstance(st, (ast.Assign, ast.AnnAssign)) and all(isinstance(t, ast.Name) for t in (st.targets if isinstance(st, ast.Assign) else [st.target]))):
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(st)):
                    self.exec(st, env)

    def resolve_from(self, st, modname, is_pkg):
        if st.level == 0:
            return st.module
        parts = modname.split(".")
        up = st.level - (1 if is_pkg else 0)
        base = parts[:len(parts) - up] if up else parts
        return ".".join(base + ([st.module] if st.module else []))

    def do_import(self, st, al, modname, is_pkg):
        if isinstance(st, ast.Import):
            full = al.name if al.asname else al.name.split(".")[0]
            return self.module(full) if self.w.repo.has(full) else ExtV(full)
        src = self.resolve_from(st, modname, is_pkg)
        if self.w.repo.has(src):
            m = self.module(src)
            try:
                return self.mod_lookup(m.env, al.name)
            except KeyError:
                if self.w.repo.has(src + "." + al.name):
                    return self.module(src + "." + al.name)
                lz = self._lazy_export(src, al.name)
                if lz is not None:
                    return lz
                raise Unsupported(f"import {src}.{al.name}")
        return ExtV(f"{src}.{al.name}")

    def _lazy_export(self, src, name):
        """Package __getattr__ style exports: search the submodules."""
        d = os.path.dirname(self.w.repo.path_of(src))
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".py") and fn != "__init__.py":
                sub = src + "." + fn[:-3]
                t = self.w.repo.tree(sub)
                if any(isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name for s in t.body):
                    return self.mod_lookup(self.module(sub).env, name)
        return None

    def deco_name(self, d):
        if isinstance(d, ast.Call):
            d = d.func
        try:
            return ast.unparse(d)
        except Exception:
            return "?"

    def make_func(self, node, env, owner=None):
        qual = (owner.name + "." if owner else "") + node.name
        mod = env
        while mod.parent is not None:
            mod = mod.parent
        f = FuncV(node, mod, env, owner, f"{mod.module}:{qual}")
        for d in node.decorator_list:
            dn = self.deco_name(d)
            if dn in DROPPED_DECORATORS or dn in ("staticmethod", "classmethod", "property") or dn.endswith(".setter"):
                continue
            f.bad_deco = dn
        return f

    def make_class(self, node, env):
        mod = env
        c = ClassV(node.name, node, mod)
        for b in node.bases:
            try:
                bv = self.eval(b, env)
            except PyRaise:
                bv = ExtV("?")
            if isinstance(bv, ClassV):
                c.bases.append(bv)
            else:
                c.ext_bases.append(bv.name if isinstance(bv, (ExtV, BuiltinV)) else "?")
        for d in node.decorator_list:
            dn = self.deco_name(d)
            if dn.split(".")[-1] == "dataclass":
                c.is_dataclass = True
                if isinstance(d, ast.Call):
                    for kw in d.keywords:
                        if kw.arg == "frozen" and isinstance(kw.value, ast.Constant):
                            c.frozen = bool(kw.value.value)
        if c.is_dataclass:
            for b in c.bases:
                c.dc_fields.extend(b.dc_fields)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = self.make_func(st, env, c)
                decos = [self.deco_name(d) for d in st.decorator_list]
                f.kind = "static" if "staticmethod" in decos else "class" if "classmethod" in decos else "property" if "property" in decos else "method"
                if any(d.endswith(".setter") for d in decos):
                    c.members[st.name + ".setter"] = f
                    continue
                c.members[st.name] = f
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                isclassvar = "ClassVar" in ast.dump(st.annotation)
                if c.is_dataclass and not isclassvar:
                    c.dc_fields = [f for f in c.dc_fields if f[0] != st.target.id] + [(st.target.id, st.value)]
                if st.value is not None:
                    c.members[st.target.id] = ("expr", st.value)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.members[t.id] = ("expr", st.value)
        return c

    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, LastP) and self.ctx.entails(v.cond):
                    v = v.val
                if isinstance(v, Poison):
                    raise Unsupported(f"read of {name}: {v.why}")
                return v
            if e.parent is None and hasattr(e, "lazy"):
                try:
                    return self.mod_lookup(e, name)
                except KeyError:
                    pass
            e = e.parent
        if name in self.builtins:
            return self.builtins[name]
        if name in EXC_PARENTS:
            return BuiltinV(name, None)
        raise Unsupported(f"unbound name {name}")

    # ------------------------------------------------------------ helpers
    def resolve(self, v):
        while True:
            if isinstance(v, OptV):
                v = None if self.ctx.branch(zbool(v.is_none)) else v.val
            elif isinstance(v, NanV):
                v = NAN if self.ctx.branch(zbool(v.is_nan)) else v.val
            elif isinstance(v, IteV):
                v = v.a if self.ctx.branch(v.cond) else v.b
            elif isinstance(v, LastP) and self.ctx.entails(v.cond):
                v = v.val
            elif isinstance(v, Poison):
                raise Unsupported(f"poisoned value: {v.why}")
            else:
                return v

    def raise_(self, cls, *args):
        raise PyRaise(ExcV(cls, args))

    def truth(self, v):
        """Python truth value as bool / z3 Bool (branching only on structure)."""
        v = self.resolve(v)
        if v is None:
            return False
        if isinstance(v, (bool, int, str, float)):
            return bool(v)
        if is_z3(v):
            if v.sort() == z3.BoolSort():
                return v
            if v.sort() in (z3.IntSort(), z3.RealSort()):
                return v != 0
            if v.sort() == StrSort:
                return v != self.w.lit("")
            raise Unsupported("truth of object term")
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, SeqV) and v.flat is not None:
            n, c, chunk = v.flat
            return self.ctx.exists(0, n, lambda k: zbool(And(zbool(c(k)), self.truth(chunk(k)))))
        if isinstance(v, SeqV) and isinstance(v.length(), Poison):
            if v.filt is not None:
                n, c, _ = v.filt
                return self.ctx.exists(0, n, lambda k: zbool(c(k)))
            raise Unsupported("truth of a list under construction")
        if isinstance(v, SeqV):
            n = v.length()
            return n > 0
        if isinstance(v, DictV):
            if v.present:
                return Or(*[v.present.get(k, True) for k in v.d])
            return len(v.d) > 0
        if isinstance(v, SetV) and v.items is not None:
            return len(v.items) > 0
        if isinstance(v, SetV) and getattr(v, "enum", None) is not None:
            n, c, _ = v.enum
            if isinstance(n, int):
                return Or(*[c(k) for k in range(n)])
            return self.ctx.exists(0, n, lambda k: zbool(c(k)))
        if isinstance(v, (RecV, ElemRec)):
            if isinstance(v.cls, ClassV):
                for m in ("__bool__", "__len__"):
                    _, f = v.cls.lookup(m)
                    if f is not None:
                        return self.truth(self.call(BoundV(f, v), [], {}))
            return True
        if isinstance(v, (FuncV, ClassV, BoundV, ExtV, BuiltinV, ExcV)):
            return True
        if isinstance(v, NdV):
            if all(isinstance(s, int) for s in v.shape) and math.prod(v.shape) == 1:
                return self.truth(v.fn(*[0] * v.ndim))
            if v.ndim == 0:
                return self.truth(v.fn())
            self.raise_("ValueError", "ambiguous array truth")
        if isinstance(v, MapV):
            if v.keysort is not None:
                y = z3.FreshConst(v.keysort, "key")
                return z3.Exists([y], v.has(y))
        raise Unsupported(f"truth of {type(v).__name__}")

    def test(self, v):
        return self.ctx.branch(self.truth(v))

    # ------------------------------------------------------------ sequences
    def as_seq(self, v):
        """Iterable -> SeqV-like (SeqV)"""
        v = self.resolve(v)
        if isinstance(v, SeqV):
            return v
        if isinstance(v, tuple):
            return SeqV("tuple", items=list(v))
        if isinstance(v, str):
            return SeqV("list", items=list(v))
        if isinstance(v, NdV):
            if v.ndim == 1:
                n = v.shape[0]
                if isinstance(n, int):
                    f = v.fn
                    return SeqV("list", items=[f(i) for i in range(n)])
                r = SeqV("list", n=n, fn=v.fn)
                r.filt = v.filt
                return r
            n = v.shape[0]
            row = lambda i: self.nd_row(v, i)
            if isinstance(n, int):
                return SeqV("list", items=[row(i) for i in range(n)])
            return SeqV("list", n=n, fn=row)
        if isinstance(v, DictV):
            if v.present:
                raise Unsupported("iteration over dict with conditional keys")
            return SeqV("list", items=[self.unkey(k) for k in v.d])
        if isinstance(v, SetV):
            if v.items is not None:
                its = []
                for x in v.items:
                    if not any(self.ctx.branch(zbool(eq_val(self.ctx, x, y))) for y in its):
                        its.append(x)
                return SeqV("list", items=its)
            if getattr(v, "src", None) is not None:
                return v.src
            raise Unsupported("iteration over symbolic set")
        if isinstance(v, (RecV, ElemRec)):
            if isinstance(v, RecV) and "__iter__" in v.stubs:
                return self.as_seq(v.stubs["__iter__"](self, v))
            if isinstance(v.cls, ClassV):
                _, f = v.cls.lookup("__iter__")
                if f is not None:
                    return self.as_seq(self.call(BoundV(f, v), [], {}))
                _, f = v.cls.lookup("__getitem__")
                _, fl = v.cls.lookup("__len__")
                if f is not None and fl is not None:
                    n = self.call(BoundV(fl, v), [], {})
                    return SeqV("list", n=n, fn=lambda i: self.call(BoundV(f, v), [i], {}))
        raise Unsupported(f"iterate {type(v).__name__}")

    def seq_select(self, s, i):
        """element i, assuming 0<=i<n"""
        if s.items is None:
            return s.fn(i)
        if isinstance(i, int):
            return s.items[i]
        if z3.is_int_value(i):
            return s.items[i.as_long()]
        if not s.items:
            return Poison("select from empty")
        v = s.items[-1]
        for j in range(len(s.items) - 2, -1, -1):
            v = ite_val(self.ctx, i == j, s.items[j], v)
        return v

    def norm_index(self, i, n, what="list index out of range"):
        """Python index semantics -> 0<=i<n, else IndexError path."""
        i = self.resolve(i)
        if isinstance(i, bool):
            i = int(i)
        if is_real(i) or not is_int(i):
            raise Unsupported(f"index of type {type(i).__name__}")
        if z3.is_expr(i) and z3.is_int_value(i):
            i = i.as_long()
        if isinstance(i, int) and isinstance(n, int):
            if -n <= i < n:
                return i % n if i < 0 else i
            self.raise_("IndexError", what)
        if isinstance(i, int) and i < 0:
            if self.ctx.entails(n >= -i):
                return z3.simplify(n + i) if is_z3(n) else n + i
            if self.ctx.branch(zbool(n >= -i)):
                return n + i
            self.raise_("IndexError", what)
        if self.ctx.entails(And(i >= 0, i < n)):
            return i
        if self.ctx.branch(z3.And(i >= 0, i < n)):
            return i
        if self.ctx.branch(z3.And(i < 0, i >= -n)):
            return i + n
        self.raise_("IndexError", what)

    def slice_bounds(self, sl, n):
        lo, hi, st = sl.lo, sl.hi, sl.step
        if st not in (None, 1):
            if st == -1 and lo is None and hi is None:
                return None
            raise Unsupported("slice step")

        def clamp(x, default):
            if x is None:
                return default
            if isinstance(x, int) and isinstance(n, int):
                if x < 0:
                    x += n
                return max(0, min(x, n))
            x = self.resolve(x)
            if isinstance(x, int) and x == 0:
                return 0
            if isinstance(x, int) and x < 0:
                x = x + n
                return z3.simplify(z3.If(x < 0, 0, x))
            xi, ni = to_int(x), to_int(n)
            neg = z3.If(xi + ni < 0, z3.IntVal(0), xi + ni)
            return z3.simplify(z3.If(xi < 0, neg, z3.If(xi > ni, ni, xi)))
        lo = clamp(lo, 0)
        hi = clamp(hi, n)
        return lo, hi

    def seq_slice(self, s, sl):
        n = s.length()
        b = self.slice_bounds(sl, n)
        kind = s.kind if s.kind in ("list", "tuple") else "list"
        if b is None:
            if s.items is not None:
                return SeqV(kind, items=list(reversed(s.items)))
            return SeqV(kind, n=n, fn=lambda i: s.fn(n - 1 - i))
        lo, hi = b
        if s.items is not None and isinstance(lo, int) and isinstance(hi, int):
            return SeqV(kind, items=s.items[lo:hi])
        s = self.seq_copy(s)
        if is_z3(hi) and self.ctx.entails(hi >= lo):
            m = z3.simplify(hi - lo)
        elif is_z3(lo) and not is_z3(hi) and self.ctx.entails(hi >= lo):
            m = z3.simplify(hi - lo)
        else:
            d = to_int(hi) - to_int(lo)
            m = z3.simplify(z3.If(d < 0, z3.IntVal(0), d))
        if z3.is_int_value(m):
            m = m.as_long()
            return SeqV(kind, items=[self.seq_select(s, lo + i) for i in range(m)])
        if isinstance(lo, int) and lo == 0:
            f0 = s if s.items is not None else None
            return SeqV(kind, n=m, fn=(lambda i: self.seq_select(s, i)) if f0 else s.fn)
        snap_fn = s.fn
        return SeqV(kind, n=m, fn=(lambda i: snap_fn(lo + i)) if s.items is None else (lambda i: self.seq_select(s, lo + i)))

    def seq_copy(self, s, kind="list"):
        s = self.as_seq(s)
        if s.items is not None:
            return SeqV(kind, items=list(s.items))
        if isinstance(s, RecListV):
            # the copy shares element objects
            r = SeqV(kind, n=s.n, fn=lambda i: ElemRec(s, i))
            r.share = s
            return r
        r = SeqV(kind, n=s.n, fn=s.fn)
        r.filt = s.filt
        return r

    def seq_concat(self, a, b, kind):
        a, b = self.as_seq(a), self.as_seq(b)
        if a.items is not None and b.items is not None:
            return SeqV(kind, items=a.items + b.items)
        na, nb = a.length(), b.length()
        sa = SeqV("list", items=list(a.items)) if a.items is not None else SeqV("list", n=a.n, fn=a.fn)
        sb = SeqV("list", items=list(b.items)) if b.items is not None else SeqV("list", n=b.n, fn=b.fn)

        def fn(i):
            if isinstance(i, int) and isinstance(na, int):
                return self.seq_select(sa, i) if i < na else self.seq_select(sb, i - na)
            if isinstance(na, int) and na == 0:
                return self.seq_select(sb, i)
            return ite_val(self.ctx, i < na, self.seq_select(sa, i), self.seq_select(sb, i - na))
        return SeqV(kind, n=na + nb, fn=fn)

    # ------------------------------------------------------------ arrays
    def nd_row(self, a, *idx):
        if len(idx) == a.ndim:
            return a.fn(*idx)
        return NdV(a.shape[len(idx):], None, a.dtype, parent=a,
                   viewfn=lambda pf: (lambda *j: pf(*idx, *j)), viewidx=idx)

    def nd_from(self, v, dtype=None):
        v = self.resolve(v)
        if isinstance(v, NdV):
            f = v.fn
            r = NdV(v.shape, f, v.dtype)
            r.filt = v.filt
            return r
        if is_num(v) or is_bool(v) or is_str(v):
            return NdV((), lambda: v, dtype or "float")
        s = self.as_seq(v)
        n = s.length()
        if isinstance(n, int):
            els = [self.resolve(s.get(i)) for i in range(n)]
            if n and any(isinstance(e, (SeqV, tuple, NdV)) for e in els):
                rows = [self.nd_from(e) for e in els]
                shp = rows[0].shape
                for r in rows[1:]:
                    for x, y in zip(shp, r.shape):
                        if not self.ctx.entails(eq_val(self.ctx, x, y)):
                            raise Unsupported("ragged array")
                fns = [r.fn for r in rows]

                def fn(i, *j):
                    if isinstance(i, int):
                        return fns[i](*j)
                    v = fns[-1](*j)
                    for q in range(n - 2, -1, -1):
                        v = ite_val(self.ctx, i == q, fns[q](*j), v)
                    return v
                return NdV((n,) + shp, fn, rows[0].dtype)
            cs = SeqV("list", items=els)
            dt = "int" if all(is_int(e) for e in els) else "bool" if all(is_bool(e) for e in els) else "float"
            return NdV((n,), lambda i: self.seq_select(cs, i), dt)
        # symbolic length: inspect generic element
        k = z3.FreshInt("probe")
        f0 = s.fn

        def lift(v):
            """a conditional between rows of equal length as one row of conditionals"""
            if isinstance(v, IteV):
                a, b = lift(v.a), lift(v.b)
                xs = [list(x) if isinstance(x, tuple) else x.items if isinstance(x, SeqV) else None for x in (a, b)]
                if all(x is not None for x in xs) and len(xs[0]) == len(xs[1]):
                    return SeqV("list", items=[ite_val(self.ctx, v.cond, x, y) for x, y in zip(*xs)])
            return v
        if isinstance(f0(k), IteV):
            s = SeqV(s.kind, n=s.n, fn=lambda i: lift(f0(i)))
        e = s.fn(k)
        if isinstance(e, (SeqV, tuple, NdV)):
            row = self.nd_from(e)
            if any(is_z3(d) and "probe" in str(d) for d in row.shape):
                raise Unsupported("ragged symbolic array")
            f = s.fn
            return NdV((n,) + row.shape, lambda i, *j: self.nd_from(f(i)).fn(*j), row.dtype)
        dt = "int" if is_int(e) else "bool" if is_bool(e) else "float"
        f = s.fn
        r = NdV((n,), lambda i: f(i), dt)
        r.filt = s.filt
        return r

    def same_dim(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return self.ctx.entails(to_int(a) == to_int(b))

    def broadcast(self, shapes):
        nd = max(len(s) for s in shapes)
        out = []
        for ax in range(nd):
            dims = [s[ax - (nd - len(s))] for s in shapes if ax - (nd - len(s)) >= 0]
            big = [d for d in dims if not (isinstance(d, int) and d == 1)]
            d0 = big[0] if big else 1
            for d in big[1:]:
                if not self.same_dim(d0, d):
                    if isinstance(d0, int) and isinstance(d, int):
                        self.raise_("ValueError", "operands could not be broadcast")
                    if self.ctx.branch(to_int(d0) == to_int(d)):
                        continue
                    raise Unsupported("broadcast of unrelated symbolic dimensions")
            out.append(d0)
        return tuple(out)

    def nd_map(self, f, *arrs, dtype="float"):
        arrs = [a if isinstance(a, NdV) else self.nd_from(a) for a in arrs]
        shape = self.broadcast([a.shape for a in arrs])
        nd = len(shape)
        fns = [(a.fn, a.shape) for a in arrs]

        def fn(*idx):
            vals = []
            for g, s in fns:
                off = nd - len(s)
                ii = [0 if (isinstance(s[q], int) and s[q] == 1 and not (isinstance(shape[off + q], int) and shape[off + q] == 1)) else idx[off + q] for q in range(len(s))]
                vals.append(g(*ii))
            return f(*vals)
        return NdV(shape, fn, dtype)

    def nd_binop(self, f, a, b, dtype="bool"):
        return self.nd_map(f, a, b, dtype=dtype)

    def nd_index(self, a, idx):
        """Resolve an index expression; returns scalar, NdV."""
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = tuple(self.resolve(i) for i in idx)
        if len(idx) == 1 and isinstance(idx[0], SeqV) and idx[0].kind == "tuple":
            idx = tuple(self.as_seq(idx[0]).items)
        # boolean mask
        if len(idx) == 1 and isinstance(idx[0], NdV) and idx[0].dtype == "bool":
            return self.nd_filter(a, idx[0])
        plan = []
        ax = 0
        for it in idx:
            if it is None:
                plan.append(("new",))
                continue
            n = a.shape[ax] if ax < a.ndim else None
            if n is None:
                self.raise_("IndexError", "too many indices")
            if isinstance(it, SliceV):
                b = self.slice_bounds(it, n)
                if b is None:
                    plan.append(("rev", n))
                else:
                    lo, hi = b
                    m = hi - lo
                    if is_z3(m):
                        m = z3.simplify(m)
                        if z3.is_int_value(m):
                            m = m.as_long()
                    if is_z3(m) and not self.ctx.entails(m >= 0):
                        m = z3.If(m < 0, z3.IntVal(0), m)
                    plan.append(("slice", lo, m))
            elif isinstance(it, (NdV, SeqV)) and not isinstance(it, tuple):
                g = it if isinstance(it, NdV) else self.nd_from(it)
                if g.ndim != 1:
                    raise Unsupported("fancy index ndim")
                # indices must be in range: obligation by branch
                gi = g.fn
                m = g.shape[0]
                if isinstance(m, int):
                    vals = [self.norm_index(gi(q), n, "index out of bounds") for q in range(m)]
                    sv = SeqV("list", items=vals)
                    plan.append(("gather", m, (lambda q, sv=sv: self.seq_select(sv, q))))
                else:
                    okf = self.ctx.forall(0, m, lambda q: And(gi(q) >= 0, gi(q) < n))
                    if not self.ctx.entails(okf):
                        if self.ctx.entails(self.ctx.forall(0, m, lambda q: And(gi(q) >= -n, gi(q) < n))):
                            g2 = lambda q: ite_val(self.ctx, gi(q) < 0, gi(q) + n, gi(q))
                            plan.append(("gather", m, g2))
                            ax += 1
                            continue
                        if not self.ctx.branch(okf):
                            raise Unsupported("fancy index possibly out of range")
                    plan.append(("gather", m, gi))
            else:
                plan.append(("pt", self.norm_index(it, n, "index out of bounds")))
            ax += 1
        if sum(p[0] == "gather" for p in plan) > 1 and not all(getattr(i, "ix", False) for i in idx):
            raise Unsupported("several index arrays in one subscript")
        rest = a.shape[ax:]
        shape = []
        for p in plan:
            if p[0] == "new":
                shape.append(1)
            elif p[0] == "rev":
                shape.append(p[1])
            elif p[0] == "slice":
                shape.append(p[2])
            elif p[0] == "gather":
                shape.append(p[1])
        shape = tuple(shape) + tuple(rest)
        fn0 = a.fn

        def fn(pf, *j):
            j = list(j)
            out = []
            for p in plan:
                if p[0] == "new":
                    j.pop(0)
                elif p[0] == "rev":
                    out.append(p[1] - 1 - j.pop(0))
                elif p[0] == "slice":
                    q = j.pop(0)
                    out.append(q if isinstance(p[1], int) and p[1] == 0 else p[1] + q)
                elif p[0] == "gather":
                    out.append(p[2](j.pop(0)))
                else:
                    out.append(p[1])
            return pf(*out, *j)
        if not shape:
            return fn0(*[p[1] for p in plan])
        if any(p[0] == "gather" for p in plan):
            return NdV(shape, lambda *j: fn(fn0, *j), a.dtype)
        pts = tuple(p[1] for p in plan) if all(p[0] == "pt" for p in plan) else None
        return NdV(shape, None, a.dtype, parent=a, viewfn=lambda pf: (lambda *j: fn(pf, *j)), viewidx=pts)

    def nd_filter(self, a, mask):
        """a[mask] for 1-D mask"""
        if mask.ndim != 1:
            raise Unsupported("mask ndim")
        n = mask.shape[0]
        fn = a.fn
        mf = mask.fn
        if a.ndim == 1:
            s = self.filter_seq(n, lambda k: self.truth(mf(k)), lambda k: fn(k))
            if s.items is not None:
                return self.nd_from(s)
            r = NdV((s.n,), lambda i: s.fn(i), a.dtype)
            r.filt = s.filt
            return r
        s = self.filter_seq(n, lambda k: self.truth(mf(k)), lambda k: k)
        if s.items is not None:
            its = s.items
            return NdV((len(its),) + a.shape[1:], lambda i, *j: fn(self.seq_select(s, i), *j), a.dtype)
        return NdV((s.n,) + a.shape[1:], lambda i, *j: fn(s.fn(i), *j), a.dtype)

    def filter_seq(self, n, cond, val, kind="list"):
        """[val(k) for k in range(n) if cond(k)]"""
        if isinstance(n, int):
            out = []
            for k in range(n):
                if self.ctx.branch(zbool(cond(k))):
                    out.append(val(k))
            return SeqV(kind, items=out)
        idx, cnt = self.filter_index(n, cond)
        s = SeqV(kind, n=cnt, fn=lambda j: val(idx(j)))
        s.filt = (n, cond, val)
        return s

    def filter_index(self, n, cond):
        """Strictly increasing enumeration idx:[0,cnt)->{k<n: cond(k)} with its facts."""
        ctx = self.ctx
        I = z3.IntSort()
        k = z3.Const(ctx.name("fk"), I)
        c = cond(k)
        ck = zbool(c)
        cnt = ctx.w.folds.fold("add", to_int(n), k, z3.If(ck, z3.IntVal(1), z3.IntVal(0)))
        key = ("filter", z3.substitute(ck, (k, z3.Int("%fk"))).sexpr(), n if isinstance(n, int) else n.sexpr())
        reg = ctx.__dict__.setdefault("filters", {})
        if key in reg and not ctx.loopvars:
            return reg[key]
        idx = ctx.fresh_fn("idx", I, I)
        rank = ctx.fresh_fn("rank", I, I)
        j, q = z3.Ints("j!f q!f")
        ctx.assume(cnt >= 0)
        ctx.assume(cnt <= n)
        cj = z3.substitute(ck, (k, idx(j)))
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cnt), z3.And(0 <= idx(j), idx(j) < n, cj, rank(idx(j)) == j)), patterns=[idx(j)]))
        ctx.assume(z3.ForAll([j, q], z3.Implies(z3.And(0 <= j, j < q, q < cnt), idx(j) < idx(q)), patterns=[z3.MultiPattern(idx(j), idx(q))]))
        cq = z3.substitute(ck, (k, q))
        pats = [rank(q)]
        ctx.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n, cq), z3.And(0 <= rank(q), rank(q) < cnt, idx(rank(q)) == q)), patterns=pats))
        # existence in a trigger-free direction: some k satisfies cond -> cnt>0
        ctx.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n, cq), z3.And(cnt > 0, 0 <= rank(q), rank(q) < cnt, idx(rank(q)) == q))))
        if not ctx.loopvars:
            reg[key] = (idx, cnt)
        return idx, cnt

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        return m(st, env)

    def s_Pass(self, st, env):
        pass

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        rhs = None
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            rhs = self.eval(st.value, env)
            new = self.inplace(cur, st.op, rhs)
            self.bind_name(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, env)
            cur = self.getattr(obj, t.attr)
            new = self.inplace(cur, st.op, self.eval(st.value, env))
            self.setattr(obj, t.attr, new)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env)
            idx = self.eval_index(t.slice, env)
            cur = self.getitem(obj, idx)
            new = self.inplace(cur, st.op, self.eval(st.value, env), fresh=True)
            self.setitem(obj, idx, new)
        else:
            raise Unsupported("augassign target")

    def inplace(self, cur, op, rhs, fresh=False):
        cur = self.resolve(cur)
        if isinstance(cur, SeqV) and isinstance(op, ast.Add) and cur.kind == "list":
            self.models.list_extend(self, cur, rhs)
            return cur
        if isinstance(cur, NdV) and not fresh:
            new = self.binop(op, cur, rhs)
            if isinstance(new, NdV) and len(new.shape) == len(cur.shape):
                self.nd_assign_all(cur, new)
                return cur
        return self.binop(op, cur, rhs)

    def nd_assign_all(self, cur, new):
        if cur.parent is not None:
            if cur.viewidx is None:
                raise Unsupported("in-place update of slice view")
            self.nd_write(cur.parent, cur.viewidx, new)
            return
        if cur.log is not None:
            raise Unsupported("whole-array update in loop")
        if cur.dtype == "int" and new.dtype == "float":
            self.raise_("TypeError", "casting")
        cur.fn = new.fn

    def bind_name(self, name, v, env):
        env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env)
            self.setitem(obj, self.eval_index(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assign target")

    def unpack(self, elts, v, env):
        s = self.as_seq(v)
        n = s.length()
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            if not isinstance(n, int):
                raise Unsupported("starred unpack")
            k = star[0]
            after = len(elts) - k - 1
            if n < len(elts) - 1:
                self.raise_("ValueError", "unpack")
            items = [s.get(i) for i in range(n)]
            for e, x in zip(elts[:k], items):
                self.assign(e, x, env)
            self.assign(elts[k].value, SeqV("list", items=items[k:n - after]), env)
            for e, x in zip(elts[k + 1:], items[n - after:]):
                self.assign(e, x, env)
            return
        if not isinstance(n, int):
            if self.ctx.branch(n == len(elts)):
                for i, e in enumerate(elts):
                    self.assign(e, s.fn(z3.IntVal(i)) if s.items is None else s.items[i], env)
                return
            self.raise_("ValueError", "unpack")
        if n != len(elts):
            self.raise_("ValueError", "unpack")
        for i, e in enumerate(elts):
            self.assign(e, s.get(i), env)

    def s_If(self, st, env):
        if self.test(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def s_Return(self, st, env):
        raise ReturnSig(self.eval(st.value, env) if st.value is not None else None)

    def s_Break(self, st, env):
        raise BreakSig()

    def s_Continue(self, st, env):
        raise ContinueSig()

    def s_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self, "_handling", None)
            if cur:
                raise PyRaise(cur[-1])
            raise Unsupported("bare raise")
        v = self.resolve(self.eval_exc(st.exc, env))
        if isinstance(v, BuiltinV):
            v = ExcV(v.name)
        elif isinstance(v, ClassV):
            v = ExcV(v)
        elif isinstance(v, RecV):
            v = ExcV(v.cls)
        if not isinstance(v, ExcV):
            raise Unsupported("raise of non-exception")
        raise PyRaise(v)

    def eval_exc(self, node, env):
        """Exception constructors: message arguments are not evaluated (dropped)."""
        if isinstance(node, ast.Call):
            f = self.eval(node.func, env)
            if isinstance(f, BuiltinV) and f.name in EXC_PARENTS:
                return ExcV(f.name)
            if isinstance(f, ClassV) and self.exc_ancestor(f):
                return ExcV(f)
        return self.eval(node, env)

    def exc_ancestor(self, c):
        for k in c.mro():
            for e in k.ext_bases:
                if e.split(".")[-1] in EXC_PARENTS:
                    return e.split(".")[-1]
        return None

    def exc_matches(self, exc, handler):
        handler = self.resolve(handler)
        if isinstance(handler, (tuple, SeqV)):
            s = self.as_seq(handler)
            return any(self.exc_matches(exc, s.get(i)) for i in range(s.length()))
        c = exc.cls
        if isinstance(c, ClassV):
            if isinstance(handler, ClassV):
                return handler in c.mro()
            c = self.exc_ancestor(c) or "Exception"
        if isinstance(handler, ClassV):
            return False
        hn = handler.name.split(".")[-1] if isinstance(handler, (BuiltinV, ExtV)) else None
        if hn is None:
            raise Unsupported("except clause")
        c = c.split(".")[-1]
        while c is not None:
            if c == hn:
                return True
            c = EXC_PARENTS.get(c, "Exception" if c not in EXC_PARENTS else None)
        return False

    def s_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.eval(h.type, env)):
                        if h.name:
                            env.vars[h.name] = e.exc
                        self.__dict__.setdefault("_handling", []).append(e.exc)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self._handling.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, env)

    def s_Assert(self, st, env):
        if not self.test(self.eval(st.test, env)):
            self.raise_("AssertionError")

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.resolve(self.eval(t.value, env))
                idx = self.eval_index(t.slice, env)
                self.delitem(obj, idx)
            else:
                raise Unsupported("del")

    def s_Import(self, st, env):
        for al in st.names:
            full = al.name if al.asname else al.name.split(".")[0]
            env.vars[al.asname or al.name.split(".")[0]] = self.module(full) if self.w.repo.has(full) else ExtV(full)

    def s_ImportFrom(self, st, env):
        e = env
        while e.parent is not None:
            e = e.parent
        is_pkg = self.w.repo.path_of(e.module).endswith("__init__.py")
        for al in st.names:
            env.vars[al.asname or al.name] = self.do_import(st, al, e.module, is_pkg)

    def s_FunctionDef(self, st, env):
        f = FuncV(st, self.mod_of(env), env, None, f"{self.mod_of(env).module}:<local>.{st.name}")
        env.vars[st.name] = f

    def mod_of(self, env):
        while env.parent is not None:
            env = env.parent
        return env

    def s_With(self, st, env):
        self.with_items(list(st.items), st.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.exec_block(body, env)
            return
        cm = self.resolve(self.eval(items[0].context_expr, env))
        if not isinstance(cm, RecV):
            raise Unsupported("with statement")
        v = self.call(self.getattr(cm, "__enter__"), [], {})
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except (PyRaise, ReturnSig, BreakSig, ContinueSig):
            # a context manager that swallows exceptions is outside the subset
            self.call(self.getattr(cm, "__exit__"), [None, None, None], {})
            raise
        self.call(self.getattr(cm, "__exit__"), [None, None, None], {})

    def s_Global(self, st, env):
        raise Unsupported("global")

    def s_Nonlocal(self, st, env):
        raise Unsupported("nonlocal")

    def s_While(self, st, env):
        from . import loops
        loops.while_loop(self, st, env)

    def s_For(self, st, env):
        from . import loops
        loops.for_loop(self, st, env)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return real_of_float(v)
        if isinstance(v, (int, str, bool)) or v is None:
            return v
        return Opaque(repr(v))

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                s = self.as_seq(self.eval(x.value, env))
                if s.items is None:
                    if len(e.elts) == 1:
                        return self.seq_copy(s, "tuple")
                    raise Unsupported("star in tuple")
                out.extend(s.items)
            else:
                out.append(self.eval(x, env))
        return tuple(out)

    def e_List(self, e, env):
        segs = []
        cur = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                s = self.as_seq(self.eval(x.value, env))
                if s.items is None:
                    segs.append(SeqV("list", items=cur))
                    cur = []
                    segs.append(s)
                else:
                    cur.extend(s.items)
            else:
                cur.append(self.eval(x, env))
        if not segs:
            return SeqV("list", items=cur)
        if cur:
            segs.append(SeqV("list", items=cur))
        r = segs[0]
        for s in segs[1:]:
            r = self.seq_concat(r, s, "list")
        return r

    def e_Set(self, e, env):
        return SetV(items=[self.eval(x, env) for x in e.elts])

    def key(self, k):
        k = self.resolve(k)
        if is_z3(k):
            if z3.is_int_value(k):
                return k.as_long()
            return ("z3", k.sexpr(), k)
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, SeqV) and k.kind == "tuple" and k.items is not None:
            return tuple(self.key(x) for x in k.items)
        if isinstance(k, (str, int, bool)) or k is None:
            return k
        if isinstance(k, (FuncV, ClassV, ExtV)):
            return k
        raise Unsupported(f"dict key {type(k).__name__}")

    def unkey(self, k):
        if isinstance(k, tuple):
            if len(k) == 3 and k[0] == "z3":
                return k[2]
            return tuple(self.unkey(x) for x in k)
        return k

    @staticmethod
    def concrete_key(k):
        if isinstance(k, tuple):
            if len(k) == 3 and k[0] == "z3":
                return False
            return all(Interp.concrete_key(x) for x in k)
        return True

    def e_Dict(self, e, env):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.resolve(self.eval(v, env))
                if not isinstance(src, DictV):
                    raise Unsupported("** of non-dict")
                for kk, vv in src.d.items():
                    d.d[kk] = vv
                d.present.update(src.present)
            else:
                kv = self.eval(k, env)
                self.dict_set(d, kv, self.eval(v, env))
        return d

    def dict_find(self, d, k):
        """Return matching key of DictV d for key value k (branching), or None."""
        kk = self.key(k)
        if self.concrete_key(kk) and all(self.concrete_key(x) for x in d.d):
            return kk if kk in d.d else None
        if kk in d.d:
            return kk
        kv = self.unkey(kk)
        for x in d.d:
            c = eq_val(self.ctx, self.unkey(x), kv)
            if self.ctx.branch(zbool(c)):
                return x
        return None

    def dict_set(self, d, k, v):
        kk = self.dict_find(d, k)
        if kk is None:
            kk = self.key(k)
        d.d[kk] = v
        d.present.pop(kk, None)

    def e_JoinedStr(self, e, env):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(str(p.value))
            else:
                try:
                    v = self.resolve(self.eval(p.value, env)) if p.format_spec is None and p.conversion == -1 else None
                except (Unsupported, PyRaise):
                    v = None
                if isinstance(v, (str, int)) and not isinstance(v, bool):
                    parts.append(str(v))
                else:
                    return Opaque("f-string")
        return "".join(parts)

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return Not(self.truth(v))
        v = self.resolve(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, NdV):
                return self.nd_map(ops.num_neg, v, dtype=v.dtype)
            if is_num(v) or is_bool(v):
                return ops.num_neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, NdV) and v.dtype == "bool":
                return self.nd_map(lambda x: Not(x), v, dtype="bool")
        raise Unsupported("unary op")

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            # keep pure boolean conjunctions as terms when the rest is side-effect free and cheap
            if self.ctx.branch(zbool(t)) != is_and:
                if is_bool(v) and not isinstance(v, bool):
                    return not is_and
                return v
        return v

    def e_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        if self.ctx.branch(zbool(c)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            res = And(res, self.truth(c))
            if isinstance(res, bool) and not res:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_same(a, b)
            return r if isinstance(op, ast.Is) else Not(r)
        if isinstance(op, ast.Eq):
            return eq_val(self.ctx, a, b)
        if isinstance(op, ast.NotEq):
            r = eq_val(self.ctx, a, b)
            if isinstance(r, NdV):
                return self.nd_map(lambda x: Not(x), r, dtype="bool")
            return Not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else Not(r)
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, NdV) or isinstance(b, NdV):
            return self.nd_map(lambda x, y: self.compare(op, x, y), a, b, dtype="bool")
        if isinstance(a, float) or isinstance(b, float):
            return self.compare_special(op, a, b)
        if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                x, y = int(a), int(b)
            elif is_real(a) or is_real(b):
                x, y = to_real(a), to_real(b)
            else:
                x, y = to_int(a), to_int(b)
            if isinstance(op, ast.Lt):
                return x < y
            if isinstance(op, ast.LtE):
                return x <= y
            if isinstance(op, ast.Gt):
                return x > y
            if isinstance(op, ast.GtE):
                return x >= y
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[type(op).__name__]
        if isinstance(a, SetV) and isinstance(b, SetV) and a.items is not None and isinstance(op, ast.LtE):
            return And(*[ops.set_mem(self.ctx, b, x) for x in a.items])
        if a is None or b is None or is_str(a) != is_str(b):
            self.raise_("TypeError", "ordering")
        raise Unsupported(f"compare {type(a).__name__} {type(op).__name__} {type(b).__name__}")

    def compare_special(self, op, a, b):
        if ops.is_nanf(a) or ops.is_nanf(b):
            return False
        if a is None or b is None or is_str(a) or is_str(b):
            self.raise_("TypeError", "ordering")
        va = a if isinstance(a, float) else 0.0
        vb = b if isinstance(b, float) else 0.0
        return {"Lt": va < vb, "LtE": va <= vb, "Gt": va > vb, "GtE": va >= vb}[type(op).__name__]

    def is_same(self, a, b):
        if b is None and isinstance(a, OptV):
            return a.is_none
        if a is None and isinstance(b, OptV):
            return b.is_none
        a, b = self.resolve(a), self.resolve(b)
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if is_bool(a) and is_bool(b):
            return zbool(a) == zbool(b)
        if isinstance(a, bool) or isinstance(b, bool):
            return False
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a.name == b.name
        if isinstance(a, BuiltinV) and isinstance(b, BuiltinV):
            return a.name == b.name
        if isinstance(a, ElemRec) and isinstance(b, ElemRec) and a.lst is b.lst:
            return eq_val(self.ctx, a.i, b.i)
        if is_z3(a) and is_z3(b) and a.sort() == ObjSort and b.sort() == ObjSort:
            return a == b
        if isinstance(a, (RecV, SeqV, DictV, NdV, SetV, ClassV, FuncV)) or isinstance(b, (RecV, SeqV, DictV, NdV, SetV, ClassV, FuncV)):
            return a is b
        if (is_num(a) and isinstance(b, Opaque)) or (is_num(b) and isinstance(a, Opaque)):
            return False   # a number is never a sentinel object
        raise Unsupported("is")

    def contains(self, c, x):
        c = self.resolve(c)
        x = self.resolve(x)
        if isinstance(c, DictV) and isinstance(c.d, PoisonDict):
            if c.d.pred is None:
                raise Unsupported("dict read in loop")
            return Or(c.d.pred(x), *[eq_val(self.ctx, e[1][0], x) for e in c.log or () if e[0] == "set"])
        if isinstance(c, DictV):
            kk = self.key(x)
            if self.concrete_key(kk) and all(self.concrete_key(y) for y in c.d):
                if kk not in c.d:
                    return False
                return c.present.get(kk, True)
            return Or(*[And(eq_val(self.ctx, self.unkey(y), x), c.present.get(y, True)) for y in c.d])
        if isinstance(c, MapV):
            return c.has(ops.strz(self.ctx, x) if is_str(x) else x)
        if isinstance(c, SetV):
            return ops.set_mem(self.ctx, c, x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if is_str(c) and is_str(x):
            return STR_CONTAINS(ops.strz(self.ctx, x), ops.strz(self.ctx, c))
        if isinstance(c, (SeqV, tuple, NdV)):
            if isinstance(c, SeqV) and c.log is not None and c.fn is None and c.items is None:
                raise Unsupported("membership in list under construction")
            s = self.as_seq(c)
            if s.items is not None:
                return Or(*[eq_val(self.ctx, y, x) for y in s.items])
            if s.filt is not None:
                bn, cond, val = s.filt
                return self.ctx.exists(0, bn, lambda k: And(cond(k), eq_val(self.ctx, val(k), x)))
            return self.ctx.exists(0, s.n, lambda k: eq_val(self.ctx, s.fn(k), x))
        if isinstance(c, (RecV, ElemRec)) and isinstance(c.cls, ClassV):
            _, f = c.cls.lookup("__contains__")
            if f is not None:
                return self.truth(self.call(BoundV(f, c), [x], {}))
        raise Unsupported(f"in {type(c).__name__}")

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        o = type(op).__name__
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if o in ("Add", "Mod") and (isinstance(a, (Opaque, str)) and isinstance(b, (Opaque, str))):
                return Opaque("string")
            raise Unsupported("opaque operand")
        if isinstance(a, NdV) or isinstance(b, NdV):
            if o == "MatMult":
                return self.models.np_dot(self, [a, b], {})
            if o in ("BitAnd", "BitOr", "BitXor"):
                f = {"BitAnd": lambda x, y: And(x, y), "BitOr": lambda x, y: Or(x, y), "BitXor": lambda x, y: zbool(x) != zbool(y)}[o]
                return self.nd_map(f, a, b, dtype="bool")
            if not isinstance(a, NdV) and isinstance(a, (SeqV, tuple)):
                a = self.nd_from(a)
            if not isinstance(b, NdV) and isinstance(b, (SeqV, tuple)):
                b = self.nd_from(b)
            da = a.dtype if isinstance(a, NdV) else ("int" if is_int(a) else "float")
            db = b.dtype if isinstance(b, NdV) else ("int" if is_int(b) else "float")
            dt = "int" if da in ("int", "bool") and db in ("int", "bool") and o not in ("Div",) else "float"
            return self.nd_map(lambda x, y: self.scalar_op(o, x, y, numpy=True), a, b, dtype=dt)
        if isinstance(a, str) and o == "Mod":
            return Opaque("string")
        if is_str(a) and is_str(b) and o == "Add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return Opaque("string")
        if isinstance(a, (SeqV, tuple)) and isinstance(b, (SeqV, tuple)) and o == "Add":
            ka = "tuple" if isinstance(a, tuple) or a.kind == "tuple" else "list"
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            return self.seq_concat(a, b, ka)
        if isinstance(a, (SeqV, tuple)) and o == "Mult" or isinstance(b, (SeqV, tuple)) and o == "Mult":
            if isinstance(b, (SeqV, tuple)):
                a, b = b, a
            s = self.as_seq(a)
            if isinstance(b, int) and s.items is not None:
                r = SeqV(s.kind, items=s.items * b)
                return tuple(r.items) if isinstance(a, tuple) else r
            if s.items is not None and len(s.items) == 1 and is_int(b):
                v = s.items[0]
                n = z3.simplify(z3.If(b < 0, z3.IntVal(0), b))
                return SeqV(s.kind, n=n if not self.ctx.entails(b >= 0) else b, fn=lambda i: v)
            raise Unsupported("sequence repetition")
        if isinstance(a, SetV) and isinstance(b, SetV):
            return self.models.set_op(self, o, a, b)
        if isinstance(a, DictV) and isinstance(b, DictV) and o == "BitOr":
            r = DictV(a.d)
            r.present = dict(a.present)
            r.d.update(b.d)
            return r
        return self.scalar_op(o, a, b)

    def scalar_op(self, o, a, b, numpy=False):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, float) or isinstance(b, float):
            if ops.is_nanf(a) or ops.is_nanf(b):
                if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
                    return NAN
            raise Unsupported("inf arithmetic")
        if not ((is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b))):
            if a is None or b is None or is_str(a) or is_str(b):
                self.raise_("TypeError", "operand")
            raise Unsupported(f"{o} on {type(a).__name__},{type(b).__name__}")
        if o == "Add":
            return ops.num_add(a, b)
        if o == "Sub":
            return ops.num_sub(a, b)
        if o == "Mult":
            return ops.num_mul(a, b)
        if o == "Pow":
            return ops.num_pow(a, b)
        if o == "Div":
            x, y = to_real(a), to_real(b)
            if not z3.is_rational_value(y) or y.as_fraction() == 0:
                if not self.ctx.entails(y != 0):
                    if core.has_var(y):
                        raise Unsupported("division under binder")
                    if self.ctx.branch(y == 0):
                        if numpy:
                            raise Unsupported("numpy division by zero")
                        self.raise_("ZeroDivisionError")
            r = x / y
            return z3.simplify(r) if z3.is_rational_value(x) and z3.is_rational_value(y) else r
        if o in ("FloorDiv", "Mod"):
            if isinstance(a, int) and isinstance(b, int) and b != 0:
                return a // b if o == "FloorDiv" else a % b
            if is_int(a) and is_int(b):
                x, y = to_int(a), to_int(b)
                if isinstance(b, int) and b > 0 or self.ctx.entails(y > 0):
                    return x / y if o == "FloorDiv" else x % y
                if self.ctx.branch(y > 0):
                    return x / y if o == "FloorDiv" else x % y
                if self.ctx.branch(y == 0):
                    self.raise_("ZeroDivisionError")
                # y<0: floor semantics from z3 euclidean
                q = -((-x) / y) if False else None
                m = x % (-y)
                # python: x % y in (y,0]; x = y*q + r
                r = z3.If(m == 0, z3.IntVal(0), m + y)
                if o == "Mod":
                    return r
                return (x - r) / y
            if o == "Mod" or o == "FloorDiv":
                x, y = to_real(a), to_real(b)
                if self.ctx.entails(y > 0):
                    q = z3.ToInt(x / y)
                    return z3.ToReal(q) if o == "FloorDiv" else x - y * z3.ToReal(q)
        raise Unsupported(f"operator {o}")

    def e_Lambda(self, e, env):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body)], decorator_list=[], returns=None)
        return FuncV(node, self.mod_of(env), env, None, f"{self.mod_of(env).module}:<lambda>")

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.bind_name(e.target.id, v, env)
        return v

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    # comprehensions are executed as loops appending to a fresh list
    def comp(self, e, env, elt):
        from . import loops
        return loops.comprehension(self, e, env, elt)

    def e_ListComp(self, e, env):
        return self.comp(e, env, lambda en: self.eval(e.elt, en))

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, lambda en: self.eval(e.elt, en))

    def e_SetComp(self, e, env):
        s = self.comp(e, env, lambda en: self.eval(e.elt, en))
        return self.models.set_of_seq(self, s)

    def e_DictComp(self, e, env):
        s = self.comp(e, env, lambda en: (self.eval(e.key, en), self.eval(e.value, en)))
        return self.models.dict_of_pairs(self, s)

    # ------------------------------------------------------------ attribute / index
    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def getattr(self, o, name, default=Ellipsis):
        o = self.resolve(o)
        try:
            return self._getattr(o, name)
        except PyRaise as e:
            if default is not Ellipsis and e.exc.name == "AttributeError":
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, (RecV, ElemRec)):
            if isinstance(o, RecV):
                if name in o.fields:
                    v = o.fields[name]
                    if isinstance(v, LastP) and self.ctx.entails(v.cond):
                        v = v.val
                    if isinstance(v, Poison):
                        raise Unsupported(f"field {name}: {v.why}")
                    if isinstance(v, OptV) and getattr(v, "attr_absent", False):
                        if self.ctx.branch(zbool(v.is_none)):
                            self.raise_("AttributeError", name)
                        return v.val
                    return v
                if name in o.stubs:
                    st = o.stubs[name]
                    if getattr(st, "is_property", False):
                        return st(self, o)
                    return BuiltinV(f"stub:{name}", lambda it, a, k, st=st, o=o: st(it, o, *a, **k))
            else:
                if name in o.lst.fields:
                    return o.lst.fields[name](o.i)
                if name in o.lst.absent:
                    self.raise_("AttributeError", name)
            c = o.cls
            if name == "__class__":
                return c
            if name == "__dict__" and isinstance(o, RecV):
                return DictV(o.fields)
            if isinstance(c, ClassV):
                owner, m = c.lookup(name)
                if m is not None:
                    return self.bind_member(m, o, c, owner)
            if name.startswith("__") and hasattr(object, name):
                raise Unsupported(f"attribute {name}")
            if not getattr(o, "built", False) and name not in getattr(o, "absent", ()):
                # a record described by a contract: the description names only what the
                # contract needs, so a missing name is an AttributeError only if no code of
                # the class could have set it
                if not isinstance(c, ClassV):
                    raise Unsupported(f"attribute {name} not described for {getattr(c, 'name', c)}")
                if c.ext_bases or any(name in attrs_set(k) for k in c.mro()):
                    raise Unsupported(f"attribute {name} not described for {c.name}")
            self.raise_("AttributeError", name)
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            if name == "__module__":
                return o.module.module
            owner, m = o.lookup(name)
            if m is not None:
                return self.bind_member(m, None, o, owner)
            if name == "__new__":
                def new(it, a, k):
                    t = it.resolve(a[0]) if a else None
                    if len(a) != 1 or k or not isinstance(t, ClassV) or it.exc_ancestor(t) or not PLAIN_BASES.issuperset(e.split(".")[-1] for k2 in t.mro() for e in k2.ext_bases):
                        raise Unsupported("__new__")
                    return RecV(t)
                return BuiltinV("object.__new__", new)
            if o.ext_bases or name.startswith("__") and hasattr(type, name):
                raise Unsupported(f"class attribute {name}")
            self.raise_("AttributeError", name)
        if isinstance(o, SuperV):
            mro = o.self_val.cls.mro() if isinstance(o.self_val, (RecV, ElemRec)) else (o.self_val.mro() if isinstance(o.self_val, ClassV) else [])
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.members:
                    inst = o.self_val if not isinstance(o.self_val, ClassV) else None
                    return self.bind_member(c.members[name], inst, o.self_val if isinstance(o.self_val, ClassV) else o.self_val.cls, c)
            if name == "__init__":
                return BuiltinV("object.__init__", lambda it, a, k: None)
            self.raise_("AttributeError", name)
        if isinstance(o, ModV):
            try:
                return self.mod_lookup(o.env, name)
            except KeyError:
                if self.w.repo.has(o.name + "." + name):
                    return self.module(o.name + "." + name)
                self.raise_("AttributeError", name)
        if isinstance(o, ExtV):
            return self.models.ext_attr(self, o, name)
        if isinstance(o, ExcV):
            if name == "args":
                return tuple(o.args)
            raise Unsupported("exception attribute")
        if isinstance(o, SeqV) and name in getattr(o, "attrs", ()):
            return o.attrs[name]
        if isinstance(o, SeqV) and name in getattr(o, "stubs", ()):
            st = o.stubs[name]
            return BuiltinV(name, lambda it, a, k: st(it, o, *a, **k))
        if isinstance(o, (SeqV, NdV, DictV, SetV, MapV, str, tuple)) or is_z3(o) or isinstance(o, (int, float)):
            return self.models.value_attr(self, o, name)
        if isinstance(o, (FuncV, BoundV)):
            if name == "__name__":
                f = o.func if isinstance(o, BoundV) else o
                return f.node.name
            if name == "py_func":
                return o
        if isinstance(o, BuiltinV) and name == "__name__":
            return o.name
        if isinstance(o, BuiltinV) and o.name == "object" and name == "__new__":
            def new(it, a, k):
                t = it.resolve(a[0]) if a else None
                if len(a) != 1 or k or not isinstance(t, ClassV) or it.exc_ancestor(t) or not PLAIN_BASES.issuperset(e.split(".")[-1] for k2 in t.mro() for e in k2.ext_bases):
                    raise Unsupported("__new__")
                return RecV(t)
            return BuiltinV("object.__new__", new)
        if isinstance(o, BuiltinV) and o.name == "object" and name == "__setattr__":
            def raw_set(it, a, k):
                t = it.resolve(a[0])
                if not isinstance(t, RecV) or not isinstance(a[1], str):
                    raise Unsupported("object.__setattr__")
                t.fields[a[1]] = a[2]
            return BuiltinV("object.__setattr__", raw_set)
        if o is None and not name.startswith("__"):
            self.raise_("AttributeError", name)
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def bind_member(self, m, inst, cls, owner):
        if isinstance(m, tuple) and m[0] == "expr":
            key = ("cv", owner.name, id(m[1]))
            cache = owner.__dict__.setdefault("cvals", {})
            if id(m[1]) not in cache:
                v = self.eval(m[1], owner.module)
                if isinstance(v, (SeqV, DictV, SetV, NdV)) and not (isinstance(v, SeqV) and v.kind == "tuple"):
                    nm = [k for k, x in owner.members.items() if x is m]
                    if set(nm) & mutated_names(owner.module.tree)["attrs"]:
                        raise Unsupported(f"class-level state {nm} changes at run time")
                cache[id(m[1])] = v
            return cache[id(m[1])]
        if isinstance(m, FuncV):
            kind = getattr(m, "kind", "method")
            if kind == "static":
                return m
            if kind == "class":
                return BoundV(m, cls)
            if kind == "property":
                if inst is None:
                    raise Unsupported("property on class")
                return self.call(BoundV(m, inst), [], {})
            if inst is None:
                return m
            return BoundV(m, inst)
        return m

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, RecV):
            if isinstance(o.cls, ClassV):
                if o.cls.frozen and not getattr(self, "_init_frozen", None) is o:
                    self.raise_("AttributeError", "frozen")
                _, m = o.cls.lookup(name + ".setter")
                if m is not None:
                    self.call(BoundV(m, o), [v], {})
                    return
            o.fields[name] = v
            return
        if isinstance(o, ElemRec):
            lst = o.lst
            lg = getattr(lst, "flog", None)
            if lg is not None:
                lg.setdefault(name, []).append((o.i, v))
            old = lst.fields.get(name)
            idx = o.i
            if old is None:
                lst.absent.discard(name)
                lst.fields = dict(lst.fields)
                lst.fields[name] = lambda i: v if self._same_idx(i, idx) else Poison("field not set on this element")
            else:
                lst.fields = dict(lst.fields)
                lst.fields[name] = lambda i: ite_val(self.ctx, self._idx_eq(i, idx), v, old(i))
            return
        raise Unsupported(f"setattr on {type(o).__name__}")

    def _idx_eq(self, i, j):
        if isinstance(i, int) and isinstance(j, int):
            return i == j
        return z3.simplify(to_int(i) == to_int(j))

    def _same_idx(self, i, j):
        c = self._idx_eq(i, j)
        return c is True or (is_z3(c) and z3.is_true(c))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.eval(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_index(e.slice, env))

    def getitem(self, o, i):
        o = self.resolve(o)
        if isinstance(o, tuple):
            if isinstance(i, SliceV):
                b = self.slice_bounds(i, len(o))
                if b is None:
                    return tuple(reversed(o))
                if all(isinstance(x, int) for x in b):
                    return o[b[0]:b[1]]
            o = SeqV("tuple", items=list(o))
        if isinstance(o, SeqV):
            if isinstance(i, SliceV):
                return self.seq_slice(o, i)
            if isinstance(o.n, Poison) or (o.items is None and o.fn is None):
                raise Unsupported("read of list under construction")
            j = self.norm_index(i, o.length())
            return self.seq_select(o, j)
        if isinstance(o, NdV):
            return self.nd_index(o, i)
        if isinstance(o, DictV):
            k = self.dict_find(o, i)
            if k is None:
                if getattr(o, "default", None) is not None:
                    if o.log is not None:
                        raise Unsupported("defaultdict insertion in loop")
                    v = self.call(o.default, [], {})
                    self.setitem(o, i, v)
                    return v
                self.raise_("KeyError", i)
            if k in o.present and not self.ctx.branch(zbool(o.present[k])):
                self.raise_("KeyError", i)
            v = o.d[k]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if isinstance(o, MapV):
            k = ops.strz(self.ctx, self.resolve(i)) if is_str(self.resolve(i)) else self.resolve(i)
            if not self.ctx.entails(o.has(k)):
                if not self.ctx.branch(o.has(k)):
                    self.raise_("KeyError", i)
            return o.get(k)
        if isinstance(o, str) and isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                self.raise_("IndexError")
        if isinstance(o, str) and isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
            return o[i.lo:i.hi:i.step]
        if isinstance(o, (RecV, ElemRec)):
            if isinstance(o, RecV) and "__getitem__" in o.stubs:
                return o.stubs["__getitem__"](self, o, i)
            if isinstance(o.cls, ClassV):
                _, f = o.cls.lookup("__getitem__")
                if f is not None:
                    return self.call(BoundV(f, o), [i], {})
        if isinstance(o, (ClassV, BuiltinV, ExtV)):
            return o  # generic alias such as dict[str, int]
        if o is None:
            self.raise_("TypeError", "not subscriptable")
        raise Unsupported(f"subscript of {type(o).__name__}")

    def setitem(self, o, i, v):
        o = self.resolve(o)
        if isinstance(o, SeqV):
            if o.kind == "tuple":
                self.raise_("TypeError")
            if isinstance(i, SliceV):
                raise Unsupported("slice assignment")
            if o.items is None and o.fn is None:
                raise Unsupported("write to list under construction")
            j = self.norm_index(i, o.length(), "list assignment index out of range")
            if o.log is not None:
                o.log.append(("set", (j,), v))
            if o.items is not None and isinstance(j, int):
                o.items = list(o.items)
                o.items[j] = v
                return
            if o.items is not None:
                o.items = [ite_val(self.ctx, j == q, v, x) for q, x in enumerate(o.items)]
                return
            old = o.fn
            o.fn = lambda q: ite_val(self.ctx, self._idx_eq(q, j), v, old(q))
            o.filt = None
            return
        if isinstance(o, NdV):
            self.nd_setitem(o, i, v)
            return
        if isinstance(o, DictV):
            if o.log is not None and (isinstance(o.d, PoisonDict) or not self.concrete_key(self.key(i))):
                o.log.append(("set", (self.resolve(i),), v))
                return
            self.dict_set(o, i, v)
            return
        if isinstance(o, MapV):
            k = self.resolve(i)
            k = ops.strz(self.ctx, k) if is_str(k) else k
            h, g = o.has, o.get
            if o.log is not None:
                o.log.append(("set", (k,), v))
            o.has = lambda y: Or(y == k, h(y))
            o.get = lambda y: ite_val(self.ctx, y == k, v, g(y))
            return
        raise Unsupported(f"setitem on {type(o).__name__}")

    def nd_setitem(self, a, idx, v):
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = tuple(self.resolve(x) for x in idx)
        v = self.resolve(v)
        if len(idx) == 1 and isinstance(idx[0], NdV) and idx[0].dtype == "bool" and a.ndim == 1:
            m = idx[0].fn
            old = a.fn
            if is_num(v) or is_bool(v):
                if a.log is not None:
                    raise Unsupported("mask write in loop")
                a.fn = lambda q: ite_val(self.ctx, m(q), v, old(q))
                return
            raise Unsupported("mask assignment")
        if all(isinstance(x, SliceV) and x.lo is None and x.hi is None and x.step is None for x in idx):
            new = self.nd_from(v) if not isinstance(v, NdV) else v
            shape = self.broadcast([a.shape, new.shape])
            nm = self.nd_map(lambda x, y: y, a, new)
            if a.log is not None:
                raise Unsupported("whole write in loop")
            a.fn = nm.fn
            return
        if any(isinstance(x, (SliceV, NdV, SeqV)) for x in idx):
            if isinstance(idx[0], (NdV, SeqV)) and len(idx) == 1 and a.ndim == 1 and (is_num(v) or is_bool(v)):
                g = idx[0] if isinstance(idx[0], NdV) else self.nd_from(idx[0])
                m = g.shape[0]
                old = a.fn
                if a.log is not None:
                    raise Unsupported("fancy write in loop")
                if isinstance(m, int):
                    for q in range(m):
                        self.nd_write(a, (self.norm_index(g.fn(q), a.shape[0]),), v)
                    return
                a.fn = lambda q: ite_val(self.ctx, self.ctx.exists(0, m, lambda r: g.fn(r) == q), v, old(q))
                return
            if any(isinstance(x, (NdV, SeqV)) for x in idx):
                raise Unsupported("slice assignment on array")
            return self.nd_block_write(a, idx, v)
        norm = tuple(self.norm_index(x, a.shape[q], "index out of bounds") for q, x in enumerate(idx))
        self.nd_write(a, norm, v)

    def nd_block_write(self, a, idx, v):
        """a[i, lo:hi, ...] = v"""
        if a.parent is not None:
            raise Unsupported("block write through view")
        idx = idx + tuple(SliceV(None, None, None) for _ in range(a.ndim - len(idx)))
        if len(idx) > a.ndim:
            self.raise_("IndexError", "too many indices")
        src = v if isinstance(v, NdV) else self.nd_from(v)
        blk, dims = [], []
        for q, x in enumerate(idx):
            if isinstance(x, SliceV):
                b = self.slice_bounds(x, a.shape[q])
                if b is None:
                    raise Unsupported("reversed block write")
                blk.append(BlkV(*b))
                m = b[1] - b[0]
                dims.append(m if isinstance(m, int) else z3.simplify(m))
            else:
                blk.append(self.norm_index(x, a.shape[q], "index out of bounds"))
        if src.ndim > len(dims):
            raise Unsupported("block write dimensions")
        off = len(dims) - src.ndim
        one = []
        for d, s in zip(dims[off:], src.shape):
            if isinstance(s, int) and s == 1:
                one.append(True)
                continue
            one.append(False)
            if isinstance(d, int) and isinstance(s, int):
                if d != s:
                    self.raise_("ValueError", "could not broadcast")
            elif not self.ctx.branch(zbool(to_int(d) == to_int(s))):
                if self.ctx.branch(zbool(to_int(s) == 1)):
                    one[-1] = True
                else:
                    self.raise_("ValueError", "could not broadcast")
        sf = src.fn
        val = NdV(tuple(dims), lambda *j: self.nd_cast(a, sf(*[0 if o else x for o, x in zip(one, j[off:])])), a.dtype)
        if a.log is not None:
            a.log.append(("set", tuple(blk), val))
        old = a.fn
        a.fn = lambda *q: self.blk_value(blk, val, q, old)

    def blk_value(self, blk, val, q, old):
        cs, j = [], []
        for b, x in zip(blk, q):
            if isinstance(b, BlkV):
                cs.append(And(to_int(b.lo) <= to_int(x), to_int(x) < to_int(b.hi)))
                j.append(z3.simplify(to_int(x) - to_int(b.lo)))
            else:
                cs.append(self._idx_eq(x, b))
        return ite_val(self.ctx, zbool(And(*cs)), val.fn(*j), old(*q))

    def nd_cast(self, a, v):
        if a.dtype == "int" and is_real(v):
            return self.models.trunc(self, v)
        if a.dtype == "float" and is_int(v):
            return to_real(v)
        return v

    def nd_write(self, a, idx, v):
        if a.parent is not None:
            if a.viewidx is None:
                raise Unsupported("write through slice view")
            self.nd_write(a.parent, a.viewidx + idx, v)
            return
        if len(idx) < a.ndim:
            rest = a.shape[len(idx):]
            if not all(isinstance(d, int) for d in rest):
                raise Unsupported("row write with symbolic row length")
            src = v if isinstance(v, NdV) else self.nd_from(v)
            self.broadcast([rest, src.shape])
            import itertools
            vals = {}
            for j in itertools.product(*[range(d) for d in rest]):
                jj = j[len(j) - src.ndim:] if src.ndim else ()
                jj = tuple(0 if isinstance(s, int) and s == 1 else q for s, q in zip(src.shape, jj))
                vals[j] = src.fn(*jj)
            for j, val in vals.items():
                self._nd_write1(a, idx + j, val)
            return
        if isinstance(v, NdV):
            if v.ndim == 0:
                v = v.fn()
            else:
                raise Unsupported("array into scalar cell")
        self._nd_write1(a, idx, v)

    def _nd_write1(self, a, idx, v):
        v = self.nd_cast(a, v)
        if a.log is not None:
            a.log.append(("set", idx, v))
        old = a.fn

        def fn(*q):
            c = And(*[self._idx_eq(x, y) for x, y in zip(q, idx)])
            if isinstance(c, bool):
                return v if c else old(*q)
            return ite_val(self.ctx, c, v, old(*q))
        a.fn = fn

    def delitem(self, o, i):
        if isinstance(o, DictV):
            k = self.dict_find(o, i)
            if k is None:
                self.raise_("KeyError")
            if k in o.present and not self.ctx.branch(zbool(o.present[k])):
                self.raise_("KeyError")
            d = dict(o.d)
            del d[k]
            o.d = d
            o.present.pop(k, None)
            return
        if isinstance(o, SeqV) and isinstance(i, SliceV):
            n = o.length()
            b = self.slice_bounds(i, n)
            if b is None:
                raise Unsupported("del slice")
            lo, hi = b
            if o.items is not None and isinstance(lo, int) and isinstance(hi, int):
                its = list(o.items)
                del its[lo:hi]
                o.items = its
                return
            head = SeqV("list", items=o.items[:lo]) if o.items is not None and isinstance(lo, int) else SeqV("list", n=lo, fn=lambda q, s=self.seq_copy(o): self.seq_select(s, q))
            src = self.seq_copy(o)
            d = to_int(hi) - to_int(lo)
            cut = z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
            o.items = None
            o.n = z3.simplify(to_int(n) - cut)
            o.fn = lambda q: ite_val(self.ctx, to_int(q) < to_int(lo), self.seq_select(src, q), self.seq_select(src, z3.simplify(q + cut)))
            return
        if isinstance(o, SeqV):
            n = o.length()
            j = self.norm_index(i, n)
            return self.delitem(o, SliceV(j, j + 1, None))
        raise Unsupported("del")

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env):
        # logging is dropped entirely (arguments are not evaluated)
        if isinstance(e.func, ast.Attribute):
            try:
                base = self.eval(e.func.value, env) if isinstance(e.func.value, ast.Name) else None
            except Unsupported:
                base = None
            if isinstance(base, ExtV) and base.name == "logging.logger":
                return None
        if isinstance(e.func, ast.Name) and e.func.id == "print":
            return None
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.make_super(env)
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.as_seq(self.eval(a.value, env))
                if s.items is None:
                    if isinstance(f, BuiltinV) and f.name == "zip":
                        return self.models.zip_star(self, s)
                    raise Unsupported("star call with symbolic length")
                args.extend(s.items)
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.resolve(self.eval(k.value, env))
                if not isinstance(d, DictV):
                    raise Unsupported("** call")
                if d.present:
                    raise Unsupported("** call with conditional keys")
                for kk, vv in d.d.items():
                    if not isinstance(kk, str):
                        raise Unsupported("** key")
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def make_super(self, env):
        e = env
        while e is not None:
            fn = getattr(e, "func", None)
            if fn is not None and fn.owner is not None:
                return SuperV(fn.owner, e.vars[fn.node.args.args[0].arg])
            e = e.parent
        raise Unsupported("super()")

    def call(self, f, args, kw):
        f = self.resolve(f)
        if isinstance(f, BuiltinV):
            if f.fn is None:
                return ExcV(f.name, tuple(args))
            return f.fn(self, args, kw)
        if isinstance(f, BoundV):
            return self.call_func(f.func, [f.self_val] + list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExtV):
            return self.models.ext_call(self, f.name, args, kw)
        if isinstance(f, (RecV, ElemRec)):
            if isinstance(f, RecV) and "__call__" in f.stubs:
                return f.stubs["__call__"](self, f, *args, **kw)
            if isinstance(f.cls, ClassV):
                _, m = f.cls.lookup("__call__")
                if m is not None:
                    return self.call(BoundV(m, f), args, kw)
        if f is None:
            self.raise_("TypeError", "not callable")
        raise Unsupported(f"call of {type(f).__name__}")

    def instantiate(self, c, args, kw):
        anc = self.exc_ancestor(c)
        if anc:
            return ExcV(c, tuple(args))
        key = f"{c.module.module}:{c.name}"
        if key in self.stub_functions:
            self.w.contracts_used.add(key)
            return self.stub_functions[key](self, c, args, kw)
        o = RecV(c)
        o.built = True
        owner, init = c.lookup("__init__")
        if init is not None and not (c.is_dataclass and owner is not c and owner.is_dataclass is False and False):
            if c.frozen:
                self._init_frozen = o
            self.call(BoundV(init, o), args, kw)
            return o
        if c.is_dataclass:
            names = [n for n, _ in c.dc_fields]
            if len(args) > len(names):
                self.raise_("TypeError")
            given = dict(zip(names, args))
            for k, v in kw.items():
                if k not in names or k in given:
                    self.raise_("TypeError", k)
                given[k] = v
            for n, d in c.dc_fields:
                if n in given:
                    o.fields[n] = given[n]
                elif d is None:
                    self.raise_("TypeError", n)
                else:
                    dv = self.dc_default(c, d)
                    if dv is Ellipsis:
                        self.raise_("TypeError", n)
                    o.fields[n] = dv
            _, post = c.lookup("__post_init__")
            if post is not None:
                prev = getattr(self, "_init_frozen", None)
                self.call(BoundV(post, o), [], {})
            return o
        if args or kw:
            if not c.ext_bases:
                self.raise_("TypeError")
        return o

    def dc_default(self, c, d):
        if isinstance(d, ast.Call) and self.deco_name(d).split(".")[-1] == "field":
            for k in d.keywords:
                if k.arg == "default_factory":
                    return self.call(self.eval(k.value, c.module), [], {})
                if k.arg == "default":
                    return self.eval(k.value, c.module)
            return Ellipsis
        return self.eval(d, c.module)

    def call_func(self, f, args, kw):
        qual = f.qual
        self.w.functions_seen.add(qual)
        if qual in self.stub_functions:
            self.w.contracts_used.add(qual)
            return self.stub_functions[qual](self, f, args, kw)
        if qual in self.callee_contracts and qual != self.verifying:
            self.w.contracts_used.add(qual)
            env = self.bind_args(f, args, kw)
            return self.callee_contracts[qual].at_call(self, f, env.vars)
        if getattr(f, "bad_deco", None):
            raise Unsupported(f"decorator {f.bad_deco}")
        if self.depth > 40:
            raise Unsupported("inlining depth")
        env = self.bind_args(f, args, kw)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            return self.run_generator(f, env)
        self.depth += 1
        try:
            self.exec_block(f.node.body, env)
        except ReturnSig as r:
            return r.value
        finally:
            self.depth -= 1
        return None

    def run_generator(self, f, env):
        raise Unsupported("generator function")

    def bind_args(self, f, args, kw):
        env = Env(f.closure if f.closure is not None else f.module, None)
        env.func = f
        a = f.node.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        defaults = a.defaults
        vals = {}
        if len(args) > len(pos):
            if a.vararg is None:
                self.raise_("TypeError", "too many arguments")
            vals[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                if k in vals:
                    self.raise_("TypeError", k)
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_("TypeError", f"unexpected keyword {k}")
        for i, n in enumerate(names):
            if n not in vals:
                di = i - (len(names) - len(defaults))
                if di < 0:
                    self.raise_("TypeError", f"missing argument {n}")
                vals[n] = self.default_value(f, defaults[di])
        for n, d in zip(konly, a.kw_defaults):
            if n not in vals:
                if d is None:
                    self.raise_("TypeError", f"missing argument {n}")
                vals[n] = self.default_value(f, d)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = DictV(extra)
        env.vars.update(vals)
        return env

    def default_value(self, f, node):
        scope = f.closure if f.closure is not None else f.module
        if f.owner is not None and isinstance(node, ast.Name) and node.id in f.owner.members:
            return self.bind_member(f.owner.members[node.id], None, f.owner, f.owner)
        v = self.eval(node, scope)
        if isinstance(v, (SeqV, DictV, SetV)) and not (isinstance(v, SeqV) and v.kind == "tuple") and mutates_parameter(f.node):
            raise Unsupported("mutable default argument changed by the function")
        return v

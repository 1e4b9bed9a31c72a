"""Path-exploring context, heap, folds and solver access for pyvc."""
from __future__ import annotations
import time
import itertools
import z3
from .values import *

HEAP: list = []


def _mut_new(cls, *a, **k):
    o = object.__new__(cls)
    HEAP.append(o)
    return o


Mut.__new__ = staticmethod(_mut_new)


class Env(Mut):
    SLOTS = ("vars",)

    def __init__(self, parent=None, module=None):
        self.vars = {}
        self.parent = parent
        self.module = module


class Frame:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []  # (choice, n_choices, forced)


class SubPath:
    def __init__(self, conds, facts, out):
        self.conds, self.facts, self.out = conds, facts, out
        self.cap = None


EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG = z3.Function("log", z3.RealSort(), z3.RealSort())
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
RINT = z3.Function("rint", z3.RealSort(), z3.IntSort())


def consts_of(e, acc=None, seen=None):
    """Uninterpreted 0-ary constants of a term, in order of first occurrence."""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
        elif z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.setdefault(t.decl().name(), t)
            stack.extend(reversed(t.children()))
    return acc


def apps_of(e, decl_names, acc=None):
    """All applications whose decl name is in decl_names."""
    acc = {} if acc is None else acc
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
        elif z3.is_app(t):
            if t.decl().name() in decl_names:
                acc[t.get_id()] = t
            stack.extend(t.children())
    return acc


_MEMO = {}


def memo(f):
    """cache a function of a z3 term (the term is kept alive, so ids stay unique)"""
    def g(e):
        k = (f, e.get_id())
        r = _MEMO.get(k)
        if r is None:
            if len(_MEMO) > 200000:
                _MEMO.clear()
            r = _MEMO[k] = (e, f(e))
        return r[1]
    return g


@memo
def decl_names(e):
    out = set()
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            stack.extend(t.children())
    return frozenset(out)


@memo
def has_quant(e):
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        if z3.is_app(t):
            stack.extend(t.children())
    return False


@memo
def free_var(e):
    """Contains a de Bruijn variable not bound inside the term."""
    seen = set()
    stack = [(e, 0)]
    while stack:
        t, d = stack.pop()
        if (t.get_id(), d) in seen:
            continue
        seen.add((t.get_id(), d))
        if z3.is_var(t):
            if z3.get_var_index(t) >= d:
                return True
        elif z3.is_quantifier(t):
            stack.append((t.body(), d + t.num_vars()))
        elif z3.is_app(t):
            stack.extend((c, d) for c in t.children())
    return False


@memo
def has_var(e):
    """Contains a free de Bruijn variable (term below a binder)."""
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_var(t):
            return True
        if z3.is_quantifier(t):
            stack.append(t.body())
        elif z3.is_app(t):
            stack.extend(t.children())
    return False


class FoldTable:
    """Unbounded folds  op_{0<=j<n} body(j)  as uninterpreted functions of
    (n, free constants of the body).  Two folds over alpha-equivalent bodies are
    the same function; otherwise the congruence (induction) lemma is instantiated
    on demand when an obligation is discharged."""

    def __init__(self):
        self.by_key = {}
        self.info = {}

    def fold(self, op, n, j, body):
        body = z3.simplify(body)
        sort = body.sort()
        cs = consts_of(body)
        cs.pop(j.decl().name(), None)
        names = list(cs)
        params = [cs[c] for c in names]
        canon = [z3.Const(f"%p{i}", p.sort()) for i, p in enumerate(params)]
        jc = z3.Const("%j", z3.IntSort())
        cbody = z3.substitute(body, *([(j, jc)] + list(zip(params, canon))))
        key = (op, str(sort), cbody.sexpr(), tuple(str(p.sort()) for p in params))
        if key not in self.by_key:
            name = f"fold_{op}_{len(self.by_key)}"
            f = z3.Function(name, z3.IntSort(), *[p.sort() for p in params], sort)
            self.by_key[key] = f
            self.info[name] = (op, f, jc, canon, cbody)
        f = self.by_key[key]
        return f(n, *params)

    def inst(self, app, jt):
        """body of fold app at index jt"""
        op, f, jc, canon, cbody = self.info[app.decl().name()]
        args = app.children()
        return z3.substitute(cbody, (jc, jt), *zip(canon, args[1:]))


UNIT = {"add": 0, "mul": 1, "or": False, "and": True}


def op_apply(op, a, b):
    if op == "add":
        return a + b
    if op == "mul":
        return a * b
    if op == "or":
        return z3.Or(a, b)
    if op == "and":
        return z3.And(a, b)
    raise Unsupported(op)


class World:
    """Everything shared by all paths of one contract run."""

    def __init__(self, repo):
        self.repo = repo
        self.folds = FoldTable()
        self.literals = {}
        self.stats = {"checks": 0, "solver_s": 0.0, "paths": 0}
        self.functions_seen = set()
        self.contracts_used = set()
        self.models_used = set()

    def lit(self, s):
        if s not in self.literals:
            self.literals[s] = z3.Const("str!" + s, StrSort)
        return self.literals[s]

    def literal_axioms(self):
        ls = list(self.literals.values())
        return [z3.Distinct(*ls)] if len(ls) > 1 else []


_BASE_AXIOMS = None


def base_axioms(names):
    x, y = z3.Reals("x y")
    out = []
    if "exp" in names:
        out.append(z3.ForAll([x], EXP(x) > 0, patterns=[EXP(x)]))
        out.append(EXP(z3.RealVal(0)) == 1)
        out.append(z3.ForAll([x, y], z3.Implies(x < y, EXP(x) < EXP(y)), patterns=[z3.MultiPattern(EXP(x), EXP(y))]))
    if "log" in names:
        out.append(z3.ForAll([x], z3.Implies(z3.And(x > 0, x < 1), LOG(x) < 0), patterns=[LOG(x)]))
        out.append(z3.ForAll([x], z3.Implies(x > 1, LOG(x) > 0), patterns=[LOG(x)]))
        out.append(LOG(z3.RealVal(1)) == 0)
    if "sqrt" in names:
        out.append(z3.ForAll([x], z3.Implies(x >= 0, z3.And(SQRT(x) >= 0, SQRT(x) * SQRT(x) == x)), patterns=[SQRT(x)]))
    if "rint" in names:
        r = z3.ToReal(RINT(x))
        h = z3.RealVal("1/2")
        out.append(z3.ForAll([x], z3.And(x - h <= r, r <= x + h,
                                         z3.Implies(z3.Or(r == x + h, r == x - h), RINT(x) % 2 == 0)), patterns=[RINT(x)]))
    return out


class Ctx:
    def __init__(self, world: World, prefix, budget):
        self.w = world
        self.pc = []  # list of ('cond'|'fact', formula)
        self.frames = [Frame(prefix)]
        self.loopvars = []
        self.counter = 0
        self.obligations = []
        self.depth = 0
        self.budget = budget
        self.lazy_depth = 0
        self.in_quant = 0
        self.trace = []

    # ---- symbols -----------------------------------------------------
    def name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def fresh(self, base, sort):
        nm = self.name(base)
        if self.loopvars:
            f = z3.Function(nm, *[z3.IntSort()] * len(self.loopvars), sort)
            return f(*self.loopvars)
        return z3.Const(nm, sort)

    def fresh_fn(self, base, *sorts):
        """returns callable taking len(sorts)-1 args, lifted over loop variables"""
        nm = self.name(base)
        lv = list(self.loopvars)
        f = z3.Function(nm, *([z3.IntSort()] * len(lv) + list(sorts)))

        def call(*args):
            return f(*lv, *args)
        call.decl = f
        call.lv = lv
        return call

    # ---- assumptions ---------------------------------------------------
    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathAbort()
            return
        self.pc.append(("fact", f))

    def _formulas(self, quant=True):
        fs = [f for _, f in self.pc]
        if not quant:
            fs = [f for f in fs if not has_quant(f)]
        return fs

    def _check(self, extra, quant, ms):
        if time.time() > self.budget:
            raise Unsupported("verification budget exhausted")
        s = z3.Solver()
        s.set("timeout", ms)
        fs = self._formulas(quant) + list(extra)
        names = set()
        for f in fs:
            names |= decl_names(f)
        s.add(*fs)
        s.add(*self.w.literal_axioms())
        if quant:
            s.add(*base_axioms(names))
            s.add(*fold_lemmas(self.w, fs))
        t = time.time()
        r = s.check()
        self.w.stats["checks"] += 1
        self.w.stats["solver_s"] += time.time() - t
        return r

    def entails(self, cond, ms=2000):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        r = self._check([z3.Not(cond)], False, ms)
        if r == z3.unsat:
            return True
        if any(has_quant(f) for _, f in self.pc) or "sqrt" in decl_names(cond):
            return self._check([z3.Not(cond)], True, ms) == z3.unsat
        return False

    def feasible(self, cond):
        return self._check([cond], False, 500) != z3.unsat

    # ---- branching -------------------------------------------------------
    def choose(self, n, feas=None):
        """n-way nondeterministic choice; feas(i) -> bool prunes"""
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            c = fr.prefix[fr.pos]
            fr.pos += 1
            fr.taken.append((c, []))
            return c
        opts = [i for i in range(n) if feas is None or feas(i)]
        if not opts:
            raise PathAbort()
        c = opts[0]
        fr.pos += 1
        fr.taken.append((c, opts[1:]))
        return c

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        if not is_z3(cond):
            raise Unsupported(f"branch on {cond!r}")
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if has_var(cond) and free_var(cond):
            raise Unsupported("branch under binder")
        for kind, f in self.pc:
            if f.eq(cond):
                return True
            if z3.is_not(f) and f.arg(0).eq(cond):
                return False
            if z3.is_not(cond) and cond.arg(0).eq(f):
                return False
        neg = z3.simplify(z3.Not(cond))
        c = self.choose(2, lambda i: self.feasible(cond if i == 0 else neg))
        self.pc.append(("cond", cond if c == 0 else neg))
        return c == 0

    # ---- sub exploration -------------------------------------------------
    def snapshot(self):
        return (len(HEAP), [(o, o.__class__, o.snap()) for o in HEAP])

    def restore(self, snap):
        n, items = snap
        del HEAP[n:]
        for o, c, d in items:
            o.__class__ = c
            o.restore(d)

    def lam(self, lo, hi, f, capture=None):
        """Evaluate f(k) for a generic lo<=k<hi. Returns (k, subpaths); facts about
        symbols created inside are exported universally quantified."""
        k = z3.Const(self.name("k"), z3.IntSort())
        return k, self.lam_at(k, lo, hi, lambda: f(k), capture)

    def lam_at(self, k, lo, hi, thunk, capture=None, export=True):
        rng = []
        if lo is not None:
            rng.append(lo <= k)
        if hi is not None:
            rng.append(k < hi)
        self.loopvars.append(k)
        nbase = len(self.pc)
        self.pc.extend(("fact", r) for r in rng)
        try:
            sps = self.explore_sub(thunk, capture)
        finally:
            self.loopvars.pop()
            del self.pc[nbase:]
        if export:
            self.export(sps, k, rng)
        return sps

    def export(self, sps, k, rng):
        seen = set()
        for sp in sps:
            for i, f in enumerate(sp.facts):
                g = z3.simplify(z3.And(*rng, *sp.conds)) if rng or sp.conds else z3.BoolVal(True)
                key = (g.get_id(), f.get_id())
                if key in seen:
                    continue
                seen.add(key)
                if k is None:
                    self.pc.append(("fact", z3.Implies(g, f)))
                else:
                    self.pc.append(("fact", quant_fact(k, g, f)))

    def merged(self, sps):
        """Merge the normal results of sub-paths into one value (bool/ite)."""
        from .ops import ite_val
        if any(sp.out[0] != "normal" for sp in sps):
            bad = [sp.out for sp in sps if sp.out[0] != "normal"][0]
            raise Unsupported(f"non-normal outcome inside expression: {bad}")
        if not sps:
            raise PathAbort()
        v = sps[-1].out[1]
        for sp in reversed(sps[:-1]):
            c = z3.And(*sp.conds) if sp.conds else True
            v = ite_val(self, c, sp.out[1], v)
        return v

    def forall(self, lo, hi, f):
        k, sps = self.lam(lo, hi, f)
        b = self.merged(sps)
        if isinstance(b, bool):
            if b:
                return z3.BoolVal(True)
            b = z3.BoolVal(False)
        rng = [r for r in (lo <= k if lo is not None else None, k < hi if hi is not None else None) if r is not None]
        return z3.ForAll([k], z3.Implies(z3.And(*rng), b) if rng else b)

    def exists(self, lo, hi, f):
        k, sps = self.lam(lo, hi, f)
        b = self.merged(sps)
        if isinstance(b, bool):
            b = z3.BoolVal(b)
        rng = [r for r in (lo <= k if lo is not None else None, k < hi if hi is not None else None) if r is not None]
        return z3.Exists([k], z3.And(*rng, b))

    def explore_sub(self, thunk, capture=None, limit=400):
        base = len(self.pc)
        snap = self.snapshot()
        results = []
        work = [[]]
        keep = []
        # sibling sub-paths use the same symbol names: they are mutually exclusive, so one
        # symbol can stand for the value drawn at the same point of each of them
        c0 = cmax = self.counter
        while work:
            prefix = work.pop()
            cmax = max(cmax, self.counter)
            self.counter = c0
            if len(results) > limit:
                raise Unsupported("too many paths in loop body")
            fr = Frame(prefix)
            self.frames.append(fr)
            out = None
            nob = len(self.obligations)
            try:
                try:
                    out = ("normal", thunk())
                except ReturnSig as e:
                    out = ("return", e.value)
                except BreakSig:
                    out = ("break", None)
                except ContinueSig:
                    out = ("continue", None)
                except PyRaise as e:
                    out = ("raise", e.exc)
                except PathAbort:
                    out = None
            finally:
                self.frames.pop()
            entries = self.pc[base:]
            conds = [c for k, c in entries if k == "cond"]
            facts = [c for k, c in entries if k == "fact"]
            if out is not None:
                sp = SubPath(conds, facts, out)
                if capture is not None:
                    sp.cap = capture()
                results.append(sp)
            for i in range(len(prefix), len(fr.taken)):
                c, alts = fr.taken[i]
                for a in alts:
                    work.append([t[0] for t in fr.taken[:i]] + [a])
            del self.pc[base:]
            keep.append(HEAP[snap[0]:])
            self.restore(snap)
        # objects allocated inside sub-paths stay alive (they may be captured)
        for objs in keep:
            HEAP.extend(objs)
        self.counter = max(cmax, self.counter)
        return results


def quant_fact(k, guard, f):
    """forall k. guard -> f, merging nested universal quantifiers of f"""
    vs = [k]
    g = [guard]
    while z3.is_quantifier(f) and f.is_forall():
        nv = [z3.FreshConst(f.var_sort(i), f.var_name(i).split("!")[0]) for i in range(f.num_vars())]
        f = z3.substitute_vars(f.body(), *reversed(nv))
        vs.extend(nv)
    body = z3.Implies(z3.And(*g), f)
    return z3.ForAll(vs, body)


def fold_lemmas(world, fs, depth=2):
    """Instances of the fold laws needed for the fold terms in fs.

    unit:        F(0)=unit
    step:        n>0 -> F(n)=op(F(n-1), f(n-1))  (numerals / k+1 shaped n only)
    congruence:  n==m and forall 0<=j<n. f(j)=g(j)  ->  F(n)=G(m)   (induction)
    """
    names = set(world.folds.info)
    if not names:
        return []
    used = set()
    for f in fs:
        used |= decl_names(f) & names
    if not used:
        return []
    out = []
    apps = {}
    work = list(fs)
    for f in fs:
        apps_of(f, names, apps)
    apps = {i: a for i, a in apps.items() if not has_var(a)}
    seen_ids = set()
    frontier = list(apps.values())
    for _ in range(depth):
        new = []
        for a in frontier:
            if a.get_id() in seen_ids:
                continue
            seen_ids.add(a.get_id())
            op = world.folds.info[a.decl().name()][0]
            n = a.arg(0)
            unit = UNIT[op]
            uv = z3.BoolVal(unit) if isinstance(unit, bool) else (z3.RealVal(unit) if a.sort() == z3.RealSort() else z3.IntVal(unit))
            out.append(z3.Implies(n <= 0, a == uv))
            prev = a.decl()(z3.simplify(n - 1), *a.children()[1:])
            body = world.folds.inst(a, z3.simplify(n - 1))
            out.append(z3.Implies(n > 0, a == op_apply(op, prev, body)))
            sub = {}
            apps_of(body, names, sub)
            new.extend(s for s in sub.values() if not has_var(s))
        frontier = new
    alla = list({a.get_id(): a for a in list(apps.values()) + frontier}.values())
    if len(alla) <= 40:
        for a, b in itertools.combinations(alla, 2):
            ia, ib = world.folds.info[a.decl().name()], world.folds.info[b.decl().name()]
            if ia[0] != ib[0] or a.sort() != b.sort():
                continue
            j = z3.Int("j!cong")
            fa, fb = world.folds.inst(a, j), world.folds.inst(b, j)
            out.append(z3.Implies(
                z3.And(a.arg(0) == b.arg(0),
                       z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < a.arg(0)), fa == fb))),
                a == b))
    return out

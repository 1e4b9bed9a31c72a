"""Discharging obligations: z3, with goal decomposition and fold reasoning, then cvc5."""
from __future__ import annotations
import itertools
import time
import z3
from . import core
from .core import decl_names, has_quant, has_var, apps_of, fold_lemmas, base_axioms
from .values import StrSort

PROVED, REFUTED, UNKNOWN = "proved", "refuted", "unknown"


class Result:
    def __init__(self, status, backend, seconds, model=None, detail=None):
        self.status, self.backend, self.seconds, self.model, self.detail = status, backend, seconds, model, detail


class Prover:
    def __init__(self, world, z3_ms=20000, cvc5_ms=20000, use_cvc5=True):
        self.w = world
        self.z3_ms, self.cvc5_ms, self.use_cvc5 = z3_ms, cvc5_ms, use_cvc5
        self.n = 0
        self.queries = 0
        self.backends = {}
        self.solver_s = 0.0

    def skolem(self, sort, base):
        self.n += 1
        return z3.Const(f"sk_{base}!{self.n}", sort)

    # -------------------------------------------------- public
    def prove(self, hyps, goal):
        t0 = time.time()
        self.model = None
        self.refuted = False
        self.deadline = t0 + 120
        hyps = [h for h in hyps if not z3.is_true(h)]
        ok = self._prove(list(hyps), goal, 0)
        dt = time.time() - t0
        if ok:
            return Result(PROVED, self.last_backend, dt)
        if self.refuted:
            return Result(REFUTED, "z3", dt, self.model, self.detail)
        return Result(UNKNOWN, None, dt, detail=getattr(self, "detail", None))

    # -------------------------------------------------- decomposition
    def _prove(self, hyps, goal, depth):
        goal = z3.simplify(goal) if z3.is_bool(goal) and not has_quant(goal) else goal
        self.last_backend = "simplifier"
        if z3.is_true(goal):
            return True
        if z3.is_and(goal):
            return all(self._prove(hyps, g, depth) for g in goal.children())
        if z3.is_implies(goal):
            return self._prove(hyps + flat(goal.arg(0)), goal.arg(1), depth)
        if z3.is_quantifier(goal) and goal.is_forall():
            sk = [self.skolem(goal.var_sort(i), goal.var_name(i).split("!")[0]) for i in range(goal.num_vars())]
            return self._prove(hyps, z3.substitute_vars(goal.body(), *reversed(sk)), depth)
        if z3.is_or(goal) and any(z3.is_not(c) or (z3.is_quantifier(c) and c.is_forall()) for c in goal.children()):
            pos, hy = [], []
            for c in goal.children():
                if z3.is_not(c):
                    hy += flat(c.arg(0))
                else:
                    pos.append(c)
            if len(pos) == 1:
                return self._prove(hyps + hy, pos[0], depth)
            if pos:
                # skolemise universal disjuncts
                npos = []
                for c in pos:
                    if z3.is_quantifier(c) and c.is_forall():
                        sk = [self.skolem(c.var_sort(i), c.var_name(i).split("!")[0]) for i in range(c.num_vars())]
                        npos.append(z3.substitute_vars(c.body(), *reversed(sk)))
                    else:
                        npos.append(c)
                return self._solve(hyps + hy, z3.Or(*npos), depth)
            return self._solve(hyps + hy, z3.BoolVal(False), depth)
        if z3.is_eq(goal) and z3.is_bool(goal.arg(0)) and (has_quant(goal) or self._folds(goal)):
            a, b = goal.children()
            return self._prove(hyps + flat(a), b, depth) and self._prove(hyps + flat(b), a, depth)
        g2 = one_point(goal)
        if g2 is not None:
            return self._prove(hyps, g2, depth)
        if z3.is_not(goal) and z3.is_quantifier(goal.arg(0)) and goal.arg(0).is_exists():
            q = goal.arg(0)
            sk = [self.skolem(q.var_sort(i), "e") for i in range(q.num_vars())]
            body = z3.substitute_vars(q.body(), *reversed(sk))
            return self._prove(hyps + flat(body), z3.BoolVal(False), depth)
        return self._solve(hyps, goal, depth)

    def _folds(self, e):
        return bool(decl_names(e) & set(self.w.folds.info))

    def _skolem_hyps(self, hyps):
        out = []
        for h in hyps:
            if z3.is_quantifier(h) and h.is_exists():
                sk = [self.skolem(h.var_sort(i), "h") for i in range(h.num_vars())]
                out += flat(z3.substitute_vars(h.body(), *reversed(sk)))
            elif z3.is_not(h) and z3.is_quantifier(h.arg(0)) and h.arg(0).is_forall():
                q = h.arg(0)
                sk = [self.skolem(q.var_sort(i), "h") for i in range(q.num_vars())]
                out += flat(z3.Not(z3.substitute_vars(q.body(), *reversed(sk))))
            else:
                out.append(h)
        return out

    # -------------------------------------------------- solving
    def _solve(self, hyps, goal, depth):
        hyps = self._skolem_hyps(hyps)
        neg = z3.Not(goal)
        fs = hyps + [neg]
        extra = []
        names = set(self.w.folds.info)
        folds = any(decl_names(f) & names for f in fs)
        # goal-relevant facts first: most goals need little of the context
        rel = relevant(hyps, goal)
        if len(rel) < len(hyps) or folds:
            f0 = rel + [neg]
            r, _ = self._z3(f0 + self._lemmas(f0, depth), 700)
            if r == z3.unsat:
                return True
            if folds and depth < 3:
                eqs = self._fold_equalities(rel, goal, depth, goal_only=True)
                if eqs:
                    f0 = rel + [neg] + eqs
                    r, _ = self._z3(f0 + self._lemmas(f0, depth), 1500)
                    if r == z3.unsat:
                        return True
        if folds:
            extra = self._fold_equalities(hyps, goal, depth)
        fs = fs + extra
        lem = self._lemmas(fs, depth)
        r, model = self._z3(fs + lem, self.z3_ms)
        if r == z3.unsat:
            return True
        if r == z3.sat:
            self.detail = f"z3: satisfiable negation of {short(goal)}"
            if depth == 0:
                if folds:   # folds are only partly axiomatised: a model counts when it survives their exact definition
                    r, model = self._unrolled(hyps + [neg])
                if r == z3.sat:
                    self.refuted, self.model = True, model
                else:
                    self.detail = f"no proof and no exact counterexample for {short(goal)}"
            return False
        # second configuration: only the quantifier-free part
        qf = [f for f in fs + lem if not has_quant(f)]
        r2, _ = self._z3(qf, self.z3_ms // 2)
        if r2 == z3.unsat:
            return True
        if self.use_cvc5 and depth == 0 and time.time() < self.deadline:
            if self._cvc5(fs + lem):
                return True
        self.detail = f"no proof within time limit for {short(goal)}"
        return False

    def _unrolled(self, fs, N=4):
        """satisfiability with every fold replaced by its definition, bounds at most N"""
        q = z3.And(*fs)
        side = []
        for name, (op, f, jc, canon, body) in reversed(list(self.w.folds.info.items())):
            if name not in decl_names(q):
                continue
            side += [a.arg(0) <= N for a in apps_of(q, {name}).values() if not has_var(a)]
            u = core.UNIT[op]
            at = lambda i: z3.substitute(body, (jc, z3.IntVal(i)))
            acc = z3.BoolVal(u) if isinstance(u, bool) else (z3.RealVal(u) if body.sort() == z3.RealSort() else z3.IntVal(u))
            n = z3.Const("%n", z3.IntSort())
            e = acc
            for i in range(N):
                acc = core.op_apply(op, acc, at(i))
                e = z3.If(n > i, acc, e)
            e = z3.substitute(e, (n, z3.Var(0, z3.IntSort())), *[(c, z3.Var(i + 1, c.sort())) for i, c in enumerate(canon)])
            q = z3.substitute_funs(q, (f, e))
        fs = [q] + side
        return self._z3(fs + self._lemmas(fs, 0), self.z3_ms // 2)

    def _lemmas(self, fs, depth):
        nm = set()
        for f in fs:
            nm |= decl_names(f)
        out = list(base_axioms(nm))
        out += self.w.literal_axioms()
        out += fold_lemmas(self.w, fs)
        return out

    def _z3(self, fs, ms):
        s = z3.Solver()
        s.set("timeout", max(200, min(ms, int((self.deadline - time.time()) * 1000))))
        s.add(*fs)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.unsat:
            self.last_backend = "z3"
            self.backends["z3"] = self.backends.get("z3", 0) + 1
        return r, (s.model() if r == z3.sat else None)

    def _cvc5(self, fs):
        import subprocess
        s = z3.Solver()
        s.add(*fs)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        t = time.time()
        try:
            p = subprocess.run(["cvc5", "--lang", "smt2", f"--tlimit={self.cvc5_ms}"], input=txt, capture_output=True, text=True, timeout=self.cvc5_ms / 1000 + 5)
            ans = p.stdout.strip().splitlines()[:1]
        except Exception:
            ans = []
        self.solver_s += time.time() - t
        self.queries += 1
        if ans == ["unsat"]:
            self.last_backend = "cvc5"
            self.backends["cvc5"] = self.backends.get("cvc5", 0) + 1
            return True
        return False

    # -------------------------------------------------- folds
    def _closed_folds(self, e):
        acc = apps_of(e, set(self.w.folds.info))
        return [a for a in acc.values() if not has_var(a)]

    def _fold_equalities(self, hyps, goal, depth, goal_only=False):
        """prove congruences between fold terms of the goal and of the context"""
        if depth >= 4:
            return []
        out = []
        ga = uniq(self._closed_folds(goal))
        ha = []
        for h in hyps if not goal_only else []:
            ha += self._closed_folds(h)
        ha = [a for a in uniq(ha) if all(not a.eq(g) for g in ga)]
        pairs = list(itertools.combinations(ga, 2)) + [(g, h) for g in ga for h in ha]
        if len(pairs) > 60:
            pairs = list(itertools.combinations(ga, 2))[:60]
        known = list(hyps)
        for a, b in pairs:
            if time.time() > self.deadline:
                break
            ia, ib = self.w.folds.info[a.decl().name()], self.w.folds.info[b.decl().name()]
            if ia[0] != ib[0]:
                continue
            real = a.sort() != b.sort()
            if real and {str(a.sort()), str(b.sort())} != {"Int", "Real"}:
                continue
            R = (lambda t: z3.ToReal(t) if t.sort() == z3.IntSort() else t) if real else (lambda t: t)
            j = self.skolem(z3.IntSort(), "j")
            fa, fb = self.w.folds.inst(a, j), self.w.folds.inst(b, j)
            sv, svms = self.use_cvc5, self.z3_ms
            self.use_cvc5, self.z3_ms = False, min(self.z3_ms, 3000)
            try:
                n_eq = z3.simplify(a.arg(0) == b.arg(0))
                if not (z3.is_true(n_eq) or self._prove(known + out, n_eq, depth + 1)):
                    continue
                if self._prove(known + out + [0 <= j, j < a.arg(0)], R(fa) == R(fb), depth + 1):
                    out.append(R(a) == R(b))
            finally:
                self.use_cvc5, self.z3_ms = sv, svms
        if goal_only:
            return out
        # sign facts for sums used in the goal
        for a in uniq(ga + ha):
            ia = self.w.folds.info[a.decl().name()]
            if ia[0] != "add" or time.time() > self.deadline:
                continue
            j = self.skolem(z3.IntSort(), "j")
            fa = self.w.folds.inst(a, j)
            sv, svms = self.use_cvc5, self.z3_ms
            self.use_cvc5, self.z3_ms = False, 1000
            try:
                if depth < 2 and self._prove(known + out + [0 <= j, j < a.arg(0)], fa >= 0, depth + 2):
                    out.append(a >= 0)
                    # monotone in the bound
                    for b in uniq(ga + ha):
                        if b is not a and b.decl().eq(a.decl()) and all(x.eq(y) for x, y in zip(a.children()[1:], b.children()[1:])):
                            j2 = self.skolem(z3.IntSort(), "j")
                            fb = self.w.folds.inst(b, j2)
                            if self._prove(known + out + [0 <= j2, j2 < b.arg(0)], fb >= 0, depth + 2):
                                out.append(z3.Implies(a.arg(0) <= b.arg(0), a <= b))
                                out.append(z3.Implies(b.arg(0) <= a.arg(0), b <= a))
            finally:
                self.use_cvc5, self.z3_ms = sv, svms
        return out


def one_point(q):
    """exists k. k == t and P(k)  ->  P(t)"""
    if not (z3.is_quantifier(q) and q.is_exists() and q.num_vars() == 1):
        return None
    c = z3.FreshConst(q.var_sort(0), "op")
    parts = flat(z3.substitute_vars(q.body(), c))
    nm = c.decl().name()
    for p in parts:
        if z3.is_eq(p):
            for x, t in ((p.arg(0), p.arg(1)), (p.arg(1), p.arg(0))):
                if x.eq(c) and nm not in decl_names(t):
                    return z3.And(*[z3.substitute(r, (c, t)) for r in parts if r is not p])
    return None


def relevant(hyps, goal, rounds=1):
    """hypotheses connected to the goal through shared symbols (one step)"""
    seen = set(decl_names(goal))
    nms = [set(decl_names(h)) for h in hyps]
    keep = [False] * len(hyps)
    for _ in range(rounds):
        new = set()
        for i, n in enumerate(nms):
            if not keep[i] and n & seen:
                keep[i] = True
                new |= n
        seen |= new
    return [h for h, k in zip(hyps, keep) if k]


def flat(f):
    if z3.is_and(f):
        return [x for c in f.children() for x in flat(c)]
    return [f]


def uniq(xs):
    return list({x.get_id(): x for x in xs}.values())


def short(e, n=400):
    s = str(e).replace("\n", " ")
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n] + "..."

"""Contracts: requires / modifies / ensures on real functions, and the driver that
generates and discharges the obligations of one function from /repo's source."""
from __future__ import annotations
import time
import traceback
import z3
from .values import *
from . import core, ops
from .core import Ctx, World, HEAP
from .interp import Interp, Repo
from .ops import And, Or, Not, Implies, zbool, eq_val, ite_val, forall, exists
from .discharge import Prover, PROVED, REFUTED, UNKNOWN, short

REGISTRY = {}


class Contract:
    """One contract. Subclass and register with @contract.

    qual      "module:Class.func"
    props     property ids the ensures clauses decide
    inputs(h)          -> dict parameter -> symbolic value (verification of the body)
    requires(h,a)      -> [(name, formula)]
    old(h,a)           -> captured pre-state
    havoc(h,a)         -> result; replaces modified locations by fresh values (call sites)
    ensures(h,a,o,r)   -> [(name, formula)]
    raises(h,a,o)      -> [(exception name, condition)]  raised exactly when condition holds
    """
    qual = None
    props = ()
    stubs = {}
    uses = ()
    invariants = {}
    ext = {}
    name = None
    trusted = False
    max_s = 120
    thorough_only = False

    def inputs(self, h):
        raise NotImplementedError

    def requires(self, h, a):
        return []

    def old(self, h, a):
        return None

    def havoc(self, h, a):
        raise Unsupported(f"contract of {self.qual} has no call-site form")

    def ensures(self, h, a, o, r):
        return []

    def raises(self, h, a, o):
        return []

    def call_facts(self, h, a, o, r):
        """consequences of ensures in solver-friendly (Skolemised) form; None: ensures itself"""
        return None

    # ---- use at a call site
    def at_call(self, it, f, vars):
        h = H(it)
        ctx = it.ctx
        for nm, c in self.requires(h, vars):
            if isinstance(c, bool) and c:
                continue
            ctx.obligations.append((f"requires of {self.qual}: {nm}", list(ctx._formulas()), zbool(c)))
            ctx.assume(zbool(c))
        o = self.old(h, vars)
        for exc, c in self.raises(h, vars, o):
            if ctx.branch(zbool(c)):
                it.raise_(exc)
        r = self.havoc(h, vars)
        facts = self.call_facts(h, vars, o, r)
        for nm, c in (self.ensures(h, vars, o, r) if facts is None else facts):
            if not (isinstance(c, bool) and c):
                ctx.assume(zbool(c))
        return r


class H:
    """Helpers for writing contracts: symbolic inputs and formula builders."""

    def __init__(self, it):
        self.it, self.ctx = it, it.ctx

    def int(self, name):
        return self.ctx.fresh(name, z3.IntSort())

    def real(self, name):
        return self.ctx.fresh(name, z3.RealSort())

    def bool(self, name):
        return self.ctx.fresh(name, z3.BoolSort())

    def str(self, name):
        return self.ctx.fresh(name, StrSort)

    def obj(self, name):
        return self.ctx.fresh(name, ObjSort)

    def nat(self, name):
        n = self.int(name)
        self.ctx.assume(n >= 0)
        return n

    def pos(self, name):
        n = self.int(name)
        self.ctx.assume(n > 0)
        return n

    def opt(self, v, name="isnone"):
        return OptV(self.bool(name), v)

    def fn(self, name, *sorts):
        m = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort(), "str": StrSort}
        return self.ctx.fresh_fn(name, *[m.get(s, s) if isinstance(s, str) else s for s in sorts])

    def ilist(self, name, n=None, kind="list", sort="int"):
        n = self.nat("len_" + name) if n is None else n
        f = self.fn(name, "int", sort)
        return SeqV(kind, n=n, fn=lambda i: f(to_int(i)))

    def nd(self, name, shape, dtype="float"):
        srt = {"float": "real", "int": "int", "bool": "bool"}[dtype]
        f = self.fn(name, *["int"] * len(shape), srt)
        return NdV(tuple(shape), lambda *i: f(*[to_int(x) for x in i]), dtype)

    def cls(self, qual):
        m, c = qual.split(":")
        return self.it.mod_lookup(self.it.module(m).env, c)

    def rec(self, qual, **fields):
        return RecV(self.cls(qual), fields)

    def stub(self, name, stubs=None, **fields):
        return RecV(StubClass(name), fields, stubs or {})

    def get(self, o, name):
        return self.it.getattr(o, name)

    def call(self, f, *a, **k):
        return self.it.call(f, list(a), k)

    def func(self, qual):
        m, c = qual.split(":")
        parts = c.split(".")
        v = self.it.mod_lookup(self.it.module(m).env, parts[0])
        for p in parts[1:]:
            if isinstance(v, ClassV):
                m = v.lookup(p)[1]
                if isinstance(m, FuncV) and getattr(m, "kind", "") == "property":
                    v = m
                    continue
            v = self.it.getattr(v, p)
        return v

    def assume(self, f):
        self.ctx.assume(zbool(f))

    def eq(self, a, b):
        """Value equality as a formula (structural, no branching on scalars)."""
        return veq(self, a, b)

    def len(self, s):
        return self.it.models.b_len(self.it, [s], {})

    def at(self, s, i):
        s = self.it.resolve(s)
        if isinstance(s, NdV):
            return s.fn(i) if s.ndim == 1 else self.it.nd_row(s, i)
        return self.it.seq_select(self.it.as_seq(s), i)

    def sum(self, n, f):
        return self.it.models.fold_add(self.it, n, f)

    def forall(self, lo, hi, f, name="q"):
        if isinstance(lo, int) and isinstance(hi, int):
            return And(*[f(i) for i in range(lo, hi)])
        return forall(lo, hi, f, name)

    def exists(self, lo, hi, f, name="q"):
        if isinstance(lo, int) and isinstance(hi, int):
            return Or(*[f(i) for i in range(lo, hi)])
        return exists(lo, hi, f, name)


def veq(h, a, b):
    it = h.it
    if isinstance(a, (OptV, NanV, IteV)) or isinstance(b, (OptV, NanV, IteV)):
        return veq_opt(h, a, b)
    if isinstance(a, NdV) and isinstance(b, NdV):
        if a.ndim != b.ndim:
            return False
        sh = And(*[eq_val(it.ctx, x, y) for x, y in zip(a.shape, b.shape)])
        fa, fb = a.fn, b.fn

        def lvl(idx, d):
            if d == a.ndim:
                return veq(h, fa(*idx), fb(*idx))
            if isinstance(a.shape[d], int):
                return And(*[lvl(idx + [i], d + 1) for i in range(a.shape[d])])
            return forall(0, a.shape[d], lambda i: lvl(idx + [i], d + 1))
        return And(sh, lvl([], 0))
    if isinstance(a, (SeqV, tuple)) and isinstance(b, (SeqV, tuple)):
        ka = "tuple" if isinstance(a, tuple) or a.kind == "tuple" else "list"
        kb = "tuple" if isinstance(b, tuple) or b.kind == "tuple" else "list"
        if ka != kb:
            return False
        sa, sb = it.as_seq(a), it.as_seq(b)
        na, nb = sa.length(), sb.length()
        if isinstance(na, int) and isinstance(nb, int):
            return na == nb and And(*[veq(h, it.seq_select(sa, i), it.seq_select(sb, i)) for i in range(na)])
        if isinstance(na, int) or isinstance(nb, int):
            m = na if isinstance(na, int) else nb
            return And(eq_val(it.ctx, na, nb), *[veq(h, it.seq_select(sa, i), it.seq_select(sb, i)) for i in range(m)])
        return And(eq_val(it.ctx, na, nb), forall(0, na, lambda i: veq(h, it.seq_select(sa, i), it.seq_select(sb, i))))
    if isinstance(a, DictV) and isinstance(b, DictV):
        if set(a.d) != set(b.d):
            return False
        return And(*[veq(h, a.d[k], b.d[k]) for k in a.d],
                   *[zbool(a.present.get(k, True)) == zbool(b.present.get(k, True)) for k in set(a.present) | set(b.present)])
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return a == b or (a != a and b != b)
        return False
    if isinstance(a, RecV) and isinstance(b, RecV):
        return a is b or (a.cls is b.cls and set(a.fields) == set(b.fields) and And(*[veq(h, a.fields[k], b.fields[k]) for k in a.fields]))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return a is b
    return eq_val(it.ctx, a, b)


def veq_opt(h, a, b):
    def cases(v):
        if isinstance(v, OptV):
            return [(zbool(v.is_none), None)] + [(And(Not(zbool(v.is_none)), c), x) for c, x in cases(v.val)]
        if isinstance(v, NanV):
            return [(zbool(v.is_nan), NAN), (Not(zbool(v.is_nan)), v.val)]
        if isinstance(v, IteV):
            return [(And(v.cond, c), x) for c, x in cases(v.a)] + [(And(Not(v.cond), c), x) for c, x in cases(v.b)]
        return [(True, v)]
    return And(*[Implies(And(c, d), veq(h, x, y)) for c, x in cases(a) for d, y in cases(b)])


def contract(cls):
    c = cls()
    key = c.name or c.qual
    REGISTRY[key] = c
    return cls


# ---------------------------------------------------------------- driver
class Outcome:
    def __init__(self, contract):
        self.contract = contract
        self.obls = []   # dict(name,status,backend,seconds,detail)
        self.status = None
        self.paths = 0
        self.normal_paths = 0
        self.unsupported = None
        self.error = None
        self.functions = set()
        self.contracts_used = set()
        self.models = set()
        self.solver_s = 0.0
        self.queries = 0
        self.backends = {}
        self.vacuity = None

    def as_dict(self):
        c = self.contract
        return {
            "contract": c.name or c.qual, "function": c.qual, "status": self.status, "paths": self.paths,
            "obligations": len(self.obls), "discharged": sum(o["status"] == PROVED for o in self.obls),
            "refuted": [o["name"] for o in self.obls if o["status"] == REFUTED],
            "undecided": [o["name"] for o in self.obls if o["status"] == UNKNOWN],
            "unsupported": self.unsupported, "error": self.error, "solver_s": round(self.solver_s, 3), "queries": self.queries,
            "backends": self.backends, "functions": sorted(self.functions), "callee_contracts": sorted(self.contracts_used),
            "dependency_models": sorted(self.models), "vacuity": self.vacuity,
        }


def verify(c: Contract, repo_root, max_paths=300, log=None, prover_opts=None):
    """Generate and discharge all obligations of contract c."""
    out = Outcome(c)
    t0 = time.time()
    budget = t0 + c.max_s
    world = World(Repo(repo_root))
    prover = Prover(world, **(prover_opts or {}))
    contracts = {q: REGISTRY[q] for q in c.uses}
    work = [[]]
    seen_ob = {}
    try:
        while work:
            if out.paths >= max_paths:
                raise Unsupported("too many paths")
            if time.time() > budget:
                raise Unsupported("verification budget exhausted")
            prefix = work.pop()
            HEAP.clear()
            ctx = Ctx(world, prefix, budget)
            it = Interp(ctx, world, {"verifying": c.qual, "callee_contracts": contracts, "stub_functions": c.stubs,
                                     "invariants": c.invariants, "ext": c.ext})
            h = H(it)
            out.paths += 1
            kind, val = None, None
            try:
                a = c.inputs(h)
                check_callees(h, c, a)
                pre = c.requires(h, a)
                for _, f in pre:
                    ctx.assume(zbool(f))
                if out.vacuity is None:
                    r = ctx._check([], True, 4000)
                    if r == z3.unsat:
                        raise ContractError("precondition is unsatisfiable")
                    out.vacuity = {"precondition": str(r)}
                o = c.old(h, a)
                fv = h.func(c.qual)
                if isinstance(fv, BoundV):
                    fv = fv.func
                try:
                    env = bind(it, fv, a)
                    kind, val = "normal", it.call_func(fv, *env)
                except PyRaise as e:
                    kind, val = "raise", e.exc
                exc_conds = c.raises(h, a, o)
                if kind == "normal":
                    posts = []
                    try:
                        for nm, f in c.ensures(h, a, o, val):
                            ctx.obligations.append((nm, list(ctx._formulas()), zbool(f)))
                    except PyRaise as e:
                        ctx.obligations.append((f"no {e.exc.name} in the second call", list(ctx._formulas()), z3.BoolVal(False)))
                    for en, cond in exc_conds:
                        posts.append((f"raises {en} when required", Not(cond)))
                    for nm, f in posts:
                        ctx.obligations.append((nm, list(ctx._formulas()), zbool(f)))
                else:
                    allowed = [cond for en, cond in exc_conds if it.exc_matches(val, BuiltinV(en, None)) or en == val.name]
                    nm = f"no {val.name} unless specified"
                    ctx.obligations.append((nm, list(ctx._formulas()), zbool(Or(*allowed)) if allowed else z3.BoolVal(False)))
            except PathAbort:
                kind = "abort"
            fr = ctx.frames[0]
            for i in range(len(prefix), len(fr.taken)):
                ch, alts = fr.taken[i]
                for alt in alts:
                    work.append([t[0] for t in fr.taken[:i]] + [alt])
            if kind == "abort":
                pass
            elif kind == "normal":
                out.normal_paths += 1
            for nm, hyps, goal in ctx.obligations:
                if time.time() > budget + 60:
                    raise Unsupported("verification budget exhausted")
                r = prover.prove(hyps, goal)
                if r.status == REFUTED and nm.startswith(("loop-invariant", "requires of ", "precondition of ")):
                    # auxiliary annotation does not fit this code: no verdict on the property
                    r.status = UNKNOWN
                    r.detail = f"auxiliary obligation not valid: {r.detail or ''}"
                elif r.status == REFUTED and is_z3(goal) and core.decl_names(goal) & getattr(ctx, "havocs", set()):
                    r.status = UNKNOWN
                    r.detail = f"over-approximated loop state: {r.detail or ''}"
                ob = {"name": nm, "path": out.paths, "status": r.status, "backend": r.backend, "seconds": round(r.seconds, 3)}
                if r.status != PROVED:
                    ob["detail"] = r.detail
                    ob["goal"] = short(goal, 600)
                    if r.model is not None:
                        ob["model"] = short(r.model, 2000)
                out.obls.append(ob)
                if log:
                    log(ob)
    except Unsupported as e:
        out.unsupported = str(e)
        if log:
            tb = traceback.extract_tb(e.__traceback__)
            log({"unsupported": str(e), "at": [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-6:]]})
    except ContractError as e:
        out.error = f"contract error: {e}"
    except (PyRaise, ReturnSig, BreakSig, ContinueSig) as e:
        out.unsupported = f"unexpected signal {type(e).__name__} {getattr(e, 'exc', '')}"
    except z3.Z3Exception as e:
        out.unsupported = f"z3: {e}"
        if log:
            log({"trace": traceback.format_exc()})
    except RecursionError:
        out.unsupported = "recursion limit"
    except Exception as e:  # an engine defect must never look like a verdict
        out.unsupported = f"engine: {type(e).__name__}: {e}"
        if log:
            log({"trace": traceback.format_exc()})
    out.functions = set(world.functions_seen)
    out.contracts_used = set(world.contracts_used)
    out.models = set(world.models_used)
    out.solver_s = prover.solver_s + world.stats["solver_s"]
    out.queries = prover.queries + world.stats["checks"]
    out.backends = dict(prover.backends)
    if out.error:
        out.status = "error"
    elif any(o["status"] == REFUTED for o in out.obls):
        out.status = REFUTED
    elif out.unsupported:
        out.status = "undecided"
    elif any(o["status"] == UNKNOWN for o in out.obls):
        out.status = "undecided"
    elif not out.obls:
        out.status, out.error = "error", "no obligations generated"
    else:
        out.status = PROVED
    return out


class ContractError(Exception):
    pass


def check_callees(h, c, a):
    """a replaced callee that no longer exists under its name: the contract says nothing about this code"""
    for q in list(c.stubs) + list(c.uses):
        try:
            h.func(REGISTRY[q].qual if q in REGISTRY else q)
        except (PyRaise, KeyError, AttributeError, Unsupported) as e:
            raise Unsupported(f"callee {q} not found: {e}")
    for v in a.values():
        if isinstance(v, RecV) and isinstance(v.cls, ClassV):
            for m in v.stubs:
                if v.cls.lookup(m)[0] is None:
                    raise Unsupported(f"method {v.cls.name}.{m} not found")


def bind(it, f, a):
    """positional/keyword arguments for call_func from the contract's dict"""
    ar = f.node.args
    args, kw = [], {}
    rest = dict(a)
    rest = {k: v for k, v in rest.items() if not k.startswith("_")} | {k: v for k, v in rest.items() if k in [x.arg for x in ar.posonlyargs + ar.args + ar.kwonlyargs]}
    for x in ar.posonlyargs + ar.args:
        if x.arg in rest:
            kw[x.arg] = rest.pop(x.arg)
        # self must be positional even when renamed
    first = (ar.posonlyargs + ar.args)[:1]
    if "self" in rest and first and first[0].arg not in kw:
        args.append(rest.pop("self"))
    for x in ar.kwonlyargs:
        if x.arg in rest:
            kw[x.arg] = rest.pop(x.arg)
    kw.update(rest)
    return args, kw

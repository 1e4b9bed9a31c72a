"""Unbounded loops: the body is executed once for a generic iteration k and its
effect on every modified location is summarised (fold / map / filter / scatter /
last write / set insertion); early exits become a first-exit-index case split.
The inductive argument is the summarisation rule itself: a location whose
iteration effect has the recognised shape has, after m iterations, the closed
form S(m) with S(0)=initial value and S(k+1)=effect(S(k),k)."""
from __future__ import annotations
import ast
import z3
from .values import *
from . import core, ops
from .core import HEAP, Env
from .ops import And, Or, Not, ite_val, zbool, subst_val, mentions, eq_val


def for_loop(it, st, env):
    seq = it.as_seq(it.eval(st.iter, env))
    if seq.items is not None:
        items = list(seq.items)
        for x in items:
            it.assign(st.target, x, env)
            try:
                it.exec_block(st.body, env)
            except ContinueSig:
                continue
            except BreakSig:
                return
        it.exec_block(st.orelse, env)
        return
    run_symbolic(it, seq, lambda x: it.assign(st.target, x, env), lambda: it.exec_block(st.body, env), env,
                 lambda: it.exec_block(st.orelse, env))


def run_symbolic(it, seq, bind, body, env, orelse=None):
    if seq.flat is not None:
        n, cond, chunk = seq.flat

        def step(k):
            if not it.ctx.branch(zbool(cond(k))):
                return
            try:
                run_symbolic(it, chunk(k), bind, body, env)
            except BreakSig:
                raise Unsupported("break in a loop over a nested list")
    elif isinstance(seq.n, Poison) and seq.filt is None:
        raise Unsupported("loop over a list under construction")
    elif seq.filt is not None:
        n, cond, val = seq.filt

        def step(k):
            if not it.ctx.branch(zbool(cond(k))):
                return
            bind(val(k))
            body()
    else:
        n, fn = seq.n, seq.fn

        def step(k):
            bind(fn(k))
            body()
    summarise(it, n, step, env, orelse)


def comprehension(it, e, env, elt):
    out = SeqV("list", items=[])
    cenv = Env(env)

    def gen(i, en):
        g = e.generators[i]
        seq = it.as_seq(it.eval(g.iter, en))

        def body():
            for c in g.ifs:
                if not it.test(it.eval(c, en)):
                    return
            if i + 1 < len(e.generators):
                gen(i + 1, en)
            else:
                it.models.list_append(it, out, elt(en))
        if seq.items is not None:
            for x in list(seq.items):
                it.assign(g.target, x, en)
                body()
        else:
            run_symbolic(it, seq, lambda x: it.assign(g.target, x, en), body, en)
    gen(0, cenv)
    return out


def while_loop(it, st, env):
    qual = None
    e = env
    while e is not None and qual is None:
        f = getattr(e, "func", None)
        if f is not None:
            qual = f.qual
            node = f.node
        e = e.parent
    inv = it.opt.get("invariants", {}).get(qual)
    if inv is not None:
        return invariant_loop(it, st, env, inv, qual)
    if counter_while(it, st, env):
        return
    # concrete unrolling only
    for _ in range(64):
        t = it.truth(it.eval(st.test, env))
        if not isinstance(t, bool):
            t2 = z3.simplify(t)
            if z3.is_true(t2):
                t = True
            elif z3.is_false(t2):
                t = False
            elif it.ctx.entails(t2):
                t = True
            elif it.ctx.entails(z3.Not(t2)):
                t = False
            else:
                raise Unsupported("while loop without invariant")
        if not t:
            it.exec_block(st.orelse, env)
            return
        try:
            it.exec_block(st.body, env)
        except ContinueSig:
            continue
        except BreakSig:
            return
    raise Unsupported("while loop without invariant")


def counter_while(it, st, env):
    """while c < bound: body  with c incremented by one on every path."""
    t = st.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return False
    l, r, op = t.left, t.comparators[0], t.ops[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        l, r = r, l
        op = ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
    if not (isinstance(op, (ast.Lt, ast.LtE)) and isinstance(l, ast.Name)):
        return False
    cname = l.id
    if cname not in env.vars:
        return False
    c0 = it.resolve(env.vars[cname])
    b = it.resolve(it.eval(r, env))
    if not (is_int(c0) and is_int(b)):
        return False
    if isinstance(c0, int) and isinstance(b, int):
        return False
    n = ops.num_sub(b, c0)
    if isinstance(op, ast.LtE):
        n = n + 1
    n = z3.simplify(z3.If(n < 0, z3.IntVal(0), n)) if not it.ctx.entails(n >= 0) else z3.simplify(n)

    def step(k):
        env.vars[cname] = z3.simplify(to_int(c0) + k)
        bb = it.resolve(it.eval(r, env))
        if not (is_int(bb) and (bb is b or (is_z3(bb) and is_z3(b) and bb.eq(b)) or (isinstance(bb, int) and isinstance(b, int) and bb == b))):
            raise Unsupported("while bound changes")
        try:
            it.exec_block(st.body, env)
        except ContinueSig:
            pass
        v = env.vars[cname]
        if not z3.is_true(z3.simplify(to_int(v) == to_int(c0) + k + 1)):
            raise Unsupported("while counter not incremented by one")

    summarise(it, n, step, env, lambda: it.exec_block(st.orelse, env),
              fixed={("var", id(env), cname): lambda m: z3.simplify(to_int(c0) + m)})
    return True


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def invariant_loop(it, st, env, inv, qual):
    """Classic invariant rule; the invariant comes from the contract."""
    ctx = it.ctx
    names = sorted(n for n in assigned_names(st.body) if n in env.vars)
    for nm, f in inv(it, env, st, names, "entry"):
        ctx.obligations.append((f"loop-invariant-entry:{nm}", list(ctx._formulas()), zbool(f)))
    mode = ctx.choose(2)
    for n in names:
        v = it.resolve(env.vars[n])
        if is_int(v):
            env.vars[n] = ctx.fresh(n, z3.IntSort())
        elif is_bool(v):
            env.vars[n] = ctx.fresh(n, z3.BoolSort())
        elif is_real(v):
            env.vars[n] = ctx.fresh(n, z3.RealSort())
        else:
            raise Unsupported("while loop modifies non-scalar")
    for nm, f in inv(it, env, st, names, "assume"):
        ctx.assume(zbool(f))
    if mode == 0:
        if not it.test(it.eval(st.test, env)):
            raise PathAbort()
        try:
            it.exec_block(st.body, env)
        except ContinueSig:
            pass
        except BreakSig:
            return
        for nm, f in inv(it, env, st, names, "preserve"):
            ctx.obligations.append((f"loop-invariant-preserved:{nm}", list(ctx._formulas()), zbool(f)))
        raise PathAbort()
    if it.test(it.eval(st.test, env)):
        raise PathAbort()
    it.exec_block(st.orelse, env)


# ---------------------------------------------------------------- diffing
def same(a, b):
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if isinstance(a, (int, str, bool)) and isinstance(b, (int, str, bool)) and type(a) is type(b):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return False


MISSING = object()


def diff(snap):
    """locations changed with respect to a snapshot -> {loc: (obj, final)}"""
    out = {}
    for o, c, d in snap[1]:
        if isinstance(o, Env):
            old = d["vars"]
            for k, v in o.vars.items():
                if k not in old or not same(old[k], v):
                    if getattr(o, "lazy", None) is not None:
                        continue  # module-level lazy names
                    out[("var", id(o), k)] = (o, v)
        elif isinstance(o, RecV):
            old = d["fields"]
            for k, v in o.fields.items():
                if k not in old or not same(old[k], v):
                    out[("field", id(o), k)] = (o, v)
        elif isinstance(o, RecListV):
            if o.flog:
                for f in o.flog:
                    out[("rl", id(o), f)] = (o, list(o.flog[f]))
        elif isinstance(o, (SeqV, NdV, SetV, MapV)):
            if o.log:
                out[("cont", id(o), None)] = (o, list(o.log))
            elif isinstance(o, SeqV) and (o.items is not None) != (d["items"] is not None):
                out[("bad", id(o), None)] = (o, None)
            elif isinstance(o, SeqV) and o.items is not None and (len(o.items) != len(d["items"]) or not all(same(x, y) for x, y in zip(o.items, d["items"]))):
                out[("bad", id(o), None)] = (o, None)
            elif isinstance(o, NdV) and o._fn is not d["_fn"]:
                out[("bad", id(o), None)] = (o, None)
        elif isinstance(o, DictV):
            if o.log:
                out[("cont", id(o), None)] = (o, list(o.log))
            elif not isinstance(o.d, PoisonDict):
                old = d["d"]
                if any(k not in old or not same(old[k], v) for k, v in o.d.items()) or len(old) != len(o.d):
                    out[("bad", id(o), None)] = (o, None)
    return out


def val_sort(v):
    if isinstance(v, bool) or (is_z3(v) and v.sort() == z3.BoolSort()):
        return "bool"
    if is_int(v):
        return "int"
    if is_real(v):
        return "real"
    if is_str(v):
        return "str"
    if is_z3(v):
        return v.sort()
    return None


def join_sort(ss):
    ss = set(ss)
    if len(ss) == 1:
        return ss.pop()
    if ss <= {"int", "real"}:
        return "real"
    return None


Z = {"bool": z3.BoolSort(), "int": z3.IntSort(), "real": z3.RealSort(), "str": StrSort}


def zsort(s):
    return Z[s] if isinstance(s, str) else s


def coerce(ctx, v, s):
    if s == "real":
        return to_real(v)
    if s == "int":
        return to_int(v)
    if s == "bool":
        return zbool(v)
    if s == "str":
        return ops.strz(ctx, v)
    return v


# ---------------------------------------------------------------- summariser
def summarise(it, n, step, env, orelse=None, fixed=None):
    ctx = it.ctx
    fixed = fixed or {}
    if isinstance(n, int):
        n = z3.IntVal(n)
    k = z3.Const(ctx.name("k"), z3.IntSort())
    if not ctx.feasible(n > 0):
        if orelse:
            orelse()
        return

    orig = ctx.snapshot()
    orig_map = {id(o): (o, d) for o, c, d in orig[1]}

    def initial(loc):
        kind, oid, key = loc
        o, d = orig_map[oid]
        if kind == "var":
            return d["vars"].get(key, MISSING)
        if kind == "field":
            return d["fields"].get(key, MISSING)
        raise KeyError(kind)

    def arm_logs():
        for o in HEAP[:orig[0]]:
            if isinstance(o, RecListV):
                o.flog = {}
                o.log = []
            elif isinstance(o, (SeqV, NdV, SetV, MapV, DictV)):
                o.log = []

    M = {}        # loc -> info
    induct = {}   # loc -> (start, step): counters, run with their closed form start + step*k
    for rnd in range(7):
        ctx.restore(orig)
        arm_logs()
        hterm = {}
        ctx.loopvars.append(k)
        try:
            for loc, info in M.items():
                apply_havoc(it, loc, info, hterm, initial, fixed, k)
                if loc in induct:
                    v0, c = induct[loc]
                    store = info["obj"].vars if loc[0] == "var" else info["obj"].fields
                    store[loc[2]] = z3.simplify(to_int(v0) + c * k)
                    hterm[loc] = {"names": [], "term": None}
        finally:
            ctx.loopvars.pop()
        base = ctx.snapshot()

        def thunk():
            try:
                step(k)
            except ContinueSig:
                pass

        sps = ctx.lam_at(k, 0, n, thunk, capture=lambda: diff(base), export=False)
        new = {}
        for sp in sps:
            for loc, (o, fin) in sp.cap.items():
                new.setdefault(loc, []).append((o, fin))
        ctx.restore(orig)
        grew = False
        for loc, lst in new.items():
            if loc[0] == "bad":
                raise Unsupported(f"loop modifies {type(lst[0][0]).__name__} in an unsupported way")
            o = lst[0][0]
            fins = [f for _, f in lst]
            info = M.get(loc)
            ni = describe(it, loc, o, fins, initial)
            if info is None or info["shape"] != ni["shape"]:
                if info is not None:
                    ni["shape"] = merge_shape(info["shape"], ni["shape"])
                    if ni["shape"] == info["shape"]:
                        continue
                M[loc] = ni
                grew = True
        for loc, hs in hterm.items():
            if loc in induct or loc in fixed or loc[0] not in ("var", "field") or hs.get("sort") != "int" or not is_int(initial(loc)):
                continue
            c = counter_step(sps, loc, hs["term"], {x for y in hterm.values() for x in y["names"]} | {k.decl().name()})
            if c is not None:
                induct[loc] = (initial(loc), c)
                grew = True
        if not grew:
            break
    else:
        raise Unsupported("loop effect does not stabilise")

    if not sps:
        # no feasible iteration
        ctx.assume(n <= 0)
        if orelse:
            orelse()
        return

    exits = [sp for sp in sps if sp.out[0] not in ("normal", "continue")]
    normal = [sp for sp in sps if sp.out[0] in ("normal", "continue")]

    # ---- classification in rounds
    S = {}
    sub_pairs = []
    sub_funs = []
    resolved_names = set()
    all_h = {loc: hterm[loc] for loc in hterm}
    hnames = {}
    for loc, hs in all_h.items():
        for h in hs["names"]:
            hnames[h] = loc
    ctx.__dict__.setdefault("havocs", set()).update(hnames)
    pending = dict.fromkeys(M)
    for loc, (v0, c) in induct.items():
        for sp in normal:
            ent = sp.cap.get(loc)
            if ent is None or not is_int(ent[1]) or not z3.is_true(z3.simplify(z3.simplify(to_int(ent[1]) - to_int(v0) - c * (k + 1), som=True) == 0)):
                raise Unsupported("counter does not advance uniformly")
        S[loc] = lambda m, v0=v0, c=c: z3.simplify(to_int(v0) + c * m)
        pending.pop(loc, None)
    progress = True
    setup = (it, k, n, normal, hterm, initial, orig_map)
    while pending and progress:
        progress = False
        for loc in list(pending):
            unresolved = {h for h, l in hnames.items() if l in pending and l != loc}
            try:
                s = classify(setup, loc, M[loc], unresolved, sub_pairs, sub_funs, fixed)
            except Unsupported as ex:
                M[loc]["why"] = str(ex)
                continue
            S[loc] = s
            pending.pop(loc, None)
            progress = True
            h = hterm.get(loc)
            if h is not None and h.get("term") is not None:
                sv = s(k)
                if is_z3(sv) or isinstance(sv, (int, bool, str)):
                    sub_pairs.append((h["term"], coerce(ctx, sv, h["sort"])))
            if h is not None and h.get("pred") is not None:
                sub_funs.append((h, s))
    live = set()
    for sp in sps:
        for c in sp.conds + sp.facts:
            live |= core.decl_names(c) if is_z3(c) else set()
    for l in list(pending):
        # a local whose final value is unknown is poisoned: any later read is refused
        if l[0] == "var" and not (set(hterm[l]["names"]) & live if l in hterm else False):
            why = M[l].get("why")
            S[l] = lambda m, why=why: Poison(why)
            pending.pop(l, None)
    if pending:
        l = next(iter(pending))
        raise Unsupported(f"loop location {l[0]}:{l[2]} not summarised: {M[l].get('why')}")

    def subz(f):
        return apply_subst(it, f, sub_pairs, sub_funs, k)

    def exit_cond_at(t):
        c = Or(*[And(*[subz(x) for x in sp.conds]) for sp in exits])
        return subst_val(zbool(c), [(k, t)])

    def export(m):
        seen = set()
        for sp in sps:
            g = And(k >= 0, k < m, *[subz(c) for c in sp.conds])
            for f in sp.facts:
                f = subz(f)
                key = (g.get_id(), f.get_id())
                if key in seen:
                    continue
                seen.add(key)
                ctx.pc.append(("fact", core.quant_fact(k, g, f)))

    for sp in exits:
        for c in sp.conds:
            for h in core.decl_names(subz(c)):
                if h in hnames and hnames[h] in M and h not in resolved_names:
                    if not (hterm[hnames[h]].get("term") is not None or hterm[hnames[h]].get("pred") is not None):
                        raise Unsupported("exit condition depends on loop state")

    def install(m):
        for loc, s in S.items():
            install_value(it, loc, M[loc], s, m, orig_map)

    if exits:
        def feas(i):
            if i == 0:
                return bool(normal) or ctx.feasible(n <= 0)
            t = z3.FreshConst(z3.IntSort(), "kx")
            c = exit_cond_at(t)
            return ctx.feasible(z3.And(0 <= t, t < n, c))
        mode = ctx.choose(2, feas)
    else:
        mode = 0
    if mode == 0:
        if exits:
            j = z3.Const(ctx.name("kq"), z3.IntSort())
            ec = z3.simplify(exit_cond_at(j))
            ctx.pc.append(("fact", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(ec)))))
        export(n)
        install(n)
        if orelse:
            orelse()
        return
    ks = ctx.fresh("kexit", z3.IntSort())
    ctx.assume(z3.And(0 <= ks, ks < n))
    j = z3.Const(ctx.name("kq"), z3.IntSort())
    ctx.pc.append(("fact", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ks), z3.Not(z3.simplify(exit_cond_at(j)))))))
    ctx.pc.append(("cond", z3.simplify(exit_cond_at(ks))))
    export(ks + 1)
    install(ks)
    try:
        step(ks)
    except BreakSig:
        return
    except ContinueSig:
        raise PathAbort()
    raise PathAbort()


def counter_step(sps, loc, h, varying):
    """the common advance of a counter per iteration: a number, or a term that no iteration changes"""
    c = None
    for sp in sps:
        if sp.out[0] not in ("normal", "continue"):
            continue
        ent = sp.cap.get(loc)
        if ent is None or not is_int(ent[1]):
            return None
        d = z3.simplify(to_int(ent[1]) - h)
        if z3.is_int_value(d):
            d = d.as_long()
        elif core.decl_names(d) & varying:
            return None
        if c is not None and not (type(c) is type(d) and (c == d if isinstance(c, int) else c.eq(d))):
            return None
        c = d
    return None if isinstance(c, int) and c == 0 else c


def apply_subst(it, f, pairs, funs, k):
    if not is_z3(f):
        return f
    for _ in range(3):
        g = f
        for h, s in funs:
            g = subst_pred(it, g, h, s, k)
        if pairs:
            g = z3.substitute(g, *pairs)
        if g.eq(f):
            break
        f = g
    return f


def subst_pred(it, f, h, s, k):
    """replace membership-predicate applications h(..,k,y) by the set summary at k"""
    name = h["names"][0]
    apps = core.apps_of(f, {name})
    if not apps:
        return f
    y = z3.Var(0, h["elem"])
    st = s(k)
    yc = z3.FreshConst(h["elem"], "y")
    body = zbool(st.has(yc) if isinstance(st, MapV) else ops.set_mem(it.ctx, st, yc))
    d = h["decl"]
    ar = d.arity()
    body = z3.substitute(body, (yc, z3.Var(ar - 1, h["elem"])))
    return z3.substitute_funs(f, (d, body))


def merge_shape(a, b):
    if a == b:
        return a
    if a[0] == "scalar" and b[0] == "scalar":
        j = join_sort([a[1], b[1]])
        return ("scalar", j) if j is not None else ("any",)
    if a[0] in ("scalar", "any") and b[0] in ("scalar", "any"):
        return ("any",)
    return b


def describe(it, loc, o, fins, initial):
    kind = loc[0]
    if kind in ("var", "field"):
        v0 = initial(loc)
        ss = [val_sort(f) for f in fins]
        if v0 is not MISSING:
            ss.append(val_sort(v0))
        j = join_sort(ss)
        return {"obj": o, "shape": ("scalar", j) if j is not None and v0 is not MISSING else ("any",)}
    if kind == "rl":
        return {"obj": o, "shape": ("rl",)}
    ops_ = {e[0] for f in fins for e in f}
    if ops_ == {"append"}:
        return {"obj": o, "shape": ("append",)}
    if ops_ <= {"append", "extend"}:
        return {"obj": o, "shape": ("flat",)}
    if ops_ == {"add"}:
        v = [e[1] for f in fins for e in f][0]
        s = val_sort(it.resolve(v))
        if s is None:
            raise Unsupported("set of structured values in loop")
        return {"obj": o, "shape": ("set", s)}
    if ops_ == {"set"}:
        if isinstance(o, DictV):
            return {"obj": o, "shape": ("dict", val_sort(it.resolve([e[1][0] for f in fins for e in f][0])))}
        return {"obj": o, "shape": ("array",)}
    raise Unsupported(f"mixed container updates in loop: {ops_}")


def apply_havoc(it, loc, info, hterm, initial, fixed, k):
    ctx = it.ctx
    kind, oid, key = loc
    o = info["obj"]
    shape = info["shape"]
    if kind in ("var", "field"):
        store = o.vars if kind == "var" else o.fields
        if loc in fixed:
            store[key] = fixed[loc](k)
            hterm[loc] = {"names": [], "term": None}
            return
        if shape[0] == "scalar":
            nm = ctx.name("h")
            lv = list(ctx.loopvars)
            f = z3.Function(nm, *[z3.IntSort()] * len(lv), zsort(shape[1]))
            t = f(*lv)
            store[key] = t
            hterm[loc] = {"names": [nm], "term": t, "sort": shape[1]}
        else:
            store[key] = Poison("value carried between loop iterations")
            hterm[loc] = {"names": [], "term": None}
        return
    if kind == "rl":
        f0 = o.fields.get(key)
        o.fields = dict(o.fields)
        o.fields[key] = lambda i: Poison("field updated in loop")
        o.absent.discard(key)
        hterm[loc] = {"names": [], "term": None, "old": f0}
        return
    if shape[0] in ("append", "flat"):
        o.items, o.fn, o.n, o.filt = None, None, Poison("list under construction"), None
        hterm[loc] = {"names": [], "term": None}
        return
    if shape[0] == "set":
        nm = ctx.name("hset")
        lv = list(ctx.loopvars)
        es = zsort(shape[1])
        f = z3.Function(nm, *[z3.IntSort()] * len(lv), es, z3.BoolSort())
        o.items = None
        o.mem = lambda y: f(*lv, coerce(ctx, it.resolve(y), shape[1]))
        hterm[loc] = {"names": [nm], "pred": f, "decl": f, "elem": es, "term": None, "lv": lv}
        return
    if shape[0] == "dict":
        if shape[1] is None:
            hterm[loc] = {"names": [], "term": None}
            o.d = PoisonDict()
        else:
            nm = ctx.name("hdict")
            lv = list(ctx.loopvars)
            es = zsort(shape[1])
            f = z3.Function(nm, *[z3.IntSort()] * len(lv), es, z3.BoolSort())
            o.d = PoisonDict(lambda y: f(*lv, coerce(ctx, it.resolve(y), shape[1])))
            hterm[loc] = {"names": [nm], "pred": f, "decl": f, "elem": es, "term": None, "lv": lv}
        o.present = {}
        return
    if shape[0] == "array":
        nm = ctx.name("harr")
        lv = list(ctx.loopvars)
        if isinstance(o, NdV):
            s = {"int": z3.IntSort(), "bool": z3.BoolSort()}.get(o.dtype, z3.RealSort())
            nd = o.ndim
            f = z3.Function(nm, *[z3.IntSort()] * (len(lv) + nd), s)
            o.fn = lambda *i: f(*lv, *i)
            hterm[loc] = {"names": [nm], "term": None, "decl": f, "lv": lv, "nd": nd}
            return
        if isinstance(o, MapV):
            o.has = lambda y: (_ for _ in ()).throw(Unsupported("map read in loop"))
            o.get = o.has
            hterm[loc] = {"names": [], "term": None}
            return
        probe = it.seq_select(o, z3.FreshInt("p"))
        vs = val_sort(probe)
        if vs is None:
            old = o
            o.fn = lambda i: Poison("list element updated in loop")
            if o.items is not None:
                o.n = len(o.items)
                o.items = None
            hterm[loc] = {"names": [], "term": None}
            return
        f = z3.Function(nm, *[z3.IntSort()] * (len(lv) + 1), zsort(vs))
        if o.items is not None:
            o.n = len(o.items)
            o.items = None
        o.fn = lambda i: f(*lv, i)
        hterm[loc] = {"names": [nm], "term": None, "decl": f, "lv": lv, "nd": 1}
        return
    raise Unsupported(f"havoc {shape}")


def path_vals(setup, loc):
    it, k, n, normal, hterm, initial, orig_map = setup
    out = []
    for sp in normal:
        ent = sp.cap.get(loc)
        out.append((sp.conds, ent[1] if ent is not None else None))
    return out


def classify(setup, loc, info, unresolved, pairs, funs, fixed):
    it, k, n, normal, hterm, initial, orig_map = setup
    ctx = it.ctx
    kind = loc[0]
    own = set(hterm[loc]["names"]) if loc in hterm else set()
    bad = unresolved | own
    if loc in fixed:
        return fixed[loc]

    def sub(v):
        return subst_val_full(it, v, pairs, funs, k)

    pv = [([sub(c) for c in conds], fin) for conds, fin in path_vals(setup, loc)]

    def conds_ok(names):
        for conds, _ in pv:
            for c in conds:
                if core.decl_names(c) & names:
                    return False
        return True

    if kind in ("var", "field"):
        v0 = initial(loc)
        h = hterm[loc].get("term")
        vals = []
        for conds, fin in pv:
            vals.append(sub(fin) if fin is not None else (h if h is not None else Ellipsis))
        if all(v is Ellipsis or (is_z3(v) and h is not None and v.eq(h)) for v in vals):
            return lambda m: v0
        # last write, independent of loop state
        if all(v is not Ellipsis and not mentions(v, bad) for v in vals) and conds_ok(bad if len(pv) > 1 else set()):
            comb = combine(ctx, pv, vals)

            def S(m):
                last = subst_val(comb, [(k, z3.simplify(m - 1))])
                if v0 is MISSING or isinstance(v0, Poison):
                    pos = m > 0
                    return last if isinstance(pos, bool) and pos else LastP(pos, last)
                return ite_val(ctx, m > 0, last, v0)
            return S
        if h is None:
            # conditional last write of arbitrary values
            if conds_ok(bad) and all(v is Ellipsis or not mentions(v, bad) for v in vals):
                return cond_last(it, k, pv, vals, v0)
            raise Unsupported("loop-carried value of unsupported type")
        s = hterm[loc]["sort"]
        vals = [coerce(ctx, v if v is not Ellipsis else h, s) for v in vals]
        same_all = all(v.eq(vals[0]) for v in vals)
        if not conds_ok(bad) and not same_all:
            # recurrences whose branch conditions read the accumulator
            r = bool_accumulate(it, k, pv, vals, h, own, unresolved, s, v0)
            if r is not None:
                return r
            raise Unsupported("branch on loop-carried value")
        # additive
        if s in ("int", "real"):
            diffs = [z3.simplify(v - h, som=True) for v in vals]
            if all(not (core.decl_names(d) & bad) for d in diffs):
                t = combine(ctx, pv, diffs)
                return lambda m: ops.num_add(coerce(ctx, v0, s), fold_sum(it, m, k, t))
            one = z3.RealVal(1) if s == "real" else z3.IntVal(1)
            facs = [z3.simplify(z3.substitute(v, (h, one))) for v in vals]
            if all(not (core.decl_names(f) & bad) for f in facs) and all(prove_eq(v, h * f) for v, f in zip(vals, facs)):
                t = combine(ctx, pv, facs)
                return lambda m: coerce(ctx, v0, s) * ctx.w.folds.fold("mul", m, k, t)
            # conditional assignment
            if all(v.eq(h) or not (core.decl_names(v) & bad) for v in vals):
                return cond_last(it, k, pv, [Ellipsis if v.eq(h) else v for v in vals], v0)
        if s == "bool":
            r = bool_accumulate(it, k, pv, vals, h, own, unresolved, s, v0)
            if r is not None:
                return r
        if all(v.eq(h) or not (core.decl_names(v) & bad) for v in vals):
            return cond_last(it, k, pv, [Ellipsis if v.eq(h) else v for v in vals], v0)
        raise Unsupported("unrecognised recurrence")

    if kind == "rl":
        if not conds_ok(bad):
            raise Unsupported("branch on loop-carried value")
        old = hterm[loc].get("old")
        cells = []
        for conds, fin in pv:
            if fin is None:
                cells.append(Ellipsis)
                continue
            if len(fin) > 1 and not all(same(fin[0][0], x[0]) for x in fin):
                raise Unsupported("several elements updated in one iteration")
            i, v = fin[-1]
            if not z3.is_true(z3.simplify(to_int(i) == k)):
                raise Unsupported("element update not at the loop index")
            v = sub(v)
            if mentions(v, bad):
                raise Unsupported("element update depends on loop state")
            cells.append(v)

        def S(m):
            def fn(i):
                def at(c):
                    return subst_val(c, [(k, to_int(i))])
                v = None
                vv = [(old(i) if old is not None else Poison("unset")) if c is Ellipsis else at(c) for c in cells]
                pvs = [([at(x) for x in conds], None) for conds, _ in pv]
                v = combine(ctx, pvs, vv)
                inr = And(0 <= i, i < m) if is_z3(i) or is_z3(m) else (0 <= i < m)
                if old is None:
                    return v
                return ite_val(ctx, inr, v, old(i))
            return fn
        return S

    o = info["obj"]
    _, d0 = orig_map[loc[1]]
    shape = info["shape"]
    if not conds_ok(bad) and shape[0] not in ("set", "dict"):
        raise Unsupported("container update guarded by loop-carried value")
    if shape[0] == "flat":
        if d0["items"] != [] and not isinstance(d0["n"], Poison):
            raise Unsupported("nested appends to a list with contents")
        yes = []
        for conds, fin in pv:
            if not fin:
                continue
            if len(fin) > 1:
                raise Unsupported("several nested appends per iteration")
            op, v = fin[0]
            v = sub(v if op == "extend" else SeqV("list", items=[v]))
            if mentions(v, bad):
                raise Unsupported("appended value depends on loop state")
            yes.append((conds, v))
        if len(yes) != 1:
            raise Unsupported("nested appends on several paths")
        (conds, piece), = yes
        cond = zbool(And(*conds))

        def S(m):
            r = SeqV("list", n=Poison("nested list"))
            r.flat = (m, lambda q: subst_val(cond, [(k, to_int(q))]), lambda q: subst_val(piece, [(k, to_int(q))]))
            return r
        return S
    if shape[0] == "append":
        base = SeqV("list", items=list(d0["items"])) if d0["items"] is not None else SeqV("list", n=d0["n"], fn=d0["fn"])
        rows = []
        for conds, fin in pv:
            vs = [sub(e[1]) for e in fin] if fin is not None else []
            if any(mentions(v, bad) for v in vs):
                raise Unsupported("appended value depends on loop state")
            rows.append((conds, vs))
        counts = {len(vs) for _, vs in rows}
        nb = base.length()
        if isinstance(nb, Poison):
            if not counts <= {0, 1}:
                raise Unsupported("several nested appends per iteration")
            yes = [(c, vs[0]) for c, vs in rows if vs]
            cond = zbool(Or(*[And(*c) for c, _ in yes]))
            comb = combine(ctx, [(c, None) for c, _ in yes], [v for _, v in yes])

            def S(m):
                r = SeqV("list", n=Poison("nested list"))
                r.filt = (m, lambda q: subst_val(cond, [(k, to_int(q))]), lambda q: subst_val(comb, [(k, to_int(q))]))
                return r
            return S
        if len(counts) == 1:
            cnt = counts.pop()
            if cnt == 1:
                comb = combine(ctx, rows, [vs[0] for _, vs in rows])

                def S(m):
                    r = SeqV("list", n=m, fn=lambda i: subst_val(comb, [(k, to_int(i))]))
                    return it.seq_concat(base, r, "list") if not (isinstance(nb, int) and nb == 0) else r
                return S
            combs = [combine(ctx, rows, [vs[q] for _, vs in rows]) for q in range(cnt)]

            def S(m):
                def fn(i):
                    i = to_int(i)
                    v = subst_val(combs[-1], [(k, i / cnt)])
                    for q in range(cnt - 2, -1, -1):
                        v = ite_val(ctx, i % cnt == q, subst_val(combs[q], [(k, i / cnt)]), v)
                    return v
                r = SeqV("list", n=m * cnt, fn=fn)
                return it.seq_concat(base, r, "list") if not (isinstance(nb, int) and nb == 0) else r
            return S
        if counts <= {0, 1}:
            yes = [(c, vs[0]) for c, vs in rows if vs]
            cond = Or(*[And(*c) for c, _ in yes])
            comb = combine(ctx, [(c, None) for c, _ in yes], [v for _, v in yes])

            def S(m):
                cf = lambda q: subst_val(zbool(cond), [(k, to_int(q))])
                vf = lambda q: subst_val(comb, [(k, to_int(q))])
                r = it.filter_seq(m, cf, vf)
                return it.seq_concat(base, r, "list") if not (isinstance(nb, int) and nb == 0) else r
            return S
        raise Unsupported("irregular appends")
    if shape[0] == "set":
        s = shape[1]
        items0, mem0 = d0["items"], d0["mem"]
        rows = []
        for conds, fin in pv:
            vs = [sub(e[1]) for e in fin] if fin is not None else []
            rows.append((conds, vs))
        # additions guarded by membership of the same element are unconditional for membership
        unguarded = []
        for conds, vs in rows:
            cs = [c for c in conds if not (core.decl_names(c) & bad)]
            dropped = [c for c in conds if core.decl_names(c) & bad]
            unguarded.append((cs, vs, dropped))
        if any(d for *_, d in unguarded):
            # only sound when the state-dependent guard is "element already present":
            # then skipping the insertion does not change membership
            for cs, vs, dropped in unguarded:
                for v in vs:
                    if mentions(v, bad):
                        raise Unsupported("set element depends on loop state")
            if not membership_guard_only(it, k, rows, hterm[loc], bad):
                raise Unsupported("set insertion guarded by loop state")
            yes = [([c for c in conds if not (core.decl_names(c) & bad)], v) for conds, vs in rows for v in vs]
        else:
            yes = [(cs, v) for cs, vs, _ in unguarded for v in vs]
        for _, v in yes:
            if mentions(v, bad):
                raise Unsupported("set element depends on loop state")

        def S(m):
            def mem(y):
                base = Or(*[eq_val(ctx, x, y) for x in items0]) if items0 is not None else mem0(y)
                j = z3.Const(ctx.name("sj"), z3.IntSort())
                b = Or(*[And(*[subst_val(c, [(k, j)]) for c in cs], subst_val(coerce(ctx, v, s), [(k, j)]) == coerce(ctx, y, s)) for cs, v in yes])
                return Or(base, z3.Exists([j], z3.And(0 <= j, j < m, zbool(b))))
            r = SetV(mem=mem)
            return r
        return S
    if shape[0] == "dict":
        rows = [(conds, [(sub(e[1][0]), sub(e[2])) for e in fin] if fin is not None else []) for conds, fin in pv]
        if any(len(vs) > 1 for _, vs in rows):
            raise Unsupported("several dict writes per iteration")
        if any(mentions(x, bad) for _, vs in rows for kv in vs for x in kv):
            raise Unsupported("dict entry depends on loop state")
        if isinstance(d0["d"], PoisonDict) or d0["d"]:
            raise Unsupported("dict not empty before loop")
        if not conds_ok(bad):
            # an iteration that completes writes one fixed entry, whatever the state
            es = [vs[0] if len(vs) == 1 else None for _, vs in rows]
            if None in es or not all(same(x, y) for e in es for x, y in zip(e, es[0])):
                raise Unsupported("dict write guarded by loop state")
            rows = [([], [es[0]])]
        ks_ = val_sort(next(v[0] for _, vs in rows for v in vs))
        if ks_ is None:
            raise Unsupported("dict key sort")
        yes = [(c, vs[0]) for c, vs in rows if vs]
        cond = zbool(Or(*[And(*c) for c, _ in yes]))
        kc = combine(ctx, [(c, None) for c, _ in yes], [coerce(ctx, v[0], ks_) for _, v in yes])
        vc = combine(ctx, [(c, None) for c, _ in yes], [v[1] for _, v in yes])

        def S(m):
            L = last_index(it, m, k, [zsort(ks_)], lambda key: z3.And(cond, kc == key))
            has = lambda y: L(coerce(ctx, y, ks_)) >= 0
            get = lambda y: subst_val(vc, [(k, L(coerce(ctx, y, ks_)))])
            return MapV(has, get, zsort(ks_))
        return S
    if shape[0] == "array":
        return classify_array(setup, loc, info, own, unresolved, pv, sub, o, d0)
    raise Unsupported(f"classify {shape}")


def membership_guard_only(it, k, rows, h, bad):
    """every path's state-dependent condition is a literal of the membership predicate,
    and a path that does not insert v has the literal mem(v) true."""
    name = h["names"][0]
    inserted = [v for _, vs in rows for v in vs]
    if not inserted:
        return False
    for conds, vs in rows:
        for c in conds:
            if not (core.decl_names(c) & bad):
                continue
            neg = z3.is_not(c)
            a = c.arg(0) if neg else c
            if not (z3.is_app(a) and a.decl().name() == name):
                return False
            y = a.children()[-1]
            if any(not (is_z3(v) and v.eq(y)) for v in inserted):
                return False
            if not vs and neg:
                return False
    return True


def last_index(it, m, k, key_sorts, cond):
    """L(key): largest j<m with cond(j,key), or -1."""
    ctx = it.ctx
    I = z3.IntSort()
    f = ctx.fresh_fn("last", I, *key_sorts, I)
    keys = [z3.FreshConst(s, "lk") for s in key_sorts]
    c = cond(*keys)
    mm = z3.FreshConst(I, "m")
    L = f(mm, *keys)
    j = z3.FreshConst(I, "lj")
    at = lambda t: z3.substitute(c, (k, t))
    ctx.assume(z3.ForAll([mm] + keys, z3.And(L >= -1, z3.Implies(mm >= 0, L < mm), z3.Implies(L >= 0, at(L))), patterns=[L]))
    ctx.assume(z3.ForAll([mm] + keys + [j], z3.Implies(z3.And(0 <= j, j < mm, at(j)), z3.And(L >= j)), patterns=[z3.MultiPattern(L, at_pat(at(j), j, L))] if at_pat(at(j), j, None) is not None else []))
    return lambda *key: f(m, *key)


def at_pat(c, j, L):
    """some uninterpreted application mentioning j, usable as trigger"""
    seen = set()
    stack = [c]
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and any(a.eq(j) for a in t.children()):
            return t
        stack.extend(t.children())
    return None


def cond_last(it, k, pv, vals, v0):
    """value of the last iteration that assigned"""
    ctx = it.ctx
    yes = [(conds, v) for (conds, _), v in zip(pv, vals) if v is not Ellipsis]
    cond = zbool(Or(*[And(*c) for c, _ in yes]))
    comb = combine(ctx, [(c, None) for c, _ in yes], [v for _, v in yes])
    cache = {}

    def S(m):
        if "L" not in cache:
            I = z3.IntSort()
            f = ctx.fresh_fn("last", I, I)
            mm, j = z3.FreshConst(I, "m"), z3.FreshConst(I, "lj")
            at = lambda t: z3.substitute(cond, (k, t))
            L = f(mm)
            ctx.assume(z3.ForAll([mm], z3.And(L >= -1, z3.Implies(mm >= 0, L < mm), z3.Implies(L >= 0, at(L))), patterns=[L]))
            ctx.assume(z3.ForAll([mm, j], z3.Implies(z3.And(0 <= j, j < mm, at(j)), L >= j)))
            cache["L"] = f
        L = cache["L"](m)
        if v0 is MISSING:
            return Poison("possibly unbound")
        return ite_val(ctx, L >= 0, subst_val(comb, [(k, L)]), v0)
    return S


def bool_accumulate(it, k, pv, vals, h, own, unresolved, s, v0):
    if s != "bool":
        return None
    ctx = it.ctx
    # flag set under h-independent conditions, possibly short-circuited on h itself
    total = combine_formula(pv, vals)
    t0 = z3.simplify(z3.substitute(total, (h, z3.BoolVal(False))))
    t1 = z3.simplify(z3.substitute(total, (h, z3.BoolVal(True))))
    bad = own | unresolved
    if core.decl_names(t0) & bad or core.decl_names(t1) & bad:
        return None
    if prove(t1):
        # h' = h or t0
        return lambda m: Or(zbool(v0), exists_lt(ctx, m, k, t0))
    if prove(z3.Not(t0)):
        return lambda m: And(zbool(v0), z3.Not(exists_lt(ctx, m, k, z3.Not(t1))))
    return None


def exists_lt(ctx, m, k, t):
    j = z3.Const(ctx.name("ej"), z3.IntSort())
    return z3.Exists([j], z3.And(0 <= j, j < m, z3.substitute(t, (k, j))))


def combine_formula(pv, vals):
    return z3.Or(*[z3.And(*conds, v) for (conds, _), v in zip(pv, vals)])


def prove(f):
    s = z3.Solver()
    s.set("timeout", 1000)
    s.add(z3.Not(f))
    return s.check() == z3.unsat


def prove_eq(a, b):
    return prove(a == b)


def combine(ctx, pv, vals):
    v = vals[-1]
    for (conds, _), x in list(zip(pv, vals))[-2::-1]:
        v = ite_val(ctx, And(*conds), x, v)
    return v


def fold_sum(it, m, k, t):
    """sum_{0<=k<m} t(k), normalised: sums split, k-free factors pulled out"""
    ctx = it.ctx
    t = z3.simplify(t, som=True)
    kn = k.decl().name()
    if z3.is_add(t):
        r = None
        for a in t.children():
            x = fold_sum(it, m, k, a)
            r = x if r is None else r + x
        return r
    if kn not in core.decl_names(t) and kn not in core.consts_of(t):
        mm = z3.If(m < 0, z3.IntVal(0), m) if not ctx.entails(m >= 0) else m
        return t * (z3.ToReal(mm) if t.sort() == z3.RealSort() else mm)
    if z3.is_mul(t):
        free = [c for c in t.children() if kn not in core.consts_of(c)]
        dep = [c for c in t.children() if kn in core.consts_of(c)]
        if free:
            body = dep[0]
            for d in dep[1:]:
                body = body * d
            r = ctx.w.folds.fold("add", m, k, body)
            for f in free:
                r = f * r
            return r
    return ctx.w.folds.fold("add", m, k, t)


def subst_val_full(it, v, pairs, funs, k):
    if not pairs and not funs:
        return v
    if is_z3(v):
        return apply_subst(it, v, pairs, funs, k)
    v = subst_val(v, pairs)
    if funs:
        names = {h["names"][0] for h, _ in funs}
        try:
            if mentions(v, names):
                raise Unsupported("structured value depends on a set under construction")
        except Unsupported:
            raise
    return v


def classify_array(setup, loc, info, own, unresolved, pv, sub, o, d0):
    it, k, n, normal, hterm, initial, orig_map = setup
    ctx = it.ctx
    h = hterm[loc]
    bad = own | unresolved
    if isinstance(o, NdV):
        nd = len(d0["shape"])
        oldfn = d0["_fn"]
        if o.parent is not None:
            raise Unsupported("array view updated in loop")
    elif isinstance(o, MapV):
        raise Unsupported("map update in loop")
    else:
        nd = 1
        base = SeqV("list", items=list(d0["items"])) if d0["items"] is not None else SeqV("list", n=d0["n"], fn=d0["fn"])
        oldfn = lambda i: it.seq_select(base, i)

    rows = []
    for conds, fin in pv:
        ws = []
        for e in (fin or []):
            idx = tuple(BlkV(sub(x.lo), sub(x.hi)) if isinstance(x, BlkV) else sub(x) if is_z3(x) else x for x in e[1])
            ws.append((idx, sub(e[2])))
        rows.append((conds, ws))
    allw = [w for _, ws in rows for w in ws]
    if not allw:
        raise Unsupported("no writes")

    def own_cell(v, idx):
        """replace reads of the havocked array at the written row by old contents"""
        if not own:
            return v if not mentions(v, unresolved) else None
        if not is_z3(v):
            return v if not mentions(v, bad) else None
        reps = []
        for a in core.apps_of(v, own).values():
            args = a.children()[-nd:]
            if not args[0].eq(to_int(idx[0])):
                return None
            reps.append((a, oldfn(*args)))
        v = z3.substitute(v, *[(a, coerce_like(ctx, b, a)) for a, b in reps]) if reps else v
        return v if not (core.decl_names(v) & bad) else None

    blocks = any(isinstance(x, BlkV) for w in allw for x in w[0])
    lead_k = all(not isinstance(w[0][0], BlkV) and z3.is_true(z3.simplify(to_int(w[0][0]) == k)) for w in allw)
    rest_ok = all(all(isinstance(x, (int, BlkV)) or z3.is_int_value(x) for x in w[0][1:]) for w in allw)
    if blocks and not (lead_k and rest_ok):
        raise Unsupported("block write not at the loop index")
    if blocks:
        for conds, ws in rows:
            for idx, v in ws:
                if mentions(v, bad) or any(mentions(y, bad) for x in idx if isinstance(x, BlkV) for y in (x.lo, x.hi)):
                    raise Unsupported("block write depends on array contents")

        def S(m):
            def fn(*i):
                i0 = to_int(i[0])
                vals = []
                for conds, ws in rows:
                    v = oldfn(*i)
                    for idx, w in ws:
                        w = subst_val(w, [(k, i0)])
                        bl = [BlkV(subst_val(x.lo, [(k, i0)]), subst_val(x.hi, [(k, i0)])) if isinstance(x, BlkV) else int(str(x)) for x in idx[1:]]
                        if any(isinstance(x, BlkV) for x in bl):
                            v = it.blk_value(bl, w, i[1:], lambda *q, v=v: v)
                        else:
                            v = ite_val(ctx, zbool(And(*[it._idx_eq(a, b) for a, b in zip(i[1:], bl)])), w, v)
                    vals.append(v)
                v = combine(ctx, [([subst_val(x, [(k, i0)]) for x in conds], None) for conds, _ in rows], vals)
                return ite_val(ctx, z3.And(0 <= i0, i0 < m), v, oldfn(*i))
            return fn
        return S
    if lead_k and rest_ok:
        cells = []
        for conds, ws in rows:
            c = {}
            for idx, v in ws:
                v2 = own_cell(v, idx)
                if v2 is None:
                    raise Unsupported("array recurrence")
                c[tuple(int(str(x)) for x in idx[1:])] = v2
            cells.append((conds, c))

        def S(m):
            def fn(*i):
                i0 = to_int(i[0])
                rest = i[1:]
                at = lambda x: subst_val(x, [(k, i0)])
                old = oldfn(*i)
                vals = []
                for conds, c in cells:
                    v = old
                    for rk, cv in c.items():
                        cnd = And(*[it._idx_eq(a, b) for a, b in zip(rest, rk)])
                        v = ite_val(ctx, cnd, at(cv), v) if not isinstance(cnd, bool) else (at(cv) if cnd else v)
                    vals.append(v)
                v = combine(ctx, [([at(x) for x in conds], None) for conds, _ in cells], vals)
                return ite_val(ctx, z3.And(0 <= i0, i0 < m), v, old)
            return fn
        return S
    if nd != 1 and len(rows) == 1 and len(rows[0][1]) == 1 and not any(z3.is_false(z3.simplify(zbool(x))) for x in rows[0][0]):
        blk = block_writes(it, k, rows[0][0], rows[0][1][0], bad)
        if blk is not None:
            return blk
    if nd != 1 or any(len(ws) > 1 for _, ws in rows):
        raise Unsupported("scattered multi-dimensional writes")
    yes = [(conds, ws[0]) for conds, ws in rows if ws]
    for conds, (idx, v) in yes:
        if mentions(idx[0], bad):
            raise Unsupported("write index depends on loop state")
    pt = point_writes(it, k, yes, h, own, bad, oldfn, ctx)
    if pt is not None:
        return pt
    # scatter-add
    incs = []
    for conds, (idx, v) in yes:
        if not is_z3(v):
            v = to_int(v) if is_int(v) else to_real(v) if is_num(v) else None
            if v is None:
                incs = None
                break
        if own:
            cell = h["decl"](*h["lv"], to_int(idx[0]))
            d = z3.simplify(v - coerce_like(ctx, cell, v), som=True) if v.sort() in (z3.IntSort(), z3.RealSort()) else None
            if d is None or core.decl_names(d) & bad:
                incs = None
                break
            incs.append((conds, idx[0], d))
        else:
            incs = None
            break
    if incs:
        def S(m):
            def fn(i):
                i = to_int(i)
                zero = z3.RealVal(0) if incs[0][2].sort() == z3.RealSort() else z3.IntVal(0)
                t = zero
                for conds, g, d in incs:
                    t = z3.If(z3.And(*conds, to_int(g) == i), d, t)
                return ops.num_add(oldfn(i), ctx.w.folds.fold("add", m, k, t))
            return fn
        return S
    for conds, (idx, v) in yes:
        if mentions(v, bad):
            raise Unsupported("scattered write depends on array contents")
    cond = zbool(Or(*[And(*c) for c, _ in yes]))
    gi = combine(ctx, [(c, None) for c, _ in yes], [to_int(w[0][0]) for _, w in yes])
    vc = combine(ctx, [(c, None) for c, _ in yes], [w[1] for _, w in yes])

    def S(m):
        L = last_index(it, m, k, [z3.IntSort()], lambda key: z3.And(cond, gi == key))

        def fn(i):
            i = to_int(i)
            return ite_val(ctx, L(i) >= 0, subst_val(vc, [(k, L(i))]), oldfn(i))
        return fn
    return S


class PointWrite:
    """all iterations write one cell: a logged single write after the loop"""

    def __init__(self, idx, val):
        self.idx, self.val = idx, val


class BlockWrite:
    """iteration k writes a[.., k, ..] with the other indices fixed: a logged block write after the loop"""

    def __init__(self, idx, val):
        self.idx, self.val = idx, val


def block_writes(it, k, conds, w, bad):
    idx, v = w
    if any(not z3.is_true(z3.simplify(zbool(c))) for c in conds) and not it.ctx.entails(zbool(And(*conds))):
        return None
    if mentions(v, bad) or not (is_z3(v) or is_num(v)):
        return None
    kn = k.decl().name()
    ax = [q for q, x in enumerate(idx) if is_z3(x) and z3.is_true(z3.simplify(to_int(x) == k))]
    if len(ax) != 1 or any(mentions(x, bad | {kn}) for q, x in enumerate(idx) if q != ax[0]):
        return None

    def S(m):
        val = NdV((m,), lambda i: subst_val(v, [(k, to_int(i))]), "float")
        return BlockWrite(tuple(BlkV(z3.IntVal(0), m) if q == ax[0] else x for q, x in enumerate(idx)), val)
    return S


def point_writes(it, k, yes, h, own, bad, oldfn, ctx):
    kn = k.decl().name()
    i0 = yes[0][1][0][0]
    if any(not same(w[0][0], i0) for _, w in yes) or (is_z3(i0) and kn in core.consts_of(i0)):
        return None
    pv = [(c, None) for c, _ in yes]
    vals = [w[1] for _, w in yes]
    if all(not mentions(v, bad) for v in vals):
        s = cond_last(it, k, pv, vals, oldfn(i0))
        return lambda m: PointWrite(i0, s(m))
    if not own or any(not is_num(v) for v in vals):
        return None
    cell = h["decl"](*h["lv"], to_int(i0))
    ds = []
    for v in vals:
        v = to_real(v) if cell.sort() == z3.RealSort() else to_int(v)
        d = z3.simplify(v - cell, som=True)
        if core.decl_names(d) & bad:
            return None
        ds.append(d)
    zero = z3.RealVal(0) if cell.sort() == z3.RealSort() else z3.IntVal(0)
    t = zero
    for (c, _), d in zip(pv, ds):
        t = z3.If(z3.And(*[zbool(x) for x in c]), d, t) if c else d
    return lambda m: PointWrite(i0, ops.num_add(oldfn(i0), fold_sum(it, m, k, t)))


def coerce_like(ctx, v, like):
    if like.sort() == z3.RealSort():
        return to_real(v)
    if like.sort() == z3.IntSort():
        return to_int(v)
    return v


def install_value(it, loc, info, s, m, orig_map):
    kind, oid, key = loc
    o = info["obj"]
    v = s(m)
    if kind == "var":
        if v is MISSING:
            o.vars.pop(key, None)
        else:
            o.vars[key] = v
        return
    if kind == "field":
        o.fields[key] = v
        return
    if kind == "rl":
        o.fields = dict(o.fields)
        o.fields[key] = v
        o.absent.discard(key)
        return
    shape = info["shape"]
    if shape[0] in ("append", "flat") and o.log is not None:
        # inside a generic iteration of an enclosing loop
        o.log.append(("extend", v))
        o.items, o.fn, o.n, o.filt, o.flat = None, None, Poison("list under construction"), None, None
        return
    if shape[0] == "flat":
        o.items, o.fn, o.filt, o.n, o.flat = None, None, None, v.n, v.flat
        return
    if shape[0] == "append":
        o.items = list(v.items) if v.items is not None else None
        o.n, o.fn = v.n, v.fn
        o.filt = v.filt
        return
    if shape[0] == "set":
        o.items, o.mem = None, v.mem
        return
    if shape[0] == "dict":
        o.__class__ = MapV
        o.has, o.get, o.keysort, o.log = v.has, v.get, v.keysort, None
        return
    if isinstance(v, BlockWrite):
        if o.log is not None:
            o.log.append(("set", v.idx, v.val))
        old = o.fn
        o.fn = lambda *q: it.blk_value(v.idx, v.val, q, old)
        return
    if isinstance(v, PointWrite):
        if isinstance(o, NdV):
            it.nd_write(o, (v.idx,), v.val)
        else:
            it.setitem(o, v.idx, v.val)
        return
    if shape[0] == "array":
        if isinstance(o, NdV):
            o.fn = v
        else:
            n0 = len(o.items) if o.items is not None else o.n
            o.items = None
            o.n = n0
            o.fn = v
        return
    raise Unsupported("install")

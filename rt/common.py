"""Run-time side of the contracts: evaluates the same pre/postconditions on the real code.

Its only job is (a) to turn a failed obligation into a concrete failing input on the real
code and (b) to stand in, labelled bounded, for functions the VC generator cannot reach.
Passing here is never counted as proof.
"""
from __future__ import annotations
import ast
import json
import os
import pathlib
import random
import signal
import sys
import time
import traceback
import warnings

warnings.filterwarnings("ignore")
REPO = pathlib.Path(os.environ.get("KMCPY_REPO", "/repo"))
CASES = {}   # pid -> [(name, fn, weight, once)]


class Fail(Exception):
    def __init__(self, msg, **data):
        super().__init__(msg)
        self.data = data


class Skip(Exception):
    pass


def case(*pids, weight=1.0, once=False, cap=None):
    def deco(f):
        for p in pids:
            CASES.setdefault(p, []).append((f.__name__, f, weight, once, cap))
        return f
    return deco


def short(v, n=1500):
    try:
        s = repr(v)
    except Exception as e:  # noqa
        s = f"<unreprable {type(v).__name__}: {e}>"
    return s if len(s) <= n else s[:n] + "..."


class R(random.Random):
    """Seeded source of inputs, biased towards literals in the code under test."""
    lits_int: list = []
    lits_float: list = []
    tier = "quick"

    def i(self, lo, hi):
        if self.lits_int and self.random() < 0.08:
            c = [x + d for x in self.sample(self.lits_int, min(4, len(self.lits_int))) for d in (-1, 0, 1) if lo <= x + d <= hi]
            if c:
                return self.choice(c)
        return self.randint(lo, hi)

    def f(self, lo, hi):
        if self.lits_float and self.random() < 0.05:
            c = [x for x in self.sample(self.lits_float, min(6, len(self.lits_float))) if lo <= x <= hi]
            if c:
                return self.choice(c)
        m = self.random()
        if m < 0.1:
            return float(lo)
        if m < 0.2:
            return float(self.randint(int(lo) if lo == int(lo) else int(lo) + 1, max(int(hi), int(lo) + 1)))
        return self.uniform(lo, hi)

    def b(self, p=0.5):
        return self.random() < p

    def ints(self, n, lo, hi):
        return [self.i(lo, hi) for _ in range(n)]


def check(cond, msg, **data):
    if not cond:
        raise Fail(msg, **data)


def close(a, b, rel=1e-9, abs_=1e-12):
    import math
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def allclose(a, b, rel=1e-9, abs_=1e-12):
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rel, atol=abs_, equal_nan=True))


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False


def literals():
    ints, floats = set(), set()
    for p in (REPO / "kmcpy").rglob("*.py"):
        try:
            t = ast.parse(p.read_text())
        except SyntaxError:
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    continue
                if isinstance(n.value, int) and abs(n.value) < 100000:
                    ints.add(n.value)
                elif isinstance(n.value, float):
                    floats.add(n.value)
    return sorted(ints), sorted(floats)


def in_repo(tb):
    return [f for f in traceback.extract_tb(tb) if str(REPO) + "/" in f.filename]


class time_limit:
    """an evaluation that takes too long is skipped (it settles nothing)"""
    def __init__(self, s):
        self.s = int(s) + 1

    def __enter__(self):
        def fire(*_):
            raise Skip(f"evaluation took more than {self.s} s")
        self.prev = signal.signal(signal.SIGALRM, fire)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.prev)


def run(pid, seed, tier, budget, only=None, only_seed=None):
    ints, floats = literals()
    R.lits_int, R.lits_float, R.tier = ints, floats, tier
    cases = CASES.get(pid, [])
    if only:
        cases = [c for c in cases if c[0] == only]
    res = {"cases": [], "failures": [], "errors": []}
    tw = sum(c[2] for c in cases) or 1
    end = time.time() + budget
    left_w = tw
    for name, fn, w, once, cap in cases:
        share = max(1.0, (end - time.time()) * w / left_w)
        left_w = max(left_w - w, 1e-9)
        t0 = time.time()
        n = skipped = 0
        status = "ok"
        while True:
            if only_seed is not None:
                s = only_seed
            else:
                s = f"{seed}:{name}:{n}"
            r = R(s)
            r.k = n
            try:
                with time_limit(max(30.0, share)):
                    fn(r)
            except Skip as e:
                skipped += 1
                if skipped >= 3 and skipped == n + 1:
                    status = f"skipped: {e}"
                    n += 1
                    break
            except Fail as e:
                res["failures"].append({"case": name, "seed": s, "message": str(e),
                                        "data": {k: short(v) for k, v in e.data.items()}})
                status = "failed"
                n += 1
                break
            except BaseException as e:  # noqa
                if isinstance(e, KeyboardInterrupt):
                    raise
                repo_frames = in_repo(e.__traceback__)
                tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
                if repo_frames:
                    res["failures"].append({"case": name, "seed": s,
                                            "message": f"{type(e).__name__} on a valid input: {short(str(e), 300)}",
                                            "data": {"traceback": tb}})
                    status = "failed"
                else:
                    res["errors"].append({"case": name, "seed": s, "traceback": tb})
                    status = "harness error"
                n += 1
                break
            n += 1
            if once or only_seed is not None or (cap and n >= cap) or time.time() - t0 > share:
                break
        res["cases"].append({"case": name, "runs": n, "skipped": skipped, "status": status, "seconds": round(time.time() - t0, 2)})
    return res


def need(modname, *names):
    """Import public names; a missing name skips (renamed private helper), never fails."""
    import importlib
    try:
        m = importlib.import_module(modname)
        out = []
        for n in names:
            o = m
            for p in n.split("."):
                o = getattr(o, p)
            out.append(o)
    except (ImportError, AttributeError) as e:
        raise Skip(str(e))
    return out[0] if len(out) == 1 else out


class scratch:
    def __enter__(self):
        import tempfile
        self.old = os.getcwd()
        self.d = tempfile.TemporaryDirectory(prefix="kmcrt")
        os.chdir(self.d.name)
        return pathlib.Path(self.d.name)

    def __exit__(self, *a):
        os.chdir(self.old)
        self.d.cleanup()

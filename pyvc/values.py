"""Symbolic values of the pyvc verification-condition generator.

Python scalars are mapped to z3 terms (int -> Int, float -> Real, bool -> Bool,
str -> uninterpreted sort Str with pairwise distinct literals).  Containers and
objects are Python wrappers on a tracked heap so that they can be snapshotted.
"""
from __future__ import annotations
import ast

import z3
from fractions import Fraction

StrSort = z3.DeclareSort("Str")
ObjSort = z3.DeclareSort("Obj")


class Unsupported(Exception):
    """Construct outside the verified fragment: the obligation is *not* decided."""


class PathAbort(Exception):
    """Path condition became infeasible."""


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class ExcV:
    """A Python exception value."""

    def __init__(self, cls, args=(), cause=None):
        self.cls = cls  # str or ClassV
        self.args = args
        self.cause = cause

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name

    def __repr__(self):
        return f"ExcV({self.name})"


class Opaque:
    """A value about which nothing is known (rendered text, external results)."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"Opaque({self.what})"


class Poison:
    """Unusable value: reading it is Unsupported."""

    def __init__(self, why):
        self.why = why


class LastP(Poison):
    """val if cond, otherwise unbound (a variable first assigned in a loop
    that may not run): readable only where the path entails cond."""

    def __init__(self, cond, val):
        self.why = "possibly unbound after loop"
        self.cond = cond
        self.val = val


class OptV:
    """None if is_none else val."""

    def __init__(self, is_none, val):
        self.is_none = is_none
        self.val = val


class NanV:
    """NaN if is_nan else val (Real)."""

    def __init__(self, is_nan, val):
        self.is_nan = is_nan
        self.val = val


class IteV:
    """Lazy conditional between two arbitrary values; resolved by branching at use."""

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


NAN = float("nan")
INF = float("inf")


class PoisonDict(dict):
    """contents of a dict in a generic loop iteration: only membership is known, through pred"""

    def __init__(self, pred=None):
        dict.__init__(self)
        self.pred = pred

    def _no(self, *a, **k):
        raise Unsupported("dict read in loop")

    __contains__ = __getitem__ = __iter__ = __len__ = __bool__ = get = items = keys = values = pop = setdefault = update = __setitem__ = __eq__ = _no
    __hash__ = None


class Mut:
    """Base of heap objects. Subclasses list their mutable attributes in SLOTS."""

    SLOTS: tuple = ()

    def snap(self):
        return {s: self.copy_slot(getattr(self, s)) for s in self.SLOTS}

    @staticmethod
    def copy_slot(v):
        if isinstance(v, PoisonDict):
            return v
        if isinstance(v, dict):
            return dict(v)
        if isinstance(v, list):
            return list(v)
        if isinstance(v, set):
            return set(v)
        return v

    def restore(self, d):
        for s, v in d.items():
            setattr(self, s, self.copy_slot(v))


class SeqV(Mut):
    """list / tuple / range / dict view with symbolic length.

    n   : python int or z3 Int
    fn  : index (int or z3 Int) -> value
    items: python list when fully concrete (then n/fn derive from it)
    """

    SLOTS = ("n", "fn", "items", "log", "filt", "flat")

    def __init__(self, kind, n=None, fn=None, items=None):
        self.kind = kind
        self.items = items
        self.n = n
        self.fn = fn
        self.log = None  # append log while a loop body is being summarised
        self.filt = None  # (base_n, k, cond, val) for filtered sequences
        self.flat = None  # (n, cond, chunk): concatenation over k<n with cond(k) of the sequences chunk(k)
        self.elem_none = False

    def length(self):
        return len(self.items) if self.items is not None else self.n

    def get(self, i):
        if self.items is not None:
            if isinstance(i, int):
                return self.items[i]
            raise Unsupported("symbolic index in concrete list must go via select")
        return self.fn(i)

    def __repr__(self):
        return f"SeqV({self.kind},{self.items if self.items is not None else self.n})"


class NdV(Mut):
    """numpy array. shape: tuple of int/z3 Int; fn(*idx) -> scalar.

    A basic-index view shares storage: reads are derived from the parent's
    current contents (captured when `fn` is read), writes go to the parent."""

    SLOTS = ("shape", "_fn", "log")

    def __init__(self, shape, fn, dtype="float", parent=None, viewfn=None, viewidx=None):
        self.shape = tuple(shape)
        self._fn = fn
        self.dtype = dtype
        self.log = None
        self.filt = None
        self.parent = parent
        self.viewfn = viewfn
        self.viewidx = viewidx

    @property
    def fn(self):
        if self.parent is not None:
            return self.viewfn(self.parent.fn)
        return self._fn

    @fn.setter
    def fn(self, f):
        if self.parent is not None:
            raise Unsupported("write to array view")
        self._fn = f

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f"NdV({self.shape})"


class RecListV(SeqV):
    """Symbolic list of records; element i is ElemRec(self, i)."""

    SLOTS = ("n", "fn", "items", "log", "fields", "absent", "flog")

    def __init__(self, cls, n, fields, kind="list", absent=(), ident=None):
        super().__init__(kind, n=n, fn=None)
        self.cls = cls
        self.fields = dict(fields)  # name -> closure(i)
        self.absent = set(absent)
        self.fn = lambda i: ElemRec(self, i)
        self.ident = ident
        self.flog = None


class RecV(Mut):
    """Instance of a repo class (or of an abstract stub class)."""

    SLOTS = ("fields",)

    def __init__(self, cls, fields=None, stubs=None, tag=None):
        self.cls = cls
        self.fields = dict(fields or {})
        self.stubs = stubs or {}
        self.tag = tag

    def __repr__(self):
        return f"RecV({getattr(self.cls,'name',self.cls)})"


class ElemRec:
    """View of element i of a RecListV."""

    def __init__(self, lst, i):
        self.lst, self.i = lst, i

    @property
    def cls(self):
        return self.lst.cls

    def __repr__(self):
        return f"ElemRec({getattr(self.cls,'name',self.cls)},{self.i})"


class DictV(Mut):
    """dict with concrete keys; values arbitrary. `extra`: symbolic map part."""

    SLOTS = ("d", "present", "log")

    def __init__(self, d=None):
        self.log = None
        self.d = dict(d or {})
        self.present = {}  # key -> z3 Bool when presence is conditional

    def __repr__(self):
        return f"DictV({list(self.d)})"


class MapV(Mut):
    """Symbolic map over a z3 key sort: has(key)->Bool, get(key)->value."""

    SLOTS = ("has", "get", "log")

    def __init__(self, has, get, keysort=None):
        self.has, self.get = has, get
        self.keysort = keysort
        self.log = None


class SetV(Mut):
    """Symbolic or concrete set. items: python list of values (maybe symbolic) or
    mem: value -> Bool."""

    SLOTS = ("items", "mem", "log")

    def __init__(self, items=None, mem=None, card=None):
        self.items = items
        self.mem = mem
        self.card = card
        self.log = None


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class BlkV:
    """index range lo <= i < hi of a block write"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class ModV:
    def __init__(self, name, env):
        self.name, self.env = name, env


class ExtV:
    """External (non-repo) module or attribute, by dotted name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"ExtV({self.name})"


class BuiltinV:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"BuiltinV({self.name})"


class FuncV:
    def __init__(self, node, module, closure=None, owner=None, qual=None):
        self.node, self.module, self.closure, self.owner = node, module, closure, owner
        self.qual = qual or node.name
        self.defaults_env = None

    def __repr__(self):
        return f"FuncV({self.qual})"


class BoundV:
    def __init__(self, func, self_val):
        self.func, self.self_val = func, self_val


class SuperV:
    def __init__(self, cls, self_val):
        self.cls, self.self_val = cls, self_val


class ClassV:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases = []
        self.members = {}
        self.is_dataclass = False
        self.frozen = False
        self.dc_fields = []
        self.ext_bases = []

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.members:
                return c, c.members[name]
        return None, None

    def __repr__(self):
        return f"ClassV({self.name})"


def attrs_set(cls):
    """Names that code inside the class may set on an instance (self.x = ..., setattr,
    class-level annotations)."""
    got = cls.__dict__.get("_attrs_set")
    if got is None:
        got = set()
        for n in ast.walk(cls.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                got.add(n.attr)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                got.add(n.target.id)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                got.add(n.value)
        cls._attrs_set = got
    return got


class StubClass:
    """Abstract class used in contracts (an assumed interface)."""

    def __init__(self, name, bases=()):
        self.name = name
        self.bases = bases


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_z3(v) and v.sort() == z3.IntSort())


def is_real(v):
    return is_z3(v) and v.sort() == z3.RealSort()


def is_bool(v):
    return isinstance(v, bool) or (is_z3(v) and v.sort() == z3.BoolSort())


def is_str(v):
    return isinstance(v, str) or (is_z3(v) and v.sort() == StrSort)


def is_num(v):
    return is_int(v) or is_real(v) or isinstance(v, float)


def real_of_float(f: float):
    """Exact decimal reading of a Python float literal (its repr)."""
    return z3.RealVal(Fraction(repr(f)))


def to_real(v):
    if isinstance(v, bool):
        return z3.RealVal(1 if v else 0)
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        return real_of_float(v)
    if is_z3(v):
        if v.sort() == z3.IntSort():
            return z3.ToReal(v)
        if v.sort() == z3.BoolSort():
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        if v.sort() == z3.RealSort():
            return v
    raise Unsupported(f"to_real {v!r}")


def to_int(v):
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if is_z3(v):
        if v.sort() == z3.IntSort():
            return v
        if v.sort() == z3.BoolSort():
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"to_int {v!r}")

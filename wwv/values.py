from dataclasses import dataclass, field
from typing import Any, Optional
import z3

_FORALL = z3.ForAll


def _forall(vs, body, *a, **k):
    """a term from changed code may not be usable as a pattern (conditionals, connectives): leave the choice to the solver"""
    try:
        return _FORALL(vs, body, *a, **k)
    except z3.Z3Exception:
        if not k.get("patterns"):
            raise
        k = dict(k)
        del k["patterns"]
        return _FORALL(vs, body, *a, **k)


z3.ForAll = _forall
from .front import Ty, Unsupported, INT_RANGES


@dataclass
class IntV:
    t: Any
    ty: str = "int64"          # numba integer type, or "py" for unbounded python ints


@dataclass
class RealV:
    t: Any
    inf: Any = None            # None (finite) or z3 Int in {-1,0,1}


@dataclass
class BoolV:
    t: Any


@dataclass
class ArrV:
    loc: int
    sels: tuple                # per base dimension: ('i', term) | ('r', off, len)


@dataclass
class SRefV:
    loc: int
    idx: Any


@dataclass
class ObjV:
    oid: int
    cls: str


@dataclass
class TupV:
    items: list


@dataclass
class LazyV:
    shape: tuple
    sort: str                  # int real bool
    fn: Any
    ty: str = "int64"


@dataclass
class FancyV:
    """a[idx] with idx an integer array (numpy fancy indexing)"""
    base: Any
    idx: Any


@dataclass
class OpaqueV:
    """an object known only by the calls made on it (kind: 'rng' or the name of a parameter)"""
    kind: str


@dataclass
class SeriesV:
    """a pandas Series, known by its values"""
    arr: Any


class NoneV:
    pass


class UndefV:
    pass


@dataclass
class MaybeV:
    """local that is only assigned on some paths; reading it is an obligation"""
    v: Any
    cond: Any


@dataclass
class FunV:
    kind: str                  # 'func' (Func), 'ext' (dotted), 'param' (name), 'class', 'method'
    ref: Any
    bound: Any = None


@dataclass
class DtV:
    ty: Ty


@dataclass
class StrV:
    s: str


@dataclass
class ColV:
    """abstract column (sort Col) used in specifications"""
    t: Any


@dataclass
class Loc:
    id: int
    elt: Ty
    shape: tuple
    name: str


ColS = z3.DeclareSort("Col")


def zsort(ty):
    if ty.kind == "int":
        return z3.IntSort()
    if ty.kind == "float":
        return z3.RealSort()
    if ty.kind == "bool":
        return z3.BoolSort()
    raise Unsupported(f"sort of {ty}")


def nested_sort(elt, nd):
    s = zsort(elt)
    for _ in range(nd):
        s = z3.ArraySort(z3.IntSort(), s)
    return s


def const_array(elt, nd, v):
    s = zsort(elt)
    t = v
    for k in range(nd):
        t = z3.K(z3.IntSort(), t)
    return t


def zero(elt):
    return {"int": z3.IntVal(0), "float": z3.RealVal(0), "bool": z3.BoolVal(False)}[elt.kind]


def is_true(t):
    return z3.is_true(z3.simplify(t))


def is_false(t):
    return z3.is_false(z3.simplify(t))


def conj(ts):
    ts = [t for t in ts if not z3.is_true(t)]
    if not ts:
        return z3.BoolVal(True)
    return ts[0] if len(ts) == 1 else z3.And(*ts)


def split_conj(t):
    """Split a formula into conjuncts, through implications and universal quantifiers."""
    if z3.is_and(t):
        out = []
        for c in t.children():
            out += split_conj(c)
        return out
    if z3.is_implies(t):
        a, b = t.children()
        parts = split_conj(b)
        if len(parts) > 1:
            return [z3.Implies(a, p) for p in parts]
        return [t]
    if z3.is_quantifier(t) and t.is_forall():
        # instantiate before splitting the body: nested quantifiers must not meet dangling bound variables
        vs = [z3.FreshConst(t.var_sort(i), t.var_name(i)) for i in range(t.num_vars())]
        parts = split_conj(z3.substitute_vars(t.body(), *reversed(vs)))
        if len(parts) > 1:
            return [z3.ForAll(vs, p) for p in parts]
        return [t]
    return [t]


class RawV:
    """a bare mathematical array in a specification"""

    def __init__(self, t):
        self.t = t

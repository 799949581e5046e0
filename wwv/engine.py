"""Verification-condition generator for the numba/python subset used by wildwood.

Forward symbolic execution of one function at a time from its current source text,
calls replaced by contracts (or inlined when the callee has none), loops cut by
invariants.  Every proof obligation is recorded as (hypotheses, goal)."""
import ast
import itertools
from dataclasses import dataclass, field
import z3
from .front import Program, Ty, Unsupported, INT_RANGES, mk_scalar, ALIAS
from .values import *
from . import theory as T


class Dead(Exception):
    """current path cannot continue (its infeasibility was recorded as an obligation)"""


@dataclass
class Ob:
    func: str
    kind: str
    text: str
    hyps: list
    goal: object
    line: int = 0
    hints: tuple = ()

    @property
    def name(self):
        return f"{self.func}:{self.kind}:{self.text}"


class State:
    __slots__ = ("env", "heap", "objs", "pc", "flow", "scopes", "ghost")

    def __init__(self):
        self.env, self.heap, self.objs, self.pc = {}, {}, {}, []
        self.flow = ("normal",)
        self.scopes = []
        self.ghost = {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = {k: (dict(v) if isinstance(v, dict) else v) for k, v in self.heap.items()}
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.pc = list(self.pc)
        s.flow = self.flow
        s.scopes = list(self.scopes)
        s.ghost = dict(self.ghost)
        return s


class Frame:
    """static info about the function being executed"""

    def __init__(self, func, contract, variant):
        self.func, self.contract, self.variant = func, contract, variant
        self.loop_no = 0
        self.ltypes = dict(func.locals)
        self.loopmap = {}
        n = 0
        for node in preorder(func.node):
            if isinstance(node, (ast.For, ast.While)):
                self.loopmap[id(node)] = n
                n += 1


def preorder(node):
    yield node
    for c in ast.iter_child_nodes(node):
        yield from preorder(c)


class Engine:
    def __init__(self, prog, contracts, defs):
        self.prog, self.contracts, self.defs = prog, contracts, defs
        self.obs = []
        self.ctr = itertools.count()
        self.locs = {}
        self.sortloc, self.perminv = set(), {}
        self.dry = 0
        self.wlogs = []
        self.frames = []
        self.notes = []          # assumptions met on the way (external models used)
        self.used_contracts = set()
        self.inlined = set()
        self.nan_aware = self.py_slices = False
        self.line = 0

    # ------------------------------------------------------------ utilities
    def fresh(self, base, sort):
        return z3.Const(f"{base}!{next(self.ctr)}", sort)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    @property
    def fr(self):
        return self.frames[-1]

    @property
    def root(self):
        return self.frames[0]

    def ob(self, st, kind, text, goal):
        if self.dry:
            return
        if z3.is_true(goal):
            goal = z3.BoolVal(True)
        fn = self.fr.func.qual
        for i, g in enumerate(split_conj(goal)):
            self.obs.append(Ob(self.root.label, kind,
                               f"{text}" + (f"#{i}" if i else "") + ("" if self.fr is self.root else f" [in {fn}]"),
                               list(st.pc), g, self.line))

    def assume(self, st, f):
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(st, c)
        else:
            st.pc.append(f)

    def wlog(self, item):
        for s in self.wlogs:
            s.add(item)

    # ------------------------------------------------------------ heap
    def new_loc(self, st, elt, shape, name, content="fresh"):
        i = next(self.ctr)
        loc = Loc(i, elt, tuple(shape), name)
        self.locs[i] = loc
        nd = len(shape)
        if elt.kind == "struct":
            flds = self.prog.struct_fields(elt.name)
            d = {}
            for f, ft in flds.items():
                d[f] = (const_array(ft, nd, zero(ft)) if content == "zero"
                        else self.fresh(f"{name}.{f}", nested_sort(ft, nd)))
            st.heap[i] = d
        else:
            st.heap[i] = (const_array(elt, nd, zero(elt)) if content == "zero"
                          else self.fresh(name, nested_sort(elt, nd)))
        return ArrV(i, tuple(("r", z3.IntVal(0), s) for s in shape))

    def sym(self, st, ty, name):
        """a fresh symbolic value of the given type (type range assumed)"""
        if ty.kind == "int":
            c = self.fresh(name, z3.IntSort())
            lo, hi = INT_RANGES[ty.name]
            self.assume(st, z3.And(c >= lo, c <= hi))
            return IntV(c, ty.name)
        if ty.kind == "float":
            return RealV(self.fresh(name, z3.RealSort()))
        if ty.kind == "bool":
            return BoolV(self.fresh(name, z3.BoolSort()))
        if ty.kind == "arr":
            shape = []
            for d in range(ty.ndim):
                c = self.fresh(f"{name}.shape{d}", z3.IntSort())
                self.assume(st, z3.And(c >= 0, c <= T.MAXSIZE))
                shape.append(c)
            return self.new_loc(st, ty.elt, shape, name)
        if ty.kind == "obj":
            return self.new_obj(st, ty.name, name)
        if ty.kind == "tuple":
            return TupV([self.sym(st, t, f"{name}.{i}") for i, t in enumerate(ty.items)])
        if ty.kind == "fun":
            return FunV("param", ty.name)
        if ty.kind == "void":
            return NoneV()
        if ty.kind == "none":
            return NoneV()
        if ty.kind == "col":
            return ColV(self.fresh(name, ColS))
        if ty.kind == "opaque":
            return OpaqueV(ty.name)
        if ty.kind == "const":
            return BoolV(z3.BoolVal(ty.name == "True"))
        if ty.kind == "series":
            return SeriesV(self.sym(st, ty.elt, name))
        raise Unsupported(f"symbolic value of type {ty}")

    def new_obj(self, st, cls, name, init=True):
        oid = next(self.ctr)
        st.objs[oid] = {}
        if init:
            for f, ft in self.prog.class_fields(cls).items():
                st.objs[oid][f] = self.sym(st, ft, f"{name}.{f}")
                if ft.kind == "float" and (cls, f) in T.INF_FIELDS:
                    st.objs[oid][f].inf = self.fresh(f"{name}.{f}.inf", z3.IntSort())
                    self.assume(st, z3.And(st.objs[oid][f].inf >= -1, st.objs[oid][f].inf <= 1))
        return ObjV(oid, cls)

    def arr_len(self, a):
        if isinstance(a, LazyV):
            return a.shape[0]
        if isinstance(a, FancyV):
            return self.arr_len(a.idx)
        for s in a.sels:
            if s[0] == "r":
                return s[2]
        raise Unsupported("len of scalar")

    def arr_shape(self, a):
        if isinstance(a, LazyV):
            return list(a.shape)
        if isinstance(a, FancyV):
            return [self.arr_len(a.idx)] + self.arr_shape(a.base)[1:]
        return [s[2] for s in a.sels if s[0] == "r"]

    def elt_ty(self, a):
        if isinstance(a, ArrV):
            return self.locs[a.loc].elt
        if isinstance(a, FancyV):
            return self.elt_ty(a.base)
        return {"int": Ty("int", a.ty), "real": Ty("float", "float64"), "bool": Ty("bool", "boolean")}[a.sort]

    @staticmethod
    def base_index(a, idx):
        """full base-array index list for view indices `idx` (covers all 'r' dims)"""
        out, k = [], 0
        for s in a.sels:
            if s[0] == "i":
                out.append(s[1])
            else:
                out.append(T.add(s[1], idx[k]))
                k += 1
        return out

    def read_term(self, st, a, idx):
        """z3 term of element at view index list idx"""
        if isinstance(a, LazyV):
            return a.fn(*idx)
        if isinstance(a, FancyV):
            i0 = self.read_term(st, a.idx, [idx[0]])
            return self.read_term(st, a.base, [i0] + list(idx[1:]))
        c = st.heap[a.loc]
        for i in self.base_index(a, idx):
            c = z3.Select(c, i)
        return c

    def wrap(self, t, ty):
        if ty.kind == "int":
            return IntV(t, ty.name)
        if ty.kind == "float":
            return RealV(t)
        if ty.kind == "bool":
            return BoolV(t)
        raise Unsupported(f"wrap {ty}")

    def store_term(self, st, loc, fld, idx, v):
        c = st.heap[loc] if fld is None else st.heap[loc][fld]

        def go(c, idx):
            if len(idx) == 1:
                return z3.Store(c, idx[0], v)
            return z3.Store(c, idx[0], go(z3.Select(c, idx[0]), idx[1:]))
        n = go(c, idx)
        if fld is None:
            st.heap[loc] = n
        else:
            st.heap[loc][fld] = n
        self.wlog(("loc", loc, fld))

    # ------------------------------------------------------------ coercion
    def in_range(self, t, tyname):
        lo, hi = INT_RANGES[tyname]
        return z3.And(t >= lo, t <= hi)

    def coerce(self, st, v, ty, what):
        if ty is None:
            return v
        if ty.kind == "int":
            if isinstance(v, BoolV):
                return IntV(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), ty.name)
            if isinstance(v, RealV):
                # numba casts float -> int on assignment to an int-typed slot (truncation)
                self.ob(st, "range", f"{what} non-negative before truncation", v.t >= 0)
                t = z3.ToInt(v.t)
                self.ob(st, "range", f"{what} fits {ty.name}", self.in_range(t, ty.name))
                return IntV(t, ty.name)
            if isinstance(v, IntV):
                if v.ty != ty.name:
                    g = self.in_range(v.t, ty.name)
                    if not is_true(g):
                        self.ob(st, "range", f"{what} fits {ty.name}", g)
                        st.pc.append(g)
                return IntV(v.t, ty.name)
        if ty.kind == "float":
            if isinstance(v, IntV):
                return RealV(z3.ToReal(v.t))
            if isinstance(v, BoolV):
                return RealV(z3.If(v.t, z3.RealVal(1), z3.RealVal(0)))
            if isinstance(v, RealV):
                return v
        if ty.kind == "bool":
            if isinstance(v, BoolV):
                return v
            if isinstance(v, IntV):
                return BoolV(v.t != 0)
        if ty.kind in ("arr", "obj", "struct", "opt", "tuple", "fun"):
            if ty.kind == "arr" and isinstance(v, ArrV):
                e = self.elt_ty(v)
                if e.kind == "int" and ty.elt.kind == "int" and e.name != ty.elt.name:
                    raise Unsupported(f"{what}: array element type {e} vs {ty.elt}")
            return v
        if isinstance(v, (NoneV, UndefV)):
            raise Unsupported(f"{what}: None in a typed slot")
        raise Unsupported(f"coerce {type(v).__name__} to {ty} ({what})")

    def real(self, v):
        if isinstance(v, RealV):
            return v
        if isinstance(v, IntV):
            return RealV(z3.ToReal(v.t))
        if isinstance(v, BoolV):
            return RealV(z3.If(v.t, z3.RealVal(1), z3.RealVal(0)))
        raise Unsupported(f"not a number: {type(v).__name__}")

    def truth(self, v):
        if isinstance(v, BoolV):
            return v.t
        if isinstance(v, IntV):
            return v.t != 0
        if isinstance(v, NoneV):
            return z3.BoolVal(False)
        if isinstance(v, (ArrV, ObjV)):
            return z3.BoolVal(True)
        raise Unsupported(f"truth of {type(v).__name__}")

    # ------------------------------------------------------------ operators
    def int_result_ty(self, a, b):
        if a.ty == "py" or b.ty == "py":
            return "py"
        if a.ty == b.ty:
            return a.ty if a.ty in ("uint64", "int64") else ("uint64" if a.ty.startswith("u") else "int64")
        sa, sb = a.ty.startswith("u"), b.ty.startswith("u")
        return "uint64" if (sa and sb) else "int64"

    def binop(self, st, op, a, b, spec=False):
        if isinstance(a, BoolV) and isinstance(b, BoolV) and op in ("BitOr", "BitAnd"):
            return BoolV(z3.Or(a.t, b.t) if op == "BitOr" else z3.And(a.t, b.t))
        if isinstance(a, (ArrV, LazyV, FancyV)) or isinstance(b, (ArrV, LazyV, FancyV)):
            return self.lazy_binop(st, op, a, b, spec)
        if isinstance(a, TupV) and isinstance(b, TupV) and op == "Add":
            return TupV(a.items + b.items)
        if isinstance(a, BoolV):
            a = IntV(z3.If(a.t, z3.IntVal(1), z3.IntVal(0)), "int64")
        if isinstance(b, BoolV):
            b = IntV(z3.If(b.t, z3.IntVal(1), z3.IntVal(0)), "int64")
        if not isinstance(a, (IntV, RealV)) or not isinstance(b, (IntV, RealV)):
            raise Unsupported(f"operator {op} on {type(a).__name__},{type(b).__name__}")
        if isinstance(a, IntV) and isinstance(b, IntV):
            ty = self.int_result_ty(a, b)
            if op in ("Add", "Sub", "Mult"):
                t = {"Add": lambda: T.add(a.t, b.t), "Sub": lambda: T.sub(a.t, b.t),
                     "Mult": lambda: a.t * b.t}[op]()
                if not spec and ty != "py" and not (z3.is_int_value(a.t) and z3.is_int_value(b.t)):
                    g = self.in_range(t, ty)
                    self.ob(st, "overflow", f"{op} stays in {ty}", g)
                return IntV(t, ty)
            if op in ("FloorDiv", "Mod"):
                if not spec:
                    self.ob(st, "div", "divisor positive", b.t > 0)
                if z3.is_int_value(z3.simplify(b.t)):
                    return IntV((a.t / b.t) if op == "FloorDiv" else (a.t % b.t), ty)
                if not spec:
                    self.ob(st, "div", "dividend non-negative", a.t >= 0)
                return IntV((T.QUO if op == "FloorDiv" else T.REM)(a.t, b.t), ty)
            if op == "Div":
                if not spec:
                    self.ob(st, "div", "divisor non-zero", b.t != 0)
                return RealV(z3.ToReal(a.t) / z3.ToReal(b.t))
            if op == "LShift":
                if not spec:
                    self.ob(st, "shift", "shift amount in [0,64)", z3.And(b.t >= 0, b.t < 64))
                return self.word(st, T.SHL(a.t, b.t), self.int_result_ty(a, a), spec)
            if op == "RShift":
                if not spec:
                    self.ob(st, "shift", "shift amount in [0,64)", z3.And(b.t >= 0, b.t < 64))
                return self.word(st, T.SHR(a.t, b.t), self.int_result_ty(a, a), spec)
            if op == "BitAnd":
                return self.word(st, T.BAND(a.t, b.t), ty, spec)
            if op == "BitOr":
                return self.word(st, T.BOR(a.t, b.t), ty, spec)
            if op == "Pow" and z3.is_int_value(b.t) and 0 <= b.t.as_long() <= 4:
                t = z3.IntVal(1)
                for _ in range(b.t.as_long()):
                    t = t * a.t
                return IntV(t, ty)
            raise Unsupported(f"int operator {op}")
        a, b = self.real(a), self.real(b)
        if a.inf is not None or b.inf is not None:
            if op == "Sub" and a.inf is None and b.inf is None:
                pass
            else:
                raise Unsupported("arithmetic on possibly infinite value")
        if op == "Add":
            return RealV(a.t + b.t)
        if op == "Sub":
            return RealV(a.t - b.t)
        if op == "Mult":
            return RealV(a.t * b.t)
        if op == "Div":
            if not spec:
                self.ob(st, "div", "divisor non-zero", b.t != 0)
            return RealV(a.t / b.t)
        if op == "Pow":
            bt = z3.simplify(b.t)
            if z3.is_rational_value(bt) and bt.denominator_as_long() == 1 and 0 <= bt.numerator_as_long() <= 4:
                t = z3.RealVal(1)
                n = bt.numerator_as_long()
                if n:
                    t = a.t
                    for _ in range(n - 1):
                        t = t * a.t
                return RealV(t)
        raise Unsupported(f"real operator {op}")

    def word(self, st, t, ty, spec):
        """result of a machine-word operation: a 64-bit word by definition"""
        if not spec:
            if ty != "uint64":
                raise Unsupported(f"bit operation on {ty}")
            self.assume(st, self.in_range(t, "uint64"))
        return IntV(t, ty)

    def scal(self, ty, t):
        return self.wrap(t, ty)

    def lazy_binop(self, st, op, a, b, spec):
        arrs = [x for x in (a, b) if isinstance(x, (ArrV, LazyV, FancyV))]
        nds = [len(self.arr_shape(x)) for x in arrs]
        nd = max(nds)
        shape = None
        for x in arrs:
            sh = self.arr_shape(x)
            if len(sh) == nd:
                if shape is None:
                    shape = list(sh)
                else:
                    for k in range(nd):
                        s1, s2 = z3.simplify(shape[k]), z3.simplify(sh[k])
                        if z3.is_int_value(s2) and s2.as_long() == 1:
                            continue
                        if z3.is_int_value(s1) and s1.as_long() == 1:
                            shape[k] = sh[k]
                            continue
                        if not spec:
                            self.ob(st, "shape", "operands have equal length", shape[k] == sh[k])
            else:
                raise Unsupported("broadcast of different ranks")

        def getter(x):
            if isinstance(x, (ArrV, LazyV, FancyV)):
                ty = self.elt_ty(x)
                sh = self.arr_shape(x)
                snap = st.heap.get(x.loc) if isinstance(x, ArrV) else None

                def g(*idx):
                    idx = [z3.IntVal(0) if (z3.is_int_value(z3.simplify(sh[k])) and z3.simplify(sh[k]).as_long() == 1
                                            and not z3.is_int_value(z3.simplify(shape[k]))) else idx[k] for k in range(len(idx))]
                    if isinstance(x, ArrV):
                        c = snap
                        for i in self.base_index(x, idx):
                            c = z3.Select(c, i)
                        return self.wrap(c, ty)
                    return self.wrap(self.read_term(st, x, idx), ty)
                return g
            return lambda *idx: x
        ga, gb = getter(a), getter(b)
        probe = self.binop(st, op, ga(*[z3.IntVal(0)] * nd), gb(*[z3.IntVal(0)] * nd), True)
        srt = "int" if isinstance(probe, IntV) else ("bool" if isinstance(probe, BoolV) else "real")
        if op == "Div" and not spec:
            self.note("array division by zero gives an unspecified value (nan or inf) and does not raise")
        r = LazyV(tuple(shape), srt, lambda *idx: self.binop(st, op, ga(*idx), gb(*idx), True).t,
                  getattr(probe, "ty", "int64"))
        if self.nan_aware and srt == "real":      # not NaN where no operand is
            isn = lambda x, g: (lambda *idx: z3.BoolVal(False)) if isinstance(x, IntV) or isinstance(x, RealV) and z3.is_rational_value(x.t) \
                else getattr(x, "nan", None) or (lambda *idx: T.ISNAN(self.real(g(*idx)).t))
            na, nb = isn(a, ga), isn(b, gb)
            r.nan = lambda *idx: z3.Or(na(*idx), nb(*idx))
        return r

    def any_of(self, st, n, fn):
        """whether fn holds somewhere on [0, n)"""
        b, w, i = self.fresh("any", z3.BoolSort()), self.fresh("where", z3.IntSort()), z3.Int("i!b")
        self.assume(st, z3.Implies(b, z3.And(w >= 0, w < n, fn(w))))
        self.assume(st, z3.Implies(z3.Not(b), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Not(fn(i))), patterns=[fn(i)] if z3.is_app_of(fn(i), z3.Z3_OP_UNINTERPRETED) else [])))
        return b

    def compare(self, st, op, a, b):
        if op in ("Is", "IsNot"):
            if isinstance(b, NoneV):
                r = isinstance(a, NoneV)
            elif isinstance(a, NoneV):
                r = isinstance(b, NoneV)
            else:
                raise Unsupported("is")
            return BoolV(z3.BoolVal(r if op == "Is" else not r))
        if op in ("In", "NotIn") and isinstance(a, DtV) and isinstance(b, TupV):
            tys = [x.ty if isinstance(x, DtV) else (x.ref if isinstance(x, FunV) and x.kind == "cast" else None) for x in b.items]
            if None in tys:
                raise Unsupported("in")
            return BoolV(z3.BoolVal((a.ty in tys) == (op == "In")))
        if isinstance(a, StrV) and isinstance(b, StrV):
            return BoolV(z3.BoolVal({"Eq": a.s == b.s, "NotEq": a.s != b.s}[op]))
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            if op == "Eq":
                return BoolV(a.t == b.t)
            if op == "NotEq":
                return BoolV(a.t != b.t)
        if isinstance(a, BoolV):
            a = IntV(z3.If(a.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(b, BoolV):
            b = IntV(z3.If(b.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(a, ColV) and isinstance(b, ColV):
            return BoolV(a.t == b.t if op == "Eq" else a.t != b.t)
        if isinstance(a, (ArrV, LazyV)) or isinstance(b, (ArrV, LazyV)):
            probe_a = a if isinstance(a, (ArrV, LazyV)) else b
            sh = self.arr_shape(probe_a)

            def g(x):
                if isinstance(x, (ArrV, LazyV)):
                    ty = self.elt_ty(x)
                    snap = st.copy() if isinstance(x, ArrV) else st
                    return lambda *i: self.wrap(self.read_term(snap, x, list(i)), ty)
                return lambda *i: x
            ga, gb = g(a), g(b)
            return LazyV(tuple(sh), "bool", lambda *i: self.compare(st, op, ga(*i), gb(*i)).t)
        if isinstance(a, IntV) and isinstance(b, IntV):
            f = {"Lt": lambda: a.t < b.t, "LtE": lambda: a.t <= b.t, "Gt": lambda: a.t > b.t,
                 "GtE": lambda: a.t >= b.t, "Eq": lambda: a.t == b.t, "NotEq": lambda: a.t != b.t}
            if op not in f:
                raise Unsupported(f"compare {op}")
            return BoolV(f[op]())
        if not isinstance(a, (IntV, RealV)) or not isinstance(b, (IntV, RealV)):
            raise Unsupported(f"compare {op} on {type(a).__name__},{type(b).__name__}")
        a, b = self.real(a), self.real(b)
        if a.inf is not None or b.inf is not None:
            ai = a.inf if a.inf is not None else z3.IntVal(0)
            bi = b.inf if b.inf is not None else z3.IntVal(0)
            lt = z3.Or(ai < bi, z3.And(ai == 0, bi == 0, a.t < b.t))
            eq = z3.And(ai == bi, z3.Or(ai != 0, a.t == b.t))
            f = {"Lt": lt, "LtE": z3.Or(lt, eq), "Gt": z3.Not(z3.Or(lt, eq)), "GtE": z3.Not(lt),
                 "Eq": eq, "NotEq": z3.Not(eq)}
            return BoolV(f[op])
        f = {"Lt": lambda: a.t < b.t, "LtE": lambda: a.t <= b.t, "Gt": lambda: a.t > b.t,
             "GtE": lambda: a.t >= b.t, "Eq": lambda: a.t == b.t, "NotEq": lambda: a.t != b.t}
        if op not in f:
            raise Unsupported(f"compare {op}")
        t = f[op]()
        if self.nan_aware:
            ok = z3.And(z3.Not(T.ISNAN(a.t)), z3.Not(T.ISNAN(b.t)))
            t = z3.Or(z3.Not(ok), t) if op == "NotEq" else z3.And(ok, t)
        return BoolV(t)

    # ------------------------------------------------------------ bulk writes
    def write_view(self, st, tgt, val, what):
        """tgt[...] = val for an array view target"""
        loc = self.locs[tgt.loc]
        fixed = []
        rest = list(tgt.sels)
        while rest and rest[0][0] == "i":
            fixed.append(rest.pop(0)[1])
        ndr = len(rest)
        shp = [s[2] for s in rest if s[0] == "r"]
        if loc.elt.kind == "struct":
            if not (isinstance(val, ArrV) and self.locs[val.loc].elt == loc.elt and ndr == 1 and not fixed):
                raise Unsupported("bulk write into record array")
            self.ob(st, "shape", f"{what}: lengths match", self.arr_len(val) == shp[0])
            for f in list(st.heap[loc.id]):
                old, src = st.heap[loc.id][f], st.heap[val.loc][f]
                F = self.fresh(f"{loc.name}.{f}", old.sort())
                i = z3.Int("i!b")
                off, n = rest[0][1], rest[0][2]
                soff = val.sels[0][1]
                st.pc.append(z3.ForAll([i], z3.Select(F, i) == z3.If(
                    z3.And(i >= off, i < T.add(off, n)), z3.Select(src, T.add(T.sub(i, off), soff)), z3.Select(old, i)),
                    patterns=[z3.Select(F, i)]))
                st.heap[loc.id][f] = F
                self.wlog(("loc", loc.id, f))
            return
        # element value generator
        if isinstance(val, (ArrV, LazyV, FancyV)):
            vsh = self.arr_shape(val)
            if len(vsh) != len(shp):
                raise Unsupported("broadcast write of different rank")
            for k, (a, b) in enumerate(zip(vsh, shp)):
                g = a == b
                if not is_true(g):
                    self.ob(st, "shape", f"{what}: shapes match", g)
            ety = self.elt_ty(val)
            snap = st.copy() if isinstance(val, (ArrV, FancyV)) else st
            gen = lambda *idx: self.wrap(self.read_term(snap, val, list(idx)), ety)
        else:
            gen = lambda *idx: val
        # range obligations for integer arrays written from other int types
        if loc.elt.kind == "int":
            if isinstance(val, (ArrV, LazyV, FancyV)):
                ety = self.elt_ty(val)
                if ety.kind == "float":
                    raise Unsupported("float array into int array")
                if ety.kind == "int" and (ety.name != loc.elt.name or isinstance(val, LazyV)):
                    vs = [self.fresh("rv", z3.IntSort()) for _ in shp]
                    dom = z3.And(*[z3.And(v >= 0, v < s) for v, s in zip(vs, shp)])
                    self.ob(st, "range", f"{what}: values fit {loc.elt.name}",
                            z3.ForAll(vs, z3.Implies(dom, self.in_range(gen(*vs).t, loc.elt.name))))
                cv = lambda *idx: self._cast(gen(*idx), loc.elt)
            else:
                cval = self.coerce(st, val, loc.elt, what)
                cv = lambda *idx: cval.t
        else:
            cv = lambda *idx: self._cast(gen(*idx), loc.elt)
        old = st.heap[loc.id]
        c = old
        for i in fixed:
            c = z3.Select(c, i)
        full = all(s[0] == "r" for s in rest) and all(
            is_true(s[1] == 0) and is_true(s[2] == loc.shape[len(fixed) + k]) for k, s in enumerate(rest))
        if full and not isinstance(val, (ArrV, LazyV, FancyV)):
            F = const_array(loc.elt, ndr, cv())
        else:
            F = self.fresh(loc.name, c.sort())
            vs = [z3.Int(f"b{k}!b") for k in range(ndr)]
            guard, vidx = [], []
            for v, s in zip(vs, rest):
                if s[0] == "i":
                    guard.append(v == s[1])
                else:
                    guard.append(z3.And(v >= s[1], v < T.add(s[1], s[2])))
                    vidx.append(T.sub(v, s[1]))
            lhs, rhs_old = F, c
            for v in vs:
                lhs, rhs_old = z3.Select(lhs, v), z3.Select(rhs_old, v)
            st.pc.append(z3.ForAll(vs, lhs == z3.If(z3.And(*guard), cv(*vidx), rhs_old), patterns=[lhs]))
            if self.nan_aware and getattr(val, "nan", None) is not None:
                st.pc.append(z3.ForAll(vs, z3.Implies(z3.And(*guard, z3.Not(val.nan(*vidx))), z3.Not(T.ISNAN(lhs))), patterns=[lhs]))
            if ndr == 1 and rest[0][0] == "r":
                self.onto(st, val, F, rest[0][1], cv)
        def put(c, idx):
            if not idx:
                return F
            return z3.Store(c, idx[0], put(z3.Select(c, idx[0]), idx[1:]))
        st.heap[loc.id] = put(old, fixed)
        self.wlog(("loc", loc.id, None))

    def onto(self, st, val, F, off, cv):
        """a sorted copy or a rearrangement was written to F[off:]: every source value occurs there (same facts as the
        definition of F, oriented from the source)"""
        k = z3.Int("k!b")
        if isinstance(val, ArrV) and val.loc in self.sortloc:
            src, n = self.read_term(st, val, [k]), self.arr_len(val)
            st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(F, T.add(off, k)) == cv(k)), patterns=[src]))
        if isinstance(val, FancyV) and isinstance(val.idx, ArrV) and isinstance(val.base, ArrV):
            pq = self.perminv.get(val.idx.loc)
            if pq is None or st.heap[val.idx.loc] is not pq[0]:
                return
            q, n, src = pq[1], self.arr_len(val.idx), self.read_term(st, val.base, [k])
            st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(z3.Select(q, k) >= 0, z3.Select(q, k) < n,
                         z3.Select(F, T.add(off, z3.Select(q, k))) == cv(z3.Select(q, k)), z3.Select(pq[0], z3.Select(q, k)) == k)), patterns=[src]))

    def _cast(self, v, ty):
        if ty.kind == "float":
            return self.real(v).t
        if ty.kind == "int" and isinstance(v, IntV):
            return v.t
        if ty.kind == "int" and isinstance(v, BoolV):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if ty.kind == "bool" and isinstance(v, BoolV):
            return v.t
        raise Unsupported(f"array store of {type(v).__name__} into {ty}")

    def materialize(self, st, val, name, elt=None):
        """copy an array-like into a fresh location"""
        sh = self.arr_shape(val)
        e = elt or self.elt_ty(val)
        a = self.new_loc(st, e, sh, name)
        b = val.base if isinstance(val, FancyV) else None
        if isinstance(b, ArrV) and len(sh) == 2 and len(self.arr_shape(b)) == 2 and e == self.elt_ty(val) and b.sels[-1][0] == "r" and is_true(b.sels[-1][1] == 0):
            # whole rows are copied (entries beyond the row length are never observable)
            c, off = self.row_content(st, b)
            r = z3.Int("r!b")
            row = z3.Select(c, T.add(off, self.read_term(st, val.idx, [r])))
            lhs = z3.Select(st.heap[a.loc], r)
            st.pc.append(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < sh[0]), lhs == row), patterns=[lhs]))
            return a
        self.write_view(st, a, val, name)
        return a

    def row_content(self, st, a):
        c, sels = st.heap[a.loc], list(a.sels)
        while sels and sels[0][0] == "i":
            c = z3.Select(c, sels.pop(0)[1])
        return c, sels[0][1]

    # ------------------------------------------------------------ indexing
    def index_value(self, st, a, idxs, spec=False, loc_text=""):
        """a[idxs] ; idxs: list of IntV | ('slice', lo, hi) | arrays"""
        if isinstance(a, NoneV) and not spec:
            self.ob(st, "none", f"{loc_text}: the optional value is present", z3.BoolVal(False))
            raise Dead()
        if isinstance(a, RawV) and spec and len(idxs) == 1:
            t = z3.Select(a.t, idxs[0].t)
            return RawV(t) if z3.is_array(t) else (RealV(t) if t.sort() == T.R else IntV(t, "py"))
        if isinstance(a, TupV):
            t = z3.simplify(idxs[0].t)
            return a.items[t.as_long()]
        if isinstance(a, SRefV):
            if not isinstance(idxs[0], StrV):
                raise Unsupported("record index")
            f = idxs[0].s
            ft = self.prog.struct_fields(self.locs[a.loc].elt.name)[f]
            t = z3.Select(st.heap[a.loc][f], a.idx)
            v = self.wrap(t, ft)
            if not spec and ft.kind == "int":
                self.assume(st, self.in_range(t, ft.name))
            return v
        if isinstance(a, (LazyV, FancyV)):
            if all(isinstance(i, IntV) for i in idxs) and len(idxs) == len(self.arr_shape(a)):
                if not spec:
                    for i, s in zip(idxs, self.arr_shape(a)):
                        self.ob(st, "bounds", f"index {loc_text}", z3.And(i.t >= 0, i.t < s))
                return self.wrap(self.read_term(st, a, [i.t for i in idxs]), self.elt_ty(a))
            if isinstance(idxs[0], tuple) and isinstance(idxs[1], IntV) and len(idxs) == 2:
                j = idxs[1].t
                if not spec:
                    self.ob(st, "bounds", f"index {loc_text}", z3.And(j >= 0, j < self.arr_shape(a)[1]))
                ety = self.elt_ty(a)
                return LazyV((self.arr_shape(a)[0],), {"int": "int", "float": "real", "bool": "bool"}[ety.kind],
                             lambda i: self.read_term(st, a, [i, j]), ety.name)
            raise Unsupported("index of lazy array")
        if not isinstance(a, ArrV):
            raise Unsupported(f"subscript of {type(a).__name__}")
        if len(idxs) == 1 and isinstance(idxs[0], StrV) and self.locs[a.loc].elt.kind == "struct":
            # column of a record array: nodes["field"]
            f = idxs[0].s
            ft = self.prog.struct_fields(self.locs[a.loc].elt.name)[f]
            cont = st.heap[a.loc][f]
            off = a.sels[0][1]
            return LazyV((a.sels[0][2],), {"int": "int", "float": "real", "bool": "bool"}[ft.kind],
                         lambda i: z3.Select(cont, T.add(off, i)), ft.name)
        if isinstance(idxs[0], (ArrV, LazyV, FancyV)):
            for x in idxs[1:]:
                if not (isinstance(x, tuple) and x[1] is None and x[2] is None):
                    raise Unsupported("fancy index with other index")
            ix = idxs[0]
            if self.elt_ty(ix).kind == "bool" and not spec and len(idxs) == 1:
                return self.model_mask(st, a, ix, loc_text)
            if self.elt_ty(ix).kind != "int":
                raise Unsupported("boolean mask")
            if not spec:
                k = self.fresh("fi", z3.IntSort())
                self.ob(st, "bounds", f"fancy index {loc_text}", z3.ForAll([k], z3.Implies(
                    z3.And(k >= 0, k < self.arr_len(ix)),
                    z3.And(self.read_term(st, ix, [k]) >= 0, self.read_term(st, ix, [k]) < self.arr_len(a)))))
            return FancyV(a, ix)
        sels, k, new = list(a.sels), 0, []
        for s in sels:
            if s[0] == "i":
                new.append(s)
                continue
            if k >= len(idxs):
                new.append(s)
                continue
            ix = idxs[k]
            k += 1
            if isinstance(ix, tuple):
                lo, hi = ix[1], ix[2]
                n = s[2]

                def res(x, dflt):
                    if x is None:
                        return dflt
                    t = z3.simplify(x.t)
                    if z3.is_int_value(t) and t.as_long() < 0:
                        return z3.If(n + t >= 0, n + t, z3.IntVal(0))
                    return x.t
                l, h = res(lo, z3.IntVal(0)), res(hi, n)
                if not spec and self.py_slices:     # python: constant bounds are clipped
                    if lo is not None and z3.is_int_value(z3.simplify(lo.t)):
                        l = z3.simplify(z3.If(l <= n, l, n))
                    if lo is None or z3.is_int_value(z3.simplify(lo.t)):
                        if hi is None or z3.is_int_value(z3.simplify(hi.t)) and z3.simplify(hi.t).as_long() < 0:
                            h = z3.simplify(z3.If(h >= l, h, l))
                if not spec and (lo is not None or hi is not None):
                    self.ob(st, "bounds", f"slice {loc_text}", z3.And(l >= 0, l <= h, h <= n))
                new.append(("r", T.add(s[1], l), T.sub(h, l)))
            elif isinstance(ix, IntV):
                t = ix.t
                ts = z3.simplify(t)
                if z3.is_int_value(ts) and ts.as_long() < 0:
                    t = s[2] + ts
                if not spec:
                    self.ob(st, "bounds", f"index {loc_text}", z3.And(t >= 0, t < s[2]))
                new.append(("i", T.add(s[1], t)))
            else:
                raise Unsupported("index kind")
        if k < len(idxs):
            raise Unsupported("too many indices")
        if all(s[0] == "i" for s in new):
            loc = self.locs[a.loc]
            if loc.elt.kind == "struct":
                return SRefV(a.loc, new[0][1])
            c = st.heap[a.loc]
            for s in new:
                c = z3.Select(c, s[1])
            if not spec and loc.elt.kind == "int":
                self.assume(st, self.in_range(c, loc.elt.name))
            return self.wrap(c, loc.elt)
        return ArrV(a.loc, tuple(new))

    # ------------------------------------------------------------ attributes
    def get_attr(self, st, v, attr, spec=False):
        if isinstance(v, ObjV):
            flds = st.objs[v.oid]
            if attr in flds:
                r = flds[attr]
                return r
            m, c = self.prog.find_class(v.cls)
            if v.cls in self.prog.pyfields:         # a property that returns one attribute
                mro = [c]
                for b in mro:
                    mro += [self.prog.find_class(n.id)[1] for n in b.bases if isinstance(n, ast.Name) and any(n.id in x.classes for x in self.prog.mods.values())]
                own = [x for b in mro for x in b.body if isinstance(x, ast.FunctionDef) and x.name == attr and any(isinstance(d, ast.Name) and d.id == "property" for d in x.decorator_list)]
                body = [x for x in own[0].body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))] if own else []
                if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) and ast.unparse(body[0].value.value) == own[0].args.args[0].arg:
                    return self.get_attr(st, v, body[0].value.attr, spec)
                if own:
                    raise Unsupported(f"property {v.cls}.{attr}")
            if f"{v.cls}.{attr}" in m.funcs:
                return FunV("method", m.funcs[f"{v.cls}.{attr}"], v)
            raise Unsupported(f"attribute {v.cls}.{attr}")
        if isinstance(v, (ArrV, LazyV, FancyV)):
            sh = self.arr_shape(v)
            if attr == "size":
                t = sh[0]
                for s in sh[1:]:
                    t = t * s
                return IntV(t, "int64")
            if attr == "shape":
                return TupV([IntV(s, "int64") for s in sh])
            if attr == "ndim":
                return IntV(z3.IntVal(len(sh)), "int64")
            if attr == "dtype":
                return DtV(self.elt_ty(v))
            if attr in ("fill", "copy", "sum", "max", "min", "astype", "any", "all", "ravel"):
                return FunV("arrmeth", attr, v)
            if attr == "T":
                raise Unsupported(".T")
        if isinstance(v, SRefV) and spec:
            return self.index_value(st, v, [StrV(attr)], spec=True)
        if isinstance(v, FunV) and v.kind == "ext":
            return self.ext_attr(v.ref + "." + attr)
        if isinstance(v, OpaqueV):
            return FunV("opmeth", attr, v)
        if isinstance(v, SeriesV):
            self.note("pandas: Series.values is the underlying array, hasnans tells whether it contains NaN, dropna() keeps the other values in order")
            if attr == "values":
                return v.arr
            if attr == "hasnans":
                return BoolV(self.any_of(st, self.arr_len(v.arr), lambda i: T.ISNAN(self.read_term(st, v.arr, [i]))))
            if attr == "dropna":
                return FunV("series", attr, v)
        raise Unsupported(f"attribute {attr} of {type(v).__name__}")

    def ext_attr(self, dotted):
        d = dotted.replace("numpy.", "np.")
        if d == "np.inf":
            return RealV(T.PINF, z3.IntVal(1))
        if d == "np.nan":
            return RealV(T.NANC)
        last = d.split(".")[-1]
        if d.startswith("np.") and mk_scalar(last):
            return DtV(mk_scalar(last))
        return FunV("ext", d)

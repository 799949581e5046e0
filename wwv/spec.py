"""Evaluator of specification expressions (python-expression syntax) to z3 terms."""
import ast
import z3
from .front import Unsupported, Ty
from .values import *
from . import theory as T

_parse_cache = {}


def parse(s):
    if s not in _parse_cache:
        _parse_cache[s] = ast.parse(s.strip().replace("\n", " "), mode="eval").body
    return _parse_cache[s]


class NameMiss(Unsupported):
    pass


class Spec:
    """One evaluation context: environment, current state, old (entry) state, loop-entry state."""

    def __init__(self, eng, st, env, old=None, oldenv=None, pre=None, preenv=None, extra=None):
        self.eng, self.st, self.env = eng, st, env
        self.old, self.oldenv = old, oldenv
        self.pre, self.preenv = pre, preenv
        self.extra = extra or {}

    def sub(self, **bind):
        s = Spec(self.eng, self.st, self.env, self.old, self.oldenv, self.pre, self.preenv, dict(self.extra, **bind))
        return s

    def at(self, st, env):
        return Spec(self.eng, st, env, self.old, self.oldenv, self.pre, self.preenv, self.extra)

    def formula(self, text):
        v = self.ev(parse(text) if isinstance(text, str) else text)
        if not isinstance(v, BoolV):
            raise Unsupported(f"spec is not boolean: {text}")
        return v.t

    # -------------------------------------------------------------- eval
    def ev(self, e):
        return getattr(self, "ev_" + type(e).__name__, self.bad)(e)

    def bad(self, e):
        raise Unsupported(f"spec construct {type(e).__name__}: {ast.unparse(e)}")

    def lookup(self, name):
        if name in self.extra:
            return self.extra[name]
        if name in self.env:
            v = self.env[name]
            if isinstance(v, UndefV):
                raise NameMiss(f"name {name} undefined here")
            return v.v if isinstance(v, MaybeV) else v
        for sc in reversed(self.st.scopes):
            if name in sc:
                return sc[name]
        if name in self.st.ghost:
            g = self.st.ghost[name]
            return RawV(g.t) if type(g).__name__ == "GhostArr" else g
        if name == "True":
            return BoolV(z3.BoolVal(True))
        raise NameMiss(f"name {name} not in scope")

    def ev_Name(self, e):
        if e.id == "IDL":
            return RawV(T.IDL)
        try:
            return self.lookup(e.id)
        except NameMiss:
            for fr in (self.eng.frames[-1:] + self.eng.frames[:1]):
                r = self.eng.prog.resolve(fr.func.mod, e.id)
                if r and r[0] == "const":
                    return self.eng.const_value(r[1], r[2])
            raise

    def ev_Constant(self, e):
        v = e.value
        if isinstance(v, bool):
            return BoolV(z3.BoolVal(v))
        if isinstance(v, int):
            return IntV(z3.IntVal(v), "py")
        if isinstance(v, float):
            return RealV(z3.RealVal(str(v)))
        if isinstance(v, str):
            return StrV(v)
        if v is None:
            return NoneV()
        return self.bad(e)

    def ev_Tuple(self, e):
        return TupV([self.ev(x) for x in e.elts])

    def ev_Attribute(self, e):
        return self.eng.get_attr(self.st, self.ev(e.value), e.attr, spec=True)

    def ev_Subscript(self, e):
        a = self.ev(e.value)
        parts = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        idx = []
        for p in parts:
            if isinstance(p, ast.Slice):
                idx.append(("slice", self.ev(p.lower) if p.lower else None, self.ev(p.upper) if p.upper else None))
            else:
                idx.append(self.ev(p))
        return self.eng.index_value(self.st, a, idx, spec=True)

    def ev_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        return self.eng.binop(self.st, type(e.op).__name__, a, b, spec=True)

    def ev_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return BoolV(z3.Not(self.eng.truth(v)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, IntV):
                return IntV(-v.t, "py")
            return RealV(-v.t)
        return self.bad(e)

    def ev_BoolOp(self, e):
        ts = [self.eng.truth(self.ev(x)) for x in e.values]
        return BoolV(z3.And(*ts) if isinstance(e.op, ast.And) else z3.Or(*ts))

    def ev_Compare(self, e):
        vals = [self.ev(e.left)] + [self.ev(c) for c in e.comparators]
        ts = []
        na, self.eng.nan_aware = self.eng.nan_aware, False
        try:
            for i, op in enumerate(e.ops):
                a, b = vals[i], vals[i + 1]
                if isinstance(a, (ArrV,)) and isinstance(b, (ArrV,)):
                    raise Unsupported("array comparison in spec")
                ts.append(self.eng.compare(self.st, type(op).__name__, a, b).t)
        finally:
            self.eng.nan_aware = na
        return BoolV(conj(ts))

    def ev_IfExp(self, e):
        c = self.eng.truth(self.ev(e.test))
        a, b = self.ev(e.body), self.ev(e.orelse)
        if isinstance(a, IntV) and isinstance(b, IntV):
            return IntV(z3.If(c, a.t, b.t), "py")
        if isinstance(a, BoolV):
            return BoolV(z3.If(c, a.t, b.t))
        return RealV(z3.If(c, self.eng.real(a).t, self.eng.real(b).t))

    # -------------------------------------------------------------- quantifiers & functions
    def quant(self, e, univ):
        gen = e.args[0]
        if not isinstance(gen, ast.GeneratorExp):
            return self.bad(e)
        ctx, doms, vs = self, [], []
        for g in gen.generators:
            names = [g.target.id] if isinstance(g.target, ast.Name) else [x.id for x in g.target.elts]
            it = g.iter
            for n in names:
                sort = T.I
                if isinstance(it, ast.Name) and it.id == "Real":
                    sort = T.R
                if isinstance(it, ast.Name) and it.id == "Col":
                    sort = ColS
                if isinstance(it, ast.Name) and it.id == "List":
                    sort = T.AI
                if isinstance(it, ast.Name) and it.id == "Reals":
                    sort = T.AR
                v = self.eng.fresh(n, sort)
                vs.append(v)
                if isinstance(it, ast.Name) and it.id in ("Int", "Real", "Col", "List", "Reals"):
                    pass
                elif isinstance(it, ast.Call) and it.func.id == "range":
                    args = [ctx.ev(x) for x in it.args]
                    lo = args[0].t if len(args) > 1 else z3.IntVal(0)
                    hi = args[-1].t
                    doms.append(z3.And(lo <= v, v < hi))
                else:
                    return self.bad(e)
                val = IntV(v, "py") if sort == T.I else (RealV(v) if sort == T.R else (ColV(v) if sort == ColS else RawV(v)))
                ctx = ctx.sub(**{n: val})
            for cond in g.ifs:
                doms.append(self.eng.truth(ctx.ev(cond)))
        pats = []
        body = gen.elt
        if isinstance(body, ast.Call) and isinstance(body.func, ast.Name) and body.func.id == "trig":
            pterms = [ctx.ev(x).t for x in body.args[1:]]
            pats = [z3.MultiPattern(*pterms) if len(pterms) > 1 else pterms[0]]
            body = body.args[0]
        b = self.eng.truth(ctx.ev(body))
        if univ:
            f = z3.Implies(conj(doms), b) if doms else b
            return BoolV(z3.ForAll(vs, f, patterns=pats) if pats else z3.ForAll(vs, f))
        return BoolV(z3.Exists(vs, z3.And(*(doms + [b])), patterns=pats) if pats else z3.Exists(vs, z3.And(*(doms + [b]))))

    def ev_Call(self, e):
        if not isinstance(e.func, ast.Name):
            return self.bad(e)
        n = e.func.id
        if n == "all":
            return self.quant(e, True)
        if n == "any":
            return self.quant(e, False)
        if n == "implies":
            if is_false(self.eng.truth(self.ev(e.args[0]))):
                return BoolV(z3.BoolVal(True))
            return BoolV(z3.Implies(self.eng.truth(self.ev(e.args[0])), self.eng.truth(self.ev(e.args[1]))))
        if n == "iff":
            return BoolV(self.eng.truth(self.ev(e.args[0])) == self.eng.truth(self.ev(e.args[1])))
        if n == "old":
            if self.old is None:
                raise Unsupported("old() without entry state")
            return self.scalar(self.at(self.old, self.oldenv if self.oldenv is not None else self.env).ev(e.args[0]))
        if n == "was":         # the contents of an array on entry
            sp = self.at(self.old, self.oldenv if self.oldenv is not None else self.env)
            arr, off = sp.content(sp.ev(e.args[0]))
            if not (z3.is_int_value(off) and off.as_long() == 0):
                raise Unsupported("was() of a slice")
            return RawV(arr)
        if n == "pre":
            if self.pre is None:
                raise Unsupported("pre() outside loop")
            return self.scalar(self.at(self.pre, self.preenv).ev(e.args[0]))
        if n == "len":
            return IntV(self.eng.arr_len(self.ev(e.args[0])), "py")
        if n == "isinf":
            v = self.ev(e.args[0])
            return IntV(v.inf if v.inf is not None else z3.IntVal(0), "py")
        if n == "isfresh":
            v = self.ev(e.args[0])
            return BoolV(z3.BoolVal(self.old is not None and v.loc not in self.old.heap))
        if n == "same":      # same array object and same view
            a, b = self.ev(e.args[0]), self.ev(e.args[1])
            if a.loc != b.loc:
                return BoolV(z3.BoolVal(False))
            ts = []
            for s, t in zip(a.sels, b.sels):
                ts += [x == y for x, y in zip(s[1:], t[1:])]
            return BoolV(conj(ts))
        if n == "same_node":  # the record reference is entry idx of the array
            r, a, k = self.ev(e.args[0]), self.ev(e.args[1]), self.ev(e.args[2]).t
            return BoolV(z3.BoolVal(False) if r.loc != a.loc else r.idx == T.add(a.sels[0][1], k))
        if n == "typed":      # every entry of an integer array lies in the range of its type (checked at every store)
            a = self.ev(e.args[0])
            vs = [z3.Int(f"r{k}!ty") for k in range(len(self.eng.arr_shape(a)))]
            x = self.eng.read_term(self.st, a, vs)
            return BoolV(z3.ForAll(vs, self.eng.in_range(x, self.eng.elt_ty(a).name), patterns=[x]))
        if n == "samearr":   # equal contents (as mathematical arrays), regardless of identity
            a, b = self.ev(e.args[0]), self.ev(e.args[1])
            sa = self.content(a)[0]
            sb = self.content(b)[0]
            return BoolV(sa == sb)
        if n == "unchanged":  # contents of the array identical to entry state
            a = self.ev(e.args[0])
            cur, was = self.st.heap[a.loc], self.old.heap[a.loc]
            if isinstance(cur, dict):
                return BoolV(conj([cur[f] == was[f] for f in cur if cur[f] is not was[f]]))
            return BoolV(cur == was)
        if n == "ykept":      # rows 0..n-1 of the array have the contents (and width) they had at entry
            octx = self.at(self.old, self.oldenv if self.oldenv else self.env)
            a, b, m = self.ev(e.args[0]), octx.ev(e.args[0]), self.ev(e.args[1]).t
            sh, sh0 = self.eng.arr_shape(a), self.eng.arr_shape(b)
            vs = [z3.Int(f"r{k}!rk") for k in range(len(sh))]
            x, y = self.eng.read_term(self.st, a, vs), self.eng.read_term(self.old, b, vs)
            dom = [z3.And(vs[0] >= 0, vs[0] < m)] + [z3.And(v >= 0, v < d) for v, d in zip(vs[1:], sh[1:])]
            return BoolV(conj([p == q for p, q in zip(sh[1:], sh0[1:])] + [z3.ForAll(vs, z3.Implies(z3.And(*dom), x == y), patterns=[x])]))
        if n == "recs_kept":  # records 0..n-1 have the contents they had at entry, except in the named fields
            octx = self.at(self.old, self.oldenv if self.oldenv else self.env)
            a, b, m = self.ev(e.args[0]), octx.ev(e.args[0]), self.ev(e.args[1]).t
            skip = [x.value for x in e.args[2:]]
            k = z3.Int("k!rk")
            cur, was = self.st.heap[a.loc], self.old.heap[b.loc]

            def fa(f):
                body = z3.Implies(z3.And(k >= 0, k < m), z3.Select(cur[f], k) == z3.Select(was[f], k))
                return z3.ForAll([k], body, patterns=[z3.Select(cur[f], k)]) if z3.is_const(cur[f]) else z3.ForAll([k], body)
            return BoolV(conj([fa(f) for f in cur if f not in skip and cur[f] is not was[f]]))
        if n == "keeps":      # contents of the array identical to those just before the loop
            a = self.ev(e.args[0])
            return BoolV(self.st.heap[a.loc] == self.pre.heap[a.loc])
        if n in self.ROUTE:
            return self.route(n, e.args, False)
        if n == "unfold" and e.args[0].func.id in self.ROUTE:
            return self.route(e.args[0].func.id, e.args[0].args, True)
        if n in ("unfold", "unfoldl"):
            c = e.args[0]
            spec = T.FUN[c.func.id]
            return BoolV(spec[n](*self.fargs(c.func.id, c.args)))
        if n in ("isnan", "exp", "log", "log2", "sqrt", "toint", "real", "expadd"):
            a = [self.ev(x) for x in e.args]
            if n == "toint":
                return IntV(z3.ToInt(a[0].t), "py")
            if n == "real":
                return self.eng.real(a[0])
            r = [self.eng.real(x).t for x in a]
            if n == "isnan":
                return BoolV(T.ISNAN(r[0]))
            if n == "expadd":
                return BoolV(T.exp_add(r[0], r[1]))
            return RealV({"exp": T.EXP, "log": T.LOG, "log2": T.LOG2, "sqrt": T.SQRT}[n](r[0]))
        if n in ("shl", "shr", "band", "bor"):
            a, b = [self.ev(x).t for x in e.args]
            return IntV({"shl": T.SHL, "shr": T.SHR, "band": T.BAND, "bor": T.BOR}[n](a, b), "py")
        if n == "mkcol":       # mkcol(words_view, nv, nb)
            a = self.ev(e.args[0])
            nv, nb = [self.ev(x).t for x in e.args[1:]]
            arr, off = self.content(a)
            return ColV(T.MKCOL(arr, off, nv, nb))
        if n == "xbdef":       # definition of xb for one sample
            a = self.ev(e.args[0])
            nv, nb, i = [self.ev(x).t for x in e.args[1:]]
            arr, off = self.content(a)
            return BoolV(T.XB(T.MKCOL(arr, off, nv, nb), i) == T.FIELD(
                z3.Select(arr, T.add(off, T.QUO(i, nv))), (nv - T.REM(i, nv) - 1) * nb, nb))
        if n == "mask":
            return IntV(T.MASK(self.ev(e.args[0]).t), "py")
        if n in ("field", "quo", "rem"):
            a = [self.ev(x).t for x in e.args]
            return IntV({"field": T.FIELD, "quo": T.QUO, "rem": T.REM}[n](*a), "py")
        if n in ("nodeat", "recat", "binat"):
            return BoolV(getattr(T, n.upper())(self.ev(e.args[0]).t))
        if n == "tmax":
            from .front import INT_RANGES
            return IntV(z3.IntVal(INT_RANGES[self.eng.elt_ty(self.ev(e.args[0])).name][1]), "py")
        if n == "xb":
            c, i = self.ev(e.args[0]), self.ev(e.args[1])
            return IntV(T.XB(c.t, i.t), "py")
        if n == "inb":         # inb(arr, lo, hi, b)
            a = self.ev(e.args[0])
            lo, hi, b = [self.ev(x).t for x in e.args[1:]]
            arr, off = self.content(a)
            return BoolV(T.INB(arr, T.add(off, lo), T.add(off, hi), b))
        if n == "inbo":        # inbo(arr, lo, hi, b): b (now) occurs in the entry-state contents of arr[lo:hi)
            octx = self.at(self.old, self.oldenv if self.oldenv else self.env)
            arr, off = octx.content(octx.ev(e.args[0]))
            lo, hi, b = [self.ev(x).t for x in e.args[1:]]
            return BoolV(T.INB(arr, T.add(off, lo), T.add(off, hi), b))
        if n in T.NAMED:
            return RealV(T.NAMED[n](*[self.eng.real(self.ev(x)).t for x in e.args]))
        if n in T.FUN:
            args = self.fargs(n, e.args)
            t = T.FUN[n]["fn"](*args)
            return IntV(t, "py") if T.FUN[n]["sort"] == T.I else RealV(t)
        if n not in self.eng.defs and n + "_clf" in self.eng.defs:     # by the class of the first object argument
            cls = next((v.cls for v in map(self.ev, e.args) if isinstance(v, ObjV)), "")
            n += "_clf" if "Classifier" in cls else "_reg"
        if n in self.eng.defs:
            params, body = self.eng.defs[n]
            vals = [self.ev(a) for a in e.args]
            if len(vals) != len(params):
                raise Unsupported(f"arity of {n}")
            ctx = Spec(self.eng, self.st, {}, self.old, {}, self.pre, {}, dict(zip(params, vals)))
            ctx.oldenv = {}
            ctx.preenv = {}
            return ctx.ev(parse(body))
        if n in T.DEFN:
            return BoolV(T.DEFN[n](*[self.eng.real(self.ev(x)).t for x in e.args]))
        if n in T.RAW:
            vals = [self.ev(a) for a in e.args]
            return BoolV(T.RAW[n](*[self.rawarg(v) for v in vals]))
        return self.bad(e)

    ROUTE = ("L_routes", "goleft", "leafof", "onpath", "aggc", "aggr", "aggd")

    def route(self, n, args, unfold):
        """goleft/leafof/onpath(tree, fb, i, k), aggc(tree, fb, step, i, k, c), aggr/aggd(tree, fb, step, i, k)"""
        tree, fb = self.ev(args[0]), self.ev(args[1])
        att = lambda o, f: self.eng.get_attr(self.st, o, f, spec=True)

        def arr(v):
            if isinstance(v, LazyV):
                return v
            c, off = self.content(v)
            if not is_true(off == 0):
                raise Unsupported("routing over a view with offset")
            return c
        nodes = att(tree, "nodes")
        if not is_true(nodes.sels[0][1] == 0):
            raise Unsupported("routing over a view with offset")
        h = self.st.heap[nodes.loc]
        r = T.Rt(n=att(tree, "node_count").t, is_leaf=h["is_leaf"], left=h["left_child"], right=h["right_child"],
                 is_cat=h["is_split_categorical"], feature=h["feature"], bt=h["bin_threshold"], bps=h["bin_partition_start"],
                 bpe=h["bin_partition_end"], parts=arr(att(tree, "bin_partitions")), bits=arr(att(fb, "bitarray")),
                 offs=arr(att(fb, "offsets")), nvw=arr(att(fb, "n_values_in_words")), nb=arr(att(fb, "n_bits")))
        if n == "L_routes":         # L_routes(tree, fb, indices, train | valid)
            return BoolV(T.RAW["L_routes"](r, h["parent"], self.rawarg(self.ev(args[2])), h["start_" + args[3].id], h["end_" + args[3].id]))
        a = [self.ev(x) for x in args[2:]]
        if n == "goleft":
            i, k = a[0].t, a[1].t
            return BoolV(r.d_goleft(i, k) if unfold else T.GL(r.t, i, k))
        if n == "leafof":
            i, k = a[0].t, a[1].t
            return BoolV(r.d_leafof(i, k)) if unfold else IntV(T.LEAF(r.t, i, k), "py")
        if n == "onpath":
            i, k = a[0].t, a[1].t
            return BoolV(r.d_onpath(h["parent"], i, k) if unfold else T.ONP(r.t, h["parent"], i, k))
        step, i, k = self.eng.real(a[0]).t, a[1].t, a[2].t
        if n == "aggc":
            x = (h["loss_valid"], h["log_weight_tree"], arr(att(tree, "y_pred")), step, i, k, a[3].t)
            return BoolV(r.d_aggc(*x)) if unfold else RealV(T.AGGC(r.t, *x))
        if n == "aggd":
            x = (h["loss_valid"], h["log_weight_tree"], h["depth"], step, i, k)
            return BoolV(r.d_aggd(*x)) if unfold else RealV(T.AGGD(r.t, *x))
        x = (h["loss_valid"], h["log_weight_tree"], arr(att(tree, "y_pred")), step, i, k)
        return BoolV(r.d_aggr(*x)) if unfold else RealV(T.AGGR(r.t, *x))

    def scalar(self, v):
        """old(..)/pre(..) of a mutable object would silently be read in the current state"""
        if isinstance(v, (ArrV, LazyV, FancyV, ObjV)):
            raise Unsupported("old()/pre() of an array or object: apply it to the whole expression")
        return v

    def rawarg(self, v):
        if isinstance(v, (IntV, RealV, BoolV, ColV, RawV)):
            return v.t
        if isinstance(v, ArrV):
            arr, off = self.content(v)
            return arr
        raise Unsupported("raw argument")

    def content(self, a):
        if isinstance(a, RawV):
            return a.t, z3.IntVal(0)
        return self.content_(a)

    def content_(self, a):
        """(mathematical 1-D (or nd) array, offset) of a view with leading fixed indices"""
        if isinstance(a, LazyV):
            raise Unsupported("content of lazy array")
        c = self.st.heap[a.loc]
        sels = list(a.sels)
        while sels and sels[0][0] == "i":
            c = z3.Select(c, sels.pop(0)[1])
        if any(s[0] == "i" for s in sels):
            raise Unsupported("content of strided view")
        return c, sels[0][1]

    def fargs(self, name, args):
        """evaluate arguments of a defined sum; array arguments that are views shift s,e"""
        info = T.FUN[name]
        vals = [self.ev(a) for a in args]
        out = []
        for v, srt in zip(vals, info["args"]):
            if isinstance(v, RawV):
                out.append(v.t)
            elif isinstance(v, ArrV):
                c, off = self.content(v)
                if not (z3.is_int_value(z3.simplify(off)) and z3.simplify(off).as_long() == 0):
                    raise Unsupported(f"{name}: view with offset")
                out.append(c)
            elif isinstance(v, LazyV):
                raise Unsupported(f"{name}: lazy array argument")
            elif srt == T.R:
                out.append(self.eng.real(v).t)
            else:
                out.append(v.t)
        if len(out) != len(info["args"]):
            raise Unsupported(f"arity of {name}")
        return out

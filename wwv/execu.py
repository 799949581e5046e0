"""Statement / expression execution, calls, loops and function verification."""
import ast
import z3
from .front import Unsupported, Ty, mk_scalar, INT_RANGES
from .values import *
from . import theory as T
from .engine import Engine, State, Frame, Dead, Ob
from .spec import Spec, parse, NameMiss


class Contract:
    def __init__(self, qual, params=None, ret=None, requires=(), ensures=(), modifies=(), loops=None,
                 variants=None, fparams=None, facts=(), cuts=None, ghost=None, nan=False, inline=False,
                 pure=False, trusted=False, note="", label=None, ghost_params=None, decreases=None,
                 entry_facts=(), after=None, exit_facts=(), fresh_result=False, cases=None, lemmas=(), raises=None,
                 timeout=None, binds=None, before=None, join=None, slim=(), slim_for=None, observed=False, shared=(), oracles=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.requires, self.ensures = list(requires), list(ensures)
        self.modifies = list(modifies)
        self.loops = loops or {}
        self.variants = variants or [{}]
        self.fparams = fparams or {}
        self.after = after or {}      # hints after / before a call, by callee name
        self.before = before or {}
        self.slim = set(slim)         # an obligation is also tried without the hypotheses that mention one of these symbols
        self.slim_for = slim_for or {}    # more such symbols for the obligations whose text starts with the key
        self.join = join or {}        # callee name -> statements at which the paths are merged before that call
        self.binds = binds or {}      # constructor: fields that are one of the arguments (checked by an ensures same(..))
        self.ghost_params = ghost_params or {}


class Loop:
    def __init__(self, inv=(), facts=(), counter=None, decreases=None, head=(), ghost=None, exit=(), pre=(), join=None):
        self.inv = list(inv)        # invariants (checked at entry and after each iteration)
        self.facts = list(facts)    # proved-lemma / definitional instances available at the end of the body
        self.head = list(head)      # same, at the start of the body
        self.exit = list(exit)      # same, after the loop
        self.pre = list(pre)        # same, just before the loop
        self.join = join            # statements at which the paths arriving at the loop are merged
        self.counter = counter
        self.decreases = decreases
        self.ghost = ghost or []


CMPNAMES = {"math.log": "log", "math.exp": "exp", "math.ceil": "ceil", "math.floor": "floor",
            "math.isnan": "isnan", "np.log": "log", "np.exp": "exp", "np.log2": "log2", "np.sqrt": "sqrt"}


class Exec(Engine):
    # ================================================================ expressions
    def ev(self, st, e):
        if hasattr(e, "lineno"):
            self.line = e.lineno
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}: {ast.unparse(e)[:80]}")
        return m(st, e)

    def ev1(self, st, e):
        r = self.ev(st, e)
        if len(r) != 1:
            raise Unsupported("expression with several outcomes here")
        return r[0]

    def evs(self, st, es):
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(s, e):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def ev_Constant(self, st, e):
        v = e.value
        if isinstance(v, bool):
            return [(st, BoolV(z3.BoolVal(v)))]
        if isinstance(v, int):
            return [(st, IntV(z3.IntVal(v), "int64" if self.fr.func.jit else "py"))]
        if isinstance(v, float):
            return [(st, RealV(z3.RealVal(repr(v))))]
        if isinstance(v, str):
            return [(st, StrV(v))]
        if v is None:
            return [(st, NoneV())]
        raise Unsupported(f"constant {v!r}")

    def const_value(self, mod, node):
        if isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                return BoolV(z3.BoolVal(v))
            if isinstance(v, int):
                return IntV(z3.IntVal(v), "int64")
            if isinstance(v, float):
                return RealV(z3.RealVal(repr(v)))
            if isinstance(v, str):
                return StrV(v)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and mk_scalar(node.func.id):
            ty = mk_scalar(node.func.id)
            v = self.const_value(mod, node.args[0])
            if isinstance(v, IntV):
                return IntV(v.t, ty.name)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            v = self.const_value(mod, node.operand)
            if isinstance(v, IntV):
                return IntV(z3.IntVal(-v.t.as_long()), v.ty)
        if isinstance(node, ast.Call) and ast.unparse(node.func) == "np.dtype":
            for name, val in mod.consts.items():
                if val is node:
                    return DtV(Ty("struct", name))
        if isinstance(node, ast.Attribute) and ast.unparse(node).startswith("np.iinfo"):
            nm = node.value.args[0].attr
            lo, hi = INT_RANGES[mk_scalar(nm).name]
            return IntV(z3.IntVal(hi if node.attr == "max" else lo), "py")
        raise Unsupported(f"constant expression {ast.unparse(node)[:60]}")

    def ev_Name(self, st, e):
        n = e.id
        if n in st.env:
            v = st.env[n]
            if isinstance(v, UndefV):
                raise Unsupported(f"possibly undefined local {n}")
            if isinstance(v, MaybeV):
                self.ob(st, "defined", f"local {n} assigned before use", v.cond)
                v = v.v
            return [(st, v)]
        r = self.prog.resolve(self.fr.func.mod, n)
        if r is None:
            if n in ("range", "enumerate", "len", "max", "min", "int", "float", "abs", "zip", "bool",
                     "isinstance", "hasattr", "sum"):
                return [(st, FunV("ext", "builtins." + n))]
            raise Unsupported(f"unresolved name {n}")
        if r[0] == "func":
            return [(st, FunV("func", r[1]))]
        if r[0] == "class":
            return [(st, FunV("class", (r[1], r[2].name)))]
        if r[0] == "const":
            return [(st, self.const_value(r[1], r[2]))]
        if r[0] == "ext":
            last = r[1].split(".")[-1]
            if r[1].startswith("numba") and mk_scalar(last):
                return [(st, FunV("cast", mk_scalar(last)))]
            return [(st, self.ext_attr(r[1]))]
        raise Unsupported(f"name {n}")

    def ev_Attribute(self, st, e):
        if e.attr in ("max", "min") and isinstance(e.value, ast.Call) and ast.unparse(e.value.func) in ("np.iinfo", "numpy.iinfo") \
                and isinstance(e.value.args[0], ast.Attribute) and mk_scalar(e.value.args[0].attr) and mk_scalar(e.value.args[0].attr).kind == "int":
            lo, hi = INT_RANGES[mk_scalar(e.value.args[0].attr).name]
            return [(st, IntV(z3.IntVal(hi if e.attr == "max" else lo), "py"))]
        return [(s, self.get_attr(s, v, e.attr)) for s, v in self.ev(st, e.value)]

    def ev_Tuple(self, st, e):
        return [(s, TupV(vs)) for s, vs in self.evs(st, e.elts)]

    ev_List = ev_Tuple

    def ev_Subscript(self, st, e):
        outs = []
        for s, a in self.ev(st, e.value):
            for s2, idx in self.ev_index(s, e.slice):
                outs.append((s2, self.index_value(s2, a, idx, loc_text=ast.unparse(e)[:50])))
        return outs

    def ev_index(self, st, sl):
        parts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        outs = [(st, [])]
        for p in parts:
            nxt = []
            for s, acc in outs:
                if isinstance(p, ast.Slice):
                    if p.step is not None:
                        raise Unsupported("slice step")
                    los = self.ev(s, p.lower) if p.lower else [(s, None)]
                    for s2, lo in los:
                        his = self.ev(s2, p.upper) if p.upper else [(s2, None)]
                        for s3, hi in his:
                            nxt.append((s3, acc + [("slice", lo, hi)]))
                else:
                    for s2, v in self.ev(s, p):
                        nxt.append((s2, acc + [v]))
            outs = nxt
        return outs

    def ev_BinOp(self, st, e):
        return [(s, self.binop(s, type(e.op).__name__, a, b)) for s, (a, b) in self.evs(st, [e.left, e.right])]

    def ev_UnaryOp(self, st, e):
        outs = []
        for s, v in self.ev(st, e.operand):
            if isinstance(e.op, ast.Not):
                outs.append((s, BoolV(z3.Not(self.truth(v)))))
            elif isinstance(e.op, ast.USub):
                if isinstance(v, IntV):
                    t = z3.simplify(-v.t) if z3.is_int_value(v.t) else -v.t
                    if v.ty.startswith("u"):
                        self.ob(s, "overflow", "negation of unsigned", t >= 0)
                    outs.append((s, IntV(t, v.ty)))
                elif isinstance(v, RealV):
                    if v.inf is not None:
                        outs.append((s, RealV(-v.t, z3.simplify(-v.inf))))
                    else:
                        outs.append((s, RealV(-v.t)))
                elif isinstance(v, (ArrV, LazyV)):
                    outs.append((s, self.binop(s, "Sub", RealV(z3.RealVal(0)), v)))
                else:
                    raise Unsupported("unary minus")
            elif isinstance(e.op, ast.Invert) and isinstance(v, BoolV):
                outs.append((s, BoolV(z3.Not(v.t))))
            elif isinstance(e.op, ast.Invert) and isinstance(v, (ArrV, LazyV)) and self.elt_ty(v).kind == "bool":
                outs += self.call_ext(s, "np.logical_not", [v], {}, e)
            else:
                raise Unsupported("unary op")
        return outs

    def ev_BoolOp(self, st, e):
        isand = isinstance(e.op, ast.And)
        outs = [(st, None)]
        for k, x in enumerate(e.values):
            nxt = []
            for s, acc in outs:
                if acc is None:
                    for s2, v in self.ev(s, x):
                        nxt.append((s2, self.truth(v)))
                    continue
                guard = acc if isand else z3.Not(acc)
                if is_false(guard):
                    nxt.append((s, acc))
                    continue
                s2 = s.copy()
                mark = len(s2.pc)
                s2.pc.append(guard)
                rs = self.ev(s2, x)
                if len(rs) != 1:
                    # several outcomes: split on the guard
                    s3 = s.copy()
                    s3.pc.append(z3.Not(guard))
                    nxt.append((s3, z3.BoolVal(not isand)))
                    for s4, v in rs:
                        nxt.append((s4, self.truth(v)))
                    continue
                s4, v = rs[0]
                for f in s4.pc[mark + 1:]:
                    s.pc.append(z3.Implies(guard, f))
                t = self.truth(v)
                nxt.append((s, z3.And(acc, t) if isand else z3.Or(acc, t)))
            outs = nxt
        return [(s, BoolV(t)) for s, t in outs]

    def ev_Compare(self, st, e):
        outs = []
        for s, vs in self.evs(st, [e.left] + e.comparators):
            ts = []
            if len(e.ops) == 1:
                outs.append((s, self.compare(s, type(e.ops[0]).__name__, vs[0], vs[1])))
                continue
            for i, op in enumerate(e.ops):
                ts.append(self.compare(s, type(op).__name__, vs[i], vs[i + 1]).t)
            outs.append((s, BoolV(z3.And(*ts))))
        return outs

    def ev_IfExp(self, st, e):
        outs = []
        for s, c in self.ev(st, e.test):
            t = self.truth(c)
            if not is_false(t):
                s1 = s.copy()
                s1.pc.append(t)
                outs += self.ev(s1, e.body)
            if not is_true(t):
                s2 = s.copy()
                s2.pc.append(z3.Not(t))
                outs += self.ev(s2, e.orelse)
        return outs

    # ================================================================ calls
    def ev_Call(self, st, e):
        outs = []
        for s, f in self.ev(st, e.func):
            if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
                raise Unsupported("star arguments")
            for s2, args in self.evs(s, e.args):
                for s3, kws in self.evs(s2, [k.value for k in e.keywords]):
                    self.line = e.lineno
                    outs += self.call(s3, f, args, {k.arg: v for k, v in zip(e.keywords, kws)}, e)
        return outs

    def call(self, st, f, args, kw, e):
        if isinstance(f, DtV):
            f = FunV("cast", f.ty)
        if isinstance(f, OpaqueV):
            return self.call_oracle(st, f, args, kw)
        if not isinstance(f, FunV):
            raise Unsupported(f"call of {type(f).__name__}")
        if f.kind == "cast":
            v = args[0]
            if f.ref.kind == "int" and isinstance(v, RealV):
                self.ob(st, "range", "cast operand non-negative", v.t >= 0)
                t = z3.ToInt(v.t)
                self.ob(st, "range", f"cast fits {f.ref.name}", self.in_range(t, f.ref.name))
                return [(st, IntV(t, f.ref.name))]
            return [(st, self.coerce(st, v, f.ref, "cast"))]
        if f.kind == "ext":
            return self.call_ext(st, f.ref, args, kw, e)
        if f.kind == "series":
            x = f.bound.arr
            return [(st, SeriesV(self.model_mask(st, x, LazyV(tuple(self.arr_shape(x)), "bool", lambda i: z3.Not(T.ISNAN(self.read_term(st, x, [i])))), "dropna")))]
        if f.kind == "opmeth":
            return self.call_opaque(st, f.bound, f.ref, args, kw)
        if f.kind == "arrmeth":
            return self.call_arrmeth(st, f.bound, f.ref, args, kw)
        if f.kind == "class":
            mod, cls = f.ref
            q = f"{mod.short}.{cls}.__init__"
            self.wlog(("alloc",))
            obj = self.new_obj(st, cls, cls, init=False)
            init = mod.funcs[f"{cls}.__init__"]
            return [(s, obj) for s, _ in self.invoke(st, init, [obj] + args, kw, e)]
        if f.kind == "param":
            target = self.resolve_fparam(f.ref)
            return self.invoke(st, target, args, kw, e)
        if f.kind == "func":
            return self.invoke(st, f.ref, args, kw, e)
        if f.kind == "method":
            return self.invoke(st, f.ref, [f.bound] + args, kw, e)
        raise Unsupported(f"call kind {f.kind}")

    def resolve_fparam(self, name):
        for fr in reversed(self.frames):
            m = fr.variant.get("fparams", {}) if fr.variant else {}
            if name in m:
                fn = self.prog.func(m[name])
                if fn is None:
                    raise Unsupported(f"function {m[name]} not found")
                return fn
        raise Unsupported(f"function parameter {name}")

    def bind(self, func, args, kw):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg or a.kwarg:
            raise Unsupported("varargs")
        env = {}
        if len(args) > len(names):
            raise Unsupported("too many arguments")
        for n, v in zip(names, args):
            env[n] = v
        allnames = names + [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k not in allnames:
                raise Unsupported(f"keyword {k}")
            env[k] = v
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in allnames:
            if n not in env:
                if n not in defaults:
                    raise Unsupported(f"missing argument {n}")
                d = defaults[n]
                if not isinstance(d, ast.Constant):
                    raise Unsupported("default value")
                saved = self.frames
                self.frames = self.frames + [Frame(func, None, {})]
                env[n] = self.ev_Constant(None, d)[0][1]
                self.frames = saved
        return env

    def pick_sig(self, func, env):
        names = [x.arg for x in func.node.args.args]
        for ret, tys in func.sigs:
            ok = len(tys) == len(names)
            for n, t in zip(names, tys):
                v = env.get(n)
                if t.kind == "obj" and (not isinstance(v, ObjV) or v.cls != t.name):
                    ok = False
                if t.kind == "arr" and t.elt.kind != "struct" and isinstance(v, ArrV) and len(func.sigs) > 1 and \
                        (self.elt_ty(v).kind != t.elt.kind or self.elt_ty(v).name != t.elt.name):
                    ok = False
            if ok:
                return ret, tys
        return None, None

    def invoke(self, st, func, args, kw, e):
        env = self.bind(func, args, kw)
        ret, tys = self.pick_sig(func, env)
        if tys:
            names = [x.arg for x in func.node.args.args]
            for n, t in zip(names, tys):
                if t.kind in ("int", "float", "bool"):
                    env[n] = self.coerce(st, env[n], t, f"argument {n} of {func.name}")
                elif t.kind == "arr":
                    if isinstance(env[n], (LazyV, FancyV)):
                        env[n] = self.materialize(st, env[n], n)
                    if not isinstance(env[n], ArrV):
                        raise Unsupported(f"argument {n} of {func.name}")
                    env[n] = self.coerce(st, env[n], t, f"argument {n} of {func.name}")
        q = func.qual
        con = self.contracts.get(q)
        if con is not None and not con.inline:
            return self.call_contract(st, func, con, env, ret)
        return self.inline(st, func, env, ret)

    def inline(self, st, func, env, ret):
        if len(self.frames) > 12 or any(fr.func is func for fr in self.frames):
            raise Unsupported(f"recursive inlining of {func.qual}")
        self.inlined.add(func.qual)
        fr = Frame(func, self.contracts.get(func.qual), self.frames[-1].variant if self.frames else {})
        self.frames.append(fr)
        try:
            saved_env = st.env
            st.scopes = st.scopes + [saved_env]
            st.env = dict(env)
            ends = self.block([st], func.node.body)
            outs = []
            for s in ends:
                if s.flow[0] == "raise":
                    outs.append((s, None))
                    continue
                v = s.flow[1] if s.flow[0] == "return" else NoneV()
                s.flow = ("normal",)
                s.env = dict(s.scopes[-1])
                s.scopes = s.scopes[:-1]
                if ret is not None and ret.kind in ("int", "float", "bool"):
                    v = self.coerce(s, v, ret, "return value")
                if ret is not None and ret.kind == "tuple" and isinstance(v, TupV):
                    v = TupV([self.coerce(s, x, t, "return value") for x, t in zip(v.items, ret.items)])
                outs.append((s, v))
            return outs
        finally:
            self.frames.pop()

    def contract_spec(self, st, env, old=None, **extra):
        return Spec(self, st, env, old=old, oldenv=env, extra=extra)

    def call_contract(self, st, func, con, env, ret):
        self.used_contracts.add(func.qual)
        q = func.qual
        # an infinite scalar argument is, for the callee, an unspecified positive (negative) number
        env = {n: (RealV(v.t) if isinstance(v, RealV) and v.inf is not None else v) for n, v in env.items()}
        if con.ghost_params:
            env = dict(env)
            gm = (self.fr.contract.ghost_args or {}) if self.fr.contract and hasattr(self.fr.contract, "ghost_args") else {}
        sp = self.contract_spec(st, env, old=st)
        sp.old = st
        if any(m.endswith("[*]") for m in con.modifies):
            ls = [v.loc for v in env.values() if isinstance(v, ArrV)]
            if len(ls) != len(set(ls)):
                raise Unsupported(f"aliased array arguments of {q}")
        if self.fr is self.root and self.fr.contract is not None:
            for item in self.fr.contract.before.get(func.node.name, ()):
                try:
                    self.hint(st, item)
                except NameMiss:     # speaks of a name this call site does not have
                    continue
        for i, r in enumerate(con.requires):
            g = self.with_mod(func, lambda: sp.formula(r))
            self.ob(st, "call-pre", f"{q} requires {norm(r)}", g)
            self.assume(st, g)
        old = st.copy()
        for m in modlist(con, env):
            self.apply_modifies(st, env, m)
        for n, v in env.items():     # a function passed on must be the one the contract was proved with
            if isinstance(v, FunV):
                want = [x["fparams"][n] for x in con.variants if x["name"].startswith(kind_of(env))]
                if len(set(want)) != 1 or (v.ref if v.kind == "func" else self.resolve_fparam(v.ref)).qual != want[0]:
                    raise Unsupported(f"function argument {n} of {q}")
        if q.endswith(".__init__"):
            me = next(iter(env.values()))
            for f, ft in self.prog.class_fields(me.cls).items():
                st.objs[me.oid][f] = env[con.binds[f]] if f in con.binds else self.sym(st, ft, f"{me.cls}.{f}")
        for path, n in con.binds.items():       # fields that hold an argument itself afterwards
            if "." in path:
                head, f = path.rsplit(".", 1)
                st.objs[self.contract_spec(st, env).ev(parse(head)).oid][f] = env[n]
        if isinstance(con.ret, Ty):
            ret = con.ret
        if con.ret == "none" or ret is None or ret.kind == "void":
            res = NoneV() if con.ret in (None, "none") else None
        else:
            res = None
        if res is None:
            if callable(con.ret):
                res = con.ret(self, st, env)
            elif ret is None:
                raise Unsupported(f"no return type for {q}")
            else:
                res = self.sym(st, ret, f"ret.{func.node.name}")
        if con.observed:
            st.ghost["ret_" + func.node.name] = res
        sp2 = self.contract_spec(st, env, old=old, result=res)
        for r in con.ensures:
            self.assume(st, self.with_mod(func, lambda: sp2.formula(r)))
        return [(st, res)]

    def with_mod(self, func, thunk):
        """evaluate a callee's spec with the callee's module constants visible"""
        fr = Frame(func, None, {})
        self.frames.append(fr)
        keep = self.frames[0]
        try:
            return thunk()
        finally:
            self.frames.pop()

    def apply_modifies(self, st, env, m):
        """'obj.f' (field rebinding / scalar write), 'obj.f[*]' (contents), 'arr[*]', 'arr[*].f' (one field of the records)"""
        if "[*]." in m:
            path, f = m.split("[*].")
            v = self.contract_spec(st, env).ev(parse(path))
            return self.havoc_loc(st, v.loc, f)
        content = m.endswith("[*]")
        path = m[:-3] if content else m
        cond = None
        sp = self.contract_spec(st, env)
        if content:
            if path.endswith("?"):
                path = path[:-1]
            v = sp.ev(parse(path))
            if isinstance(v, NoneV):
                return
            self.havoc_view(st, v)
        else:
            owner, _, f = path.rpartition(".")
            o = sp.ev(parse(owner))
            self.havoc_field(st, o, f)

    # ---------------------------------------------------------------- havoc
    def havoc_view(self, st, v):
        """forget the contents of a view; the callee only writes inside the view (its own bounds obligations)"""
        L = self.locs[v.loc]
        whole = all(s[0] == "r" and is_true(s[1] == 0) and is_true(s[2] == L.shape[k]) for k, s in enumerate(v.sels))
        if whole or L.elt.kind == "struct":
            return self.havoc_loc(st, v.loc, None)
        old = st.heap[v.loc]
        self.havoc_loc(st, v.loc, None)
        new = st.heap[v.loc]
        vs = [z3.Int(f"h{k}!b") for k in range(len(v.sels))]
        ins, a, b = [], new, old
        for x, s in zip(vs, v.sels):
            ins.append(x == s[1] if s[0] == "i" else z3.And(x >= s[1], x < T.add(s[1], s[2])))
            a, b = z3.Select(a, x), z3.Select(b, x)
        st.pc.append(z3.ForAll(vs, z3.Or(z3.And(*ins), a == b), patterns=[a]))

    def havoc_loc(self, st, loc, fld):
        L = self.locs[loc]
        nd = len(L.shape)
        if L.elt.kind == "struct":
            flds = self.prog.struct_fields(L.elt.name)
            for f, ft in flds.items():
                if fld is None or f == fld:
                    st.heap[loc][f] = self.fresh(f"{L.name}.{f}", nested_sort(ft, nd))
                    self.wlog(("loc", loc, f))
        else:
            st.heap[loc] = self.fresh(L.name, nested_sort(L.elt, nd))
            self.wlog(("loc", loc, None))

    def havoc_field(self, st, o, f):
        cur = st.objs[o.oid].get(f)
        fields = self.prog.class_fields(o.cls)
        ft = fields.get(f)
        if ft is None:
            raise Unsupported(f"havoc of unknown field {o.cls}.{f}")
        v = self.sym(st, ft, f"{o.cls}.{f}")
        if (o.cls, f) in T.INF_FIELDS:
            v.inf = self.fresh(f"{f}.inf", z3.IntSort())
            self.assume(st, z3.And(v.inf >= -1, v.inf <= 1))
        st.objs[o.oid][f] = v
        if isinstance(cur, ArrV):       # references to the array held before the rebinding are not used any more
            for env in [st.env] + st.scopes:
                for n, x in list(env.items()):
                    if isinstance(x, (ArrV, SRefV)) and x.loc == cur.loc:
                        env[n] = UndefV()
        self.wlog(("field", o.oid, f))

    def havoc_value(self, st, v, name):
        if isinstance(v, IntV):
            c = self.fresh(name, z3.IntSort())
            if v.ty in INT_RANGES:
                self.assume(st, self.in_range(c, v.ty))
            return IntV(c, v.ty)
        if isinstance(v, RealV):
            r = RealV(self.fresh(name, z3.RealSort()))
            if v.inf is not None:
                r.inf = self.fresh(name + ".inf", z3.IntSort())
            return r
        if isinstance(v, BoolV):
            return BoolV(self.fresh(name, z3.BoolSort()))
        if isinstance(v, MaybeV):
            return MaybeV(self.havoc_value(st, v.v, name), v.cond)
        if isinstance(v, SRefV):
            return SRefV(v.loc, self.fresh(name + ".idx", z3.IntSort()))
        if isinstance(v, ArrV):
            sels = []
            for s in v.sels:
                if s[0] == "i":
                    sels.append(("i", self.fresh(name + ".i", z3.IntSort())))
                else:
                    sels.append(("r", self.fresh(name + ".off", z3.IntSort()), self.fresh(name + ".len", z3.IntSort())))
            return ArrV(v.loc, tuple(sels))
        return UndefV()

    def havoc(self, st, wset):
        for w in sorted(wset, key=str):
            if w[0] == "local":
                if w[1] in st.env:
                    st.env[w[1]] = self.havoc_value(st, st.env[w[1]], w[1])
            elif w[0] == "loc":
                if w[1] in st.heap:
                    L = self.locs[w[1]]
                    self.havoc_loc(st, w[1], w[2])
            elif w[0] == "field":
                if w[1] in st.objs and w[2] in st.objs[w[1]]:
                    cls = None
                    cur = st.objs[w[1]][w[2]]
                    o = self.find_objv(st, w[1])
                    self.havoc_field(st, o, w[2])
            elif w[0] == "ghost":
                if w[1] in st.ghost:
                    st.ghost[w[1]] = self.havoc_ghost(st.ghost[w[1]], w[1])

    def havoc_ghost(self, g, name):
        if isinstance(g, GhostArr):
            return GhostArr(self.fresh(name, g.t.sort()))
        if isinstance(g, IntV):
            return IntV(self.fresh(name, z3.IntSort()), "py")
        if isinstance(g, ArrV):
            return g
        raise Unsupported("ghost kind")

    def find_objv(self, st, oid):
        for env in [st.env] + st.scopes:
            for v in env.values():
                if isinstance(v, ObjV) and v.oid == oid:
                    return v
        for fl in st.objs.values():
            for v in fl.values():
                if isinstance(v, ObjV) and v.oid == oid:
                    return v
        raise Unsupported("object not reachable")

    # ---------------------------------------------------------------- externals
    def call_ext(self, st, name, args, kw, e):
        name = name.replace("numpy.", "np.")
        if name in CMPNAMES:
            fn = CMPNAMES[name]
            v = args[0]
            if fn == "isnan":
                return [(st, BoolV(T.ISNAN(self.real(v).t)))]
            if fn == "floor":
                return [(st, IntV(z3.ToInt(self.real(v).t), "int64"))]
            if fn == "ceil":
                return [(st, IntV(-z3.ToInt(-self.real(v).t), "int64"))]
            r = self.real(v).t
            if fn in ("log", "log2"):
                self.ob(st, "domain", f"{fn} argument positive", r > 0)
            return [(st, RealV({"log": T.LOG, "exp": T.EXP, "log2": T.LOG2, "sqrt": T.SQRT}[fn](r)))]
        if name == "builtins.hasattr" and isinstance(args[0], ArrV) and isinstance(args[1], StrV):
            return [(st, BoolV(z3.BoolVal(args[1].s in ("ndim", "dtype", "shape", "size"))))]
        if name == "builtins.len":
            return [(st, IntV(self.arr_len(args[0]), "int64"))]
        if name in ("builtins.max", "builtins.min") and len(args) == 2:
            a, b = args
            c = self.compare(st, "GtE" if name.endswith("max") else "LtE", a, b).t
            if isinstance(a, IntV) and isinstance(b, IntV):
                return [(st, IntV(z3.If(c, a.t, b.t), self.int_result_ty(a, b)))]
            return [(st, RealV(z3.If(c, self.real(a).t, self.real(b).t)))]
        if name == "builtins.int":
            v = args[0]
            if isinstance(v, IntV):
                return [(st, v)]
            t = self.real(v).t
            return [(st, IntV(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), "py"))]
        if name == "builtins.abs":
            v = args[0]
            return [(st, type(v)(z3.If(v.t >= 0, v.t, -v.t), v.ty) if isinstance(v, IntV) else RealV(z3.If(v.t >= 0, v.t, -v.t)))]
        if name in ("np.zeros", "np.empty", "np.ones", "np.zeros_like", "np.empty_like"):
            if name.endswith("_like"):
                shape = self.arr_shape(args[0])
                elt = self.elt_ty(args[0])
                dt = kw.get("dtype")
            else:
                sh = args[0]
                shape = [x.t for x in sh.items] if isinstance(sh, TupV) else [sh.t]
                dt = kw.get("dtype", args[1] if len(args) > 1 else None)
                elt = Ty("float", "float64")
            if dt is not None:
                elt = self.dt(dt)
            for s in shape:
                self.ob(st, "bounds", "allocation size non-negative", s >= 0)
            a = self.new_loc(st, elt, shape, "new", "zero" if "zeros" in name else "fresh")
            if name == "np.ones":
                self.write_view(st, a, IntV(z3.IntVal(1)), "ones")
            return [(st, a)]
        if name == "np.arange":
            lo = args[0].t if len(args) > 1 else z3.IntVal(0)
            hi = args[1].t if len(args) > 1 else args[0].t
            elt = self.dt(kw["dtype"]) if "dtype" in kw else Ty("int", "int64")
            return self.call_np_arange(st, hi, lo, elt)
        if name == "np.expand_dims":
            v, ax = args[0], kw.get("axis", args[1] if len(args) > 1 else None)
            axv = z3.simplify(ax.t).as_long()
            ety = self.elt_ty(v)
            sh = self.arr_shape(v)
            if len(sh) != 1 or axv not in (0, 1):
                raise Unsupported("expand_dims")
            snap = st.copy()
            one = z3.IntVal(1)
            srt = {"int": "int", "float": "real", "bool": "bool"}[ety.kind]
            if axv == 1:
                return [(st, LazyV((sh[0], one), srt, lambda i, j: self.read_term(snap, v, [i]), ety.name))]
            return [(st, LazyV((one, sh[0]), srt, lambda i, j: self.read_term(snap, v, [j]), ety.name))]
        if name == "np.sort":
            return [(st, self.model_sort(st, args[0]))]
        if name == "np.argsort":
            return [(st, self.model_argsort(st, args[0]))]
        if name in ("np.random.randint",):
            if len(args) != 1:
                raise Unsupported("randint arity")
            self.ob(st, "call-pre", "randint upper bound positive", args[0].t > 0)
            c = self.fresh("rand", z3.IntSort())
            self.assume(st, z3.And(c >= 0, c < args[0].t))
            self.note("numpy.random.randint(n) returns an integer in [0, n)")
            st.ghost["last_randint"] = IntV(c, "py")
            return [(st, IntV(c, "int64"))]
        if name == "np.random.seed":
            return [(st, NoneV())]
        if name == "sklearn.utils.check_random_state":
            self.note("check_random_state returns a generator whose randint(low, high, size) gives size integers in [low, high)")
            st.ghost["rng_seed"] = args[0]
            return [(st, OpaqueV("rng"))]
        if name == "np.bincount" and set(kw) <= {"minlength"} and len(args) == 1 and "minlength" in kw:
            return [(st, self.model_bincount(st, args[0], kw["minlength"].t))]
        if name == "np.isnan" and isinstance(args[0], (ArrV, LazyV)) and len(self.arr_shape(args[0])) == 1:
            a, snap = args[0], st.copy()
            return [(st, LazyV(tuple(self.arr_shape(a)), "bool", lambda i: T.ISNAN(self.read_term(snap, a, [i]))))]
        if name in ("np.ascontiguousarray", "np.asarray") and set(kw) <= {"dtype"} and isinstance(args[0], ArrV) and len(args[0].sels) == 1:
            if "dtype" in kw and self.dt(kw["dtype"]).name != self.elt_ty(args[0]).name:
                raise Unsupported("conversion of the element type")
            return [(st, args[0])]           # possibly the array itself: writes to the result count as writes to the argument
        if name == "np.unique" and not kw and len(args) == 1:
            return [(st, self.model_unique(st, args[0]))]
        if name == "np.linspace" and set(kw) <= {"num"}:
            return [(st, self.model_linspace(st, args[0], args[1], kw["num"] if "num" in kw else args[2]))]
        if name in ("np.percentile",) and set(kw) <= {"method", "q"}:
            return [(st, self.model_percentile(st, args[0], kw["q"] if "q" in kw else args[1]))]
        if name == "np.clip" and isinstance(args[0], ArrV) and self.elt_ty(args[0]).kind == "float" and set(kw) <= {"a_min", "a_max", "out"}:
            lo, hi = (kw.get(x, args[k] if len(args) > k else None) for k, x in ((1, "a_min"), (2, "a_max")))
            a, snap = args[0], st.copy()

            def clip(*i):
                t = self.read_term(snap, a, list(i))
                if lo is not None and not isinstance(lo, NoneV):
                    t = z3.If(t < self.real(lo).t, self.real(lo).t, t)
                if hi is not None and not isinstance(hi, NoneV):
                    t = z3.If(t > self.real(hi).t, self.real(hi).t, t)
                return t
            r = LazyV(tuple(self.arr_shape(a)), "real", clip, self.elt_ty(a).name)
            r.nan = lambda *i: T.ISNAN(self.read_term(snap, a, list(i)))
            if kw.get("out") is None:
                return [(st, r)]
            self.write_view(st, kw["out"], r, "clip")
            return [(st, kw["out"])]
        if name in ("np.minimum", "np.maximum") and len(args) == 2 and not kw and isinstance(args[0], (ArrV, LazyV)) and self.elt_ty(args[0]).kind == "float" \
                and isinstance(args[1], (RealV, IntV)):
            a, snap, o, less = args[0], st.copy(), self.real(args[1]).t, name == "np.minimum"

            def pick(*i):
                t = self.read_term(snap, a, list(i))
                return z3.If(t > o if less else t < o, o, t)
            r = LazyV(tuple(self.arr_shape(a)), "real", pick, self.elt_ty(a).name)
            r.nan = lambda *i: T.ISNAN(self.read_term(snap, a, list(i)))
            return [(st, r)]
        if name == "np.flatnonzero" and len(args) == 1 and self.elt_ty(args[0]).kind == "bool":
            n = self.arr_len(args[0])
            (st, ix), = self.call_np_arange(st, n)
            return [(st, self.model_mask(st, ix, args[0], "flatnonzero"))]
        if name == "np.logical_not" and len(args) == 1 and self.elt_ty(args[0]).kind == "bool":
            a = args[0]
            snap = st.copy()
            return [(st, LazyV(tuple(self.arr_shape(a)), "bool", lambda *i: z3.Not(self.read_term(snap, a, list(i)))))]
        if name in ("np.sort_complex",):
            raise Unsupported(name)
        if name == "np.sum":
            return self.call_arrmeth(st, args[0], "sum", args[1:], kw)
        if name in ("np.maximum", "np.minimum"):
            raise Unsupported(name)
        raise Unsupported(f"external call {name}")

    def dt(self, v):
        if isinstance(v, DtV):
            return v.ty
        if isinstance(v, FunV) and v.kind == "cast":
            return v.ref
        raise Unsupported("dtype argument")

    def call_arrmeth(self, st, a, m, args, kw):
        if m == "fill":
            self.write_view(st, a, args[0], "fill")
            return [(st, NoneV())]
        if m == "copy":
            return [(st, self.materialize(st, a, "copy"))]
        if m == "ravel":
            return [(st, a)]
        if m == "astype" and len(args) == 1 and not kw and len(self.arr_shape(a)) == 1:
            ty = self.dt(args[0])
            if ty.kind != "int" or self.elt_ty(a).kind != "int":
                raise Unsupported("astype")
            b = self.materialize(st, a, "astype", self.elt_ty(a))
            n, k = self.arr_len(b), self.fresh("ak", z3.IntSort())
            if ty.name != self.elt_ty(a).name:
                self.ob(st, "range", f"astype: values fit {ty.name}", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), self.in_range(z3.Select(st.heap[b.loc], k), ty.name))))
            c = self.new_loc(st, ty, [n], "astype")
            st.heap[c.loc] = st.heap[a.loc] if isinstance(a, ArrV) and is_true(a.sels[0][1] == 0) else st.heap[b.loc]
            return [(st, c)]
        if m in ("any", "all") and self.elt_ty(a).kind == "bool" and len(self.arr_shape(a)) == 1 and not args and not kw:
            f = (lambda i: self.read_term(st, a, [i])) if m == "any" else (lambda i: z3.Not(self.read_term(st, a, [i])))
            b = self.any_of(st, self.arr_len(a), f)
            return [(st, BoolV(b if m == "any" else z3.Not(b)))]
        if m == "sum" and self.elt_ty(a).kind == "bool" and len(self.arr_shape(a)) == 1 and not args and not kw:
            return [(st, IntV(self.mask_order(st, a)[2], "int64"))]
        sh = self.arr_shape(a)
        ety = self.elt_ty(a)
        if m == "max" and len(sh) == 2 and set(kw) == {"axis", "initial", "out"} and not args and ety.kind == "int":
            out, ini = kw["out"], kw["initial"].t
            if not (z3.is_int_value(kw["axis"].t) and kw["axis"].t.as_long() == 0):
                raise Unsupported("max axis")
            self.ob(st, "shape", "max: out has one entry per column", self.arr_len(out) == sh[1])
            self.havoc_view(st, out)
            i, j = z3.Ints("i!b j!b")
            r = self.read_term(st, a, [i, j])
            o = self.read_term(st, out, [j])
            w = self.fresh("argmax", T.AI)
            st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < sh[0], j >= 0, j < sh[1]), r <= o), patterns=[r]))
            st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < sh[1]), z3.And(o >= ini, z3.Or(o == ini, z3.And(
                z3.Select(w, j) >= 0, z3.Select(w, j) < sh[0], self.read_term(st, a, [z3.Select(w, j), j]) == o)))), patterns=[o]))
            self.note("numpy.max(axis=0, initial=0, out=...) stores the column maxima")
            return [(st, NoneV())]
        if m == "max" and len(sh) == 1 and set(kw) == {"initial"} and not args and ety.kind == "int":
            c = self.fresh("max", zsort(ety))
            i = z3.Int("i!b")
            r = self.read_term(st, a, [i])
            w = self.fresh("argmax", z3.IntSort())
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < sh[0]), r <= c), patterns=[r]))
            self.assume(st, c >= kw["initial"].t)
            self.assume(st, z3.Or(c == kw["initial"].t, z3.And(w >= 0, w < sh[0], self.read_term(st, a, [w]) == c, self.in_range(c, ety.name))))
            return [(st, self.wrap(c, ety))]
        if m == "max":
            if len(sh) != 1 or args or kw:
                raise Unsupported("max")
            self.ob(st, "call-pre", "max of a non-empty array", sh[0] > 0)
            c = self.fresh("max", zsort(ety))
            i, w = z3.Int("i!b"), self.fresh("argmax", z3.IntSort())
            r = self.read_term(st, a, [i])
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < sh[0]), r <= c), patterns=[r]))
            self.assume(st, z3.And(w >= 0, w < sh[0], self.read_term(st, a, [w]) == c))
            return [(st, self.wrap(c, ety))]
        if m == "sum":
            ax = kw.get("axis", args[0] if args else None)
            axv = z3.simplify(ax.t).as_long() if ax is not None else None
            if len(sh) == 1 and axv in (None, 0):
                aa = a if isinstance(a, ArrV) else self.materialize(st, a, "summand")
                cont, off = Spec(self, st, {}).content(aa)
                if ety.kind == "float":
                    return [(st, RealV(T.RSUM(cont, off, T.add(off, sh[0]))))]
                return [(st, IntV(T.ISUM(cont, off, T.add(off, sh[0])), ety.name))]
            if len(sh) == 2 and ety.kind == "float":
                aa = a if isinstance(a, ArrV) else self.materialize(st, a, "summand")
                cont, off = Spec(self, st, {}).content(aa)
                if axv == 0:
                    return [(st, LazyV((sh[1],), "real", lambda c: T.RSUM2(cont, c, off, T.add(off, sh[0]))))]
                if axv == 1:
                    return [(st, LazyV((sh[0],), "real", lambda r: T.RSUM(z3.Select(cont, T.add(off, r)), z3.IntVal(0), sh[1])))]
        raise Unsupported(f"array method {m}")

    def perm(self, st, n, name):
        """fresh permutation p of [0,n) with inverse q"""
        p, q = self.fresh(name + ".p", T.AI), self.fresh(name + ".q", T.AI)
        k = z3.Int("k!b")
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(
            z3.Select(p, k) >= 0, z3.Select(p, k) < n, z3.Select(q, z3.Select(p, k)) == k)), patterns=[z3.Select(p, k)]))
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(
            z3.Select(q, k) >= 0, z3.Select(q, k) < n, z3.Select(p, z3.Select(q, k)) == k)), patterns=[z3.Select(q, k)]))
        return p, q

    def call_oracle(self, st, f, args, kw):
        """a function given as an argument: an arbitrary new result of the declared type, recorded for the contract"""
        orc = {**(self.root.contract.oracles or {}), **(self.root.variant or {}).get("oracles", {})}
        if kw or f.kind not in orc:
            raise Unsupported(f"call of {f.kind}")
        ty, fact = orc[f.kind]
        n = f"n_{f.kind}"
        st.ghost[n] = IntV(z3.simplify(st.ghost[n].t + 1) if n in st.ghost else z3.IntVal(1), "py")
        res = self.sym(st, ty, "ret." + f.kind)
        for k, v in enumerate(args):
            st.ghost[f"arg_{f.kind}_{k}"] = v
        st.ghost["ret_" + f.kind] = res
        sp = Spec(self, st, self.root.entry_env, extra={"result": res})
        self.assume(st, sp.formula(fact))
        return [(st, res)]

    def call_np_arange(self, st, hi, lo=z3.IntVal(0), elt=Ty("int", "int64")):
        n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        a = self.new_loc(st, elt, [n], "arange")
        i = z3.Int("i!b")
        c = st.heap[a.loc]
        st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(c, i) == lo + i), patterns=[z3.Select(c, i)]))
        return [(st, a)]

    def st_With(self, st, s):
        outs = [st]
        if len(s.items) != 1 or s.items[0].optional_vars is not None:
            raise Unsupported("with statement")
        for x, v in self.ev(st, s.items[0].context_expr):
            if not (isinstance(v, OpaqueV) and v.kind == "lock"):
                raise Unsupported("with statement on something that is not the lock")
            self.held += 1
            try:
                return self.block([x], s.body)
            finally:
                self.held -= 1

    def wlog(self, item):
        super().wlog(item)
        if item[0] == "loc" and item[1] in self.guarded and not self.held:
            self.unguarded.append(self.line)

    held, guarded, unguarded = 0, (), ()

    def call_opaque(self, st, o, m, args, kw):
        if o.kind == "rng":
            if set(kw) <= {"size", "low", "high"}:
                args = args + [kw[x] for x in ("low", "high", "size")[len(args):] if x in kw]
            if m != "randint" or len(args) != 3 or not all(isinstance(x, IntV) for x in args):
                raise Unsupported(f"generator method {m}")
            for k, x in enumerate(args):
                st.ghost[f"rng_randint_{k}"] = x
            lo, hi, n = (x.t for x in args)
            self.ob(st, "call-pre", "randint range not empty", lo < hi)
            self.ob(st, "call-pre", "randint size non-negative", n >= 0)
            r = self.new_loc(st, Ty("int", "int64"), [n], "randint")
            i = z3.Int("i!b")
            c = z3.Select(st.heap[r.loc], i)
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(c >= lo, c < hi)), patterns=[c]))
            return [(st, r)]
        if kw:
            raise Unsupported(f"keyword arguments of {o.kind}.{m}")
        # the call is recorded: the contract speaks of its arguments (arrays as they are at the call)
        st.ghost[f"n_{o.kind}_{m}"] = IntV(z3.simplify(st.ghost[f"n_{o.kind}_{m}"].t + 1) if f"n_{o.kind}_{m}" in st.ghost else z3.IntVal(1), "py")
        for k, v in enumerate(args):
            if isinstance(v, (ArrV, LazyV, FancyV)):
                v = self.materialize(st, v, f"{m}{k}")
            st.ghost[f"{o.kind}_{m}_{k}"] = v
        self.note(f"{o.kind}.{m}(...) does not modify its arguments")
        return [(st, OpaqueV(f"{o.kind}.{m}"))]

    def model_bincount(self, st, a, n):
        """numpy.bincount(a, minlength=n) of integers in [0, n): occurrences of each value"""
        self.note("numpy.bincount counts the occurrences of each value")
        a = a if isinstance(a, ArrV) else self.materialize(st, a, "bincount.arg")
        m = self.arr_len(a)
        k = self.fresh("bk", z3.IntSort())
        v = self.read_term(st, a, [k])
        self.ob(st, "call-pre", "bincount: values in [0, minlength)", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(v >= 0, v < n))))
        r = self.new_loc(st, Ty("int", "int64"), [n], "bincount")
        i = z3.Int("i!b")
        c = z3.Select(st.heap[r.loc], i)
        cont, off = Spec(self, st, {}).content(a)
        st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), c == T.OCC(cont, i, off, T.add(off, m))), patterns=[c]))
        w = self.fresh("first", T.AI)
        st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(c >= 0, c <= m, z3.Implies(c > 0, z3.And(
            z3.Select(w, i) >= 0, z3.Select(w, i) < m, self.read_term(st, a, [z3.Select(w, i)]) == i)))), patterns=[c]))
        st.pc.append(T.ISUM(st.heap[r.loc], z3.IntVal(0), n) == m)
        return r

    def no_nan(self, st, a, what):
        if self.nan_aware:
            k = self.fresh("nk", z3.IntSort())
            self.ob(st, "call-pre", f"{what}: no NaN", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.arr_len(a)), z3.Not(T.ISNAN(self.read_term(st, a, [k]))))))

    def model_unique(self, st, a):
        self.note("numpy.unique returns the distinct values, increasing")
        self.no_nan(st, a, "unique")
        n, m = self.arr_len(a), self.fresh("n_unique", z3.IntSort())
        self.assume(st, z3.And(m >= 0, m <= n, z3.Implies(n > 0, m > 0)))
        r = self.new_loc(st, self.elt_ty(a), [m], "unique")
        c, k, l = st.heap[r.loc], *z3.Ints("k!b l!b")
        p, q = self.fresh("uniq.p", T.AI), self.fresh("uniq.q", T.AI)
        src = lambda i: self.read_term(st, a, [i])
        nan = lambda t: z3.Not(T.ISNAN(t)) if self.nan_aware else z3.BoolVal(True)
        st.pc += [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(z3.Select(p, k) >= 0, z3.Select(p, k) < n, z3.Select(c, k) == src(z3.Select(p, k)),
                                                                         nan(z3.Select(c, k)))), patterns=[z3.Select(c, k)]),
                  z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(z3.Select(q, k) >= 0, z3.Select(q, k) < m, z3.Select(c, z3.Select(q, k)) == src(k))), patterns=[src(k)]),
                  z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < m), z3.Select(c, k) < z3.Select(c, l)), patterns=[z3.MultiPattern(z3.Select(c, k), z3.Select(c, l))])]
        st.ghost["n_unique"], st.ghost["unique_at"] = IntV(m, "py"), GhostArr(q)
        if isinstance(a, ArrV):
            st.ghost["unique_in"] = a
        return r

    def model_linspace(self, st, lo, hi, num):
        self.note("numpy.linspace(a, b, n): n evenly spaced values from a to b")
        lo, hi, n = self.real(lo).t, self.real(hi).t, num.t
        self.ob(st, "call-pre", "linspace: at least two values", n >= 2)
        r = self.new_loc(st, Ty("float", "float64"), [n], "linspace")
        k, l = z3.Ints("k!b l!b")
        c = lambda i: z3.Select(st.heap[r.loc], i)
        st.pc += [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(c(k) >= lo, c(k) <= hi, c(k) == lo + (hi - lo) * z3.ToReal(k) / z3.ToReal(n - 1))), patterns=[c(k)]),
                  z3.Implies(lo <= hi, z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k <= l, l < n), c(k) <= c(l)), patterns=[z3.MultiPattern(c(k), c(l))]))]
        self.ob(st, "call-pre", "linspace: increasing range", lo <= hi)
        return r

    def model_percentile(self, st, a, q):
        self.note("numpy.percentile: each percentile lies between two entries of the data and grows with its argument")
        self.no_nan(st, a, "percentile")
        n, m = self.arr_len(a), self.arr_len(q)
        k, l = z3.Ints("k!b l!b")
        qv = lambda i: self.read_term(st, q, [i])
        self.ob(st, "call-pre", "percentile of non-empty data", n > 0)
        x = self.fresh("pk", z3.IntSort())
        self.ob(st, "call-pre", "percentiles in [0, 100]", z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < m), z3.And(qv(x) >= 0, qv(x) <= 100))))
        r = self.new_loc(st, Ty("float", "float64"), [m], "percentile")
        lo, hi = self.fresh("pct.lo", T.AI), self.fresh("pct.hi", T.AI)
        c = lambda i: z3.Select(st.heap[r.loc], i)
        s = lambda p, i: z3.Select(p, i)
        st.pc += [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(
            s(lo, k) >= 0, s(lo, k) < n, s(hi, k) >= 0, s(hi, k) < n, self.read_term(st, a, [s(lo, k)]) <= c(k), c(k) <= self.read_term(st, a, [s(hi, k)]),
            z3.Not(T.ISNAN(c(k))) if self.nan_aware else True)), patterns=[c(k)]),
            z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < m, l >= 0, l < m, qv(k) <= qv(l)), c(k) <= c(l)), patterns=[z3.MultiPattern(c(k), c(l))])]
        return r

    def mask_order(self, st, mask):
        """positions of the true entries of a boolean array, in order: (pos, rank, number)"""
        if not isinstance(mask, ArrV):
            mask = self.materialize(st, mask, "mask")
        if len(mask.sels) != 1:
            raise Unsupported("mask of a view")
        n = self.arr_len(mask)
        key = (str(st.heap[mask.loc].get_id()), str(z3.simplify(mask.sels[0][1])))
        cache = self.__dict__.setdefault("maskcache", {})
        if key in cache:
            return cache[key]
        self.note("a[mask] keeps the entries where the mask holds, in order; mask.sum() is their number")
        p, q, m = self.fresh("mpos", T.AI), self.fresh("mrank", T.AI), self.fresh("mcount", z3.IntSort())
        k, l = z3.Ints("k!b l!b")
        pk, ql = z3.Select(p, k), z3.Select(q, k)
        t = lambda i: self.read_term(st, mask, [i])
        facts = [m >= 0, m <= n,
                 z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(pk >= 0, pk < n, t(pk), z3.Select(q, pk) == k)), patterns=[pk]),
                 z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n, t(k)), z3.And(ql >= 0, ql < m, z3.Select(p, ql) == k)), patterns=[t(k)] if not is_true(t(k)) else []),
                 z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < m), z3.Select(p, k) < z3.Select(p, l)), patterns=[z3.MultiPattern(z3.Select(p, k), z3.Select(p, l))])]
        # the number of true entries as a sum of 0/1 entries; two masks of which exactly one holds everywhere
        z, one = self.fresh("m01", T.AI), self.fresh("ones", T.AI)
        facts += [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(z, k) == z3.If(t(k), 1, 0)), patterns=[z3.Select(z, k)]),
                  z3.ForAll([k], z3.Select(one, k) == 1, patterns=[z3.Select(one, k)]),
                  T.RAW["L_card_ISUM"](one, z3.IntVal(0), m), T.RAW["L_select_ISUM"](one, z, p, m, n)]
        for o in cache.values():
            if o[3].eq(n):
                facts += o[5] + [T.RAW["L_compl_ISUM"](z, o[4], z3.IntVal(0), n)]
        cache[key] = (p, q, m, n, z, facts)
        st.pc += facts
        return cache[key]

    def model_mask(self, st, a, mask, text):
        mask = mask if isinstance(mask, ArrV) else self.materialize(st, mask, "mask")
        self.ob(st, "shape", f"mask of {text} has the length of the array", self.arr_len(a) == self.arr_len(mask))
        if len(self.arr_shape(a)) != 1:
            raise Unsupported("mask of a matrix")
        p, q, m, _, _, facts = self.mask_order(st, mask)
        have = {f.get_id() for f in st.pc}
        st.pc += [f for f in facts if f.get_id() not in have]
        ety = self.elt_ty(a)
        r = self.new_loc(st, ety, [m], "selected")
        k = z3.Int("k!b")
        c = z3.Select(st.heap[r.loc], k)
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), c == self.read_term(st, a, [z3.Select(p, k)])), patterns=[c]))
        sel, n = self.read_term(st, a, [k]), self.arr_len(a)
        if isinstance(a, ArrV) and ety.kind == "float":      # (same fact, oriented from the source)
            qk = z3.Select(q, k)
            st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n, self.read_term(st, mask, [k])), z3.And(qk >= 0, qk < m, z3.Select(st.heap[r.loc], qk) == sel)), patterns=[sel]))
        if ety.kind == "int" and isinstance(a, ArrV):
            cont, off = Spec(self, st, {}).content(a)
            if is_true(off == 0):
                b = self.fresh("masked", T.AI)
                st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(b, k) == z3.If(self.read_term(st, mask, [k]), z3.Select(cont, k), 0)), patterns=[z3.Select(b, k)]))
                st.pc += [T.RAW["L_select_ISUM"](st.heap[r.loc], b, p, m, n), T.RAW["L_le_ISUM"](b, cont, z3.IntVal(0), n), T.RAW["L_le_ISUM"](cont, b, z3.IntVal(0), n)]
        return r

    def model_sort(self, st, a):
        self.note("numpy.sort returns the sorted rearrangement of its argument")
        n = self.arr_len(a)
        ety = self.elt_ty(a)
        r = self.new_loc(st, ety, [n], "sorted")
        c = st.heap[r.loc]
        p, q = self.perm(st, n, "sort")
        k, l = z3.Ints("k!b l!b")
        src = lambda i: self.read_term(st, a, [i])
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(c, k) == src(z3.Select(p, k))),
                               patterns=[z3.Select(c, k)]))
        self.sortloc.add(r.loc)
        sk = src(k)
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(z3.Select(q, k) >= 0, z3.Select(q, k) < n,
                               z3.Select(c, z3.Select(q, k)) == sk)), patterns=[sk]))
        st.pc.append(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < n), z3.Select(c, k) <= z3.Select(c, l)),
                               patterns=[z3.MultiPattern(z3.Select(c, k), z3.Select(c, l))]))
        return r

    def model_argsort(self, st, a):
        self.note("numpy.argsort returns a permutation that sorts its argument")
        n = self.arr_len(a)
        r = self.new_loc(st, Ty("int", "int64"), [n], "argsort")
        p, q = self.perm(st, n, "argsort")
        st.heap[r.loc] = p
        self.perminv[r.loc] = (p, q)
        k, l = z3.Ints("k!b l!b")
        if isinstance(a, (LazyV, FancyV)):
            a = self.materialize(st, a, "keys")
        v = lambda i: self.read_term(st, a, [z3.Select(p, i)])
        st.pc.append(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < n), v(k) <= v(l)),
                               patterns=[z3.MultiPattern(z3.Select(p, k), z3.Select(p, l))]))
        return r

    # ================================================================ statements
    @staticmethod
    def lock_idiom(stmts):
        """l.acquire(); try: ... finally: l.release()  is  with l: ..."""
        out, k = [], 0
        while k < len(stmts):
            a, b = stmts[k], stmts[k + 1] if k + 1 < len(stmts) else None
            if isinstance(b, ast.Try) and not b.handlers and not b.orelse and len(b.finalbody) == 1 and isinstance(a, ast.Expr):
                t = ast.unparse(a)
                if t.endswith(".acquire()") and ast.unparse(b.finalbody[0]) == t[:-len("acquire()")] + "release()":
                    out.append(ast.copy_location(ast.With([ast.withitem(a.value.func.value, None)], b.body), b))
                    k += 2
                    continue
            out.append(a)
            k += 1
        return out

    def block(self, states, stmts):
        if any(isinstance(x, ast.Try) for x in stmts):
            stmts = self.lock_idiom(stmts)
        for s in stmts:
            nxt = []
            states = self.joined(states, s)
            for st in states:
                if st.flow[0] != "normal":
                    nxt.append(st)
                    continue
                self.line = s.lineno
                try:
                    nxt += self.stmt(st, s)
                except Dead:
                    pass
            states = nxt
        return states

    def joined(self, states, s):
        """merge the paths arriving at s, if the contract says so: the join statements are proved on each path, the merged
        state keeps what the paths have in common and assumes the join statements"""
        con = self.fr.contract
        if con is None or self.fr is not self.root:
            return states
        what = None
        if isinstance(s, (ast.For, ast.While)):
            what = self.loop_hint(s)[1].join
        elif con.join and isinstance(s, (ast.Expr, ast.Assign)):
            for c in ast.walk(s):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in con.join:
                    what = con.join[c.func.id]
        norm_ = [st for st in states if st.flow[0] == "normal"]
        if what is None or not norm_:
            return states
        self.line = s.lineno
        forms = []
        for st in norm_:
            for item in what:
                self.hint(st, item)
        if len(norm_) == 1:
            return states
        m = self.merge(norm_)
        old = self.root.entry
        sp = Spec(self, m, m.env, old=old, oldenv=self.root.entry_env, pre=old, preenv=self.root.entry_env)
        for item in what:
            if isinstance(item, tuple) and item[0] == "assert":
                self.assume(m, sp.formula(item[1]))
        return [m] + [st for st in states if st.flow[0] != "normal"]

    def merge(self, sts):
        m = sts[0].copy()
        n = 0
        while all(n < len(s.pc) for s in sts) and all(s.pc[n] is sts[0].pc[n] or z3.eq(s.pc[n], sts[0].pc[n]) for s in sts[1:]):
            n += 1
        m.pc = list(sts[0].pc[:n])
        rest = sts[1:]
        for loc in list(m.heap):
            if any(loc not in s.heap for s in rest):
                del m.heap[loc]
        for oid in list(m.objs):
            if any(oid not in s.objs for s in rest):
                del m.objs[oid]

        def refs_ok(v):
            if isinstance(v, MaybeV):
                return refs_ok(v.v)
            if isinstance(v, (ArrV, SRefV)):
                return v.loc in m.heap
            if isinstance(v, ObjV):
                return v.oid in m.objs
            return not isinstance(v, (LazyV, FancyV, TupV))
        for x, v in list(m.env.items()):
            vs = [s.env.get(x) for s in rest]
            if all(w is v for w in vs) or all(same_value(v, w) for w in vs):
                if not (refs_ok(v) or isinstance(v, (LazyV, FancyV, TupV))):
                    m.env[x] = UndefV()
            elif any(w is None or type(w) is not type(v) or isinstance(w, (UndefV, MaybeV, ObjV)) or (isinstance(v, IntV) and w.ty != v.ty)
                     or (isinstance(v, (ArrV, SRefV)) and w.loc != v.loc) for w in vs) or not refs_ok(v):
                m.env[x] = UndefV()
            else:
                m.env[x] = self.havoc_value(m, v, x)
        for loc in list(m.heap):
            h, hs = m.heap[loc], [s.heap[loc] for s in rest]
            if isinstance(h, dict):
                for f in list(h):
                    if any(not z3.eq(h[f], w[f]) for w in hs):
                        self.havoc_loc(m, loc, f)
            elif any(not z3.eq(h, w) for w in hs):
                self.havoc_loc(m, loc, None)
        for oid in list(m.objs):
            for f, v in list(m.objs[oid].items()):
                if any(f not in s.objs[oid] for s in rest):
                    del m.objs[oid][f]
                elif not all(s.objs[oid][f] is v or same_value(v, s.objs[oid][f]) for s in rest) or not (refs_ok(v) or isinstance(v, TupV)):
                    self.havoc_field(m, self.find_objv(m, oid), f)
        for g, v in list(m.ghost.items()):
            if any(g not in s.ghost for s in rest):
                del m.ghost[g]
            elif not all(s.ghost[g] is v or same_value(v, s.ghost[g]) for s in rest):
                m.ghost[g] = self.havoc_ghost(v, g)
        return m

    def stmt(self, st, s):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(st, s)

    def st_Expr(self, st, s):
        if isinstance(s.value, ast.Constant):
            return [st]
        outs = [x for x, _ in self.ev(st, s.value)]
        if isinstance(s.value, ast.Call):
            for o in outs:
                self.after_call(o, s.value)
        return outs

    def after_call(self, st, call):
        con = self.fr.contract
        if con is None or self.fr is not self.root:
            return
        nm = call.func.id if isinstance(call.func, ast.Name) else getattr(call.func, "attr", "")
        for item in con.after.get(nm, ()):
            self.hint(st, item)

    def hint(self, st, item):
        """facts (definitional / proved lemma instances), ghost updates, cuts; ("clf"|"reg", item): for one kind of tree"""
        if isinstance(item, tuple) and item[0] in ("clf", "reg"):
            if kind_of(self.root.entry_env) == item[0]:
                self.hint(st, item[1])
            return
        old = self.root.entry
        sp = Spec(self, st, st.env, old=old, oldenv=self.root.entry_env, pre=getattr(st, "pre", None) or old, preenv=self.root.entry_env)
        if isinstance(item, tuple) and item[0] == "ghost":
            _, name, idx, val = item
            g = st.ghost[name]
            st.ghost[name] = GhostArr(z3.Store(g.t, sp.ev(parse(idx)).t, sp.rawarg(sp.ev(parse(val)))))
            self.wlog(("ghost", name))
            return
        if isinstance(item, tuple) and item[0] == "save":        # a ghost copy of an array
            st.ghost[item[1]] = GhostArr(sp.rawarg(sp.ev(parse(item[2]))))
            self.wlog(("ghost", item[1]))
            return
        if isinstance(item, tuple) and item[0] == "comp":        # row idx of a ghost table := the set {var | expr} (1 = member)
            _, name, idx, var, expr = item
            g = st.ghost[name]
            h = st.ghost["H_"] = GhostArr(self.fresh("set", T.AI))
            self.assume(st, sp.formula(f"all(trig(iff(H_[{var}] == 1, {expr}), H_[{var}]) for {var} in Int)"))
            del st.ghost["H_"]
            st.ghost[name] = GhostArr(z3.Store(g.t, sp.ev(parse(idx)).t, h.t))
            self.wlog(("ghost", name))
            return
        if isinstance(item, tuple) and item[0] == "probe":       # debugging aid: must NOT be provable
            self.ob(st, "probe", f"line {self.line}", z3.BoolVal(False))
            return
        if isinstance(item, tuple) and item[0] == "assert":
            f = sp.formula(item[1])
            self.ob(st, "cut", norm(item[1]), f)
            self.assume(st, f)
            return
        self.assume(st, self.fact(sp, item))

    def fact(self, sp, text):
        """facts may only be: unfold(...) of a definition, an instance of a registered lemma
        (L_...), or a universally quantified / guarded combination of those."""
        e = parse(text)
        self.check_fact(e, text)
        return sp.formula(e)

    def check_fact(self, e, text):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            n = e.func.id
            if n in ("unfold", "xbdef", "typed", "nodeat", "recat", "binat") or n.startswith("L_") or n in T.DEFN or n == "expadd":
                return
            if n == "all":
                return self.check_fact(e.args[0].elt, text)
            if n == "implies":
                return self.check_fact(e.args[1], text)
            if n == "trig":
                return self.check_fact(e.args[0], text)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
            for v in e.values:
                self.check_fact(v, text)
            return
        raise Unsupported(f"hint is not a definitional or lemma instance: {text}")

    def st_Pass(self, st, s):
        return [st]

    def st_Assert(self, st, s):
        outs = []
        for x, v in self.ev(st, s.test):
            t = self.truth(v)
            self.ob(x, "assert", norm(ast.unparse(s.test)), t)
            self.assume(x, t)
            outs.append(x)
        return outs

    def st_Return(self, st, s):
        if s.value is None:
            st.flow = ("return", NoneV())
            return [st]
        outs = []
        for x, v in self.ev(st, s.value):
            x.flow = ("return", v)
            outs.append(x)
        return outs

    def st_Raise(self, st, s):
        st.flow = ("raise", s)
        con = self.root.contract
        if con.raises is None:
            self.ob(st, "no-raise", norm(ast.unparse(s)), z3.BoolVal(False))
        return [st]

    def st_Break(self, st, s):
        st.flow = ("break",)
        return [st]

    def st_Continue(self, st, s):
        st.flow = ("continue",)
        return [st]

    def st_If(self, st, s):
        outs = []
        for x, v in self.ev(st, s.test):
            t = self.truth(v)
            ts = z3.simplify(t)
            if not z3.is_false(ts):
                a = x.copy() if not z3.is_true(ts) else x
                if not z3.is_true(ts):
                    a.pc.append(t)
                outs += self.block([a], s.body)
            if not z3.is_true(ts):
                b = x
                if z3.is_false(ts):
                    b = x
                else:
                    b = x.copy()
                    b.pc.append(z3.Not(t))
                outs += self.block([b], s.orelse)
        return outs

    def set_local(self, st, name, v):
        ty = self.fr.ltypes.get(name)
        if ty is not None and ty.kind != "struct":
            if not (ty.kind in ("arr", "obj") and isinstance(v, (NoneV,))):
                if ty.kind == "arr" and isinstance(v, (LazyV, FancyV)):
                    v = self.materialize(st, v, name)
                v = self.coerce(st, v, ty, f"local {name}")
        elif isinstance(v, (LazyV,)) :
            v = self.materialize(st, v, name)
        elif isinstance(v, FancyV):
            v = self.materialize(st, v, name)
        elif isinstance(v, IntV) and isinstance(st.env.get(name), IntV) and st.env[name].ty != v.ty and v.ty != "py":
            old = st.env[name].ty
            if old in INT_RANGES:
                # numba unifies the types of all assignments to a local
                if old.startswith("u") != v.ty.startswith("u"):
                    v = IntV(v.t, "int64")
        elif isinstance(v, IntV) and isinstance(st.env.get(name), RealV):
            v = self.real(v)
        st.env[name] = v
        self.wlog(("local", name))

    def assign(self, st, tgt, v, text):
        if isinstance(tgt, ast.Name):
            self.set_local(st, tgt.id, v)
            return [st]
        if isinstance(tgt, (ast.Tuple, ast.List)):
            if not isinstance(v, TupV) or len(v.items) != len(tgt.elts):
                raise Unsupported("unpacking")
            sts = [st]
            for t, x in zip(tgt.elts, v.items):
                sts = [s2 for s in sts for s2 in self.assign(s, t, x, text)]
            return sts
        if isinstance(tgt, ast.Attribute):
            outs = []
            for s, o in self.ev(st, tgt.value):
                if not isinstance(o, ObjV):
                    raise Unsupported("attribute store")
                ft = self.prog.class_fields(o.cls).get(tgt.attr)
                if ft is None:
                    raise Unsupported(f"unknown field {o.cls}.{tgt.attr}")
                if isinstance(v, (LazyV, FancyV)):
                    v = self.materialize(s, v, tgt.attr)
                v2 = self.coerce(s, v, ft, f"field {tgt.attr}")
                if isinstance(v2, RealV) and v2.inf is not None and (o.cls, tgt.attr) not in T.INF_FIELDS:
                    v2 = RealV(v2.t)
                if isinstance(v2, RealV) and v2.inf is None and (o.cls, tgt.attr) in T.INF_FIELDS:
                    v2 = RealV(v2.t, z3.IntVal(0))
                s.objs[o.oid][tgt.attr] = v2
                self.wlog(("field", o.oid, tgt.attr))
                outs.append(s)
            return outs
        if isinstance(tgt, ast.Subscript):
            outs = []
            for s, a in self.ev(st, tgt.value):
                for s2, idx in self.ev_index(s, tgt.slice):
                    self.store(s2, a, idx, v, ast.unparse(tgt)[:50])
                    outs.append(s2)
            return outs
        raise Unsupported("assignment target")

    def store(self, st, a, idx, v, text):
        if isinstance(a, SRefV):
            f = idx[0].s
            L = self.locs[a.loc]
            ft = self.prog.struct_fields(L.elt.name).get(f)
            if ft is None:
                raise Unsupported(f"unknown record field {f}")
            if ft.kind == "int" and isinstance(v, IntV) and z3.is_int_value(z3.simplify(v.t)) \
                    and z3.simplify(v.t).as_long() < 0 and ft.name.startswith("u"):
                v = IntV(z3.IntVal(z3.simplify(v.t).as_long() + 2**64), ft.name)   # numba wraps constants
            elif ft.kind == "int" and ft.name.startswith("u") and isinstance(v, IntV) and f in T.WRAP_FIELDS:
                v = IntV(z3.If(v.t < 0, v.t + 2**64, v.t), ft.name)
            c = self.coerce(st, v, ft, f"record field {f}")
            st.heap[a.loc][f] = z3.Store(st.heap[a.loc][f], a.idx, c.t)
            self.wlog(("loc", a.loc, f))
            return
        if not isinstance(a, ArrV):
            raise Unsupported(f"store into {type(a).__name__}")
        if any(isinstance(i, (ArrV, LazyV, FancyV)) for i in idx):
            cur = self.index_value(st, a, idx, loc_text=text)
            if len(idx) != 1 or not isinstance(cur, FancyV) or not isinstance(v, (ArrV, LazyV, FancyV)):
                raise Unsupported("fancy store")
            self.store_fancy(st, a, cur.idx, v, text)
            return
        loc = self.locs[a.loc]
        view = self.index_view(st, a, idx, text)
        if isinstance(view, tuple):
            if loc.elt.kind == "struct":
                raise Unsupported("whole-record store")
            c = self.coerce(st, v, loc.elt, text)
            self.store_term(st, a.loc, None, list(view), c.t)
        else:
            self.write_view(st, view, v, text)

    def store_fancy(self, st, a, ix, v, text):
        """a[ix] = v for duplicate-free integer indices ix (already bounds-checked)"""
        loc = self.locs[a.loc]
        if len(a.sels) != 1 or loc.elt.kind not in ("float", "int") or not is_true(a.sels[0][1] == 0):
            raise Unsupported("fancy store")
        ix = ix if isinstance(ix, ArrV) else self.materialize(st, ix, "indices")
        v = self.materialize(st, v, "values", loc.elt)
        m = self.arr_len(ix)
        p, q = self.fresh("p", z3.IntSort()), self.fresh("q", z3.IntSort())
        self.ob(st, "shape", f"fancy store {text}: lengths match", m == self.arr_len(v))
        self.ob(st, "call-pre", f"fancy store {text}: indices are distinct", z3.ForAll([p, q], z3.Implies(
            z3.And(p >= 0, p < q, q < m), self.read_term(st, ix, [p]) != self.read_term(st, ix, [q]))))
        old = st.heap[a.loc]
        F = self.fresh(loc.name, old.sort())
        w = self.fresh("at", T.AI)
        k = z3.Int("k!b")
        i = self.read_term(st, ix, [k])
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.Select(F, i) == self.read_term(st, v, [k])), patterns=[i]))
        wk = z3.Select(w, k)
        st.pc.append(z3.ForAll([k], z3.Or(z3.Select(F, k) == z3.Select(old, k), z3.And(wk >= 0, wk < m, self.read_term(st, ix, [wk]) == k)), patterns=[z3.Select(F, k)]))
        st.heap[a.loc] = F
        self.wlog(("loc", a.loc, None))

    def index_view(self, st, a, idx, text):
        sels, k, new = list(a.sels), 0, []
        for s in sels:
            if s[0] == "i" or k >= len(idx):
                new.append(s)
                continue
            ix = idx[k]
            k += 1
            if isinstance(ix, tuple):
                n = s[2]
                lo = ix[1].t if ix[1] is not None else z3.IntVal(0)
                hi = ix[2].t if ix[2] is not None else n
                hs = z3.simplify(hi)
                if z3.is_int_value(hs) and hs.as_long() < 0:
                    hi = n + hs
                if ix[1] is not None or ix[2] is not None:
                    self.ob(st, "bounds", f"slice store {text}", z3.And(lo >= 0, lo <= hi, hi <= n))
                new.append(("r", T.add(s[1], lo), T.sub(hi, lo)))
            else:
                if not isinstance(ix, IntV):
                    raise Unsupported("index kind in store")
                self.ob(st, "bounds", f"store {text}", z3.And(ix.t >= 0, ix.t < s[2]))
                new.append(("i", T.add(s[1], ix.t)))
        if all(s[0] == "i" for s in new):
            return tuple(s[1] for s in new)
        return ArrV(a.loc, tuple(new))

    def st_Assign(self, st, s):
        outs = []
        for x, v in self.ev(st, s.value):
            if isinstance(v, LazyV) and v.sort == "bool" and any(isinstance(t, ast.Name) for t in s.targets):
                v = self.materialize(x, v, "mask")
            sts = [x]
            for t in s.targets:
                sts = [y2 for y in sts for y2 in self.assign(y, t, v, "")]
            outs += sts
        if isinstance(s.value, ast.Call):
            for o in outs:
                self.after_call(o, s.value)
        return outs

    def st_AnnAssign(self, st, s):
        if s.value is None:
            return [st]
        return [y for x, v in self.ev(st, s.value) for y in self.assign(x, s.target, v, "")]

    def st_AugAssign(self, st, s):
        op = type(s.op).__name__
        outs = []
        if isinstance(s.target, ast.Name):
            for x, cur in self.ev(st, s.target):
                for y, v in self.ev(x, s.value):
                    if isinstance(cur, ArrV):
                        r = self.binop(y, op, cur, v)
                        self.write_view(y, cur, r, ast.unparse(s.target))
                        outs.append(y)
                    else:
                        r = self.binop(y, op, cur, v)
                        outs += self.assign(y, s.target, r, "")
            return outs
        if isinstance(s.target, ast.Attribute):
            for x, o in self.ev(st, s.target.value):
                cur = self.get_attr(x, o, s.target.attr)
                for y, v in self.ev(x, s.value):
                    if isinstance(cur, ArrV):
                        self.write_view(y, cur, self.binop(y, op, cur, v), "")
                        outs.append(y)
                    else:
                        outs += self.assign(y, s.target, self.binop(y, op, cur, v), "")
            return outs
        if isinstance(s.target, ast.Subscript):
            for x, a in self.ev(st, s.target.value):
                for y, idx in self.ev_index(x, s.target.slice):
                    for z, v in self.ev(y, s.value):
                        cur = self.index_value(z, a, idx, loc_text=ast.unparse(s.target)[:50])
                        if isinstance(cur, FancyV):
                            self.store_fancy(z, a, cur.idx, self.binop(z, op, self.materialize(z, cur, "gather"), v), ast.unparse(s.target)[:50])
                            outs.append(z)
                            continue
                        r = self.binop(z, op, cur, v)
                        if isinstance(cur, ArrV):
                            self.write_view(z, cur, r, "")
                        else:
                            self.store(z, a, idx, r, ast.unparse(s.target)[:50])
                        outs.append(z)
            return outs
        raise Unsupported("augmented target")

    # ================================================================ loops
    def loop_hint(self, node):
        con = self.fr.contract
        no = self.fr.loopmap[id(node)]
        if con is not None and no in con.loops:
            return no, con.loops[no]
        # loop of an inlined helper: take the root contract's next unused hint, if any
        return no, Loop()

    def iter_desc(self, st, it):
        """-> (n, elem(st,k) -> value)"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" \
                and "range" not in st.env:
            s, args = self.evs(st, it.args)[0]
            lo = args[0].t if len(args) > 1 else z3.IntVal(0)
            hi = args[1].t if len(args) > 1 else args[0].t
            tys = {a.ty for a in args if isinstance(a, IntV) and not z3.is_int_value(a.t)}
            ty = "py" if "py" in tys else ("uint64" if tys == {"uint64"} else "int64")
            step = 1
            if len(args) > 2:
                step = z3.simplify(args[2].t)
                if not z3.is_int_value(step) or step.as_long() not in (1, -1):
                    raise Unsupported("range step")
                step = step.as_long()
                ty = "int64" if ty == "uint64" else ty
            if step == 1:
                n = z3.If(hi > lo, T.sub(hi, lo), z3.IntVal(0))
                return s, n, lambda q, k: IntV(T.add(lo, k), ty)
            n = z3.If(lo > hi, T.sub(lo, hi), z3.IntVal(0))
            return s, n, lambda q, k: IntV(T.sub(lo, k), ty)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate":
            s, n, el = self.iter_desc(st, it.args[0])
            start = z3.IntVal(0)
            if len(it.args) > 1:
                s, v = self.ev1(s, it.args[1])
                start = v.t
            return s, n, lambda q, k: TupV([IntV(T.add(start, k), "int64"), el(q, k)])
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip":
            s, ns, els = st, [], []
            for a in it.args:
                s, n, el = self.iter_desc(s, a)
                ns.append(n)
                els.append(el)
            n = ns[0]
            for m in ns[1:]:
                n = z3.If(m < n, m, n)
            return s, n, lambda q, k: TupV([el(q, k) for el in els])
        s, v = self.ev1(st, it)
        if isinstance(v, (ArrV, LazyV, FancyV)):
            return s, self.arr_len(v), lambda q, k: self.index_value_nob(q, v, k)
        raise Unsupported(f"iteration over {type(v).__name__}")

    def index_value_nob(self, st, a, k):
        self.dry += 1
        try:
            v = self.index_value(st, a, [IntV(k, "int64")])
        finally:
            self.dry -= 1
        return v

    def inv_formulas(self, hint, st, entry, preenv, counters):
        sp = Spec(self, st, st.env, old=self.root.entry, oldenv=self.root.entry_env, pre=entry, preenv=preenv, extra=counters)
        out = []
        for t in hint.inv:
            out.append((t, sp.formula(t)))
        return out

    def run_body(self, st, node, elem_fn, k):
        if isinstance(node, ast.For):
            if elem_fn is not None:
                v = elem_fn(st, k)
                sts = self.assign(st, node.target, v, "")
            else:
                sts = [st]
        else:
            sts = [st]
        return self.block(sts, node.body)

    def st_For(self, st, s):
        if s.orelse:
            raise Unsupported("for-else")
        st, n, elem = self.iter_desc(st, s.iter)
        ns = z3.simplify(n)
        return self.loop(st, s, n, elem)

    def st_While(self, st, s):
        if s.orelse:
            raise Unsupported("while-else")
        return self.loop(st, s, None, None)

    def written(self, st, node, n, elem, cname):
        """write set of the loop body, as a fixpoint of dry runs"""
        wset = set()
        for _ in range(6):
            self.dry += 1
            self.wlogs.append(set())
            try:
                s = st.copy()
                self.havoc(s, wset)
                self.wlogs[-1].clear()
                known_locs = set(s.heap)
                known_objs = set(s.objs)
                k = self.fresh("dry", z3.IntSort())
                s.ghost[cname] = IntV(k, "py")
                if node_is_while(node):
                    outs = []
                    for x, v in self.ev(s, node.test):
                        outs += self.run_body(x, node, None, None)
                else:
                    outs = self.run_body(s, node, elem, k)
                new = self.wlogs[-1]
            finally:
                got = self.wlogs.pop()
                self.dry -= 1
            got = {w for w in got if (w[0] == "local" and w[1] in st.env) or (w[0] == "loc" and w[1] in st.heap)
                   or (w[0] == "field" and w[1] in st.objs and w[2] in st.objs[w[1]]) or w[0] == "ghost"}
            # locals of inlined callees must not leak: keep only names of this frame
            names = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            names |= {x.target.id for x in ast.walk(node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
            got = {w for w in got if w[0] != "local" or w[1] in names}
            if got <= wset:
                return wset
            wset |= got
        raise Unsupported("loop write set does not stabilise")

    def loop(self, st, node, n, elem):
        no, hint = self.loop_hint(node)
        lname = f"loop{no}"
        cname = hint.counter or f"k{no}"
        for item in hint.ghost:
            pass
        late = []
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in st.env and x.id not in late:
                ty = self.fr.ltypes.get(x.id)
                if ty is not None and ty.kind in ("int", "float", "bool"):
                    late.append(x.id)
        for x in late:
            st.env[x] = MaybeV(self.sym(st, self.fr.ltypes[x], x), z3.BoolVal(False))
        entry = st.copy()
        preenv = dict(st.env)
        wset = self.written(st, node, n, elem, cname)
        auto = self.auto_invs(node, st, preenv)
        zero = IntV(z3.IntVal(0), "py")
        cnt0 = {cname: zero, "_k": zero}
        if n is not None:
            cnt0["_n"] = IntV(n, "py")
        # 1. establish
        if hint.pre:
            self.apply_facts(hint.pre, st, entry, preenv, cnt0)
        for t, f in self.inv_formulas(hint, st, entry, preenv, cnt0):
            self.ob(st, f"{lname}-init", norm(t), f)
        # 2. arbitrary iteration
        h = st.copy()
        self.havoc(h, wset)
        for w in sorted(wset, key=str):
            self.wlog(w)
        k = self.fresh(cname, z3.IntSort())
        kv = IntV(k, "py")
        cnt = dict(cnt0)
        cnt[cname], cnt["_k"] = kv, kv
        for x in late:
            v = h.env[x]
            h.env[x] = MaybeV(v.v if isinstance(v, MaybeV) else v, k >= 1 if self.always_assigned(node, x) else z3.BoolVal(False))
        h.ghost = dict(h.ghost)
        h.ghost[cname] = kv
        h.pc.append(k >= 0)
        if n is not None:
            h.pc.append(k <= n)
        for v0, name, c in auto:
            if isinstance(h.env.get(name), IntV):
                h.pc.append(h.env[name].t == v0 + c * k)
        for t, f in self.inv_formulas(hint, h, entry, preenv, cnt):
            self.assume(h, f)
        outs = []
        # 3. exit
        if n is not None:
            ex = h.copy()
            ex.pc.append(k == n)
            if hint.exit:
                self.apply_facts(hint.exit, ex, entry, preenv, cnt)
            outs.append(ex)
            body = h.copy()
            body.pc.append(k < n)
            starts = [body]
        else:
            starts = []
            for x, v in self.ev(h.copy(), node.test):
                t = self.truth(v)
                if not is_true(t):
                    ex = x.copy()
                    ex.pc.append(z3.Not(t))
                    if hint.exit:
                        self.apply_facts(hint.exit, ex, entry, preenv, cnt)
                    outs.append(ex)
                if not is_false(t):
                    b = x.copy()
                    b.pc.append(t)
                    starts.append(b)
        dec0 = None
        # 4. preserve
        for body in starts:
            if hint.head:
                self.apply_facts(hint.head, body, entry, preenv, cnt)
            if hint.decreases:
                sp = Spec(self, body, body.env, old=self.root.entry, oldenv=self.root.entry_env, pre=entry, preenv=preenv, extra=cnt)
                dec0 = sp.ev(parse(hint.decreases)).t
            for end in self.run_body(body, node, elem, k):
                fl = end.flow[0]
                if fl in ("normal", "continue"):
                    end.flow = ("normal",)
                    c1 = dict(cnt)
                    c1[cname] = c1["_k"] = IntV(k + 1, "py")
                    self.apply_facts(hint.facts, end, entry, preenv, dict(cnt, _next=IntV(k + 1, "py")))
                    for t, f in self.inv_formulas(hint, end, entry, preenv, c1):
                        self.ob(end, f"{lname}-preserve", norm(t), f)
                    for v0, name, c in auto:
                        if isinstance(end.env.get(name), IntV):
                            self.ob(end, f"{lname}-preserve", f"auto {name} linear", end.env[name].t == v0 + c * (k + 1))
                    if dec0 is not None:
                        sp = Spec(self, end, end.env, old=self.root.entry, oldenv=self.root.entry_env, pre=entry, preenv=preenv, extra=c1)
                        d1 = sp.ev(parse(hint.decreases)).t
                        self.ob(end, f"{lname}-termination", norm(hint.decreases), z3.And(d1 < dec0, dec0 >= 0))
                elif fl == "break":
                    end.flow = ("normal",)
                    if hint.exit:
                        self.apply_facts(hint.exit, end, entry, preenv, cnt)
                    outs.append(end)
                else:
                    outs.append(end)
        return outs

    @staticmethod
    def always_assigned(node, name):
        """every completed iteration assigns the local (loop target, or an unconditional top-level store)"""
        if isinstance(node, ast.For) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(node.target)):
            return True
        for s in node.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and any(
                    isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(s)):
                return True
            if any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                return False
        return False

    def apply_facts(self, facts, st, entry, preenv, cnt):
        if not facts:
            return
        sp = Spec(self, st, st.env, old=self.root.entry, oldenv=self.root.entry_env, pre=entry, preenv=preenv, extra=cnt)
        for item in facts:
            if isinstance(item, tuple) and item[0] in ("clf", "reg"):
                if kind_of(self.root.entry_env) != item[0]:
                    continue
                item = item[1]
            if isinstance(item, tuple) and item[0] == "assert":
                f = sp.formula(item[1])
                self.ob(st, "cut", norm(item[1]), f)
                self.assume(st, f)
            elif isinstance(item, tuple) and item[0] == "ghost":
                _, name, idx, val = item
                g = st.ghost[name]
                st.ghost[name] = GhostArr(z3.Store(g.t, sp.ev(parse(idx)).t, sp.rawarg(sp.ev(parse(val)))))
                self.wlog(("ghost", name))
            else:
                self.assume(st, self.fact(sp, item))

    def auto_invs(self, node, st, preenv):
        """v == v_entry + c*k for locals whose only assignment in the loop is one unconditional
        top-level `v += c` not preceded by a `continue` (checked as an obligation all the same)"""
        out = []
        if any(isinstance(x, ast.Continue) for x in ast.walk(node)):
            return out
        for s in node.body:
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)) \
                    and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
                name = s.target.id
                stores = [x for x in ast.walk(node) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
                if len(stores) == 1 and isinstance(preenv.get(name), IntV):
                    c = s.value.value if isinstance(s.op, ast.Add) else -s.value.value
                    out.append((preenv[name].t, name, c))
        return out

    # ================================================================ functions
    def verify(self, con, variant):
        func = self.prog.func(con.qual)
        if func is None:
            raise Unsupported(f"function {con.qual} not found in the source")
        fr = Frame(func, con, variant)
        fr.label = con.qual + (f"<{variant['name']}>" if variant.get("name") else "")
        self.frames = [fr]
        self.nan_aware, self.py_slices = con.nan, con.observed
        n0 = len(self.obs)
        st = State()
        names = [x.arg for x in func.node.args.args]
        tys = {}
        if func.sigs:
            si = variant.get("sig", 0)
            if si < len(func.sigs):
                tys = dict(zip(names, func.sigs[si][1]))
                if len(func.sigs[si][1]) != len(names):
                    raise Unsupported("signature arity")
                fr.ret = func.sigs[si][0]
        else:
            fr.ret = None
        over = dict(con.params or {})
        over.update(variant.get("params", {}))
        for n in names:
            ty = over.get(n, tys.get(n))
            if ty is None:
                raise Unsupported(f"no type for parameter {n} of {con.qual}")
            if n in over and n in tys and tys[n].kind in ("int", "float", "bool") and over[n].kind != "none":
                ty = tys[n]
            if isinstance(ty, Ty) and ty.kind == "opt":
                ty = ty.elt
            st.env[n] = self.sym(st, ty, n)
            if n in tys and tys[n].kind in ("int", "float", "bool"):
                fr.ltypes.setdefault(n, tys[n])
        for n, ty in con.ghost_params.items():
            st.ghost[n] = self.ghost_sym(ty, n)
        for n, ty in func.locals.items():
            if ty.kind == "struct":
                pass
        entry_env = dict(st.env)
        fr.entry_env = entry_env
        if func.cls and con.qual.endswith("__init__"):
            # constructor: fields start undefined
            o = st.env[names[0]]
            st.objs[o.oid] = {}
        sp = Spec(self, st, entry_env, old=st, oldenv=entry_env)
        for r in con.requires:
            self.assume(st, sp.formula(r))
        for r in variant.get("requires", ()):
            self.assume(st, sp.formula(r))
        fr.pre_pc = list(st.pc)
        fr.end_pcs = []
        fr.entry = st.copy()
        for f in con.entry_facts:
            self.hint(st, f)
        self.wlogs = [set()]
        self.guarded, self.unguarded = {st.env[n].loc for n in con.shared}, []
        ends = self.block([st], func.node.body)
        for n in con.shared:
            self.ob(fr.entry, "ownership", f"{n} is written only while the lock is held", z3.BoolVal(not self.unguarded))
        rets = 0
        for e in ends:
            if e.flow[0] == "raise":
                continue
            v = e.flow[1] if e.flow[0] == "return" else NoneV()
            rets += 1
            self.finish(con, fr, e, v, entry_env)
        self.frame_check(con, fr, fr.entry, entry_env)
        fr.paths = rets
        return fr, self.obs[n0:]

    def ghost_sym(self, ty, n):
        if ty == "int":
            return IntV(self.fresh(n, z3.IntSort()), "py")
        if ty == "real":
            return RealV(self.fresh(n, z3.RealSort()))
        if ty == "arr_int":
            return GhostArr(self.fresh(n, T.AI))
        if ty == "arr_real":
            return GhostArr(self.fresh(n, T.AR))
        if ty == "arr_arr_int":
            return GhostArr(self.fresh(n, T.AAI))
        if ty == "arr_arr_real":
            return GhostArr(self.fresh(n, T.AAR))
        if ty == "col":
            return ColV(self.fresh(n, ColS))
        raise Unsupported("ghost type")

    def finish(self, con, fr, st, v, env):
        ret = fr.ret
        if ret is not None and ret.kind in ("int", "float", "bool"):
            v = self.coerce(st, v, ret, "return value")
        if ret is not None and ret.kind == "tuple" and isinstance(v, TupV):
            v = TupV([self.coerce(st, x, t, "return value") for x, t in zip(v.items, ret.items)])
        if isinstance(v, (LazyV, FancyV)):
            v = self.materialize(st, v, "result")
        sp = Spec(self, st, env, old=fr.entry, oldenv=env, pre=fr.entry, preenv=env, extra={"result": v})
        # exit facts see the locals as well
        spx = Spec(self, st, st.env, old=fr.entry, oldenv=env, pre=fr.entry, preenv=env,
                   extra={"result": v, **{"in_" + k: x.arr if isinstance(x, SeriesV) else x for k, x in env.items()}})
        for item in con.exit_facts:
            try:
                if isinstance(item, tuple) and item[0] == "assert":
                    f = spx.formula(item[1])
                    self.ob(st, "cut", norm(item[1]), f)
                    self.assume(st, f)
                else:
                    self.assume(st, self.fact(spx, item))
            except NameMiss:
                continue
        for i, r in enumerate(con.ensures + list(fr.variant.get("ensures", ()))):
            self.ob(st, "ensures", norm(r), sp.formula(r))
        fr.end_pcs.append(list(st.pc))

    def frame_check(self, con, fr, entry, env):
        """everything written that existed at entry must be listed in modifies"""
        allowed = set()
        sp = Spec(self, entry, env)
        for m in modlist(con, env):
            if "[*]." in m:
                path, f = m.split("[*].")
                allowed.add(("loc", sp.ev(parse(path)).loc, f))
                continue
            content = m.endswith("[*]")
            path = (m[:-3] if content else m).rstrip("?")
            if content:
                v = sp.ev(parse(path))
                if isinstance(v, ArrV):
                    allowed.add(("loc", v.loc))
            else:
                owner, _, f = path.rpartition(".")
                o = sp.ev(parse(owner))
                allowed.add(("field", o.oid, f))
        isinit = con.qual.endswith("__init__")
        for w in sorted(self.wlogs[0], key=str):
            if w[0] == "loc" and w[1] in entry.heap and ("loc", w[1]) not in allowed and w not in allowed:
                self.obs.append(Ob(fr.label, "frame", f"writes {self.locs[w[1]].name} not in modifies", [], z3.BoolVal(False)))
            if w[0] == "field" and w[1] in entry.objs and ("field", w[1], w[2]) not in allowed:
                if isinit and w[1] == env[next(iter(env))].oid:
                    continue
                self.obs.append(Ob(fr.label, "frame", f"writes field {w[2]} not in modifies", [], z3.BoolVal(False)))
        self.obs.append(Ob(fr.label, "frame", "all writes within modifies", [], z3.BoolVal(True)))


def kind_of(env):
    for v in env.values():
        if isinstance(v, ObjV) and ("Classifier" in v.cls or "Regressor" in v.cls):
            return "clf" if "Classifier" in v.cls else "reg"
    return ""


def modlist(con, env):
    """entries 'clf:path' / 'reg:path' apply to one kind of tree only"""
    k = kind_of(env)
    return [m.split(":")[-1] for m in con.modifies if ":" not in m or m.startswith(k + ":")]


@dataclass
class GhostArr:
    t: object


def same_value(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, IntV):
        return a.ty == b.ty and z3.eq(a.t, b.t)
    if isinstance(a, RealV):
        return z3.eq(a.t, b.t) and (a.inf is b.inf or (a.inf is not None and b.inf is not None and z3.eq(a.inf, b.inf)))
    if isinstance(a, (BoolV, ColV, GhostArr)):
        return z3.eq(a.t, b.t)
    if isinstance(a, ObjV):
        return a.oid == b.oid
    if isinstance(a, ArrV):
        return a.loc == b.loc and all(x[0] == y[0] and all(z3.eq(p, q) for p, q in zip(x[1:], y[1:])) for x, y in zip(a.sels, b.sels))
    if isinstance(a, SRefV):
        return a.loc == b.loc and z3.eq(a.idx, b.idx)
    if isinstance(a, (NoneV, UndefV)):
        return True
    return False


def node_is_while(n):
    return isinstance(n, ast.While)


def norm(s):
    return " ".join(s.split())[:160]

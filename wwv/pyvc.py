"""Verification conditions for plain-python methods (property setters, constructors, small helpers).

Python values are dynamically typed here: a value is (tag, number, class of float, identity), so that
`isinstance`, comparisons with NaN, None, strings and foreign objects have python's meaning, including the
exceptions they raise.  Every path of the function is executed symbolically from the current source; a path
ends in a normal return or in an exception.  Other methods of the same class and functions of the same
module are inlined unless they are under contract; the kernels are recorded as events.
"""
import ast
import itertools
import os
import z3
from .front import Unsupported

NONE, BOOL, INT, FLOAT, STR, OTHER = range(6)
SQRT = z3.Function("py_sqrt", z3.RealSort(), z3.RealSort())
LOG2 = z3.Function("py_log2", z3.RealSort(), z3.RealSort())
I, R = z3.IntVal, z3.RealVal
_strings = {}


def sid(s):
    return I(_strings.setdefault(s, len(_strings) + 1))


class V:
    """cls: 0 finite, 1 NaN, 2 +inf, 3 -inf;  id: identity of strings and objects; path: name of a known object"""
    def __init__(self, tag, num=None, cls=None, id=None, b=None, path=None, what=None):
        self.tag, self.num, self.cls, self.id = tag, num if num is not None else R(0), cls if cls is not None else I(0), id if id is not None else I(0)
        self.b, self.path, self.what = b, path, what


def describe(model, v):
    """a python expression for the value in the model"""
    ev = lambda t: model.eval(t, model_completion=True)
    tag, num, cls = ev(v.tag).as_long(), ev(v.num), ev(v.cls).as_long()
    if tag == NONE:
        return "None"
    if tag == BOOL:
        return str(num.as_fraction() != 0)
    if tag == INT:
        return str(num.as_fraction())
    if tag == FLOAT:
        return ["%r" % float(num.as_fraction()), "float('nan')", "float('inf')", "-float('inf')"][cls]
    if tag == STR:
        i = ev(v.id).as_long()
        return next((repr(s) for s, k in _strings.items() if k == i), "'some other string'")
    return "object()"


def lit(x):
    if x is None:
        return V(I(NONE))
    if isinstance(x, bool):
        return V(I(BOOL), R(int(x)), b=z3.BoolVal(x))
    if isinstance(x, int):
        return V(I(INT), R(x))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return V(I(FLOAT), cls=I(1 if x != x else 2 if x > 0 else 3))
        return V(I(FLOAT), R(repr(x)))
    if isinstance(x, str):
        return V(I(STR), id=sid(x))
    raise Unsupported(f"constant {x!r}")


def bv(b):
    return V(I(BOOL), z3.If(b, R(1), R(0)), b=b)


def same(a, b):
    return z3.And(a.tag == b.tag, a.num == b.num, a.cls == b.cls, a.id == b.id)


def isnum(v):
    return z3.And(v.tag >= BOOL, v.tag <= FLOAT)


def is_(v, *tags):
    return z3.Or(*[v.tag == t for t in tags])


def finite(v):
    return z3.And(isnum(v), v.cls == 0)


def less(a, b):
    """python < on two numbers"""
    return z3.Or(z3.And(a.cls == 0, b.cls == 0, a.num < b.num), z3.And(a.cls == 3, z3.Or(b.cls == 0, b.cls == 2)), z3.And(b.cls == 2, a.cls == 0))


def numeq(a, b):
    return z3.Or(z3.And(a.cls == 0, b.cls == 0, a.num == b.num), z3.And(a.cls == b.cls, a.cls >= 2))


class St:
    def __init__(self):
        self.pc, self.f, self.env, self.events, self.has, self.owner, self.depth = [], {}, {}, [], {}, None, 0

    def copy(self):
        s = St()
        s.pc, s.f, s.env, s.events, s.has = list(self.pc), dict(self.f), dict(self.env), list(self.events), dict(self.has)
        s.owner, s.depth = self.owner, self.depth
        return s


class Raise(Exception):
    pass


class Class:
    """methods and property setters of a class with its bases of the same module"""
    def __init__(self, mod, name):
        self.mod, self.name, self.meth, self.set, self.get, self.bases = mod, name, {}, {}, {}, []
        node = mod.classes.get(name)
        if node is None:
            raise Unsupported(f"class {name} not found")
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id in mod.classes:
                self.bases.append(b.id)
        for b in reversed(self.bases):
            c = Class(mod, b)
            self.meth.update(c.meth), self.set.update(c.set), self.get.update(c.get)
        self.own = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                d = [ast.unparse(x) for x in n.decorator_list]
                if "property" in d:
                    self.get[n.name] = n
                elif any(x.endswith(".setter") for x in d):
                    self.set[n.name] = n
                else:
                    self.meth[n.name] = n
                    self.own[n.name] = n


class Mod:
    def __init__(self, path):
        self.path = path
        tree = ast.parse(open(path).read())
        self.classes = {n.name: n for n in tree.body if isinstance(n, ast.ClassDef)}
        self.funcs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
        self.imported, self.consts = set(), {}
        for n in tree.body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self.imported |= {a.asname or a.name for a in n.names}
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value


class PyExec:
    def __init__(self, repo, contracts, contract):
        self.c, self.contracts = contract, contracts
        self.mod = Mod(os.path.join(repo, "wildwood", contract.file))
        self.cls = Class(self.mod, contract.cls) if contract.cls else None
        self.ctr = itertools.count()
        self.obs, self.used, self.inlined, self.line = [], set(), set(), 0
        self.entry = {}

    # ---------------------------------------------------------------- values
    def fresh(self, name, sort):
        return z3.Const(f"{name}!{next(self.ctr)}", sort)

    def sym(self, name, facts, path=None):
        v = V(self.fresh(name + ".tag", z3.IntSort()), self.fresh(name + ".num", z3.RealSort()), self.fresh(name + ".cls", z3.IntSort()),
              self.fresh(name + ".id", z3.IntSort()), path=path, what=name)
        facts += self.wf(v, name)
        return v

    def wf(self, v, name):
        i = self.fresh(name + ".int", z3.IntSort())
        return [v.tag >= NONE, v.tag <= OTHER, v.cls >= 0, v.cls <= 3, z3.Implies(v.tag != FLOAT, v.cls == 0), z3.Implies(v.tag == INT, v.num == z3.ToReal(i)),
                z3.Implies(v.tag == BOOL, z3.Or(v.num == 0, v.num == 1)), z3.Implies(z3.Or(v.cls != 0, v.tag == NONE, v.tag == STR, v.tag == OTHER), v.num == 0),
                z3.Implies(v.tag < STR, v.id == 0)]

    def truth(self, v):
        if v.b is not None:
            return v.b
        return z3.Or(z3.And(isnum(v), z3.Or(v.num != 0, v.cls != 0)), z3.And(v.tag == STR, v.id != sid("")), z3.And(v.tag == OTHER, self.fresh("truth", z3.BoolSort())))

    def field(self, st, key):
        """current value of the attribute with this path ('x' for self.x, 'x.y' below it)"""
        if key not in st.f:
            if key not in self.entry:
                facts = []
                v = self.sym("self." + key, facts, path=key)
                self.entry[key] = (v, facts)
            v, facts = self.entry[key]
            st.f[key] = v
            st.pc += facts
        return st.f[key]

    # ---------------------------------------------------------------- expressions: yields (state, value) or (state, Raise)
    def ev(self, st, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {ast.unparse(n)[:60]}")
        self.line = getattr(n, "lineno", self.line)
        yield from m(st, n)

    def evs(self, st, ns):
        if not ns:
            yield st, []
            return
        for s, v in self.ev(st, ns[0]):
            if v is Raise:
                yield s, Raise
                continue
            for s2, vs in self.evs(s, ns[1:]):
                yield s2, (Raise if vs is Raise else [v] + vs)

    def e_Constant(self, st, n):
        yield st, lit(n.value)

    def e_JoinedStr(self, st, n):
        yield st, V(I(STR), id=self.fresh("fstr", z3.IntSort()))

    def e_Name(self, st, n):
        if n.id in st.env:
            yield st, st.env[n.id]
        elif n.id in self.mod.consts:
            yield from self.ev(st, self.mod.consts[n.id])
        else:
            raise Unsupported(f"name {n.id}")

    def e_Attribute(self, st, n):
        if ast.unparse(n) == "np.inf":
            yield st, lit(float("inf"))
            return
        if ast.unparse(n) in ("np.iinfo(np.intp).max", "sys.maxsize"):
            yield st, lit(2 ** 63 - 1)
            return
        if isinstance(n.value, ast.Name) and n.value.id == "self":
            if self.cls and n.attr in self.cls.get:
                yield from self.call_def(st, self.cls.get[n.attr], [], {}, "get " + n.attr, True)
                return
            if n.attr in self.c.maybe:
                if n.attr not in st.has:
                    st.has[n.attr] = self.has0(n.attr)
                p = st.has[n.attr]
                if not z3.is_true(p):
                    bad = st.copy()
                    bad.pc.append(z3.Not(p))
                    yield bad, Raise
                    st = st.copy()
                    st.pc.append(p)
            yield st, self.field(st, n.attr)
            return
        for s, v in self.ev(st, n.value):
            if v is Raise:
                yield s, Raise
                continue
            if v.path is None:
                raise Unsupported(f"attribute of {ast.unparse(n.value)[:40]}")
            bad = s.copy()
            bad.pc.append(v.tag != OTHER)
            yield bad, Raise
            s = s.copy()
            s.pc.append(v.tag == OTHER)
            yield s, self.field(s, v.path + "." + n.attr)

    def has0(self, a):
        k = "?" + a
        if k not in self.entry:
            self.entry[k] = self.fresh("has." + a, z3.BoolSort())
        return self.entry[k]

    def e_UnaryOp(self, st, n):
        for s, v in self.ev(st, n.operand):
            if v is Raise:
                yield s, v
            elif isinstance(n.op, ast.Not):
                yield s, bv(z3.Not(self.truth(v)))
            elif isinstance(n.op, (ast.USub, ast.UAdd)):
                for s2 in self.need(s, isnum(v)):
                    if s2[1]:
                        yield s2[0], Raise
                    else:
                        yield s2[0], v if isinstance(n.op, ast.UAdd) else V(z3.If(v.tag == BOOL, I(INT), v.tag), -v.num, z3.If(v.cls == 2, I(3), z3.If(v.cls == 3, I(2), v.cls)))
            else:
                raise Unsupported("operator ~")

    def need(self, st, cond):
        """(state, raises?)"""
        c = z3.simplify(cond)
        if not z3.is_true(c):
            bad = st.copy()
            bad.pc.append(z3.Not(cond))
            yield bad, True
        if not z3.is_false(c):
            ok = st.copy()
            ok.pc.append(cond)
            yield ok, False

    def e_BoolOp(self, st, n):
        is_and = isinstance(n.op, ast.And)

        def go(s, k):
            for s2, v in self.ev(s, n.values[k]):
                if v is Raise or k == len(n.values) - 1:
                    yield s2, v
                    continue
                t = self.truth(v)
                stop = s2.copy()
                stop.pc.append(z3.Not(t) if is_and else t)
                yield stop, v if v.b is None else bv(z3.BoolVal(not is_and))
                cont = s2.copy()
                cont.pc.append(t if is_and else z3.Not(t))
                yield from go(cont, k + 1)
        yield from go(st, 0)

    def e_IfExp(self, st, n):
        for s, v in self.ev(st, n.test):
            if v is Raise:
                yield s, v
                continue
            t = self.truth(v)
            for c, e in ((t, n.body), (z3.Not(t), n.orelse)):
                s2 = s.copy()
                s2.pc.append(c)
                yield from self.ev(s2, e)

    def pyeq(self, a, b):
        return z3.Or(z3.And(isnum(a), isnum(b), numeq(a, b)), z3.And(a.tag == b.tag, z3.Or(a.tag == NONE, z3.And(a.tag == STR, a.id == b.id))),
                     z3.And(z3.Or(a.tag == OTHER, b.tag == OTHER), self.fresh("eq", z3.BoolSort())))

    def compare(self, st, op, a, b, rhs):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = z3.And(same(a, b), z3.Or(a.tag == NONE, a.tag == BOOL, self.fresh("is", z3.BoolSort())))
            yield st, bv(r if isinstance(op, ast.Is) else z3.Not(r))
        elif isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.pyeq(a, b)
            yield st, bv(r if isinstance(op, ast.Eq) else z3.Not(r))
        elif isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            if isinstance(op, (ast.Gt, ast.GtE)):
                a, b = b, a
            r = less(a, b)
            if isinstance(op, (ast.LtE, ast.GtE)):
                r = z3.Or(r, numeq(a, b))
            s = st.copy()
            s.pc.append(z3.And(isnum(a), isnum(b)))
            yield s, bv(r)
            s = st.copy()                      # foreign objects may define the comparison; everything else raises
            s.pc.append(z3.Or(a.tag == OTHER, b.tag == OTHER))
            yield s, bv(self.fresh("cmp", z3.BoolSort()))
            s = st.copy()
            s.pc.append(z3.Not(z3.And(isnum(a), isnum(b))))
            s.pc.append(z3.Not(z3.And(a.tag == STR, b.tag == STR)))
            yield s, Raise
            s = st.copy()
            s.pc.append(z3.And(a.tag == STR, b.tag == STR))
            yield s, bv(self.fresh("strcmp", z3.BoolSort()))
        else:
            raise Unsupported("comparison " + type(op).__name__)

    def e_Compare(self, st, n):
        def go(s, left, k):
            op, rn = n.ops[k], n.comparators[k]
            if isinstance(op, (ast.In, ast.NotIn)):
                elts = self.elements(rn)
                for s2, vs in self.evs(s, elts):
                    if vs is Raise:
                        yield s2, Raise
                        continue
                    r = z3.Or(*[self.pyeq(left, e) for e in vs])
                    if isinstance(rn, ast.Set):
                        bad = s2.copy()
                        bad.pc.append(left.tag == OTHER)      # may be unhashable
                        yield bad, Raise
                    yield s2, bv(r if isinstance(op, ast.In) else z3.Not(r))
                return
            for s2, right in self.ev(s, rn):
                if right is Raise:
                    yield s2, Raise
                    continue
                for s3, v in self.compare(s2, op, left, right, rn):
                    if v is Raise or k == len(n.ops) - 1:
                        yield s3, v
                        continue
                    f = s3.copy()
                    f.pc.append(z3.Not(v.b))
                    yield f, bv(z3.BoolVal(False))
                    t = s3.copy()
                    t.pc.append(v.b)
                    yield from go(t, right, k + 1)
        for s, v in self.ev(st, n.left):
            if v is Raise:
                yield s, v
            else:
                yield from go(s, v, 0)

    def elements(self, n):
        if isinstance(n, (ast.Set, ast.Tuple, ast.List)):
            return n.elts
        if isinstance(n, ast.Name) and n.id in self.mod.consts:
            return self.elements(self.mod.consts[n.id])
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("set", "frozenset", "tuple", "list") and len(n.args) == 1:
            return self.elements(n.args[0])
        raise Unsupported("membership in " + ast.unparse(n)[:40])

    def e_BinOp(self, st, n):
        for s, vs in self.evs(st, [n.left, n.right]):
            if vs is Raise:
                yield s, vs
                continue
            a, b = vs
            for s2, bad in self.need(s, z3.And(isnum(a), isnum(b))):
                if bad:
                    yield s2, Raise
                    continue
                fin = z3.And(a.cls == 0, b.cls == 0)
                fl = z3.Or(a.tag == FLOAT, b.tag == FLOAT)
                if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                    r = {ast.Add: lambda: a.num + b.num, ast.Sub: lambda: a.num - b.num, ast.Mult: lambda: a.num * b.num}[type(n.op)]()
                    k = self.fresh("cls", z3.IntSort())
                    s2.pc += [k >= 0, k <= 3, z3.Implies(fin, k == 0), z3.Implies(z3.Or(a.cls == 1, b.cls == 1), k == 1), z3.Implies(z3.Not(fin), k != 0)]
                    yield s2, V(z3.If(fl, I(FLOAT), I(INT)), z3.If(k == 0, r, R(0)), k)
                else:
                    raise Unsupported("operator " + type(n.op).__name__)

    def e_Call(self, st, n):
        name = ast.unparse(n.func)
        if name == "isinstance":
            def tags(t):
                if isinstance(t, ast.Tuple):
                    return [x for e in t.elts for x in tags(e)]
                u = ast.unparse(t)
                table = {"int": [BOOL, INT], "float": [FLOAT], "bool": [BOOL], "str": [STR], "type(None)": [NONE]}
                if u in table:
                    return table[u]
                if isinstance(t, ast.Name) and t.id in self.mod.consts:
                    return tags(self.mod.consts[t.id])
                raise Unsupported("isinstance " + u)
            for s, v in self.ev(st, n.args[0]):
                yield s, (v if v is Raise else bv(is_(v, *tags(n.args[1]))))
            return
        if name == "hasattr" and ast.unparse(n.args[0]) == "self" and isinstance(n.args[1], ast.Constant):
            a = n.args[1].value
            if a not in self.c.maybe:
                yield st, bv(z3.BoolVal(True))
                return
            if a not in st.has:
                st.has[a] = self.has0(a)
            yield st, bv(st.has[a])
            return
        if name in ("super().__init__",) or (name.startswith("super(") and name.endswith(").__init__")):
            base = Class(self.mod, st.owner).bases
            if len(base) != 1:
                raise Unsupported("super().__init__ with several bases")
            yield from self.call_args(st, Class(self.mod, base[0]).meth["__init__"], n, "__init__", True, base[0])
            return
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and (f.value.id == "self" or f.value.id == self.c.cls or f.value.id in self.mod.classes) and self.cls and f.attr in self.cls.meth:
            m = self.cls.meth[f.attr]
            static = any(ast.unparse(d) == "staticmethod" for d in m.decorator_list)
            yield from self.call_args(st, m, n, f.attr, not static)
            return
        if name in self.mod.funcs:
            yield from self.call_args(st, self.mod.funcs[name], n, name, False)
            return
        if isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant):
            yield st, V(I(STR), id=self.fresh("fstr", z3.IntSort()))
            return
        if n.keywords:
            raise Unsupported("call " + name)
        for s, vs in self.evs(st, n.args):
            if vs is Raise:
                yield s, vs
                continue
            if name in self.c.events:
                s = s.copy()
                s.events.append((name, vs))
                yield s, lit(None)
            elif name in ("int", "math.floor", "np.floor") and len(vs) == 1:
                v, = vs
                for s2, bad in self.need(s, finite(v)):
                    fl = z3.ToReal(z3.ToInt(v.num))
                    if bad:
                        if name == "int":      # int("3") and objects with __int__
                            s2.pc.append(z3.Or(v.tag != STR, True))
                        yield s2, Raise
                    else:
                        yield s2, V(I(INT) if name != "np.floor" else I(FLOAT), fl if name != "int" else z3.If(v.num >= 0, fl, -z3.ToReal(z3.ToInt(-v.num))))
            elif name in ("float",) and len(vs) == 1:
                v, = vs
                for s2, bad in self.need(s, isnum(v)):
                    yield s2, Raise if bad else V(I(FLOAT), v.num, v.cls)
            elif name in ("max", "min") and len(vs) == 2:
                a, b = vs
                for s2, bad in self.need(s, z3.And(finite(a), finite(b))):
                    if bad:
                        yield s2, Raise
                    else:
                        c = (a.num >= b.num) if name == "max" else (a.num <= b.num)
                        yield s2, V(z3.If(c, a.tag, b.tag), z3.If(c, a.num, b.num))
            elif name in ("np.sqrt", "math.sqrt", "np.log2", "math.log2") and len(vs) == 1:
                v, = vs
                for s2, bad in self.need(s, z3.And(finite(v), v.num >= (1 if "log" in name else 0))):
                    if bad:
                        raise_ok = s2
                        yield raise_ok, Raise
                        continue
                    r = (LOG2 if "log" in name else SQRT)(v.num)
                    if "log" in name:
                        s2.pc += [r >= 0, r < v.num]
                    else:
                        s2.pc += [r >= 0, r * r == v.num]
                    yield s2, V(I(FLOAT), r)
            else:
                raise Unsupported("call " + name)

    def call_args(self, st, fn, call, name, method, owner=None):
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            raise Unsupported("star arguments")
        for s, vs in self.evs(st, list(call.args) + [k.value for k in call.keywords]):
            if vs is Raise:
                yield s, vs
                continue
            yield from self.call_def(s, fn, vs[:len(call.args)], dict(zip([k.arg for k in call.keywords], vs[len(call.args):])), name, method, owner)

    def call_def(self, st, fn, args, kw, name, method, owner=None):
        if st.depth > 12:
            raise Unsupported("recursion in " + name)
        self.inlined.add(name)
        s = st.copy()
        s.env, s.depth, s.owner = self.bind(st, fn, args, kw, method), st.depth + 1, owner or st.owner
        for s2, out in self.block(s, fn.body):
            s2 = s2.copy()
            s2.env, s2.depth, s2.owner = st.env, st.depth, st.owner
            if out is Raise:
                yield s2, Raise
            else:
                yield s2, (out[1] if out else lit(None))

    def bind(self, st, fn, args, kw, method):
        a = fn.args
        if a.vararg or a.kwarg:
            raise Unsupported("star parameters")
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if method:
            env[names[0]] = V(I(OTHER), path="")
            names = names[1:]
        dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults)) if a.defaults else {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(k.arg)
            if d is not None:
                dflt[k.arg] = d
        for k, v in zip(names, args):
            env[k] = v
        env.update(kw)
        for k in names:
            if k not in env:
                if k not in dflt:
                    raise Unsupported(f"missing argument {k}")
                (s2, v), = list(self.ev(st, dflt[k]))
                env[k] = v
        return env

    # ---------------------------------------------------------------- statements: yields (state, outcome)  outcome None | Raise | ("ret", v)
    def block(self, st, body):
        if not body:
            yield st, None
            return
        for s, o in self.stmt(st, body[0]):
            if o is not None:
                yield s, o
            else:
                yield from self.block(s, body[1:])

    def stmt(self, st, n):
        self.line = n.lineno
        if isinstance(n, ast.Pass) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            yield st, None
        elif isinstance(n, ast.Raise):
            yield st, Raise
        elif isinstance(n, ast.Return):
            if n.value is None:
                yield st, ("ret", lit(None))
                return
            for s, v in self.ev(st, n.value):
                yield s, (Raise if v is Raise else ("ret", v))
        elif isinstance(n, ast.If):
            for s, v in self.ev(st, n.test):
                if v is Raise:
                    yield s, Raise
                    continue
                t = z3.simplify(self.truth(v))
                for c, b in ((t, n.body), (z3.simplify(z3.Not(t)), n.orelse)):
                    if not z3.is_false(c):
                        s2 = s.copy()
                        s2.pc.append(c)
                        yield from self.block(s2, b)
        elif isinstance(n, ast.Expr):
            for s, v in self.ev(st, n.value):
                yield s, (Raise if v is Raise else None)
        elif isinstance(n, ast.Assert):
            for s, v in self.ev(st, n.test):
                if v is Raise:
                    yield s, Raise
                    continue
                for s2, bad in self.need(s, self.truth(v)):
                    yield s2, (Raise if bad else None)
        elif isinstance(n, (ast.Assign, ast.AnnAssign)) :
            targets = n.targets if isinstance(n, ast.Assign) else [n.target]
            if len(targets) != 1:
                raise Unsupported("multiple targets")
            t = targets[0]
            if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts) and all(isinstance(e, ast.Name) for e in t.elts):
                for s, vs in self.evs(st, n.value.elts):       # a, b = x, y
                    if vs is Raise:
                        yield s, Raise
                        continue
                    s = s.copy()
                    s.env = dict(s.env, **{e.id: v for e, v in zip(t.elts, vs)})
                    yield s, None
                return
            for s, v in self.ev(st, n.value):
                if v is Raise:
                    yield s, Raise
                elif isinstance(t, ast.Name):
                    s = s.copy()
                    s.env = dict(s.env, **{t.id: v})
                    yield s, None
                elif isinstance(t, ast.Attribute):
                    yield from self.setattr(s, t, v)
                else:
                    raise Unsupported("assignment target")
        elif isinstance(n, ast.For) and isinstance(n.target, ast.Name) and not n.orelse:
            # for x in self.objs: x.attr = expression (the same for every element)
            if not (len(n.body) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.body[0].targets[0], ast.Attribute)
                    and ast.unparse(n.body[0].targets[0].value) == n.target.id and n.target.id not in {x.id for x in ast.walk(n.body[0].value) if isinstance(x, ast.Name)}):
                raise Unsupported("for loop")
            for s, lst in self.ev(st, n.iter):
                if lst is Raise or lst.path is None:
                    raise Unsupported("for loop over " + ast.unparse(n.iter))
                for s2, v in self.ev(s, n.body[0].value):
                    if v is Raise:
                        yield s2, Raise
                        continue
                    s2 = s2.copy()
                    s2.events.append(("each." + n.body[0].targets[0].attr, [lst, v]))
                    yield s2, None
        else:
            raise Unsupported("statement " + type(n).__name__)

    def setattr(self, st, t, v):
        if isinstance(t.value, ast.Name) and t.value.id == "self":
            if self.cls and t.attr in self.cls.set:
                key = f"{self.c.cls}.{t.attr}"
                con = next((self.contracts[k] for k in self.contracts if self.contracts[k].setter == t.attr and self.contracts[k].covers(self.c.cls, self.c.file)), None)
                if con is None:
                    for s, o in self.call_def(st, self.cls.set[t.attr], [v], {}, "set " + t.attr, True):
                        yield s, (Raise if o is Raise else None)
                    return
                self.used.add(con.name)
                fitted = self.truth(self.field(st, "_fitted")) if con.frozen or con.effects else z3.BoolVal(False)
                if con.effects:
                    self.obs.append(("call-requires", f"{t.attr}: not fitted", list(st.pc), z3.Not(fitted), self.line))
                ok = z3.And(con.accept(v), z3.Not(fitted) if con.frozen else True)
                bad = st.copy()
                bad.pc.append(z3.Not(ok))
                yield bad, Raise
                s = st.copy()
                s.pc.append(ok)
                s.f[con.field] = con.stored(v)
                s.has[con.field] = z3.BoolVal(True)
                yield s, None
                return
            s = st.copy()
            self.field(s, t.attr)
            s.f[t.attr] = v
            s.has[t.attr] = z3.BoolVal(True)
            yield s, None
            return
        for s, o in self.ev(st, t.value):
            if o is Raise:
                yield s, Raise
                continue
            if o.path is None:
                raise Unsupported("attribute store")
            for s2, bad in self.need(s, o.tag == OTHER):
                if bad:
                    yield s2, Raise
                    continue
                k = o.path + "." + t.attr
                self.field(s2, k)
                s2.f[k] = v
                yield s2, None

    # ---------------------------------------------------------------- one function against its contract
    def verify(self):
        c = self.c
        if c.setter:
            fn = self.cls.set.get(c.setter)
        elif c.cls:
            fn = self.cls.own.get(c.func) or self.cls.meth.get(c.func)
        else:
            fn = self.mod.funcs.get(c.func)
        if fn is None:
            raise Unsupported("function not found")
        st = St()
        st.owner = c.cls
        static = any(ast.unparse(d) == "staticmethod" for d in fn.decorator_list)
        names = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
        if c.cls and not static:
            st.env[names[0]] = V(I(OTHER), path="")
            names = names[1:]
        params = {}
        for a in names:
            params[a] = self.sym(a, st.pc)
            st.env[a] = params[a]
        if c.params and len(names) != len(c.params):
            raise Unsupported("parameters changed")
        P = dict(zip(c.params, params.values())) if c.params else params
        F0 = lambda k: self.field(st, k)
        st.pc += [f for f in c.requires(P, F0, self)]
        pre = list(st.pc)
        init = c.func == "__init__"
        if init:
            for a in c.maybe:
                st.has[a] = z3.BoolVal(False)
        ends = []
        n = 0
        for s, out in self.block(st, fn.body):
            n += 1
            raised = out is Raise
            ret = None if raised or not out else out[1]
            ends.append(list(s.pc))
            E = End(self, P, s, raised, ret)
            for text, goal in c.ensures(E):
                self.obs.append(("raises" if raised else "ensures", text, list(s.pc), goal, self.line))
        self.params = P
        return pre, ends, n

    def counterexample(self, hyps, goal):
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*hyps)
        s.add(z3.Not(goal))
        if s.check() != z3.sat:
            return ""
        m = s.model()
        fields = {k: v[0] for k, v in self.entry.items() if not k.startswith("?")}
        return "counterexample: " + ", ".join([f"{k} = {describe(m, v)}" for k, v in self.params.items()] + [f"self.{k} = {describe(m, v)}" for k, v in fields.items()][:12])


class End:
    """what a contract may talk about at the end of a path"""
    def __init__(self, ex, P, st, raised, ret):
        self.x, self.P, self.st, self.raised, self.ret = ex, P, st, raised, ret

    def new(self, k):
        return self.x.field(self.st, k)

    def old(self, k):
        if k not in self.x.entry:
            self.x.field(self.st, k)
        v, facts = self.x.entry[k]
        return v

    def old_has(self, k):
        return self.x.has0(k)

    def unchanged(self, *but):
        """no attribute other than these was assigned a different value"""
        ch = [k for k, v in self.st.f.items() if k not in but and (k not in self.x.entry or v is not self.x.entry[k][0])]
        return z3.And(*[same(self.st.f[k], self.x.entry[k][0]) for k in ch]) if ch else z3.BoolVal(True)

    def events(self):
        return self.st.events

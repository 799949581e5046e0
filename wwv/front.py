"""Front end: reads the wildwood sources from the repository's working tree and
resolves names, numba signatures / `locals=` types, jitclass field specs and
record dtypes.  Nothing is imported or executed: everything is taken from the AST
of the current files."""
import ast
import os
from dataclasses import dataclass, field
from typing import Optional, Tuple


class Unsupported(Exception):
    """The construct is outside the subset the verifier handles."""


INT_RANGES = {
    "uint8": (0, 2**8 - 1), "int8": (-(2**7), 2**7 - 1),
    "uint16": (0, 2**16 - 1), "int16": (-(2**15), 2**15 - 1),
    "uint32": (0, 2**32 - 1), "int32": (-(2**31), 2**31 - 1),
    "uint64": (0, 2**64 - 1), "int64": (-(2**63), 2**63 - 1),
}
ALIAS = {"uintp": "uint64", "intp": "int64", "int_": "int64", "bool_": "boolean",
         "float_": "float64", "double": "float64"}


@dataclass(frozen=True)
class Ty:
    kind: str                      # int float bool arr struct obj opt tuple void fun py
    name: str = ""
    elt: Optional["Ty"] = None
    ndim: int = 0
    items: Tuple = ()

    def __str__(self):
        if self.kind == "arr":
            return f"{self.elt}[{self.ndim}d]"
        return self.name or self.kind


def mk_scalar(name):
    name = ALIAS.get(name, name)
    if name in INT_RANGES:
        return Ty("int", name)
    if name in ("float32", "float64"):
        return Ty("float", name)
    if name == "boolean":
        return Ty("bool", "boolean")
    if name == "void":
        return Ty("void", "void")
    return None


@dataclass
class Func:
    mod: "Module"
    name: str                     # qualified inside the module: f or Cls.f
    node: ast.FunctionDef
    cls: Optional[str] = None
    jit: bool = False
    sigs: list = field(default_factory=list)   # list of (ret Ty, [arg Ty])
    locals: dict = field(default_factory=dict)

    @property
    def qual(self):
        return f"{self.mod.short}.{self.name}"


class Module:
    def __init__(self, prog, short, path):
        self.prog, self.short, self.path = prog, short, path
        with open(path) as fh:
            self.src = fh.read()
        self.tree = ast.parse(self.src)
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        for n in self.tree.body:
            self._top(n)

    def _top(self, n):
        if isinstance(n, ast.FunctionDef):
            self.funcs[n.name] = Func(self, n.name, n)
        elif isinstance(n, ast.ClassDef):
            self.classes[n.name] = n
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    key = f"{n.name}.{m.name}"
                    for d in m.decorator_list:
                        if isinstance(d, ast.Attribute) and d.attr == "setter":
                            key += ".setter"
                    self.funcs[key] = Func(self, key, m, cls=n.name)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.consts[n.targets[0].id] = n.value
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                modname = ("." * n.level) + (n.module or "")
                self.imports[a.asname or a.name] = (modname, a.name)
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.imports[a.asname or a.name] = (a.name, None)


class Program:
    MODS = ["_utils", "_impurity", "_tree_context", "_node", "_split", "_tree", "_grow",
            "tree", "forest", "preprocessing/features_bitarray", "preprocessing/_binning",
            "preprocessing/_checks", "preprocessing/encoder"]

    def __init__(self, repo):
        self.repo = repo
        self.mods = {}
        for m in self.MODS:
            p = os.path.join(repo, "wildwood", m + ".py")
            short = m.split("/")[-1]
            self.mods[short] = Module(self, short, p)
        for m in self.mods.values():
            for f in m.funcs.values():
                self._decor(f)

    # ---------------------------------------------------------------- names
    def resolve(self, mod, name, depth=0):
        """-> ('func', Func) | ('class', Module, ClassDef) | ('const', Module, expr)
              | ('ext', dotted) | None"""
        if depth > 8:
            return None
        if name in mod.funcs:
            return ("func", mod.funcs[name])
        if name in mod.classes:
            return ("class", mod, mod.classes[name])
        if name in mod.consts:
            return ("const", mod, mod.consts[name])
        if name in mod.imports:
            mname, orig = mod.imports[name]
            if orig is None:
                return ("ext", mname)
            tail = mname.lstrip(".").split(".")[-1]
            if (mname.startswith(".") or mname.startswith("wildwood")) and tail in self.mods:
                return self.resolve(self.mods[tail], orig, depth + 1)
            if (mname.startswith(".") or mname.startswith("wildwood")) and orig == "Encoder":
                return self.resolve(self.mods["encoder"], orig, depth + 1)
            return ("ext", f"{mname}.{orig}")
        return None

    def func(self, qual):
        m, f = qual.split(".", 1)
        if m not in self.mods or f not in self.mods[m].funcs:
            return None
        return self.mods[m].funcs[f]

    # ---------------------------------------------------------------- types
    def ty(self, mod, node):
        if isinstance(node, ast.Name):
            s = mk_scalar(node.id)
            if s:
                return s
            r = self.resolve(mod, node.id)
            if r and r[0] == "const":
                v = r[2]
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                    if v.func.id in ("get_type", "get_numba_type"):
                        return Ty("obj", v.args[0].id)
                    if v.func.id == "from_dtype":
                        return Ty("struct", v.args[0].id)
                return self.ty(r[1], v)
            if r and r[0] == "ext":
                s = mk_scalar(r[1].split(".")[-1])
                if s:
                    return s
            if r and r[0] == "class":
                return Ty("obj", node.id)
        if isinstance(node, ast.Attribute):
            s = mk_scalar(node.attr)
            if s:
                return s
        if isinstance(node, ast.Subscript):
            elt = self.ty(mod, node.value)
            sl = node.slice
            nd = len(sl.elts) if isinstance(sl, ast.Tuple) else 1
            return Ty("arr", "", elt, nd)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "optional":
            return Ty("opt", "", self.ty(mod, node.args[0]))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "Tuple":
            return Ty("tuple", "", None, 0, tuple(self.ty(mod, x) for x in node.args[0].elts))
        raise Unsupported(f"type expression {ast.unparse(node)}")

    def _sig(self, mod, node):
        if not isinstance(node, ast.Call):
            raise Unsupported("signature")
        return (self.ty(mod, node.func), [self.ty(mod, a) for a in node.args])

    def _decor(self, f):
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("jit", "njit"):
                f.jit = True
                try:
                    if d.args:
                        a = d.args[0]
                        if isinstance(a, ast.List):
                            f.sigs = [self._sig(f.mod, x) for x in a.elts]
                        elif isinstance(a, ast.Call):
                            f.sigs = [self._sig(f.mod, a)]
                    for kw in d.keywords:
                        if kw.arg == "locals" and isinstance(kw.value, ast.Dict):
                            for k, v in zip(kw.value.keys, kw.value.values):
                                f.locals[k.value] = self.ty(f.mod, v)
                except Unsupported as exc:
                    f.sig_error = str(exc)
            elif isinstance(d, ast.Name) and d.id in ("jit", "njit"):
                f.jit = True
        if f.cls is not None:
            for d in f.mod.classes[f.cls].decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "jitclass":
                    f.jit = True

    def find_class(self, name):
        for m in self.mods.values():
            if name in m.classes:
                return m, m.classes[name]
        raise Unsupported(f"class {name}")

    pyfields = {}       # the attributes of plain Python objects a contract speaks of (given by the contracts)

    def class_fields(self, name):
        if name in self.pyfields:
            return self.pyfields[name]
        m, c = self.find_class(name)
        for d in c.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "jitclass":
                return self._spec(m, d.args[0])
        return {}

    def _spec(self, mod, node):
        if isinstance(node, ast.Name):
            r = self.resolve(mod, node.id)
            return self._spec(r[1], r[2])
        out = {}
        for e in node.elts:
            if isinstance(e, ast.Starred):
                out.update(self._spec(mod, e.value))
            else:
                out[e.elts[0].value] = self.ty(mod, e.elts[1])
        return out

    def struct_fields(self, name):
        for m in self.mods.values():
            if name in m.consts:
                v = m.consts[name]
                out = {}
                for e in v.args[0].elts:
                    out[e.elts[0].value] = self.ty(m, e.elts[1])
                return out
        raise Unsupported(f"dtype {name}")

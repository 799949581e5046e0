"""Lemmas used as hints in the contracts; each is proved by obligations of its own (lemma obligations)."""
import z3
from . import theory as T

NAMES = []
_OBS = {}


def lemma(name, raw, obligations):
    """raw(*args) -> instance formula used as a hint; obligations() -> [(label, hyps, goal)]"""
    NAMES.append(name)
    T.RAW["L_" + name] = raw
    _OBS[name] = obligations


def obligations(name):
    return _OBS[name]()


class _Log(dict):
    """records which lemmas the proof of a lemma uses"""
    seen = set()

    def __getitem__(self, k):
        _Log.seen.add(k)
        return dict.__getitem__(self, k)


T.RAW = _Log(T.RAW)


def closed(names):
    """the lemmas and the lemmas their proofs use"""
    out, todo = set(), [n for n in names if n in _OBS]
    while todo:
        n = todo.pop()
        if n in out:
            continue
        out.add(n)
        _Log.seen = set()
        _OBS[n]()
        todo += [k[2:] for k in _Log.seen if k.startswith("L_") and k[2:] in _OBS]
    return [n for n in NAMES if n in out]


# ------------------------------------------------------------------ 64-bit words
class IntOps:
    """machine words as integers in [0, 2^64): the vocabulary of the program's obligations"""
    shl, shr, band, bor, field, mask = T.SHL, T.SHR, T.BAND, T.BOR, T.FIELD, T.MASK
    le = staticmethod(lambda a, b: a <= b)
    lt = staticmethod(lambda a, b: a < b)
    k = staticmethod(lambda n: z3.IntVal(n))


class BvOps:
    """the same words as 64-bit vectors: the lemmas are proved here"""
    shl = staticmethod(lambda a, b: a << b)
    shr = staticmethod(lambda a, b: z3.LShR(a, b))
    band = staticmethod(lambda a, b: a & b)
    bor = staticmethod(lambda a, b: a | b)
    mask = staticmethod(lambda nb: (z3.BitVecVal(1, 64) << nb) - 1)
    field = staticmethod(lambda w, s, nb: z3.LShR(w, s) & ((z3.BitVecVal(1, 64) << nb) - 1))
    le = staticmethod(lambda a, b: z3.ULE(a, b))
    lt = staticmethod(lambda a, b: z3.ULT(a, b))
    k = staticmethod(lambda n: z3.BitVecVal(n, 64))


def bitlemma(name, arity, body):
    """body(ops, *args) written once; used over integers, proved over 64-bit vectors.  Sums of shift amounts in the
    bodies are below 128, so they do not wrap; every word argument is guarded to lie in [0, 2^64) on the integer side."""
    def raw(*a):
        rng = z3.And(*[z3.And(x >= 0, x <= 2**64 - 1) for x in a])
        return z3.Implies(rng, body(IntOps, *a))

    def obs():
        vs = [z3.BitVec(f"b{i}", 64) for i in range(arity)]
        return [(name, [], body(BvOps, *vs))]
    lemma(name, raw, obs)


def _amt(o, *xs):
    return z3.And(*[o.le(x, o.k(64)) for x in xs])


# reading: (b & (mask << s)) >> s is the field
bitlemma("get", 3, lambda o, w, s, nb: z3.Implies(
    z3.And(_amt(o, s, nb), o.le(o.k(1), nb), o.lt(s, o.k(64)), o.le(s + nb, o.k(64))),
    o.shr(o.band(w, o.shl(o.mask(nb), s)), s) == o.field(w, s, nb)))
# first value of a word
bitlemma("first", 2, lambda o, x, nb: z3.Implies(
    z3.And(_amt(o, nb), o.le(o.k(1), nb), o.le(x, o.mask(nb))), o.field(x, o.k(0), nb) == x))
# pushing a value: older fields move up by nb, the new one sits at 0
bitlemma("push0", 3, lambda o, w, x, nb: z3.Implies(
    z3.And(_amt(o, nb), o.le(o.k(1), nb), o.lt(nb, o.k(64)), o.le(x, o.mask(nb))),
    o.field(o.bor(o.shl(w, nb), x), o.k(0), nb) == x))
bitlemma("push", 4, lambda o, w, x, s, nb: z3.Implies(
    z3.And(_amt(o, s, nb), o.le(o.k(1), nb), o.le(s + nb + nb, o.k(64)), o.le(x, o.mask(nb))),
    o.field(o.bor(o.shl(w, nb), x), s + nb, nb) == o.field(w, s, nb)))
# final alignment shift
bitlemma("align", 4, lambda o, w, d, s, nb: z3.Implies(
    z3.And(_amt(o, d, s, nb), o.le(o.k(1), nb), o.lt(d, o.k(64)), o.le(s + d + nb, o.k(64))),
    o.field(o.shl(w, d), s + d, nb) == o.field(w, s, nb)))
# masks
bitlemma("mask_step", 1, lambda o, n: z3.Implies(
    z3.And(o.le(o.k(1), n), o.lt(n, o.k(64))), o.bor(o.shl(o.mask(n), o.k(1)), o.k(1)) == o.mask(n + o.k(1))))
bitlemma("mask_ends", 1, lambda o, n: z3.And(o.mask(o.k(1)) == o.k(1), o.mask(o.k(64)) == o.k(2**64 - 1)))
bitlemma("field_le", 3, lambda o, w, s, nb: z3.Implies(_amt(o, s, nb), o.le(o.field(w, s, nb), o.mask(nb))))


# ------------------------------------------------------------------ quotient and remainder by a variable divisor
def _qr_def(a, b):
    return z3.Implies(z3.And(a >= 0, b >= 1), z3.And(a == T.QUO(a, b) * b + T.REM(a, b), T.REM(a, b) >= 0, T.REM(a, b) < b))


def intlemma(name, arity, body, hyps=lambda *a: []):
    """body over integers; proved from the definition of QUO / REM (Euclidean division) given by hyps"""
    def obs():
        vs = [z3.Int(f"i{k}") for k in range(arity)]
        return [(name, hyps(*vs), body(*vs))]
    lemma(name, body, obs)


def _uniq(q, r, a, b):
    return z3.Implies(z3.And(a >= 0, b >= 1, a == q * b + r, r >= 0, r < b), z3.And(T.QUO(a, b) == q, T.REM(a, b) == r))


intlemma("qr", 2, lambda a, b: z3.Implies(z3.And(a >= 0, b >= 1), z3.And(
    a == T.QUO(a, b) * b + T.REM(a, b), T.REM(a, b) >= 0, T.REM(a, b) < b, T.QUO(a, b) >= 0, T.QUO(a, b) <= a)),
    lambda a, b: [_qr_def(a, b)])
intlemma("qr_step", 2, lambda n, b: z3.Implies(z3.And(n >= 0, b >= 1), z3.And(
    z3.Implies(T.REM(n, b) < b - 1, z3.And(T.QUO(n + 1, b) == T.QUO(n, b), T.REM(n + 1, b) == T.REM(n, b) + 1)),
    z3.Implies(T.REM(n, b) == b - 1, z3.And(T.QUO(n + 1, b) == T.QUO(n, b) + 1, T.REM(n + 1, b) == 0)))),
    lambda n, b: [_qr_def(n, b), _qr_def(n + 1, b)])
intlemma("qr_zero", 1, lambda b: z3.Implies(b >= 1, z3.And(T.QUO(0, b) == 0, T.REM(0, b) == 0)),
         lambda b: [_qr_def(z3.IntVal(0), b)])
intlemma("qr_mono", 3, lambda p, n, b: z3.Implies(z3.And(0 <= p, p <= n, b >= 1), z3.And(
    T.QUO(p, b) <= T.QUO(n, b), z3.Implies(z3.And(T.QUO(p, b) == T.QUO(n, b)), T.REM(p, b) <= T.REM(n, b)),
    z3.Implies(z3.And(p < n, T.QUO(p, b) == T.QUO(n, b)), T.REM(p, b) < T.REM(n, b)))),
    lambda p, n, b: [_qr_def(p, b), _qr_def(n, b)])
intlemma("quo_lt", 3, lambda i, w, b: z3.Implies(z3.And(i >= 0, b >= 1, i < w * b), T.QUO(i, b) < w),
         lambda i, w, b: [_qr_def(i, b)])
intlemma("mul_le", 3, lambda a, b, c: z3.Implies(z3.And(a <= b, c >= 0), a * c <= b * c))
intlemma("mul_succ", 3, lambda a, b, c: z3.Implies(a == b + 1, a * c == b * c + c))
intlemma("mul_eq", 3, lambda a, b, c: z3.Implies(a == b, a * c == b * c))


def _ceil_obs():
    n, v = z3.Ints("n v")
    c = -z3.ToInt(-(z3.ToReal(n) / z3.ToReal(v)))
    x = z3.Real("x")
    cc = z3.Int("c")
    return [("ceil", [x * z3.ToReal(v) == z3.ToReal(n), z3.ToReal(cc) >= x, z3.ToReal(cc) < x + 1, n >= 0, v >= 1],
             z3.And(cc * v >= n, cc <= n, cc >= 0))]


def _ceil(n, v):
    c = -z3.ToInt(-(z3.ToReal(n) / z3.ToReal(v)))
    return z3.Implies(z3.And(n >= 0, v >= 1), z3.And(c * v >= n, c <= n, c >= 0))


def _ceil_obs2():
    n, v = z3.Ints("n v")
    x = z3.ToReal(n) / z3.ToReal(v)
    return [("ceil", [x * z3.ToReal(v) == z3.ToReal(n)], _ceil(n, v))]


lemma("ceil", _ceil, _ceil_obs2)


# ------------------------------------------------------------------ defined sums (each proved by induction on the length)
def _consts(srts, tag):
    return [z3.Const(f"{tag}{i}", s) for i, s in enumerate(srts)]


class Abs:
    """a sum with an arbitrary summand: the generic lemmas hold whatever the terms are, so they are proved for an
    uninterpreted term function (and used with the actual one)"""

    def __init__(self, F, tag="", concrete=False):
        info = T.FUN[F]
        self.srts, self.f = info["args"][:-2], info["fn"]
        if concrete:
            self.term, self.unf = info["term"], info["unfold"]
            return
        z = z3.IntVal(0) if info["sort"] == T.I else z3.RealVal(0)
        self.term = z3.Function("term!" + tag, *self.srts, T.I, info["sort"])

        def unf(*a):
            *q, s, e = a
            return z3.And(z3.Implies(e <= s, self.f(*q, s, e) == z),
                          z3.Implies(e > s, self.f(*q, s, e) == self.f(*q, s, e - 1) + self.term(*q, e - 1)))
        self.unf = unf


# F over [s, s+n) of A equals G over [t, t+n) of B when the terms agree one by one
def _crosslemma(name, F, G):
    def body(f, g, a):
        n1 = len(f.srts)
        A, B, (s, t, n) = a[:n1], a[n1:-3], a[-3:]
        k = z3.Int("k!q")
        return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), f.term(*A, s + k) == g.term(*B, t + k))),
                          f.f(*A, s, s + n) == g.f(*B, t, t + n))

    def obs():
        f, g = Abs(F, "f"), Abs(G, "f" if F == G else "g")
        A, B = _consts(f.srts, "a"), _consts(g.srts, "b")
        s, t, n = z3.Ints("s t n")
        return [("base", [n <= 0, f.unf(*A, s, s + n), g.unf(*B, t, t + n)], body(f, g, (*A, *B, s, t, n))),
                ("step", [n >= 0, body(f, g, (*A, *B, s, t, n)), f.unf(*A, s, s + n + 1), g.unf(*B, t, t + n + 1)],
                 body(f, g, (*A, *B, s, t, n + 1)))]
    cf, cg = Abs(F, concrete=True), Abs(G, concrete=True)
    lemma(name, lambda *a: body(cf, cg, a), obs)


def _sumlemmas(F):
    _crosslemma("shift_" + F, F, F)
    C, U = Abs(F, concrete=True), Abs(F, "f")
    np_ = len(C.srts)

    def split(o, *a):
        A, (s, m, e) = a[:np_], a[np_:]
        return z3.Implies(z3.And(s <= m, m <= e), o.f(*A, s, e) == o.f(*A, s, m) + o.f(*A, m, e))

    def split_obs():
        A = _consts(U.srts, "a")
        s, m, e = z3.Ints("s m e")
        return [("base", [e <= m, U.unf(*A, m, e)], split(U, *A, s, m, e)),
                ("step", [m <= e, split(U, *A, s, m, e), U.unf(*A, s, e + 1), U.unf(*A, m, e + 1)], split(U, *A, s, m, e + 1))]
    lemma("split_" + F, lambda *a: split(C, *a), split_obs)

    def nonneg(o, *a):
        A, (s, e) = a[:np_], a[np_:]
        k = z3.Int("k!q")
        return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(k >= s, k < e), o.term(*A, k) >= 0)), o.f(*A, s, e) >= 0)

    def nonneg_obs():
        A = _consts(U.srts, "a")
        s, e = z3.Ints("s e")
        return [("base", [e <= s, U.unf(*A, s, e)], nonneg(U, *A, s, e)),
                ("step", [s <= e, nonneg(U, *A, s, e), U.unf(*A, s, e + 1)], nonneg(U, *A, s, e + 1))]
    lemma("nonneg_" + F, lambda *a: nonneg(C, *a), nonneg_obs)

    # F over [s, e) of A is at most that of B when the terms are
    def le(o, *a):
        A, B, (s, e) = a[:np_], a[np_:2 * np_], a[2 * np_:]
        k = z3.Int("k!q")
        return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(k >= s, k < e), o.term(*A, k) <= o.term(*B, k))), o.f(*A, s, e) <= o.f(*B, s, e))

    def le_obs():
        A, B = _consts(U.srts, "a"), _consts(U.srts, "b")
        s, e = z3.Ints("s e")
        return [("base", [e <= s, U.unf(*A, s, e), U.unf(*B, s, e)], le(U, *A, *B, s, e)),
                ("step", [s <= e, le(U, *A, *B, s, e), U.unf(*A, s, e + 1), U.unf(*B, s, e + 1)], le(U, *A, *B, s, e + 1))]
    lemma("le_" + F, lambda *a: le(C, *a), le_obs)


for _F in T.FUN:
    _sumlemmas(_F)
for _F, _G in (("RSQ", "RSQL"), ("RSQ", "RSQR"), ("ENT", "ENTL"), ("ENT", "ENTR"), ("PSUMI", "PCNT"), ("PSUMR", "PWCNT"), ("CNTIN", "CNTLE"),
               ("WIN", "WLE"), ("WIN", "WSUM"), ("WLE", "WSUM"), ("PSUMI", "ISUM"), ("PSUMR", "RSUM"), ("PSUM2", "RSUM2")):
    _crosslemma(f"x_{_F}_{_G}", _F, _G)


# the impurity ingredients of two lists of bins agree when the class sums do
def _samelemma(F, extra):
    f = T.FUN[F]["fn"]

    def body(A, L, m, L2, m2, *r):
        C = r[-1]
        c = z3.Int("c!q")
        p1, p2 = T.PSUM2(A, c, L, z3.IntVal(0), m), T.PSUM2(A, c, L2, z3.IntVal(0), m2)
        return z3.Implies(z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < C), p1 == p2), patterns=[p1]),
                          f(A, L, m, *r[:-1], z3.IntVal(0), C) == f(A, L2, m2, *r[:-1], z3.IntVal(0), C))

    def obs():
        A, L, L2 = z3.Const("A", T.AAR), z3.Const("L", T.AI), z3.Const("L2", T.AI)
        m, m2, C = z3.Ints("m m2 C")
        x = [z3.Const(f"x{i}", srt) for i, srt in enumerate(extra)]
        z = z3.IntVal(0)
        return [("same", [T.RAW["L_shift_" + F](A, L, m, *x, A, L2, m2, *x, z, z, C)], body(A, L, m, L2, m2, *x, C))]
    lemma("same_" + F, body, obs)


for _F, _x in (("RSQL", []), ("RSQR", [T.I]), ("ENTL", [T.R]), ("ENTR", [T.I, T.R])):
    _samelemma(_F, _x)


# writing entry k of the array leaves the sum over [s, k) alone
def _updlemma(F, pos):
    info = T.FUN[F]
    f, term, srts, unf = info["fn"], info["term"], info["args"][:-2], info["unfold"]

    def upd(*a):
        A, (k, v, s) = list(a[:len(srts)]), a[len(srts):]
        B = list(A)
        B[pos] = z3.Store(A[pos], k, v)
        return z3.Implies(s <= k, z3.And(f(*B, s, k) == f(*A, s, k), f(*B, s, k + 1) == f(*A, s, k) + term(*B, k)))

    def obs():
        A = _consts(srts, "a")
        k, s = z3.Ints("k s")
        v = z3.Const("v", srts[pos].range())
        B = list(A)
        B[pos] = z3.Store(A[pos], k, v)
        return [("upd", [T.RAW["L_shift_" + F](*A, *B, s, s, k - s), unf(*B, s, k + 1)], upd(*A, k, v, s))]
    lemma("upd_" + F, upd, obs)


_updlemma("OCC", 0)


# number of non-zero entries of A[0:m) after entry k becomes positive (also the pigeonhole bound)
def _nz_set(A, k, v, m):
    N, B = T.FUN["NZ"]["fn"], z3.Store(A, k, v)
    ins = z3.And(0 <= k, k < m)
    return z3.Implies(z3.And(m >= 0, v > 0), z3.And(
        N(A, 0, m) <= m, N(A, 0, m) >= 0,
        z3.Implies(z3.Not(ins), N(B, 0, m) == N(A, 0, m)),
        z3.Implies(z3.And(ins, A[k] > 0), N(B, 0, m) == N(A, 0, m)),
        z3.Implies(z3.And(ins, A[k] <= 0), z3.And(N(B, 0, m) == N(A, 0, m) + 1, N(A, 0, m) <= m - 1))))


def _nz_set_obs():
    A = z3.Const("A", T.AI)
    k, v, m = z3.Ints("k v m")
    u = T.FUN["NZ"]["unfold"]
    B = z3.Store(A, k, v)
    z = z3.IntVal(0)
    return [("base", [m == 0, u(A, z, m), u(B, z, m)], _nz_set(A, k, v, m)),
            ("step", [m >= 0, _nz_set(A, k, v, m), u(A, z, m + 1), u(B, z, m + 1)], _nz_set(A, k, v, m + 1))]


lemma("nz_set", _nz_set, _nz_set_obs)


def reallemma(name, arity, body):
    def obs():
        return [(name, [], body(*[z3.Real(f"r{k}") for k in range(arity)]))]
    lemma(name, body, obs)


reallemma("div_pos", 2, lambda a, b: z3.Implies(z3.And(a > 0, b > 0), a / b > 0))


# NZ == 0 entries everywhere
def _nz_zero(A, m):
    k = z3.Int("k!q")
    return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), A[k] <= 0)), T.FUN["NZ"]["fn"](A, 0, m) == 0)


def _nz_zero_obs():
    A = z3.Const("A", T.AI)
    m = z3.Int("m")
    u = T.FUN["NZ"]["unfold"]
    z = z3.IntVal(0)
    return [("base", [m <= 0, u(A, z, m)], _nz_zero(A, m)), ("step", [m >= 0, _nz_zero(A, m), u(A, z, m + 1)], _nz_zero(A, m + 1))]


lemma("nz_zero", _nz_zero, _nz_zero_obs)


def _nz_le(A, m):
    return z3.Implies(m >= 0, z3.And(0 <= T.FUN["NZ"]["fn"](A, 0, m), T.FUN["NZ"]["fn"](A, 0, m) <= m))


def _nz_le_obs():
    A = z3.Const("A", T.AI)
    m = z3.Int("m")
    u = T.FUN["NZ"]["unfold"]
    z = z3.IntVal(0)
    return [("base", [m <= 0, u(A, z, m)], _nz_le(A, m)), ("step", [m >= 0, _nz_le(A, m), u(A, z, m + 1)], _nz_le(A, m + 1))]


lemma("nz_le", _nz_le, _nz_le_obs)


# ------------------------------------------------------------------ lists of bins
def _q(*names):
    return z3.Ints(" ".join(n + "!q" for n in names))


def distinct(L, m):
    p, q = _q("p", "q")
    return z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < m), L[p] != L[q]), patterns=[z3.MultiPattern(L[p], L[q])])


def increasing(L, m):
    p, q = _q("p", "q")
    return z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < m), L[p] < L[q]), patterns=[z3.MultiPattern(L[p], L[q])])


# the per-bin sums over a duplicate-free list of bins are the per-sample sum over the samples whose bin is in the list
def _binlemma(P_, F, G):
    """P_: sum over the list, F: its per-bin sum, G: per-sample sum; parameters (c, P[, W], L)"""
    info, finfo, ginfo = T.FUN[P_], T.FUN[F], T.FUN[G]
    wt = P_ == "PWCNT"
    pf, gf = info["fn"], ginfo["fn"]

    def inc(c, P, W, L, m, e):
        return z3.If(T.INB(L, 0, m, T.XB(c, P[e])), W[P[e]] if wt else z3.IntVal(1), z3.RealVal(0) if wt else z3.IntVal(0))

    def h(c, P, W):
        return (c, P, W) if wt else (c, P)

    def step(c, P, W, L, s, e, m):
        a = h(c, P, W)
        return z3.Implies(z3.And(s <= e, m >= 0, distinct(L, m)),
                          pf(*a, L, s, e + 1, 0, m) == pf(*a, L, s, e, 0, m) + inc(c, P, W, L, m, e))

    def step_obs():
        c, P, W, L = z3.Const("c", T.ColS), z3.Const("P", T.AI), z3.Const("W", T.AR), z3.Const("L", T.AI)
        s, e, m = z3.Ints("s e m")
        a = h(c, P, W)
        z = z3.IntVal(0)
        return [("base", [], step(c, P, W, L, s, e, z3.IntVal(0))),
                ("step", [m >= 0, step(c, P, W, L, s, e, m), info["unfold"](*a, L, s, e + 1, z, m + 1), info["unfold"](*a, L, s, e, z, m + 1),
                          finfo["unfold"](*a, L[m], s, e + 1), T.INB(L, 0, m, T.XB(c, P[e])) == T.INB(L, 0, m, T.XB(c, P[e])),
                          L[m] == L[m]],
                 step(c, P, W, L, s, e, m + 1))]
    nm = f"step_{P_}"
    lemma(nm, (lambda c, P, W, L, s, e, m: step(c, P, W, L, s, e, m)) if wt else (lambda c, P, L, s, e, m: step(c, P, None, L, s, e, m)), step_obs)

    def eq(c, P, W, L, m, s, e):
        a = h(c, P, W)
        return z3.Implies(z3.And(m >= 0, distinct(L, m)), pf(*a, L, s, e, 0, m) == gf(*a, L, 0, m, s, e))

    def eq_obs():
        c, P, W, L = z3.Const("c", T.ColS), z3.Const("P", T.AI), z3.Const("W", T.AR), z3.Const("L", T.AI)
        s, e, m = z3.Ints("s e m")
        a = h(c, P, W)
        z = z3.IntVal(0)
        return [("base", [e <= s, T.RAW["L_zero_" + P_](*a, L, s, e, z, m)], eq(c, P, W, L, m, s, e)),
                ("step", [e >= s, eq(c, P, W, L, m, s, e), step(c, P, W, L, s, e, m), ginfo["unfold"](*a, L, z, m, s, e + 1)], eq(c, P, W, L, m, s, e + 1))]
    lemma(f"{P_}_{G}", (lambda c, P, W, L, m, s, e: eq(c, P, W, L, m, s, e)) if wt else (lambda c, P, L, m, s, e: eq(c, P, None, L, m, s, e)), eq_obs)


def _zerolemma(F):
    C, U = Abs(F, concrete=True), Abs(F, "f")
    np_ = len(C.srts)

    def zero(o, *a):
        A, (s, e) = a[:np_], a[np_:]
        k = z3.Int("k!q")
        return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(k >= s, k < e), o.term(*A, k) == 0)), o.f(*A, s, e) == 0)

    def obs():
        A = _consts(U.srts, "a")
        s, e = z3.Ints("s e")
        return [("base", [e <= s, U.unf(*A, s, e)], zero(U, *A, s, e)),
                ("step", [s <= e, zero(U, *A, s, e), U.unf(*A, s, e + 1)], zero(U, *A, s, e + 1))]
    lemma("zero_" + F, lambda *a: zero(C, *a), obs)


for _F in T.FUN:
    _zerolemma(_F)
_binlemma("PCNT", "CNT", "CNTIN")
_binlemma("PWCNT", "WCNT", "WIN")


def _ind(name, srts, body, base, step):
    """lemma over (args, s, e) proved by induction on e >= s; base / step give the definitional instances"""
    def obs():
        A = _consts(srts, "a")
        s, e = z3.Ints("s e")
        return [("base", [e <= s] + base(*A, s, e), body(*A, s, e)), ("step", [e >= s, body(*A, s, e)] + step(*A, s, e), body(*A, s, e + 1))]
    lemma(name, body, obs)


_CP = [T.ColS, T.AI]
_ind("cnt_pos", _CP + [T.I, T.I], lambda c, P, b, k, s, e: z3.And(T.CNT(c, P, b, s, e) >= 0, z3.Implies(
    z3.And(s <= k, k < e, T.XB(c, P[k]) == b), T.CNT(c, P, b, s, e) >= 1)),
    lambda c, P, b, k, s, e: [T.FUN["CNT"]["unfold"](c, P, b, s, e)], lambda c, P, b, k, s, e: [T.FUN["CNT"]["unfold"](c, P, b, s, e + 1)])


def _cntin_all(c, P, L, lo, hi, s, e):
    k = z3.Int("k!q")
    n = T.CNTIN(c, P, L, lo, hi, s, e)
    return z3.Implies(s <= e, z3.And(0 <= n, n <= e - s, z3.Implies(z3.ForAll([k], z3.Implies(z3.And(s <= k, k < e), T.INB(L, lo, hi, T.XB(c, P[k])))), n == e - s)))


_ind("cntin_all", _CP + [T.AI, T.I, T.I], _cntin_all, lambda *a: [T.FUN["CNTIN"]["unfold"](*a)],
     lambda *a: [T.FUN["CNTIN"]["unfold"](*a[:-1], a[-1] + 1)])
for _F, _x in (("WCNT", [T.AR]), ("YCNT", [T.AR, T.AR]), ("YB", [T.AR, T.AR]), ("Y2B", [T.AR, T.AR])):
    def _mk(F, x):
        lab = [T.I] if F == "YCNT" else []
        f, u = T.FUN[F]["fn"], T.FUN[F]["unfold"]

        def body(c, P, *a):
            b, s, e = a[len(x)], a[-2], a[-1]
            return z3.And(T.CNT(c, P, b, s, e) >= 0, z3.Implies(T.CNT(c, P, b, s, e) == 0, f(c, P, *a) == 0))

        def un(c, P, *a):
            b, s, e = a[len(x)], a[-2], a[-1]
            return [T.FUN["CNT"]["unfold"](c, P, b, s, e), u(c, P, *a)]
        _ind("cnt0_" + F, _CP + x + [T.I] + lab, body, un, lambda *a: un(*a[:-1], a[-1] + 1))
    _mk(_F, _x)


# sums over the first entries of the increasing list of all bins that count are sums over an initial segment of the bins
def _prefix(F):
    info = T.FUN[F]
    f, u = info["fn"], info["unfold"]
    srts = info["args"][:-3]           # parameters before the list
    val = lambda A, b: A[0][b] if F != "PSUM2" else A[0][b][A[1]]

    def body(*a):
        A, (L, m, B, k) = a[:len(srts)], a[len(srts):]
        b, p = _q("b", "p")
        prem = z3.And(increasing(L, m), z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < m), z3.And(0 <= L[p], L[p] < B)), patterns=[L[p]]),
                      z3.ForAll([b], z3.Implies(z3.And(0 <= b, b < B, z3.Not(T.INB(L, 0, m, b))), val(A, b) == 0), patterns=[T.INB(L, 0, m, b)]),
                      0 <= k, k < m)
        return z3.Implies(prem, f(*A, L, 0, k + 1) == f(*A, T.IDL, 0, L[k] + 1))

    def obs():
        A = _consts(srts, "a")
        L = z3.Const("L", T.AI)
        m, B, k = z3.Ints("m B k")
        z = z3.IntVal(0)
        x = z3.Int("x!q")
        gap = lambda lo, hi: z3.Implies(z3.ForAll([x], z3.Implies(z3.And(x >= lo, x < hi), z3.And(T.IDL[x] == x, z3.Not(T.INB(L, 0, m, x)), val(A, x) == 0))),
                                        f(*A, T.IDL, lo, hi) == 0)
        gap_ob = ("gap", [T.RAW["L_zero_" + F](*A, T.IDL, k, B)], gap(k, B))
        return [gap_ob,
                ("base", [gap(z, L[0]), u(*A, L, z, z3.IntVal(1)), u(*A, T.IDL, z, L[0] + 1)], body(*A, L, m, B, z)),
                ("step", [k >= 0, body(*A, L, m, B, k), u(*A, L, z, k + 2), u(*A, T.IDL, z, L[k + 1] + 1), L[k] == L[k],
                          T.RAW["L_split_" + F](*A, T.IDL, z, L[k] + 1, L[k + 1]), gap(L[k] + 1, L[k + 1])], body(*A, L, m, B, k + 1))]
    lemma("prefix_" + F, body, obs)


for _F in ("PSUMI", "PSUMR", "PSUM2"):
    _prefix(_F)


# the entries of the increasing list below t, summed: the bins below t
def _cutlemma(F):
    info = T.FUN[F]
    f = info["fn"]
    srts = info["args"][:-3]
    val = lambda A, b: A[0][b] if F != "PSUM2" else A[0][b][A[1]]

    def body(*a):
        A, (L, m, B, j, t) = a[:len(srts)], a[len(srts):]
        b, p = _q("b", "p")
        prem = z3.And(increasing(L, m), z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < m), z3.And(0 <= L[p], L[p] < B)), patterns=[L[p]]),
                      z3.ForAll([b], z3.Implies(z3.And(0 <= b, b < B, z3.Not(T.INB(L, 0, m, b))), val(A, b) == 0), patterns=[T.INB(L, 0, m, b)]),
                      0 <= j, j <= m, 0 <= t, t <= B, z3.Or(j == 0, L[j - 1] < t), z3.Or(j == m, L[j] >= t))
        return z3.Implies(prem, f(*A, L, 0, j) == f(*A, T.IDL, 0, t))

    def obs():
        A = _consts(srts, "a")
        L = z3.Const("L", T.AI)
        m, B, j, t = z3.Ints("m B j t")
        z = z3.IntVal(0)
        x = z3.Int("x!q")
        gap = lambda lo, hi: z3.Implies(z3.ForAll([x], z3.Implies(z3.And(x >= lo, x < hi), z3.And(T.IDL[x] == x, z3.Not(T.INB(L, 0, m, x)), val(A, x) == 0))),
                                        f(*A, T.IDL, lo, hi) == 0)
        return [("gap", [T.RAW["L_zero_" + F](*A, T.IDL, j, t)], gap(j, t)),
                ("none", [j == 0, gap(z, t)], body(*A, L, m, B, j, t)),
                ("some", [j > 0, T.RAW["L_prefix_" + F](*A, L, m, B, j - 1), T.RAW["L_split_" + F](*A, T.IDL, z, L[j - 1] + 1, t), gap(L[j - 1] + 1, t)],
                 body(*A, L, m, B, j, t))]
    lemma("cut_" + F, body, obs)


_cutlemma("PSUMI")


# 0/1 arrays: the number of ones, and of the ones of the complement
def _card(A, s, e):
    k = z3.Int("k!q")
    return z3.Implies(z3.And(s <= e, z3.ForAll([k], z3.Implies(z3.And(k >= s, k < e), A[k] == 1))), T.ISUM(A, s, e) == e - s)


def _compl(A, B, s, e):
    k = z3.Int("k!q")
    return z3.Implies(z3.And(s <= e, z3.ForAll([k], z3.Implies(z3.And(k >= s, k < e), A[k] + B[k] == 1))), T.ISUM(A, s, e) + T.ISUM(B, s, e) == e - s)


_ind("card_ISUM", [T.AI], _card, lambda A, s, e: [T.FUN["ISUM"]["unfold"](A, s, e)], lambda A, s, e: [T.FUN["ISUM"]["unfold"](A, s, e + 1)])
_ind("compl_ISUM", [T.AI, T.AI], _compl, lambda A, B, s, e: [T.FUN["ISUM"]["unfold"](A, s, e), T.FUN["ISUM"]["unfold"](B, s, e)],
     lambda A, B, s, e: [T.FUN["ISUM"]["unfold"](A, s, e + 1), T.FUN["ISUM"]["unfold"](B, s, e + 1)])


# A = the entries of B (zero outside the listed positions) listed by P (increasing positions in [0, n)): equal sums
def _select(A, B, P, m, n):
    b, p, k = z3.Ints("b!q p!q k!q")
    prem = z3.And(increasing(P, m), 0 <= m, 0 <= n, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < m), z3.And(0 <= P[p], P[p] < n)), patterns=[P[p]]),
                  z3.ForAll([b], z3.Implies(z3.And(0 <= b, b < n, z3.Not(T.INB(P, 0, m, b))), B[b] == 0), patterns=[T.INB(P, 0, m, b)]),
                  z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), A[k] == B[P[k]])))
    return z3.Implies(prem, T.ISUM(A, 0, m) == T.ISUM(B, 0, n))


def _select_obs():
    A, B, P = z3.Const("A", T.AI), z3.Const("B", T.AI), z3.Const("P", T.AI)
    m, n = z3.Ints("m n")
    z = z3.IntVal(0)
    x = T.RAW["L_x_PSUMI_ISUM"]
    ident = z3.Implies(n >= 0, T.PSUMI(B, T.IDL, 0, n) == T.ISUM(B, 0, n))
    listed = z3.Implies(_select_prem(A, B, P, m), T.PSUMI(B, P, 0, m) == T.ISUM(A, 0, m))
    first = z3.And(P[0] == P[0], P[m - 1] == P[m - 1], P[m] == P[m])
    return [("identity", [x(B, T.IDL, B, z, z, n)], ident), ("listed", [x(B, P, A, z, z, m)], listed),
            ("select", [ident, listed, T.RAW["L_cut_PSUMI"](B, P, m, n, m, n), first], _select(A, B, P, m, n))]


def _select_prem(A, B, P, m):
    k = z3.Int("k!q")
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), A[k] == B[P[k]]))


lemma("select_ISUM", _select, _select_obs)


# ------------------------------------------------------------------ sums do not depend on the order of the samples
def _occ(P, x, s, e):
    return T.OCC(P, x, s, e)


_ind("occ_has", [T.AI, T.I], lambda P, x, s, e: z3.And(_occ(P, x, s, e) >= 0, z3.Implies(_occ(P, x, s, e) > 0, T.INB(P, s, e, x))),
     lambda *a: [T.FUN["OCC"]["unfold"](*a)],
     lambda P, x, s, e: [T.FUN["OCC"]["unfold"](P, x, s, e + 1), T.INB(P, s, e + 1, x) == T.INB(P, s, e + 1, x), P[e] == P[e], P[T.INBW(P, s, e, x)] == P[T.INBW(P, s, e, x)]])


class AbsV(Abs):
    """a sum whose summand depends on the list (argument number pos) only through the listed value"""

    def __init__(self, F, pos):
        super().__init__(F, "v")
        g = z3.Function("val!" + F, *[x for i, x in enumerate(self.srts) if i != pos], T.I, T.FUN[F]["sort"])
        z = z3.IntVal(0) if T.FUN[F]["sort"] == T.I else z3.RealVal(0)
        self.term = lambda *a: g(*[x for i, x in enumerate(a[:-1]) if i != pos], S(a[pos], a[-1]))

        def unf(*a):
            *q, s, e = a
            return z3.And(z3.Implies(e <= s, self.f(*q, s, e) == z), z3.Implies(e > s, self.f(*q, s, e) == self.f(*q, s, e - 1) + self.term(*q, e - 1)))
        self.unf = unf

    def shift(self, A, B, s, n):
        k = z3.Int("k!q")
        T.RAW["L_shift_" + self.f.name()]      # the instance is one of that lemma (proved for any summand)
        return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), self.term(*A, s + k) == self.term(*B, s + k))), self.f(*A, s, s + n) == self.f(*B, s, s + n))

    def split(self, A, s, m, e):
        T.RAW["L_split_" + self.f.name()]
        return z3.Implies(z3.And(s <= m, m <= e), self.f(*A, s, e) == self.f(*A, s, m) + self.f(*A, m, e))


S = T.S


def _reorder(F, pos):
    info = T.FUN[F]
    srts = info["args"][:-2]
    U = AbsV(F, pos)

    def put(A, P):
        B = list(A)
        B[pos] = P
        return B

    def swapped(P, j, e):
        return z3.Store(z3.Store(P, j, S(P, e)), e, S(P, j))

    def form(A, P2, k, k2):
        return z3.Implies(S(A[pos], k) == S(P2, k2), info["term"](*A, k) == info["term"](*put(A, P2), k2))

    def swap(f, A, j, s, e):
        return z3.Implies(z3.And(s <= j, j <= e), f(*put(A, swapped(A[pos], j, e)), s, e + 1) == f(*A, s, e + 1))

    def swap_obs():
        A = _consts(srts, "a")
        P2 = z3.Const("P2", T.AI)
        j, s, e, k, k2 = z3.Ints("j s e k k2")
        B = put(A, swapped(A[pos], j, e))
        parts = []
        for X in (A, B):
            parts += [U.split(X, s, j, e + 1), U.split(X, j, j + 1, e + 1), U.split(X, j + 1, e, e + 1), U.unf(*X, j, j + 1), U.unf(*X, e, e + 1),
                      U.unf(*X, j, j), U.unf(*X, e, e)]
        return [("value", [], form(A, P2, k, k2)),
                ("swap", parts + [U.shift(A, B, s, j - s), U.shift(A, B, j + 1, e - (j + 1)), U.shift(A, B, s, e + 1 - s)], swap(U.f, A, j, s, e))]
    lemma("swap_" + F, lambda *a: swap(info["fn"], list(a[:-3]), *a[-3:]), swap_obs)

    def same(P, Q, s, e, o=_occ):
        x = z3.Int("x!q")
        return z3.ForAll([x], o(P, x, s, e) == o(Q, x, s, e), patterns=[o(P, x, s, e)])

    def perm(f, A, Q, s, e):
        return z3.Implies(same(A[pos], Q, s, e), f(*A, s, e) == f(*put(A, Q), s, e))

    def perm_obs():
        A = _consts(srts, "a")
        Q, Q1 = z3.Const("Q", T.AI), z3.Const("Q1", T.AI)
        s, e, x = z3.Ints("s e x!q2")
        P = A[pos]
        v = S(P, e)
        j = T.INBW(Q, s, e + 1, v)
        Q2 = swapped(Q, j, e)
        occ_unf = T.FUN["OCC"]["unfold"]
        cyc = lambda X: z3.ForAll([x], occ_unf(X, x, s, e + 1), patterns=[_occ(X, x, s, e + 1)])
        low = lambda X: z3.ForAll([x], occ_unf(X, x, s, e + 1), patterns=[_occ(X, x, s, e)])
        swo = z3.ForAll([x], z3.Implies(z3.And(s <= j, j <= e), _occ(Q2, x, s, e + 1) == _occ(Q, x, s, e + 1)), patterns=[_occ(Q2, x, s, e)])
        T.RAW["L_swap_OCC"], T.RAW["L_swap_" + F]
        hyp = [e >= s, same(P, Q, s, e + 1)]
        found = z3.And(s <= j, j <= e, S(Q, j) == v)
        has = T.RAW["L_occ_has"]
        return [("base", [e <= s, U.unf(*A, s, e), U.unf(*put(A, Q), s, e)], perm(U.f, A, Q, s, e)),
                ("found", hyp + [occ_unf(P, v, s, e + 1), has(P, v, s, e), has(Q, v, s, e + 1)], found),
                ("prefix", hyp + [found, swo, low(P), low(Q2), S(Q2, e) == v], same(P, Q2, s, e)),
                ("step", hyp + [found, same(P, Q2, s, e), perm(U.f, A, Q2, s, e), swap(U.f, put(A, Q), j, s, e),
                                U.unf(*A, s, e + 1), U.unf(*put(A, Q2), s, e + 1), S(Q2, e) == v], U.f(*A, s, e + 1) == U.f(*put(A, Q), s, e + 1))]
    if F != "OCC":
        lemma("perm_" + F, lambda *a: perm(info["fn"], list(a[:-3]), *a[-3:]), perm_obs)

    # Q is P with the entries of [s, e) reordered: sums over [a, b) agree when that range contains [s, e) or does not meet it
    def reord(f, A, Q, s, e, a, b):
        P = A[pos]
        q = z3.Int("q!q")
        return z3.Implies(z3.And(s <= e, same(P, Q, s, e, f if F == "OCC" else _occ), z3.ForAll([q], z3.Implies(z3.Or(q < s, q >= e), S(Q, q) == S(P, q)), patterns=[S(Q, q)]),
                                 z3.Or(b <= s, e <= a, z3.And(a <= s, e <= b))), f(*A, a, b) == f(*put(A, Q), a, b))

    def reord_obs():
        A = _consts(srts, "a")
        Q = z3.Const("Q", T.AI)
        s, e, a, b = z3.Ints("s e a b")
        B = put(A, Q)
        if F == "OCC":       # the hypothesis itself
            hy = []
        else:
            T.RAW["L_perm_" + F]
            hy = [perm(U.f, A, Q, s, e)]
        hy += [U.shift(A, B, a, b - a), U.shift(A, B, a, s - a), U.shift(A, B, e, b - e)]
        for X in (A, B):
            hy += [U.split(X, a, s, b), U.split(X, s, e, b), U.unf(*X, a, b)]
        return [("reord", hy, reord(U.f, A, Q, s, e, a, b))]
    lemma("reord_" + F, lambda *a: reord(info["fn"], list(a[:-5]), *a[-5:]), reord_obs)


for _F, _p in (("OCC", 0), ("WSUM", 0), ("LSUM", 0), ("YWSUM", 0), ("LOSSC", 0), ("LOSSR", 0), ("WIN", 1), ("WLE", 1)):
    _reorder(_F, _p)


# ------------------------------------------------------------------ membership in lists
def _idl_in(m, x):
    return T.INB(T.IDL, z3.IntVal(0), m, x) == z3.And(0 <= x, x < m)


lemma("idl_in", _idl_in, lambda: [("idl", [S(T.IDL, z3.Int("x")) == z3.Int("x"), T.INB(T.IDL, z3.IntVal(0), z3.Int("m"), z3.Int("x")) == T.INB(T.IDL, z3.IntVal(0), z3.Int("m"), z3.Int("x"))],
                                   _idl_in(z3.Int("m"), z3.Int("x")))])


def _inb_shift(A, a, B_, b, m, x):
    p = z3.Int("p!q")
    return z3.Implies(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < m), S(A, a + p) == S(B_, b + p))), T.INB(A, a, a + m, x) == T.INB(B_, b, b + m, x))


def _inb_shift_obs():
    A, B_ = z3.Const("A", T.AI), z3.Const("B", T.AI)
    a, b, m, x = z3.Ints("a b m x")
    wa, wb = T.INBW(A, a, a + m, x), T.INBW(B_, b, b + m, x)
    p = z3.Int("p!q")
    h = z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < m), S(A, a + p) == S(B_, b + p)))
    inst = lambda q: z3.Implies(h, z3.Implies(z3.And(0 <= q, q < m), S(A, a + q) == S(B_, b + q)))
    has = lambda X, lo, q: z3.Implies(z3.And(lo <= q, q < lo + m, S(X, q) == x), T.INB(X, lo, lo + m, x))
    return [("ab", [h, T.INB(A, a, a + m, x), inst(wa - a), has(B_, b, b + (wa - a))], T.INB(B_, b, b + m, x)),
            ("ba", [h, T.INB(B_, b, b + m, x), inst(wb - b), has(A, a, a + (wb - b))], T.INB(A, a, a + m, x)),
            ("both", [z3.Implies(z3.And(h, T.INB(A, a, a + m, x)), T.INB(B_, b, b + m, x)), z3.Implies(z3.And(h, T.INB(B_, b, b + m, x)), T.INB(A, a, a + m, x))],
             _inb_shift(A, a, B_, b, m, x))]


lemma("inb_shift", _inb_shift, _inb_shift_obs)


# ------------------------------------------------------------------ samples of a node are routed through it
def _routes(r, parent, P, st, en):
    """every entry of P in the range of a node is in the range of its parent, whose rule sends it to the node
       ==> every entry in the range of a node is on the path through that node"""
    k, q = z3.Ints("k!r q!r")
    return z3.Implies(z3.ForAll([k, q], _rt_step(r, parent, P, st, en, k, q), patterns=[z3.MultiPattern(T.NODEAT(k), S(P, q))]),
                      z3.ForAll([k, q], z3.Implies(z3.And(T.NODEAT(k), 0 <= k, k < r.n, S(st, k) <= q, q < S(en, k)), _rt_claim(r, parent, P, k, q)),
                                patterns=[z3.MultiPattern(T.NODEAT(k), S(P, q))]))


def _rt_step(r, parent, P, st, en, k, q):
    p = S(parent, k)
    return z3.Implies(z3.And(T.NODEAT(k), T.NODEAT(p), 0 < k, k < r.n, S(st, k) <= q, q < S(en, k)),
                      z3.And(0 <= p, p < k, z3.Not(S(r.is_leaf, p)), S(st, p) <= q, q < S(en, p), r.next(S(P, q), p) == k))


def _rt_claim(r, parent, P, k, q):
    i = S(P, q)
    return z3.And(T.ONP(r.t, parent, i, k), T.LEAF(r.t, i, 0) == T.LEAF(r.t, i, k), z3.Implies(S(r.is_leaf, k), T.LEAF(r.t, i, 0) == k))


def _routes_obs():
    r = T.Rt.const("r")
    parent, P, st, en = [z3.Const(x, T.AI) for x in ("parent", "P", "st", "en")]
    k, q = z3.Ints("k q")
    p, i = S(parent, k), S(P, q)
    inr = lambda m: z3.And(0 <= m, m < r.n, S(st, m) <= q, q < S(en, m))
    # strong induction on the node number k, for a fixed position q
    return [("step", [T.NODEAT(k), T.NODEAT(p), _rt_step(r, parent, P, st, en, k, q), z3.Implies(z3.And(0 <= p, p < k, inr(p)), _rt_claim(r, parent, P, p, q)),
                      r.d_onpath(parent, i, k), r.d_leafof(i, p), r.d_leafof(i, k), inr(k)], _rt_claim(r, parent, P, k, q))]


lemma("routes", _routes, _routes_obs)

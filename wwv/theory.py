"""Mathematical vocabulary of the specifications: uninterpreted symbols, recursively
defined sums, and the axioms assumed about external functions."""
import z3
from .values import ColS

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AI, AR, AB = z3.ArraySort(I, I), z3.ArraySort(I, R), z3.ArraySort(I, B)
AAI, AAR = z3.ArraySort(I, AI), z3.ArraySort(I, AR)

MAXSIZE = 2**48

WRAP_FIELDS = {"parent", "feature", "bin_threshold"}

INF_FIELDS = {("SplitClassifier", "gain_proxy"), ("SplitRegressor", "gain_proxy")}


def add(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.IntVal(a.as_long() + b.as_long())
    if z3.is_int_value(a) and a.as_long() == 0:
        return b
    if z3.is_int_value(b) and b.as_long() == 0:
        return a
    return a + b


def sub(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.IntVal(a.as_long() - b.as_long())
    if z3.is_int_value(b) and b.as_long() == 0:
        return a
    return a - b


# ---- machine words -----------------------------------------------------------
SHL = z3.Function("shl64", I, I, I)
SHR = z3.Function("shr64", I, I, I)
BAND = z3.Function("and64", I, I, I)
BOR = z3.Function("or64", I, I, I)

# ---- floats ------------------------------------------------------------------
ISNAN = z3.Function("isnan", R, B)
PINF = z3.Const("pos_inf", R)
NANC = z3.Const("nan_const", R)
EXP = z3.Function("exp_r", R, R)
LOG = z3.Function("log_r", R, R)
LOG2 = z3.Function("log2", R, R)
SQRT = z3.Function("sqrt_r", R, R)

# ---- columns of the packed matrix --------------------------------------------
MKCOL = z3.Function("mkcol", AI, I, I, I, ColS)         # words, offset, n_values_in_word, n_bits
MASK = z3.Function("mask64", I, I)                      # nb -> 2^nb - 1
FIELD = z3.Function("field64", I, I, I, I)              # (w, s, nb): bits s..s+nb-1 of the word w
QUO = z3.Function("quo!", I, I, I)                       # floor division / remainder by a variable divisor
REM = z3.Function("rem!", I, I, I)
XB = z3.Function("xb", ColS, I, I)                      # bin of sample i in the column
INB = z3.Function("inb", AI, I, I, I, B)                # value b occurs in A[lo:hi)   (A, lo, hi, b)
INBW = z3.Function("inb_w", AI, I, I, I, I)             # witness position

# always true; used to direct the instantiation of statements about nodes / pending records
NODEAT = z3.Function("nodeat", I, B)
BINAT = z3.Function("binat", I, z3.BoolSort())
RECAT = z3.Function("recat", I, B)

FUN = {}      # name -> (z3 function, unfold(args) -> formula, arg kinds)


def defsum(name, argsorts, sort, term):
    """F(args, s, e) = sum_{k in [s,e)} term(args, k)"""
    f = z3.Function(name, *argsorts, I, I, sort)
    z = z3.IntVal(0) if sort == I else z3.RealVal(0)

    def unfold(*a):
        *p, s, e = a
        return z3.And(z3.Implies(e <= s, f(*p, s, e) == z),
                      z3.Implies(e > s, f(*p, s, e) == f(*p, s, e - 1) + term(*p, e - 1)))

    def unfoldl(*a):
        """unfolding at the left end (a lemma, proved by induction in lemmas.py)"""
        *p, s, e = a
        return z3.Implies(e > s, f(*p, s, e) == term(*p, s) + f(*p, s + 1, e))
    FUN[name] = dict(fn=f, unfold=unfold, unfoldl=unfoldl, args=list(argsorts) + [I, I], sort=sort, term=term,
                     nparams=len(argsorts))
    return f


def lab(Y, i):
    return z3.ToInt(z3.Select(Y, i))


S = z3.Select
CNT = defsum("CNT", [ColS, AI, I], I, lambda c, P, b, k: z3.If(XB(c, S(P, k)) == b, 1, 0))
CNTLE = defsum("CNTLE", [ColS, AI, I], I, lambda c, P, b, k: z3.If(XB(c, S(P, k)) <= b, 1, 0))
CNTIN = defsum("CNTIN", [ColS, AI, AI, I, I], I,
               lambda c, P, Bn, lo, hi, k: z3.If(INB(Bn, lo, hi, XB(c, S(P, k))), 1, 0))
OCC = defsum("OCC", [AI, I], I, lambda P, x, k: z3.If(S(P, k) == x, 1, 0))
WCNT = defsum("WCNT", [ColS, AI, AR, I], R,
              lambda c, P, W, b, k: z3.If(XB(c, S(P, k)) == b, S(W, S(P, k)), z3.RealVal(0)))
YCNT = defsum("YCNT", [ColS, AI, AR, AR, I, I], R,
              lambda c, P, W, Y, b, l, k: z3.If(z3.And(XB(c, S(P, k)) == b, lab(Y, S(P, k)) == l),
                                                 S(W, S(P, k)), z3.RealVal(0)))
WSUM = defsum("WSUM", [AI, AR], R, lambda P, W, k: S(W, S(P, k)))
LSUM = defsum("LSUM", [AI, AR, AR, I], R,
              lambda P, W, Y, l, k: z3.If(lab(Y, S(P, k)) == l, S(W, S(P, k)), z3.RealVal(0)))
YWSUM = defsum("YWSUM", [AI, AR, AR], R, lambda P, W, Y, k: S(W, S(P, k)) * S(Y, S(P, k)))
YB = defsum("YB", [ColS, AI, AR, AR, I], R,
            lambda c, P, W, Y, b, k: z3.If(XB(c, S(P, k)) == b, S(W, S(P, k)) * S(Y, S(P, k)), z3.RealVal(0)))
Y2B = defsum("Y2B", [ColS, AI, AR, AR, I], R,
             lambda c, P, W, Y, b, k: z3.If(XB(c, S(P, k)) == b,
                                            S(W, S(P, k)) * S(Y, S(P, k)) * S(Y, S(P, k)), z3.RealVal(0)))
LOSSC = defsum("LOSSC", [AI, AR, AR, AR], R,
               lambda P, W, Y, pr, k: -(S(W, S(P, k)) * LOG(S(pr, lab(Y, S(P, k))))))
LOSSR = defsum("LOSSR", [AI, AR, AR, R], R,
               lambda P, W, Y, yp, k: S(W, S(P, k)) * (S(Y, S(P, k)) - yp) * (S(Y, S(P, k)) - yp))
RSUM = defsum("RSUM", [AR], R, lambda A, k: S(A, k))
RSQ = defsum("RSQ", [AR], R, lambda A, k: S(A, k) * S(A, k))
RSUM2 = defsum("RSUM2", [AAR, I], R, lambda A, c, k: S(S(A, k), c))
ISUM = defsum("ISUM", [AI], I, lambda A, k: S(A, k))
PSUMI = defsum("PSUMI", [AI, AI], I, lambda A, Bn, k: S(A, S(Bn, k)))
PSUMR = defsum("PSUMR", [AR, AI], R, lambda A, Bn, k: S(A, S(Bn, k)))
PSUM2 = defsum("PSUM2", [AAR, I, AI], R, lambda A, c, Bn, k: S(S(A, S(Bn, k)), c))
NZ = defsum("NZ", [AI], I, lambda A, k: z3.If(S(A, k) > 0, 1, 0))
ENT = defsum("ENT", [AR, R], R,
             lambda A, w, k: z3.If(S(A, k) > 0, -((S(A, k) / w) * LOG(S(A, k) / w)), z3.RealVal(0)))

# ---- sums over a list of bins of per-bin sample sums, and the per-sample view of the same quantity
PCNT = defsum("PCNT", [ColS, AI, AI, I, I], I, lambda c, P, L, s, e, q: CNT(c, P, S(L, q), s, e))
PWCNT = defsum("PWCNT", [ColS, AI, AR, AI, I, I], R, lambda c, P, W, L, s, e, q: WCNT(c, P, W, S(L, q), s, e))
WIN = defsum("WIN", [ColS, AI, AR, AI, I, I], R,
             lambda c, P, W, L, lo, hi, k: z3.If(INB(L, lo, hi, XB(c, S(P, k))), S(W, S(P, k)), z3.RealVal(0)))
WLE = defsum("WLE", [ColS, AI, AR, I], R, lambda c, P, W, b, k: z3.If(XB(c, S(P, k)) <= b, S(W, S(P, k)), z3.RealVal(0)))

# ---- impurity ingredients of the candidate "first m bins of the list L go left" (A: per-bin class weights)
IDL = z3.Const("identity_list", AI)


def _entt(x, w):
    return z3.If(x > 0, -((x / w) * LOG(x / w)), z3.RealVal(0))


def _yl(A, L, m, c):
    return PSUM2(A, c, L, z3.IntVal(0), m)


def _yr(A, L, m, B, c):
    return RSUM2(A, c, z3.IntVal(0), B) - PSUM2(A, c, L, z3.IntVal(0), m)


RSQL = defsum("RSQL", [AAR, AI, I], R, lambda A, L, m, c: _yl(A, L, m, c) * _yl(A, L, m, c))
RSQR = defsum("RSQR", [AAR, AI, I, I], R, lambda A, L, m, B, c: _yr(A, L, m, B, c) * _yr(A, L, m, B, c))
ENTL = defsum("ENTL", [AAR, AI, I, R], R, lambda A, L, m, w, c: _entt(_yl(A, L, m, c), w))
ENTR = defsum("ENTR", [AAR, AI, I, I, R], R, lambda A, L, m, B, w, c: _entt(_yr(A, L, m, B, c), w))

# ---- named formulas (opaque to the solvers; unfolded by their defining instance D_...)
GINI = z3.Function("GINI", R, R, R)            # (sum of squares, weight)
MSE = z3.Function("MSE", R, R, R, R)           # (y_sq_sum, y_sum, weight)
GAINP = z3.Function("GAINP", R, R, R, R, R)    # (w_left, impurity_left, w_right, impurity_right)
DIFF = z3.Function("DIFF", R, R, R)             # x - y (named so that congruence applies; axiom DIFF)
SMOOTH = z3.Function("SMOOTH", R, R, R, R, R)   # (weight of the class, total weight, number of classes, dirichlet)
NAMED = {"SMOOTH": SMOOTH, "GINI": GINI, "MSE": MSE, "GAINP": GAINP, "DIFF": DIFF}
DEFN = {
    "D_GINI": lambda q, w: GINI(q, w) == 1 - q / (w * w),
    "D_MSE": lambda q, y, w: MSE(q, y, w) == q / w - (y / w) * (y / w),
    "D_SMOOTH": lambda l, w, n, d: SMOOTH(l, w, n, d) == (l + d) / (w + n * d),
    "D_GAINP": lambda wl, il, wr, ir: GAINP(wl, il, wr, ir) == -(wl * il) - wr * ir,
}


# ---- routing through a tree and aggregation along the path ---------------------
# Rt bundles the node table (structure and rules) and the packed matrix
RtS = z3.DeclareSort("Routing")
RT_FIELDS = [("n", I), ("is_leaf", AB), ("left", AI), ("right", AI), ("is_cat", AB), ("feature", AI), ("bt", AI), ("bps", AI),
             ("bpe", AI), ("parts", AI), ("bits", AI), ("offs", AI), ("nvw", AI), ("nb", AI)]
MKRT = z3.Function("mkrt", *[srt for _, srt in RT_FIELDS], RtS)
GL = z3.Function("goleft", RtS, I, I, B)                      # (r, sample, node)
LEAF = z3.Function("leafof", RtS, I, I, I)
ONP = z3.Function("onpath", RtS, AI, I, I, B)                 # (r, parent, sample, node)
AGGC = z3.Function("aggc", RtS, AR, AR, AAR, R, I, I, I, R)   # (r, loss, logw, y_pred, step, sample, node, class)
AGGR = z3.Function("aggr", RtS, AR, AR, AR, R, I, I, R)
AGGD = z3.Function("aggd", RtS, AR, AR, AI, R, I, I, R)       # the same over node depths


class Rt:
    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.t = MKRT(*[kw[f] for f, _ in RT_FIELDS])

    @staticmethod
    def const(tag=""):
        return Rt(**{f: z3.Const(f + tag, srt) for f, srt in RT_FIELDS})

    def col(self, k):
        f = S(self.feature, k)
        return MKCOL(self.bits, S(self.offs, f), S(self.nvw, f), S(self.nb, f))

    def next(self, i, k):
        return z3.If(GL(self.t, i, k), S(self.left, k), S(self.right, k))

    def down(self, i, k):
        """k is an internal node whose next node lies further down the table"""
        return z3.And(0 <= k, z3.Not(S(self.is_leaf, k)), self.next(i, k) > k, self.next(i, k) < self.n)

    # definitions (each well founded: downwards the node number grows and is bounded, upwards it shrinks)
    def d_goleft(self, i, k):
        b = XB(self.col(k), i)
        return GL(self.t, i, k) == z3.If(S(self.is_cat, k), INB(self.parts, S(self.bps, k), S(self.bpe, k), b), b <= S(self.bt, k))

    def d_leafof(self, i, k):
        return z3.And(z3.Implies(S(self.is_leaf, k), LEAF(self.t, i, k) == k),
                      z3.Implies(self.down(i, k), LEAF(self.t, i, k) == LEAF(self.t, i, self.next(i, k))))

    def d_onpath(self, parent, i, k):
        p = S(parent, k)
        return ONP(self.t, parent, i, k) == z3.Or(k == 0, z3.And(0 <= p, p < k, z3.Not(S(self.is_leaf, p)), self.next(i, p) == k,
                                                               ONP(self.t, parent, i, p)))

    def d_agg(self, f, val, alpha, i, k):
        """f(k): aggregated value of the subtree of k along the path; val / alpha: of one node"""
        return z3.And(z3.Implies(S(self.is_leaf, k), f(k) == val(k)),
                      z3.Implies(self.down(i, k), f(k) == alpha(k) * val(k) + (1 - alpha(k)) * f(self.next(i, k))))

    def alpha(self, loss, logw, step):
        return lambda k: z3.RealVal("1/2") * EXP(-step * S(loss, k) - S(logw, k))

    def d_aggc(self, loss, logw, yp, step, i, k, c):
        return self.d_agg(lambda v: AGGC(self.t, loss, logw, yp, step, i, v, c), lambda v: S(S(yp, v), c), self.alpha(loss, logw, step), i, k)

    def d_aggr(self, loss, logw, yp, step, i, k):
        return self.d_agg(lambda v: AGGR(self.t, loss, logw, yp, step, i, v), lambda v: S(yp, v), self.alpha(loss, logw, step), i, k)

    def d_aggd(self, loss, logw, dep, step, i, k):
        return self.d_agg(lambda v: AGGD(self.t, loss, logw, dep, step, i, v), lambda v: z3.ToReal(S(dep, v)), self.alpha(loss, logw, step), i, k)


def _ax():
    x, y = z3.Reals("x!a y!a")
    A, B_ = z3.Const("A!a", AI), z3.Const("B!a", AI)
    lo, hi, b, q = z3.Ints("lo!a hi!a b!a q!a")
    ax = {}
    ax["exp_pos"] = ([EXP], z3.ForAll([x], EXP(x) > 0, patterns=[EXP(x)]))
    ax["log_exp"] = ([LOG, EXP], z3.ForAll([x], LOG(EXP(x)) == x, patterns=[LOG(EXP(x))]))
    ax["exp_log"] = ([LOG, EXP], z3.ForAll([x], z3.Implies(x > 0, EXP(LOG(x)) == x), patterns=[EXP(LOG(x))]))
    ax["log_le1"] = ([LOG], z3.ForAll([x], z3.Implies(z3.And(x > 0, x <= 1), LOG(x) <= 0), patterns=[LOG(x)]))
    W = INBW(A, lo, hi, b)
    ax["inb_elim"] = ([INB], z3.ForAll([A, lo, hi, b], z3.Implies(
        INB(A, lo, hi, b), z3.And(lo <= W, W < hi, z3.Select(A, W) == b)), patterns=[INB(A, lo, hi, b)]))
    ax["inb_intro"] = ([INB], z3.ForAll([A, lo, hi, b, q], z3.Implies(
        z3.And(lo <= q, q < hi, z3.Select(A, q) == b), INB(A, lo, hi, b)),
        patterns=[z3.MultiPattern(INB(A, lo, hi, b), z3.Select(A, q))]))
    ax["idl"] = ([IDL], z3.ForAll([q], z3.Select(IDL, q) == q, patterns=[z3.Select(IDL, q)]))
    ax["diff"] = ([DIFF], z3.ForAll([x, y], DIFF(x, y) == x - y, patterns=[DIFF(x, y)]))
    ax["nodeat"] = ([NODEAT], z3.ForAll([q], NODEAT(q), patterns=[NODEAT(q)]))
    ax["binat"] = ([BINAT], z3.ForAll([q], BINAT(q), patterns=[BINAT(q)]))
    ax["recat"] = ([RECAT], z3.ForAll([q], RECAT(q), patterns=[RECAT(q)]))
    ax["pinf"] = ([PINF], PINF > 0)
    for name, info in FUN.items():      # an empty sum is zero (part of the definition)
        vs = [z3.Const(f"v{i}!a", srt) for i, srt in enumerate(info["args"])]
        t = info["fn"](*vs)
        ax["empty_" + name] = ([info["fn"]], z3.ForAll(vs, z3.Implies(vs[-1] <= vs[-2], t == (0 if info["sort"] == I else z3.RealVal(0))),
                                                       patterns=[t]))
    return ax


AXIOMS = _ax()
RAW = dict(DEFN)      # name -> python function building a raw formula (lemma instances)


def exp_add(a, b):
    return EXP(a + b) == EXP(a) * EXP(b)


def symbols(t, seen=None):
    """set of uninterpreted function symbol names (incl. constants) in a term"""
    seen = set() if seen is None else seen
    out = set()
    stack = [t]
    while stack:
        u = stack.pop()
        i = u.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(u):
            stack.append(u.body())
            for k in range(u.num_patterns()):
                stack.append(u.pattern(k))
            continue
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(u.decl().name())
            stack.extend(u.children())
    return out

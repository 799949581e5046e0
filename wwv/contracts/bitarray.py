"""The bit-packed feature matrix."""
from . import reg, define
from ..execu import Contract, Loop
from ..front import Ty

U64 = Ty("int", "uint64")


def arr(name, nd=1):
    return Ty("arr", "", Ty("int", name), nd)


define("packok", ["nv", "nb"], "1 <= nb and nb <= 64 and 1 <= nv and nv * nb <= 64")
# structure of a packed matrix (independent of the values stored in it)
define("fb_shape", ["fb"],
       "len(fb.max_values) == fb.n_features and len(fb.n_bits) == fb.n_features and len(fb.bitmasks) == fb.n_features"
       " and len(fb.n_values_in_words) == fb.n_features and len(fb.offsets) == fb.n_features + 1")
define("fb_cols", ["fb"],
       "all(1 <= fb.n_bits[j] and fb.n_bits[j] <= 64 for j in range(fb.n_features))"
       " and all(1 <= fb.n_values_in_words[j] for j in range(fb.n_features))"
       " and all(fb.n_values_in_words[j] * fb.n_bits[j] <= 64 for j in range(fb.n_features))"
       " and all(fb.bitmasks[j] == mask(fb.n_bits[j]) for j in range(fb.n_features))"
       " and all(fb.max_values[j] <= fb.bitmasks[j] for j in range(fb.n_features))")
define("fb_offs", ["fb"],
       "fb.offsets[0] == 0"
       " and all(trig(implies(p <= q, fb.offsets[p] <= fb.offsets[q]), fb.offsets[p], fb.offsets[q]) for p in range(fb.n_features + 1) for q in range(fb.n_features + 1))"
       " and all((fb.offsets[j + 1] - fb.offsets[j]) * fb.n_values_in_words[j] >= fb.n_samples for j in range(fb.n_features))"
       " and fb.offsets[fb.n_features] == len(fb.bitarray)")
define("fb_ok", ["fb"], "fb_shape(fb) and fb_cols(fb) and fb_offs(fb)")
define("fbcol", ["fb", "j"], "mkcol(fb.bitarray[fb.offsets[j]:], fb.n_values_in_words[j], fb.n_bits[j])")
# every stored value is at most the column's maximum
define("fb_vals", ["fb"], "all(trig(implies(0 <= j and j < fb.n_features and 0 <= i and i < fb.n_samples,"
       " 0 <= xb(fbcol(fb, j), i) and xb(fbcol(fb, j), i) <= fb.max_values[j]), xb(fbcol(fb, j), i)) for i in Int for j in Int)")

reg(Contract(
    "features_bitarray.get_value_from_column",
    requires=["packok(n_values_in_word, n_bits)", "bitmask == mask(n_bits)", "i < len(bitarray) * n_values_in_word"],
    ensures=["result == xb(mkcol(bitarray, n_values_in_word, n_bits), i)", "result <= bitmask"],
    entry_facts=["L_qr(i, n_values_in_word)", "L_quo_lt(i, len(bitarray), n_values_in_word)",
                 "L_mul_le(n_values_in_word - rem(i, n_values_in_word), n_values_in_word, n_bits)",
                 "L_mul_le(0, n_values_in_word - rem(i, n_values_in_word) - 1, n_bits)",
                 "xbdef(bitarray, n_values_in_word, n_bits, i)",
                 "L_get(bitarray[quo(i, n_values_in_word)], (n_values_in_word - rem(i, n_values_in_word) - 1) * n_bits, n_bits)",
                 "L_field_le(bitarray[quo(i, n_values_in_word)], (n_values_in_word - rem(i, n_values_in_word) - 1) * n_bits, n_bits)"]))

_last = "((rem(n - 1, nv) if quo(p, nv) == quo(n - 1, nv) else nv - 1) - rem(p, nv))".replace("nv", "n_values_in_word")
_NV, _NB = "n_values_in_word", "n_bits"
reg(Contract(
    "features_bitarray._features_bitarray_fill_column",
    params={"col_bitarray": arr("uint64"), "n_bits": U64, "n_values_in_word": U64, "col": arr("uint64")}, ret=Ty("void", "void"),
    variants=[dict(name=t, params={"col": arr(t)}) for t in ("uint64", "int64", "int8", "uint8", "int16", "uint16", "int32", "uint32")],
    requires=["packok(n_values_in_word, n_bits)", "len(col) <= len(col_bitarray) * n_values_in_word",
              "all(0 <= col[p] and col[p] <= mask(n_bits) for p in range(len(col)))"],
    ensures=["all(trig(xb(mkcol(col_bitarray, n_values_in_word, n_bits), p) == col[p], xb(mkcol(col_bitarray, n_values_in_word, n_bits), p))"
             " for p in range(len(col)))"],
    modifies=["col_bitarray[*]"],
    entry_facts=[f"L_qr_zero({_NV})"],
    loops={0: Loop(
        counter="n",
        inv=["implies(n >= 1, word == quo(n - 1, n_values_in_word) and pos_in_word == rem(n - 1, n_values_in_word))",
             f"all(trig(field(col_bitarray[quo(p, {_NV})], {_last} * n_bits, n_bits) == col[p], col[p]) for p in range(n))"],
        head=[f"L_qr(n, {_NV})", f"L_quo_lt(n, len(col_bitarray), {_NV})", f"implies(n >= 1, L_qr_step(n - 1, {_NV}) and L_qr(n - 1, {_NV}))",
              f"L_first(col[n], n_bits)", f"L_push0(col_bitarray[quo(n, {_NV})], col[n], n_bits)", f"L_mul_le(2, {_NV}, n_bits)",
              f"all(trig(implies(p < n, L_qr_mono(p, n - 1, {_NV}) and L_qr(p, {_NV}) and L_mul_le(rem(n - 1, {_NV}) - rem(p, {_NV}) + 2, {_NV}, n_bits)"
              f" and L_mul_le(0, rem(n - 1, {_NV}) - rem(p, {_NV}), n_bits)"
              f" and L_mul_succ(rem(n, {_NV}) - rem(p, {_NV}), rem(n - 1, {_NV}) - rem(p, {_NV}), n_bits)"
              f" and L_mul_eq(rem(n - 1, {_NV}) - rem(p, {_NV}), {_NV} - 1 - rem(p, {_NV}), n_bits)"
              f" and L_push(col_bitarray[quo(n, {_NV})], col[n], (rem(n - 1, {_NV}) - rem(p, {_NV})) * n_bits, n_bits)), col[p]) for p in range(n))"],
        exit=[f"L_qr(n - 1, {_NV})", f"L_quo_lt(n - 1, len(col_bitarray), {_NV})",
              f"L_mul_le({_NV} - rem(n - 1, {_NV}) , {_NV}, n_bits)", f"L_mul_le(0, {_NV} - rem(n - 1, {_NV}) - 1, n_bits)",
              f"all(trig(implies(p < n, xbdef(old(col_bitarray), {_NV}, n_bits, p)), col[p]) for p in range(n))" if 0 else f"L_qr_zero({_NV})",
              f"all(trig(implies(p < n, L_qr_mono(p, n - 1, {_NV}) and L_qr(p, {_NV})"
              f" and L_mul_le(0, rem(n - 1, {_NV}) - rem(p, {_NV}), n_bits) and L_mul_le({_NV} - rem(p, {_NV}), {_NV}, n_bits)"
              f" and L_align(col_bitarray[quo(n - 1, {_NV})], ({_NV} - rem(n - 1, {_NV}) - 1) * n_bits, (rem(n - 1, {_NV}) - rem(p, {_NV})) * n_bits, n_bits)),"
              f" col[p]) for p in range(n))"])},
    exit_facts=[f"all(trig(xbdef(col_bitarray, {_NV}, n_bits, p), xb(mkcol(col_bitarray, {_NV}, {_NB}), p)) for p in range(len(col)))"],
))


# value stored for sample i in column j, spelled out
define("fbval", ["fb", "i", "j"],
       "field(fb.bitarray[fb.offsets[j] + quo(i, fb.n_values_in_words[j])],"
       " (fb.n_values_in_words[j] - rem(i, fb.n_values_in_words[j]) - 1) * fb.n_bits[j], fb.n_bits[j])")
_wlt = "L_quo_lt({i}, fb.offsets[{j} + 1] - fb.offsets[{j}], fb.n_values_in_words[{j}]) and L_qr({i}, fb.n_values_in_words[{j}])"

reg(Contract(
    "features_bitarray.FeaturesBitArray.__init__",
    params={"self": Ty("obj", "FeaturesBitArray"), "n_samples": U64, "max_values": arr("uint64")}, ret=Ty("void", "void"),
    variants=[dict(name="uint64"), dict(name="int64", params={"n_samples": Ty("int", "int64")})],
    requires=["0 <= n_samples", "n_samples * len(max_values) <= 281474976710656", "n_samples <= 281474976710656"],
    binds={"max_values": "max_values"},
    ensures=["self.n_samples == n_samples", "self.n_features == len(max_values)", "same(self.max_values, max_values)", "fb_ok(self)",
             "isfresh(self.bitarray) and isfresh(self.offsets) and isfresh(self.n_bits) and isfresh(self.n_values_in_words) and isfresh(self.bitmasks)"],
    entry_facts=["L_mask_ends(0)"],
    loops={
        0: Loop(counter="n",
                inv=["0 <= offset", "offset <= n * n_samples", "self.offsets[0] == 0", "self.offsets[n] == offset",
                     "all(trig(implies(p <= q, self.offsets[p] <= self.offsets[q]), self.offsets[p], self.offsets[q]) for p in range(n + 1) for q in range(n + 1))",
                     "all(1 <= self.n_bits[p] and self.n_bits[p] <= 64 for p in range(n))",
                     "all(1 <= self.n_values_in_words[p] for p in range(n))",
                     "all(self.n_values_in_words[p] * self.n_bits[p] <= 64 for p in range(n))",
                     "all(self.bitmasks[p] == mask(self.n_bits[p]) for p in range(n))",
                     "all(max_values[p] <= self.bitmasks[p] for p in range(n))",
                     "all((self.offsets[p + 1] - self.offsets[p]) * self.n_values_in_words[p] >= n_samples for p in range(n))"],
                head=["L_mul_succ(n + 1, n, n_samples)", "L_mul_le(n + 1, len(max_values), n_samples)",
                      "L_mask_ends(0)"],
                facts=["L_ceil(n_samples, self.n_values_in_words[n])"]),
        1: Loop(inv=["1 <= n_bits", "n_bits <= 64", "bitmask == mask(n_bits)"], head=["L_mask_step(n_bits)", "L_mask_ends(0)"],
                exit=["L_qr(64, n_bits)", "L_mul_le(1, 64, 1)"], decreases="64 - n_bits"),
    }))

reg(Contract(
    "features_bitarray._features_bitarray_fill_values",
    params={"features_bitarray": Ty("obj", "FeaturesBitArray"), "X": arr("uint64", 2)}, ret=Ty("void", "void"),
    variants=[dict(name=t, params={"X": arr(t, 2)}) for t in ("uint64", "uint32", "uint16", "uint8")],
    requires=["fb_ok(features_bitarray)", "X.shape[0] == features_bitarray.n_samples", "X.shape[1] == features_bitarray.n_features",
              "all(0 <= X[i, j] and X[i, j] <= features_bitarray.max_values[j] for i in range(X.shape[0]) for j in range(X.shape[1]))"],
    ensures=["all(trig(fbval(features_bitarray, i, j) == X[i, j], X[i, j]) for i in range(X.shape[0]) for j in range(X.shape[1]))"],
    modifies=["features_bitarray.bitarray[*]"],
    loops={0: Loop(
        counter="n",
        inv=["all(trig(fbval(features_bitarray, i, j) == X[i, j], X[i, j]) for i in range(X.shape[0]) for j in range(n))"],
        facts=["all(trig(xbdef(bitarray[offsets[n]:offsets[n + 1]], n_values_in_words[n], n_bits[n], i), X[i, n]) for i in range(X.shape[0]))",
               "all(trig(" + _wlt.format(i="i", j="j").replace("fb.", "features_bitarray.") + ", X[i, j]) for i in range(X.shape[0]) for j in range(X.shape[1]))"])}))

reg(Contract(
    "features_bitarray.features_bitarray_fill_column",
    params={"features_bitarray": Ty("obj", "FeaturesBitArray"), "col_idx": U64, "col": arr("uint64")}, ret=Ty("void", "void"),
    variants=[dict(name=t, params={"col": arr(t)}) for t in ("uint64", "int8", "int16", "int32", "int64")],
    requires=["fb_ok(features_bitarray)", "col_idx < features_bitarray.n_features", "len(col) == features_bitarray.n_samples",
              "all(0 <= col[i] and col[i] <= features_bitarray.max_values[col_idx] for i in range(len(col)))"],
    ensures=["all(trig(fbval(features_bitarray, i, col_idx) == col[i], col[i]) for i in range(len(col)))",
             "all(trig(implies(j != col_idx, fbval(features_bitarray, i, j) == old(fbval(features_bitarray, i, j))), quo(i, features_bitarray.n_values_in_words[j]))"
             " for i in range(len(col)) for j in range(features_bitarray.n_features))"],
    modifies=["features_bitarray.bitarray[*]"],
    exit_facts=["all(trig(xbdef(col_bitarray, n_values_in_word, n_bits, i), col[i]) for i in range(len(col)))",
                "all(trig(" + _wlt.format(i="i", j="j").replace("fb.", "features_bitarray.") + ", quo(i, features_bitarray.n_values_in_words[j]))"
                " for i in range(len(col)) for j in range(features_bitarray.n_features))"]))

reg(Contract(
    "features_bitarray.get_value",
    requires=["fb_ok(features_bitarray)", "j < features_bitarray.n_features", "i < features_bitarray.n_samples"],
    ensures=["result == fbval(features_bitarray, i, j)", "result == xb(fbcol(features_bitarray, j), i)"],
    exit_facts=["xbdef(bitarray_j, n_values_in_word, n_bits_j, i)"]))

reg(Contract(
    "features_bitarray._features_bitarray_to_array",
    params={"X": arr("uint64", 2)},
    variants=[dict(name=t, params={"X": arr(t, 2)}, sig=k) for k, t in ((3, "uint64"), (2, "uint32"), (1, "uint16"), (0, "uint8"))],
    requires=["fb_ok(features_bitarray)", "X.shape[0] == features_bitarray.n_samples", "X.shape[1] == features_bitarray.n_features",
              "all(trig(fbval(features_bitarray, i, j) <= tmax(X), quo(i, features_bitarray.n_values_in_words[j])) for i in range(X.shape[0]) for j in range(X.shape[1]))"],
    ensures=["all(trig(X[i, j] == fbval(features_bitarray, i, j), X[i, j]) for i in range(X.shape[0]) for j in range(X.shape[1]))"],
    modifies=["X[*]"],
    loops={0: Loop(counter="n", inv=[
        "all(trig(X[i, j] == fbval(features_bitarray, i, j), X[i, j]) for i in range(X.shape[0]) for j in range(n))"]),
        1: Loop(counter="m", inv=[
            "all(trig(X[i, j] == fbval(features_bitarray, i, j), X[i, j]) for i in range(X.shape[0]) for j in range(n))",
            "all(trig(X[i, n] == fbval(features_bitarray, i, n), X[i, n]) for i in range(m))"],
            head=["xbdef(bitarray_j, n_values_in_word, n_bits_j, m)", "L_qr(m, n_values_in_word)"])}))

_UT = ("uint64", "uint32", "uint16", "uint8")
reg(Contract(
    "features_bitarray.array_to_bitarray",
    params={"X": arr("uint64", 2)}, ret=Ty("obj", "FeaturesBitArray"), variants=[dict(name=t, params={"X": arr(t, 2)}) for t in _UT],
    requires=["X.shape[0] * X.shape[1] <= 281474976710656", "all(0 <= X[i, j] for i in range(X.shape[0]) for j in range(X.shape[1]))"],
    ensures=["fb_ok(result)", "result.n_samples == X.shape[0]", "result.n_features == X.shape[1]",
             "all(trig(fbval(result, i, j) == X[i, j], X[i, j]) for i in range(X.shape[0]) for j in range(X.shape[1]))",
             "all(trig(X[i, j] <= result.max_values[j], X[i, j]) for i in range(X.shape[0]) for j in range(X.shape[1]))"]))
reg(Contract(
    "features_bitarray.features_bitarray_to_array",
    params={"features_bitarray": Ty("obj", "FeaturesBitArray")}, ret=arr("uint64", 2),
    requires=["fb_ok(features_bitarray)", "features_bitarray.n_samples <= 281474976710656",
              "all(trig(fbval(features_bitarray, i, j) <= features_bitarray.max_values[j], quo(i, features_bitarray.n_values_in_words[j]))"
              " for i in range(features_bitarray.n_samples) for j in range(features_bitarray.n_features))"],
    ensures=["result.shape[0] == features_bitarray.n_samples", "result.shape[1] == features_bitarray.n_features",
             "all(trig(result[i, j] == fbval(features_bitarray, i, j), result[i, j]) for i in range(features_bitarray.n_samples)"
             " for j in range(features_bitarray.n_features))"]))

"""Bootstrap: the split of the samples into in-the-bag / out-of-the-bag, and the weights handed to the trees."""
from . import reg
from ..execu import Contract
from ..front import Ty

I64, U64, F32 = Ty("int", "int64"), Ty("int", "uint64"), Ty("float", "float32")
_ix = Ty("arr", "", U64, 1)


def split_facts(t, v, c, n):
    return [
        f"len({t}) + len({v}) == {n} and len({t}) >= 1 and len({v}) >= 1 and len({c}) == len({t})",
        f"all(trig(0 <= {t}[p] and {t}[p] < {n}, {t}[p]) for p in range(len({t})))",
        f"all(trig(0 <= {v}[p] and {v}[p] < {n}, {v}[p]) for p in range(len({v})))",
        f"all(trig(implies(p < q, {t}[p] < {t}[q]), {t}[p], {t}[q]) for p in range(len({t})) for q in range(len({t})))",
        f"all(trig(implies(p < q, {v}[p] < {v}[q]), {v}[p], {v}[q]) for p in range(len({v})) for q in range(len({v})))",
        f"all(trig({t}[p] != {v}[q], {t}[p], {v}[q]) for p in range(len({t})) for q in range(len({v})))",
        f"all(trig(1 <= {c}[p], {c}[p]) for p in range(len({c})))",
        f"ISUM({c}, 0, len({c})) == {n}",
    ]


reg(Contract(
    "forest._generate_train_valid_samples",
    params={"random_state": I64, "n_samples": I64}, ret=Ty("tuple", items=(_ix, _ix, _ix)),
    requires=["2 <= n_samples and n_samples <= 281474976710656", "0 <= random_state and random_state <= 4294967295"],
    ensures=split_facts("result[0]", "result[1]", "result[2]", "n_samples") + [
        "isfresh(result[0]) and isfresh(result[1]) and isfresh(result[2])"],
    exit_facts=[("assert", "rng_seed == random_state and rng_randint_0 == 0 and rng_randint_1 == n_samples and rng_randint_2 == n_samples")],
    modifies=[], observed=True, lemmas=("le_ISUM", "select_ISUM", "card_ISUM", "compl_ISUM")))


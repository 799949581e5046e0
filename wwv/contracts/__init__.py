"""Contracts (pre/post-conditions, invariants, frames, hints) for the functions of wildwood."""
CONTRACTS = {}
DEFS = {}


def reg(c):
    assert c.qual not in CONTRACTS, c.qual
    CONTRACTS[c.qual] = c
    return c


def define(name, params, body):
    DEFS[name] = (params, body)


def load():
    from .. import lemmas  # noqa (registers the lemma instances)
    from . import basic, bitarray, split, node, tree, search, grow, boot, fit  # noqa
    if "_grow.grow" not in CONTRACTS:
        grow.install(CONTRACTS)
    return CONTRACTS, DEFS

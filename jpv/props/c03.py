"""C03: sharing and cycles between objects are preserved."""

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph
from ..core import lib

BUDGET = {"quick": 4500, "thorough": 60000}
KINDS = gen.family() + gen.family("readonly", "norepr")
DYN = gen.family("dyn")
LEAF = gen.leaf("enum", "type", "func", "std", "iter", "nul", "cx", "ba", "mod", "rng")


def strategy(tier):
    size = 14 if tier == "thorough" else 9
    return st.sampled_from([gen.graph(KINDS, LEAF, max_nodes=size)] * 2 + [gen.graph(KINDS + DYN, LEAF, max_nodes=size)]).flatmap(lambda s: s)


def check(case, ctx):
    root, objs, nodes = graph.build(case)
    size, shared, cyclic = graph.shape(nodes, case["root"])
    ctx.nontrivial = size >= 3 and (shared >= 1 or cyclic)
    if shared:
        ctx.label("shared")
    if cyclic:
        ctx.label("cyclic")
    text = lib("encode", jsonpickle.encode, root)
    dec = lib("decode", jsonpickle.decode, text)
    compare.same_graph(root, dec)

"""C37: encoding what was decoded gives the same document again."""

import jsonpickle
from hypothesis import strategies as st

from .. import gen, graph, zoo
from ..core import Violation, lib, short
from . import c04

BUDGET = {"quick": 4000, "thorough": 60000}
# sets come back in another order
KINDS = [k for k in gen.family() + gen.family("dyn") if not issubclass(zoo.KINDS[k].cls, (set, frozenset))]
LEAF = gen.leaf("float", "enum", "type", "func", "std", "cx", "ba", "mod", "rng", "slc")
# iterators come back as list iterators, and unnamed functions not at all
LOSSY = gen.leaf("float", "enum", "type", "std", "iter", "nul")


def strategy(tier):
    size = 14 if tier == "thorough" else 9
    anykey = gen.graph(KINDS + c04.HASHABLE * 40, LEAF, key=c04.KEY, containers="DDDDMMTL", inst=4, max_nodes=size)
    graphs = [gen.graph(KINDS, leaf, max_nodes=size, containers="LLDDTM") for leaf in [LEAF] * 4 + [LOSSY]]
    opts = st.fixed_dictionaries({}, optional={
            "use_base85": st.just(True), "numeric_keys": st.just(True), "make_refs": st.just(True),
            "indent": st.just(1)})
    plain = st.fixed_dictionaries({"graph": st.sampled_from(graphs).flatmap(lambda s: s), "opts": opts, "keys": st.booleans()})
    keyed = st.fixed_dictionaries({"graph": anykey, "opts": opts, "keys": st.just(True)})
    return st.sampled_from([plain, plain, keyed]).flatmap(lambda s: s)


def check(case, ctx):
    root, objs, nodes = graph.build(case["graph"])
    size, shared, cyclic = graph.shape(nodes, case["graph"]["root"])
    ctx.nontrivial = size >= 2
    keys = {"keys": True} if case["keys"] else {}
    opts = dict(case["opts"])
    one = lib("encode", jsonpickle.encode, root, **keys, **opts)
    dec = lib("decode", jsonpickle.decode, one, **keys)
    two = lib("encode again", jsonpickle.encode, dec, **keys, **opts)
    if "('nul', " in repr(case) or "('iter', " in repr(case):
        ctx.label("lossy values")
        dec = lib("decode again", jsonpickle.decode, two, **keys)
        one, two = two, lib("encode a third time", jsonpickle.encode, dec, **keys, **opts)
    if one == two:
        return
    raise Violation(f"first {short(one, 400)}\nagain {short(two, 400)}")

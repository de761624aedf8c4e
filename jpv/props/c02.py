"""C02: instances come back as the same class with the same state."""

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph, zoo
from ..core import Violation, lib

BUDGET = {"quick": 4000, "thorough": 60000}
ZOO = gen.family() + gen.family("readonly", "norepr")
DYN = gen.family("dyn")
LEAF = st.one_of(gen.tiny, gen.leaf("enum", "type", "func", "std", "iter", "nul", "cx", "ba", "mod", "rng", "slc",
                                    "float"), gen.scalar)
NAMES = st.one_of(gen.attr_name, st.sampled_from(["py_object", "json://a", "a b", "x.y", "0", "default_factory", "exemplar", "dtype", "",
                                                  "__name__", "__doc__", "_fields", "self", "cls", "mro", "__wrapped__"]))


def strategy(tier):
    big = 14 if tier == "thorough" else 9
    return st.one_of(
        gen.graph(ZOO, LEAF, inst=8, max_nodes=5, names=NAMES),
        gen.graph(ZOO, LEAF, inst=8, max_nodes=big, names=NAMES),
        gen.graph(DYN, LEAF, inst=8, max_nodes=5, names=NAMES),
        gen.graph(ZOO + DYN, LEAF, inst=8, max_nodes=big, names=NAMES),
    )


EXAMPLES = [{"nodes": [("I", k, [1, "x", ("@", 1)], [("a", ("@", 1)), ("_u", "v"), ("name", b"z")]),
                       ("I", o, [None, 2.5], [("b", [])])], "root": r}
            for k in ZOO + DYN for o, r in (("Plain", 0), ("SlotSub", 1))]
for _e in EXAMPLES:
    _e["nodes"] = [("I", n[1], n[2], [(a, 7 if c == [] else c) for a, c in n[3]]) for n in _e["nodes"]]


def legal(node):
    """The factory of a default dictionary is not an attribute, and classes under this name run constructors by design."""
    if node[0] != "I":
        return node
    drop = issubclass(zoo.KINDS[node[1]].cls, dict)
    return (*node[:3], [(k, v) for k, v in node[3] if k != "default_factory" or not (drop or isinstance(v, tuple) and v[0] == "type")])


def check(case, ctx):
    zoo.INIT_LOG.clear()
    root, objs, nodes = graph.build(dict(case, nodes=[legal(n) for n in case["nodes"]]), acyclic=True)
    zoo.INIT_LOG.clear()
    kinds = {n[1] for n in nodes if n[0] == "I"}
    ctx.nontrivial = len(kinds) >= 1 and sum(len(n[2]) + len(n[3]) for n in nodes if n[0] == "I") >= 2
    for k in kinds:
        for f in zoo.KINDS[k].families:
            ctx.label(f)
    text = lib("encode", jsonpickle.encode, root)
    dec = lib("decode", jsonpickle.decode, text)
    compare.same_graph(root, dec, identity=False)
    ran = [n for n in zoo.INIT_LOG if n != "InitArgs"]
    if ran:
        raise Violation(f"the constructor of {ran[0]} was run")

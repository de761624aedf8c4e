"""C04: dictionaries with arbitrary keys survive when key encoding is on."""

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph
from ..core import lib

BUDGET = {"quick": 4000, "thorough": 60000}
KINDS = gen.family(exclude=("Callable",))
HASHABLE = ["Hashed", "HashedNew", "KeyData"]
LEAF = gen.leaf("enum", "type", "func", "std", "iter", "cx", "ba")
KEY = st.one_of(
    gen.ref, gen.ref, gen.ref,
    gen.leaf("enum", "type", "func", "std", "cx", "rng"),
    st.sampled_from([None, True, False, 0, -1, 2**70, 0.5, -0.0, 1e300, b"", b"\xff\x00", ("inf", 1), ("nan",)]),
    st.sampled_from(gen.RESERVED), st.sampled_from(gen.MARKUP), gen.str_key, gen.scalar,
).map(lambda k: ("enum", 0) if k in (("enum", 5), ("enum", 6)) else k)  # those are strings


def strategy(tier):
    big = 14 if tier == "thorough" else 9
    return st.one_of(
        gen.graph(HASHABLE, LEAF, key=KEY, containers="DDDDMMTTFL", inst=3, refs=5, max_nodes=6),
        gen.graph(HASHABLE, LEAF, key=KEY, containers="DDDDMMTTFL", inst=3, refs=7, max_nodes=big),
        gen.graph(KINDS + HASHABLE * 20, LEAF, key=KEY, containers="DDDDMMTTFLS", inst=4, refs=7, max_nodes=big),
    )


def check(case, ctx):
    root, objs, nodes = graph.build(case)
    dicts = [o for o in objs.values() if isinstance(o, dict)]
    odd = [k for d in dicts for k in d if type(k) is not str]
    markup = [k for d in dicts for k in d if type(k) is str and (k in gen.RESERVED or k.startswith("json://"))]
    ctx.nontrivial = len(odd) + len(markup) >= 2
    for k in odd:
        ctx.label("key " + type(k).__name__)
    if markup:
        ctx.label("key markup")
    text = lib("encode", jsonpickle.encode, root, keys=True)
    dec = lib("decode", jsonpickle.decode, text, keys=True)
    compare.same_graph(root, dec, ordered=False)

"""C01: plain built-in data survives encode then decode exactly."""

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph
from ..core import lib

BUDGET = {"quick": 4000, "thorough": 60000}
RICH = st.one_of(
    gen.scalar, gen.special_float,
    gen.leaf("float", "cx", "ba", "rng", "slc"),
    st.tuples(st.just("ba"), gen.blob),
    st.tuples(st.just("slc"), st.none() | gen.any_int, st.none() | gen.any_int, st.none() | gen.any_int),
    st.tuples(st.just("rng"), gen.any_int, gen.any_int, st.sampled_from([1, -1, 3, 2**40])),
    st.tuples(st.just("cx"), gen.finite, gen.finite),
)
KEY = st.one_of(gen.str_key, gen.text, st.sampled_from(gen.RESERVED))


def options():
    return st.fixed_dictionaries({}, optional={
        "keys": st.just(True),
        "use_base85": st.just(True),
        "make_refs": st.just(False),
        "indent": st.sampled_from([0, 1, 4]),
        "separators": st.sampled_from([(",", ":"), (", ", ": "), (" , ", " : ")]),
        "warn": st.just(True),
        "numeric_keys": st.just(True),
        "max_depth": st.just(500),
        "max_iter": st.just(7),
    })


def strategy(tier):
    return st.fixed_dictionaries({
        "graph": gen.graph([], RICH, key=KEY, containers="LLLDDDTTTSFF",
                           max_nodes=14 if tier == "thorough" else 9),
        "opts": options(),
        "wrap": st.one_of(st.just(""), st.just(""), st.text("LDT", max_size=5), st.text("LDT", max_size=70)),
    })


EXAMPLES = [{"graph": {"nodes": [("L", [v])], "root": 0}, "opts": o, "wrap": ""}
            for v in gen.MARKUP + [2**64, -0.0, ("nan",), ("inf", -1), b"\x00\xff", ""]
            for o in ({}, {"keys": True})]


def plain_keys(value):
    """Without key encoding reserved tag names cannot be used as keys."""
    t = type(value)
    if t is dict:
        return {(k + "_" if k in gen.RESERVED else k): plain_keys(v) for k, v in value.items()}
    if t in (list, tuple):
        return t(plain_keys(v) for v in value)
    return value


def measure(value, depth, types):
    t = type(value)
    types.add(t)
    if t is dict:
        for k in value:
            types.add(("key", k in gen.RESERVED or k.startswith("json://")))
        return max([measure(v, depth + 1, types) for v in value.values()], default=depth)
    if t in (list, tuple, set, frozenset):
        return max([measure(v, depth + 1, types) for v in value], default=depth)
    return depth


def check(case, ctx):
    value, _, _ = graph.build(case["graph"], acyclic=True)
    opts = case["opts"]
    for c in case["wrap"]:
        value = [value] if c == "L" else {"k": value, "json://": 1} if c == "D" else (0, value)
    keys = opts.get("keys", False)
    if not keys:
        value = plain_keys(value)
    types = set()
    depth = measure(value, 0, types)
    ctx.nontrivial = depth >= 2 and len(types) >= 4
    if depth > 20:
        ctx.label("deep")
    for t in types:
        if isinstance(t, type):
            ctx.label(t.__name__)
    text = lib("encode", jsonpickle.encode, value, **opts)
    dec = lib("decode", jsonpickle.decode, text, keys=keys)
    compare.same_graph(value, dec, identity=False, ordered=not keys)

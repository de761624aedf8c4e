"""C05: default key handling turns each key into its documented text."""

import json

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph
from ..core import lib

BUDGET = {"quick": 4000, "thorough": 60000}
HASHABLE = ["Hashed", "HashedNew", "KeyData", "Plain", "DictSub", "NewArgs", "RedArgs"]
LEAF = gen.leaf("enum", "type", "func", "std", "cx", "ba")
NUMBERS = [True, False, 0, 1, -1, 2**70, 0.5, -0.0, 1.0, 1e300, ("nan",), ("inf", 1), ("inf", -1), ("enum", 3)]
KEY = st.one_of(
    gen.ref, gen.ref,
    gen.leaf("enum", "type", "func", "std", "cx", "rng"),
    st.sampled_from([None, b"", b"\xff\x00"] + NUMBERS), st.sampled_from(NUMBERS),
    st.sampled_from(gen.RESERVED), st.sampled_from(gen.MARKUP), gen.str_key, gen.scalar,
)
COLLIDE = st.sampled_from([None, "null", 1, "1", True, "True", "true", 1.5, "1.5", (1, 2), "(1, 2)", b"x", "b'x'",
                           "None", 2, "2", "json://1", -0.0, "-0.0", 3 + 0j, "(3+0j)"])


def tree():
    return st.recursive(
        gen.tiny,
        lambda kids: st.one_of(
            st.lists(kids, max_size=3),
            st.lists(st.tuples(COLLIDE, kids), min_size=1, max_size=5).map(lambda p: ("pairs", p))),
        max_leaves=12)


def strategy(tier):
    big = 14 if tier == "thorough" else 9
    return st.fixed_dictionaries({
        "value": st.one_of(
            gen.graph(HASHABLE, LEAF, key=KEY, containers="DDDDMMTTFL", inst=3, refs=5, max_nodes=6),
            gen.graph(HASHABLE, LEAF, key=KEY, containers="DDDDMMTTFL", inst=3, refs=7, max_nodes=big),
            st.lists(tree(), min_size=1, max_size=3)),
        "numeric": st.booleans(),
    })


def from_tree(t):
    if isinstance(t, list):
        return [from_tree(x) for x in t]
    if isinstance(t, tuple) and t[0] == "pairs":
        return {k: from_tree(v) for k, v in t[1]}
    return t


def text_of(key, numeric):
    if isinstance(key, str):
        return str.__str__(key)
    if key is None:
        return "null"
    if numeric and isinstance(key, (int, float)):
        return next(iter(json.loads(json.dumps({key: 0}))))
    return repr(key)


class KeyComparer(compare.Comparer):
    numeric = False

    def dicts(self, o, d, path):
        if type(o).__name__ != "OrderedDict":  # rebuilt from its items, which keeps the keys
            out = {}
            for k, v in dict.items(o):
                if k not in gen.RESERVED:
                    out[text_of(k, self.numeric)] = v
            o = out
        super().dicts(o, d, path)


def check(case, ctx):
    numeric = case["numeric"]
    if isinstance(case["value"], list):
        root = from_tree(case["value"])
        ctx.label("tree")
        ctx.nontrivial = "pairs" in repr(case["value"])
    else:
        root, objs, nodes = graph.build(case["value"])
        dicts = [o for o in objs.values() if isinstance(o, dict) and type(o).__name__ != "OrderedDict"]
        for d in dicts:
            # With several entries under one text only the tree form is checked.
            seen = set()
            for k in list(d):
                t = text_of(k, numeric)
                if t in seen:
                    del d[k]
                seen.add(t)
        odd = [k for d in dicts for k in d if type(k) is not str]
        ctx.nontrivial = len(odd) >= 1
        for k in odd:
            ctx.label("key " + type(k).__name__)
    text = lib("encode", jsonpickle.encode, root, numeric_keys=numeric)
    dec = lib("decode", jsonpickle.decode, text)
    c = KeyComparer(identity=not isinstance(case["value"], list))
    c.numeric = numeric
    c.run(root, dec)

"""C21: the JSON format is the one that other readers and writers know."""

import json

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph, wire, zoo
from ..core import lib

BUDGET = {"quick": 3500, "thorough": 50000}
KINDS = [k for k in gen.family() if k not in ("Descriptor",)]
LEAF = gen.leaf("enum", "type", "func", "std", "iter", "cx", "ba", "mod", "rng")
HASHABLE = ["Hashed", "HashedNew", "KeyData"]
KEY = st.one_of(gen.str_key, gen.str_key, gen.ref, st.sampled_from([None, True, 1, 0.5, b"k", ("enum", 0), ("type", 0)]),
                st.sampled_from(gen.RESERVED + ["json://1", "json://"]))
TUPLES = {"Named": zoo.Named, "NamedSub": zoo.NamedSub}


def strategy(tier):
    big = 14 if tier == "thorough" else 9
    plain = gen.graph(KINDS, LEAF, containers="LLDDTSFM", max_nodes=big)
    keyed = gen.graph(KINDS + HASHABLE * 4, LEAF, key=KEY, containers="LDDDTSFMM", max_nodes=big)
    flag = st.booleans()
    item = st.recursive(st.sampled_from([None, True, 0, -3, 2.5, "", "a", "é"]), lambda i: st.lists(i, max_size=3) | st.dictionaries(st.sampled_from("ab"), i, max_size=2), max_leaves=4)
    named = st.fixed_dictionaries({
        "tuples": st.lists(st.tuples(st.sampled_from(sorted(TUPLES)), st.lists(item, min_size=3, max_size=3)), min_size=1, max_size=4),
        "inside": st.sampled_from(["list", "dict", "attr", "tuple"]), "supplied": flag, "keys": flag,
    })
    return st.sampled_from("ppppppkkn").flatmap(lambda c: named if c == "n" else st.fixed_dictionaries({
        "graph": keyed if c == "k" else plain,
        "keys": st.just(c == "k"),
        "b85": flag,
        "how": st.fixed_dictionaries({
            "v1": st.sampled_from([False, False, True]), "b85": flag, "py2": flag, "long_reduce": flag, "func_newobj": flag,
            "repr_modules": flag, "reverse": flag, "reduce": st.lists(st.integers(1, 9), max_size=5),
            "indent": st.sampled_from([None, None, 2]),
        }),
    }))


def once(nodes, start):
    """Keep only the first reference to each dictionary: the old form does not number them."""
    seen = set()
    out = list(nodes)

    def child(c, inline=False):
        if graph.is_ref(c) and nodes[c[1]][0] == "D":
            if inline or c[1] in seen or c[1] == start:
                return None
            seen.add(c[1])
        return c

    for i, node in enumerate(out):
        if node[0] == "I":
            out[i] = ("I", node[1], [child(c) for c in node[2]], [(k, child(c)) for k, c in node[3]])
        elif node[0] in "DM":
            out[i] = (*node[:-1], [(k, child(c)) for k, c in node[-1]])
        else:
            out[i] = (node[0], [child(c, node[0] != "L") for c in node[1]])
    return {"nodes": out, "root": 0}


def named(case, ctx):
    """The form in which named tuples were written before their arguments were."""
    want, docs = [], []
    for name, items in case["tuples"]:
        cls = TUPLES[name]
        items = items[:len(cls._fields)]
        want.append(cls(*items))
        docs.append({"py/object": f"elsewhere.{name}" if case["supplied"] else f"{cls.__module__}.{name}", "py/seq": items})
    doc = {"list": docs, "tuple": {"py/tuple": docs}, "dict": {"k": docs, "e": 1},
           "attr": {"py/object": "jpv.zoo.Plain", "a": docs, "e": 1}}[case["inside"]]
    classes = {f"elsewhere.{n}": c for n, c in TUPLES.items()} if case["supplied"] else None
    dec = lib("decode", jsonpickle.decode, json.dumps(doc), classes=classes, keys=case["keys"])
    got = dec["k"] if case["inside"] == "dict" else dec.a if case["inside"] == "attr" else dec
    compare.same_graph(tuple(want) if case["inside"] == "tuple" else want, got, identity=False)
    ctx.nontrivial = True
    ctx.label("bare named tuples")


def check(case, ctx):
    if "tuples" in case:
        return named(case, ctx)
    keys = case["keys"]
    recipe = case["graph"]
    # the library writes and the independent reader reads
    root, _, _ = graph.build(recipe)
    text = lib("encode", jsonpickle.encode, root, keys=keys, use_base85=case["b85"])
    read = wire.Reader(keys).read_document(text)
    want, _, _ = graph.build(recipe)
    compare.same_graph(want, read, ordered=not keys)
    # the independent writer writes and the library reads
    how = dict(case["how"])
    if how["v1"]:
        recipe = once(graph.normalise(recipe), 0)
    root, _, nodes = graph.build(recipe)
    if graph.shape(nodes, recipe["root"])[2]:
        how["reduce"] = []  # which cycles can be restored depends on the form
    writer = wire.Writer(keys=keys, **how)
    text = writer.document(root)
    want, _, _ = graph.build(recipe)
    dec = lib("decode", jsonpickle.decode, text, keys=keys, v1_decode=how["v1"])
    compare.same_graph(want, dec, ordered=not keys)
    ctx.nontrivial = len(writer.ids) >= 3 and bool(writer.used)
    for u in sorted(writer.used):
        ctx.label(u)
    if how["v1"]:
        ctx.label("v1")

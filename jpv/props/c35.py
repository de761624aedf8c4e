"""C35: large and deeply nested graphs behave like small ones."""

import array
import collections
import sys

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph, zoo
from ..core import lib

BUDGET = {"quick": 1200, "thorough": 12000}
KINDS = gen.family(exclude=("Getattr", "Callable")) + gen.family("dyn")[::5]
LEAF = gen.leaf("enum", "type", "func", "std", "iter", "nul", "cx", "ba", "mod", "rng")
#: what can hold the next element of a chain
HOLDERS = ["L", "D", "T", "M"] + sorted(k for k in KINDS if zoo.KINDS[k].attrs and not zoo.KINDS[k].lazy)

#: containers filled with many items, by name
SUBS = {
    "ListSub": zoo.ListSub, "SetSub": zoo.SetSub, "DictSub": zoo.DictSub, "TupleSub": zoo.TupleSub, "OrdSub": zoo.OrdSub,
    "tuple": tuple, "frozenset": frozenset, "deque": collections.deque, "odict": collections.OrderedDict,
    "counter": collections.Counter, "bytearray": bytearray, "array": array.array,
}

unit = gen.graph(KINDS, LEAF, max_nodes=5, refs=6).map(lambda g: g["nodes"])


def strategy(tier):
    most = 400 if tier == "thorough" else 150
    deep = 400 if tier == "thorough" else 260
    wide = st.fixed_dictionaries({
        "mode": st.just("wide"), "unit": unit, "copies": st.sampled_from([20, 40, 60, 100, most]), "stride": st.integers(1, 60),
        "root": st.sampled_from([1, 1, 3]), "keys": st.booleans(), "use_base85": st.booleans(),
    })
    chain = st.fixed_dictionaries({
        "mode": st.just("deep"), "unit": gen.graph(KINDS, LEAF, max_nodes=5, refs=4).map(lambda g: g["nodes"][:3]),
        "links": st.lists(st.sampled_from(HOLDERS), min_size=1, max_size=4),
        "depth": st.sampled_from([10, 15, 20, 25, 40, 70, 120, deep]), "loop": st.sampled_from([None, 0, 3, 9]),
        "keys": st.booleans(),
    })
    bulk = st.fixed_dictionaries({
        "mode": st.just("bulk"), "sort": st.sampled_from(["str", "bytes", "list", "dict", "set", "digits", "objects", "same", "records", "iterator",
                                                              *SUBS]),
        "size": st.sampled_from([257, 1000, 1024, 4095, 5000, 9973]), "seed": st.integers(0, 50), "text": st.text(min_size=1, max_size=4),
        # odd ones out: objects among thousands of plain values
        "odd": gen.graph(KINDS, LEAF, max_nodes=5, refs=3), "at": st.lists(st.integers(0, 9999), max_size=3),
    })
    return st.sampled_from([wide] * 5 + [chain] * 3 + [bulk] * 2).flatmap(lambda s: s)


def shift(node, c, length, stride):
    """The node in copy number ``c``; high numbers refer to earlier copies."""
    def fix(x):
        if not graph.is_ref(x):
            return x
        back, m = divmod(x[1], length)
        return ("@", max(0, c - back * stride) * length + m)

    if node[0] == "I":
        return ("I", node[1], [fix(x) for x in node[2]], [(k, fix(x)) for k, x in node[3]])
    if node[0] in "DM":
        return (*node[:-1], [(fix(k), fix(x)) for k, x in node[-1]])
    return (node[0], [fix(x) for x in node[1]])


def holder(sort, kids):
    if sort in "LT":
        return (sort, kids)
    if sort == "D":
        return ("D", [(f"k{i}", k) for i, k in enumerate(kids)])
    if sort == "M":
        return ("M", "OrdSub", [(f"k{i}", k) for i, k in enumerate(kids)])
    return ("I", sort, [], [(n, k) for n, k in zip("abc", kids)])


def recipe(case):
    length = len(case["unit"])
    if case["mode"] == "wide":
        nodes = [shift(n, c, length, case["stride"]) for c in range(case["copies"]) for n in case["unit"]]
        return {"nodes": nodes, "root": case["root"]}
    depth, links = case["depth"], case["links"]
    nodes = []
    for d in range(depth):
        kids = [("@", d + 1)] if d + 1 < depth else [("@", case["loop"])] if case["loop"] is not None else []
        nodes.append(holder(links[d % len(links)], kids + [("@", depth + d % 2 * length)]))
    for c in range(2):
        for n in case["unit"]:
            n = shift(n, 0, length, 0)
            nodes.append(shift_by(n, depth + c * length))
    return {"nodes": nodes, "root": 0}


def shift_by(node, offset):
    def fix(x):
        return ("@", x[1] + offset) if graph.is_ref(x) else x

    if node[0] == "I":
        return ("I", node[1], [fix(x) for x in node[2]], [(k, fix(x)) for k, x in node[3]])
    if node[0] in "DM":
        return (*node[:-1], [(fix(k), fix(x)) for k, x in node[-1]])
    return (node[0], [fix(x) for x in node[1]])


def make_bulk(case):
    n, s, text = case["size"], case["seed"], case["text"]
    sort = case["sort"]
    if sort == "str":
        return text * n
    if sort == "bytes":
        return bytes((i * (s + 1) + i // 256) % 256 for i in range(n * 3))
    if sort == "list":
        return [i * s - n if i % 3 else text * (i % 4) for i in range(n)]
    if sort == "dict":
        return {f"{text}{i}": i / (s + 1) for i in range(n)}
    if sort == "set":
        return {(i * s) % n for i in range(n)} | {f"{text}{i}" for i in range(n // 4)}
    if sort == "digits":
        return [-(7 ** (n // 3 + s)), 10 ** (n // 3), float(n) / 3, complex(n, s)]
    if sort in ("DictSub", "OrdSub", "odict", "counter"):
        out = SUBS[sort]()
        for i in range(n):
            out[f"{text}{i * s % n}"] = i
        return out
    if sort == "bytearray":
        return bytearray(i * (s + 1) % 256 for i in range(n))
    if sort == "array":
        return array.array("bHiqd"[s % 5], [i % 100 for i in range(n)])
    if sort == "iterator":
        return [zoo.OneShot([text, i] if i % 7 == s else i for i in range(n))]
    if sort in SUBS:
        return SUBS[sort]((i * s) % n if i % 2 else f"{text}{i}" for i in range(n))
    shared = [text]
    if sort == "same":
        return [shared] * n + [{"k": shared}]
    out = []
    for i in range(n // 10):
        if sort == "objects":
            x = zoo.Plain.__new__(zoo.Plain)
            x.a, x.b = i, (out[i * s % i] if i else shared)
            # what it holds is not written again, so this does not nest
            out.append(x)
        else:
            out.append({"id": i, "tags": [text, i], "pair": (i, shared)})
    return out


def add_odd(root, case):
    """Put the odd ones at their places, the same ones at each of them."""
    odd = graph.build(case["odd"])[0]
    if type(root) in (list, zoo.ListSub, collections.deque):
        for at in case["at"]:
            root.insert(at % (len(root) + 1), odd)
    elif type(root) in (dict, zoo.DictSub, zoo.OrdSub, collections.OrderedDict):
        keys = list(root)
        for at in case["at"]:
            root[keys[at % len(keys)]] = odd
    elif type(root) in (tuple, zoo.TupleSub):
        items = list(root)
        for at in case["at"]:
            items.insert(at % (len(items) + 1), odd)
        root = type(root)(items)
    return root


def check(case, ctx):
    # a caller with deep graphs has to do this, too
    sys.setrecursionlimit(20000)
    ctx.label(case["mode"])
    if case["mode"] == "bulk":
        root = add_odd(make_bulk(case), case)
        ctx.label(case["sort"])
        ctx.nontrivial = True
        opts = {}
    else:
        root, _, nodes = graph.build(recipe(case))
        size, shared, cyclic = graph.shape(nodes, 0 if case["mode"] == "deep" else case["root"])
        ctx.nontrivial = size >= 20
        opts = {"keys": case["keys"]}
    extra = {"use_base85": True} if case.get("use_base85") else {}
    text = lib("encode", jsonpickle.encode, root, **opts, **extra)
    dec = lib("decode", jsonpickle.decode, text, **opts)
    compare.same_graph(root, dec, ordered=not opts.get("keys"))

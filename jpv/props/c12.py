"""C12: depth and iterator limits cut exactly where asked."""

import json

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph, zoo
from ..core import Violation, lib, short
from ..snapshot import Snapshot, parts
from ..tree import Shape

BUDGET = {"quick": 4000, "thorough": 60000}
ATTRS = gen.family("attrs", exclude=("Hashed", "KeyData", "Descriptor", "Rich"))
SEQS = ["ListSub", "DictSub", "SetSub"]
SLOTS = ["SlotStr", "SlotUnder", "SlotData"]
# values that are written with inner levels of their own (complex numbers, enums, ...) are left out
LEAF = gen.leaf("type", "func", "ba", "mod", "iter", "iter", "iter")
PRIMITIVE = (type(None), bool, int, float, str, bytes, bytearray)


def strategy(tier):
    return st.fixed_dictionaries({
        "graph": gen.graph(ATTRS + SEQS + SLOTS, LEAF, refs=7, inst=4, max_kids=3, containers="LLDDTSM",
                           maps=st.sampled_from(["DictSub", "OrdSub"]), roots=2,
                           max_nodes=14 if tier == "thorough" else 9),
        "depth": st.sampled_from([None, None, 0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7]),
        "iter": st.sampled_from([None, 0, 1, 1, 2, 2, 3, 4, 99, 1001]),
        "long": st.sampled_from([0] * 20 + [98, 99, 100, 1001, 1500]),
        "mode": st.sampled_from(["refs", "refs", "refs", "no refs", "plain"]),
    })


def simple(recipe, mode):
    """Container subclasses without attributes: their parts have no order of their own."""
    nodes = []
    for n in recipe["nodes"]:
        if n[0] == "I" and n[1] in SEQS:
            n = ("I", n[1], n[2], [])
        if mode == "plain":
            # sets would be written as arrays in an order of their own
            if n[0] == "S":
                n = ("T", n[1])
            elif n[0] == "I" and n[1] == "SetSub":
                n = ("L", n[2])
        nodes.append(n)
    return {**recipe, "nodes": nodes}


class Cutter:
    """Builds the copy of a graph in which everything beyond the limits is cut."""

    def __init__(self, depth, count, share):
        self.depth = depth
        self.count = count
        self.share = share
        self.memo = {}
        self.keep = []
        self.cuts = 0
        self.iters = {}

    def copy(self, o, depth):
        if type(o) in PRIMITIVE:
            return o
        if depth == self.depth:
            self.cuts += 1
            return repr(o)
        t = type(o)
        if isinstance(o, zoo.OneShot):
            n = len(o._items) if self.count is None else min(self.count, len(o._items))
            self.cuts += n < len(o._items)
            if id(o) in self.memo:
                return self.memo[id(o)]
            self.iters[id(o)] = (o, n)
            self.memo[id(o)] = new = zoo.OneShot([])
            new._items.extend(self.copy(x, depth + 1) for x in o._items[:n])
            return new
        if compare.is_atom(o) or compare.is_null(o):
            return o
        if self.share and id(o) in self.memo and t is not tuple and t is not set:
            return self.memo[id(o)]
        self.keep.append(o)
        if t in (tuple, set):
            return t(self.copy(x, depth + 1) for x in o)
        new = t.__new__(t)
        self.memo[id(o)] = new
        if isinstance(o, list):
            list.extend(new, [self.copy(x, depth + 1) for x in list.__iter__(o)])
        elif isinstance(o, dict):
            for k, v in o.items():
                new[k] = self.copy(v, depth + 1)
        elif isinstance(o, set):
            new.update([self.copy(x, depth + 1) for x in o])
        else:
            attrs = getattr(o, "__dict__", None)
            if attrs is not None:
                for k, v in attrs.items():
                    new.__dict__[k] = self.copy(v, depth + 1)
            for k, v in compare.slot_items(o).items():
                object.__setattr__(new, k, self.copy(v, depth + 1))
        return new


def canonical(x):
    """Sets have no order."""
    if isinstance(x, list):
        return [canonical(v) for v in x]
    if isinstance(x, dict):
        out = {k: canonical(v) for k, v in x.items()}
        for tag in ("py/set", "py/seq"):
            if tag == "py/set" and tag in out or (tag in out and "SetSub" in str(out.get("py/object"))):
                out[tag] = sorted(out[tag], key=repr)
        return out
    return x


def project(o):
    if type(o) in PRIMITIVE or compare.is_atom(o) or compare.is_null(o):
        return "atom", o
    return "seq", parts(o)[1]


MODES = {"refs": {}, "no refs": {"make_refs": False}, "plain": {"unpicklable": False}}


def no_iters(x):
    if isinstance(x, tuple):
        return ("ba", b"i") if x and x[0] == "iter" else tuple(map(no_iters, x))
    if isinstance(x, list):
        return list(map(no_iters, x))
    return x


def check(case, ctx):
    mode = case["mode"]
    recipe = simple(case["graph"], mode)
    if mode != "refs" and case["depth"] is not None:
        # an iterator that occurs at several depths can only be written once
        recipe = {**recipe, "nodes": no_iters(recipe["nodes"])}
    root, _, nodes = graph.build(recipe, acyclic=mode != "refs")
    if mode != "refs" and Shape(root, project, 6000).too_big:
        ctx.label("too big")
        return
    if case.get("long"):
        root = [root, zoo.OneShot(range(case["long"]))]
    opts = MODES[mode]
    limits = {}
    if case["depth"] is not None:
        limits["max_depth"] = case["depth"]
    if case["iter"] is not None:
        limits["max_iter"] = case["iter"]
    cutter = Cutter(case["depth"], case["iter"], mode == "refs")
    expected_root = cutter.copy(root, 0)
    iters = all_iters(root)
    got = lib("encode", jsonpickle.encode, root, **opts, **limits)
    want = lib("encode of the truncated value", jsonpickle.encode, expected_root, **opts)
    ctx.label(mode)
    ctx.nontrivial = cutter.cuts > 0
    if canonical(json.loads(got)) != canonical(json.loads(want)):
        raise Violation(f"with {limits} got {short(got, 400)} instead of {short(want, 400)}")
    for o in iters:
        n = cutter.iters.get(id(o), (o, 0))[1]
        if o.pos != n:
            raise Violation(f"with {limits} an iterator was advanced by {o.pos} instead of {n} items")


def all_iters(root):
    return [o for o, _ in Snapshot(root).iters]

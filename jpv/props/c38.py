"""C38: flattened data and restored graphs have nothing in common with what they were made from."""

import copy
import decimal
import warnings

import jsonpickle
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from jsonpickle.ext import numpy as np_ext
from jsonpickle.ext import pandas as pd_ext

from .. import compare, gen, graph, nparr, snapshot
from ..core import Violation, lib, short
from . import c04, c17, c24, c26  # noqa: F401 (c17 registers handlers)

BUDGET = {"quick": 3000, "thorough": 40000}
KINDS = gen.family() + gen.family("dyn") + gen.family("handled")
LEAF = gen.leaf("float", "enum", "type", "func", "std", "cx", "ba", "mod", "rng", "slc")
FrozenList = type(pd.MultiIndex.from_tuples([(1, 2)]).names)
PLAIN = (type(None), bool, int, float, str, decimal.Decimal)


def strategy(tier):
    size = 14 if tier == "thorough" else 9
    opts = st.fixed_dictionaries({}, optional={
        "use_base85": st.just(True), "numeric_keys": st.just(True), "make_refs": st.just(False), "unpicklable": st.just(False),
        "max_depth": st.integers(0, 4), "warn": st.just(True), "use_decimal": st.just(True)})
    reused = st.booleans()
    some = gen.graph(KINDS, LEAF, max_nodes=size, containers="LLDDTSFM")
    bare = gen.graph(gen.family() + gen.family("dyn"), LEAF, max_nodes=size, containers="LLDDTSFM")
    keyed = gen.graph(KINDS + c04.HASHABLE * 40, LEAF, key=c04.KEY, containers="DDDDMMTL", inst=4, max_nodes=size)
    cases = [
        st.fixed_dictionaries({"graph": some, "keys": st.booleans(), "opts": st.just({}), "reused": reused}),
        st.fixed_dictionaries({"graph": keyed, "keys": st.just(True), "opts": st.just({}), "reused": reused}),
        st.fixed_dictionaries({"graph": bare, "keys": st.booleans(), "opts": opts, "reused": reused}),
        st.fixed_dictionaries({"np": c24.strategy(tier), "reused": reused}),
        st.fixed_dictionaries({"pd": c26.strategy(tier), "reused": reused}),
    ]
    return st.sampled_from([cases[0]] * 8 + [cases[1]] * 4 + [cases[2]] * 4 + [cases[3]] * 2 + [cases[4]]).flatmap(lambda s: s)


def containers(flat, plain=PLAIN):
    """The lists and dictionaries of flattened data, which holds nothing else but immutable values."""
    found, todo = {}, [flat]
    while todo:
        x = todo.pop()
        if type(x) is list or type(x) is dict:
            if id(x) not in found:
                found[id(x)] = x
                todo.extend(x if type(x) is list else [*x.keys(), *x.values()])
        elif tuple in plain and isinstance(x, (tuple, FrozenList)):
            todo.extend(x)
        elif not isinstance(x, plain):
            raise Violation(f"the flattened data contains {short(x)}, a {type(x).__name__}")
    return found


def spoil(found):
    for x in found.values():
        x.clear()
        if type(x) is list:
            x.extend(["spoiled"] * 3)
        else:
            x.update({"py/object": "spoiled", "spoiled": 1})


def check(case, ctx):
    if "graph" in case:
        return with_graph(case, ctx)
    if "np" in case:
        c24.register(case["np"])
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                make = lambda: [c24.make(i) for i in case["np"]["items"]]
                return with_values(make, lambda a, b, path: c24.same(a, b, path, case["np"]), case, ctx)
        finally:
            np_ext.unregister_handlers()
    pd_ext.register_handlers()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return with_values(lambda: [c26.make(v) for v in case["pd"]["values"]], c26.same, case, ctx)
    finally:
        pd_ext.unregister_handlers()


def restoring(case, **kw):
    if case["reused"]:
        u = jsonpickle.Unpickler(**kw)
        return lambda flat: lib("restore", u.restore, flat)
    return lambda flat: lib("restore", jsonpickle.Unpickler(**kw).restore, flat)


def inner(v, seen):
    """Lists and dictionaries that the cells of a value consist of."""
    if id(v) in seen:
        return
    if type(v) in (list, dict):
        seen[id(v)] = v
        for x in v.values() if type(v) is dict else v:
            inner(x, seen)
    elif isinstance(v, tuple):
        for x in v:
            inner(x, seen)
    elif isinstance(v, pd.DataFrame):
        for n in range(v.shape[1]):
            inner(v.iloc[:, n], seen)
    elif isinstance(v, (pd.Series, pd.Index, np.ndarray)) and v.dtype == object:
        for x in v.ravel().tolist() if isinstance(v, np.ndarray) else v:
            inner(x, seen)


def with_values(make, same, case, ctx):
    values, again = make(), make()
    raw = [repr(nparr.plain_values(v)) if isinstance(v, np.ndarray) else None for v in values]
    ctx.nontrivial = True
    ctx.label("arrays" if "np" in case else "frames")
    flat = lib("flatten", jsonpickle.Pickler().flatten, values)
    found = containers(flat, (*PLAIN, tuple))  # shapes and names
    before = copy.deepcopy(flat)
    seen = {}
    inner(values, seen)
    for x in seen.values():
        if id(x) in found:
            raise Violation(f"{short(x)} of the value is part of the flattened data")
    restore = restoring(case)
    one = restore(flat)
    if repr(flat) != repr(before):
        raise Violation(f"restoring changed the flattened data from {short(before, 300)} to {short(flat, 300)}")
    two = restore(flat)
    spoil(found)
    for what, got in (("the value", values), ("what was restored", one), ("what was restored again", two)):
        if type(got) is not list or len(got) != len(again):
            raise Violation(f"{what} is now {short(got)}")
        for n, (a, b) in enumerate(zip(again, got)):
            if what != "the value":
                same(a, b, f"[{n}] of {what}")
            elif raw[n] is not None and raw[n] != repr(nparr.plain_values(b)):
                raise Violation(f"[{n}]: {what} changed")
        for n, (a, b) in enumerate(zip(values, got)):
            if what != "the value" and isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b):
                raise Violation(f"[{n}]: {what} uses the memory of the original array")
    if any(isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and np.shares_memory(x, y) for x, y in zip(one, two)):
        raise Violation("both restored arrays use the same memory")


def with_graph(case, ctx):
    root, objs, nodes = graph.build(case["graph"])
    again, *_ = graph.build(case["graph"])
    size, shared, cyclic = graph.shape(nodes, case["graph"]["root"])
    ctx.nontrivial = size >= 2
    keys = {"keys": True} if case["keys"] else {}
    snap = snapshot.Snapshot(root)
    flat = lib("flatten", jsonpickle.Pickler(**keys, **case["opts"]).flatten, root)
    found = containers(flat)
    for obj, _, _ in snap.seen.values():
        state = getattr(obj, "__dict__", None) if type(obj).__module__.startswith("jpv.") else None
        for x in (obj, state):
            if id(x) in found:
                raise Violation(f"{short(x)} of the value is part of the flattened data")
    before = copy.deepcopy(flat)
    if case["opts"]:
        ctx.label("options")
        spoil(found)
        snap.verify("changing the flattened data")
        return
    restore = restoring(case, **keys)
    one = restore(flat)
    if flat != before or repr(flat) != repr(before):
        raise Violation(f"restoring changed the flattened data from {short(before, 300)} to {short(flat, 300)}")
    two = restore(flat)
    spoil(found)
    snap.verify("changing the flattened data")
    compare.same_graph(again, one, ordered=not keys)
    compare.same_graph(again, two, ordered=not keys)

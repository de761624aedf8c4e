"""C14: representation options never change what is decoded."""

import warnings

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph
from ..core import lib

BUDGET = {"quick": 4000, "thorough": 60000}
KINDS = gen.family() + gen.family("readonly", "norepr")
LEAF = st.one_of(gen.leaf("enum", "type", "func", "std", "nul", "cx", "ba", "mod", "rng", "iter"),
                 gen.blob, st.tuples(st.just("ba"), gen.blob), gen.tiny)
# reading every property of these objects fails or never ends
NO_PROPS = {"Descriptor"}
ROUTES = ["encode", "dumps", "flatten", "context", "reused"]


def strategy(tier):
    return st.fixed_dictionaries({
        "graph": gen.graph(KINDS, LEAF, max_nodes=14 if tier == "thorough" else 9, containers="LLDDTSFM"),
        "opts": st.fixed_dictionaries({}, optional={
            "use_base85": st.just(True), "include_properties": st.just(True), "warn": st.just(True)}),
        "layout": st.fixed_dictionaries({}, optional={
            "indent": st.sampled_from([0, 2]),
            "separators": st.sampled_from([(",", ":"), (" , ", " : ")])}),
        "out": st.sampled_from(ROUTES),
        "in": st.sampled_from(["decode", "loads", "context", "restore", "reused"]),
    })


def send(root, case, opts):
    out = case["out"]
    layout = case["layout"]
    if out == "encode":
        return jsonpickle.encode(root, **opts, **layout)
    if out == "dumps":
        return jsonpickle.dumps(root, **opts, **layout)
    if out == "flatten":
        return jsonpickle.Pickler(**opts).flatten(root)
    context = jsonpickle.Pickler(**opts)
    if out == "reused":
        context.flatten([{"a": [1]}, {"b": ()}])
    return jsonpickle.encode(root, context=context, **layout)


def receive(text, case):
    how = case["in"]
    if case["out"] == "flatten":
        u = jsonpickle.Unpickler()
        if how == "reused":
            u.restore([{"a": 1}, {"py/id": 1}])
        return u.restore(text)
    if how == "decode":
        return jsonpickle.decode(text)
    if how == "loads":
        return jsonpickle.loads(text)
    u = jsonpickle.Unpickler()
    if how == "restore":
        return u.restore(jsonpickle.json.decode(text))
    if how == "reused":
        u.restore([{"a": 1}, {"py/id": 1}])
    return jsonpickle.decode(text, context=u)


def check(case, ctx):
    root, _, nodes = graph.build(case["graph"])
    opts = dict(case["opts"])
    if any(n[0] == "I" and n[1] in NO_PROPS for n in nodes) or "('iter'" in repr(nodes):
        # (an iterator returned by a property is used up)
        opts.pop("include_properties", None)
    ctx.label(*opts, *case["layout"], case["out"], case["in"])
    ctx.nontrivial = bool(opts or case["layout"] or case["out"] != "encode") and len(nodes) >= 2
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        text = lib("encode", send, root, case, opts)
        dec = lib("decode", receive, text, case)
    compare.same_graph(root, dec)

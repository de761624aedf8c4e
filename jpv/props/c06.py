"""C06: encoding leaves the encoded objects unchanged."""

import jsonpickle
from hypothesis import strategies as st
from jsonpickle.backend import JSONBackend

from .. import gen, graph, zoo
from ..core import outcome
from ..snapshot import Snapshot

BUDGET = {"quick": 3000, "thorough": 40000}
KINDS = gen.family() + gen.family("excl")
BOMBS = gen.family("bomb")
LEAF = gen.leaf("enum", "type", "func", "std", "iter", "nul", "cx", "ba", "mod", "rng", "float")


def options():
    yes, no = st.just(True), st.just(False)
    return st.fixed_dictionaries({}, optional={
        "unpicklable": no, "make_refs": no, "keys": yes, "max_depth": st.integers(0, 5), "warn": yes,
        "max_iter": st.integers(0, 3), "use_decimal": yes, "numeric_keys": yes, "use_base85": yes,
        "fail_safe": yes, "indent": st.sampled_from([0, 2]), "include_properties": yes,
        "handle_readonly": yes, "separators": st.just((",", ":")), "sort_keys": yes,
    })


def strategy(tier):
    big = 14 if tier == "thorough" else 9
    graphs = [
        gen.graph(KINDS, LEAF, max_nodes=big, containers="LLDDTSFM"),
        gen.graph(KINDS + BOMBS * 2, LEAF, max_nodes=big, containers="LLDDTSFM"),
        gen.graph(gen.family("attrs", "contsub", "slots"), LEAF, max_nodes=5, inst=8, roots=1),
        gen.graph(["Rich", "PlainSub", "Rich", "Descriptor", "Plain", "DictSub", "FrozenSlots"], LEAF,
                  max_nodes=5, inst=8, roots=1),
    ]

    @st.composite
    def cases(draw):
        which = draw(st.sampled_from([0, 0, 0, 1, 1, 1, 2, 3]))
        opts = draw(options())
        if which == 3:
            opts["handle_readonly"] = True
        return {"graph": draw(graphs[which]), "opts": opts,
                "via": draw(st.sampled_from(["encode", "encode", "pickler", "dumps"]))}

    return cases()


SORTED = JSONBackend()
for _n in ("json", "simplejson"):
    SORTED.set_encoder_options(_n, sort_keys=True)


def check(case, ctx):
    root, objs, nodes = graph.build(case["graph"])
    opts = dict(case["opts"])
    if opts.pop("sort_keys", False):
        opts["backend"] = SORTED
    if opts.pop("fail_safe", False) and not opts.get("include_properties"):
        opts["fail_safe"] = lambda exc: "failed"
    snap = Snapshot(root)
    zoo.FAILURES.clear()
    if case["via"] == "pickler":
        for k in ("indent", "separators"):
            opts.pop(k, None)
        res = outcome(lambda: jsonpickle.Pickler(original_object=root, **opts).flatten(root))
    else:
        res = outcome(getattr(jsonpickle, case["via"]), root, **opts)
    ctx.label(res[0])
    for k in case["opts"]:
        ctx.label("opt " + k)
    ctx.nontrivial = len(nodes) >= 2 and any(n[0] == "I" for n in nodes)
    snap.verify()

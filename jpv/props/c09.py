"""C09: output is valid, deterministic JSON; layout options only change whitespace."""

import json
import re

import jsonpickle
from hypothesis import strategies as st
from jsonpickle.backend import JSONBackend

from .. import gen, graph, zoo
from ..core import Violation, lib, short

BUDGET = {"quick": 3000, "thorough": 40000}
KINDS = gen.family() + gen.family("excl")
LEAF = st.one_of(gen.scalar, gen.special_float, gen.text,
                 gen.leaf("enum", "type", "func", "std", "nul", "cx", "ba", "mod", "rng", "float"))
KEY = st.one_of(gen.str_key, gen.str_key, gen.text, gen.any_int, st.none(), st.booleans(), gen.finite,
                gen.special_float, gen.blob, st.tuples(st.just("@"), st.integers(0, 9)))
BACKENDS = {}
for _n in ("json", "simplejson"):
    BACKENDS[_n] = JSONBackend()
    BACKENDS[_n].set_preferred_backend(_n)
    BACKENDS[_n].enable_fallthrough(False)


def strategy(tier):
    yes, no = st.just(True), st.just(False)
    return st.fixed_dictionaries({
        "graph": gen.graph(KINDS, LEAF, key=KEY, containers="LLDDDTSFM",
                           max_nodes=14 if tier == "thorough" else 9),
        "opts": st.fixed_dictionaries({}, optional={
            "unpicklable": no, "make_refs": no, "keys": yes, "max_depth": st.integers(0, 5),
            "max_iter": st.integers(0, 3), "numeric_keys": yes, "use_base85": yes}),
        "layout": st.fixed_dictionaries({}, optional={
            "indent": st.sampled_from([0, 1, 2, 5]),
            "separators": st.sampled_from([(",", ":"), (", ", ": "), (" ,\n", "\t: ")])}),
        "backend": st.sampled_from(["", "json", "json", "simplejson"]),
    })


SPACE = re.compile(r'"(?:[^"\\]|\\.)*"|[^\s"]+')


def compact(text):
    return "".join(SPACE.findall(steady(text)))


def steady(text):
    """Objects that are cut are written as their repr, which may contain their address."""
    return re.sub("0x[0-9a-f]{6,}", "0x", text)


def constant(name):
    if name not in ("NaN", "Infinity", "-Infinity"):
        raise ValueError(name)
    return float(name)


def key_text(k):
    if type(k) is str:
        return k
    if isinstance(k, str):
        return str.__str__(k)
    return next(iter(json.loads(json.dumps({k: 0}))))


def same(flat, parsed, path):
    """The parsed text (objects as lists of pairs) against the flattened structure."""
    if isinstance(flat, dict):
        if not isinstance(parsed, Pairs):
            raise Violation(f"at {path}: {short(flat)} was written as {short(parsed)}")
        # sort_keys is not in force, so the order is that of the structure
        fk = [key_text(k) for k in flat]
        pk = [k for k, _ in parsed]
        if list(map(steady, fk)) != list(map(steady, pk)):
            raise Violation(f"at {path}: keys {short(fk)} were written as {short(pk)}")
        for (k, v), (_, w) in zip(flat.items(), parsed):
            same(v, w, f"{path}[{key_text(k)!r}]")
        return
    if isinstance(flat, (list, tuple)):
        if type(parsed) is not list or len(parsed) != len(flat):
            raise Violation(f"at {path}: {short(flat)} was written as {short(parsed)}")
        for i, (v, w) in enumerate(zip(flat, parsed)):
            same(v, w, f"{path}[{i}]")
        return
    for base in (bool, int, float, str, type(None)):
        if isinstance(flat, base):
            break
    else:
        raise Violation(f"at {path}: flattening gave {short(flat)}, which JSON has no form for")
    if base is str and type(parsed) is str:
        flat, parsed = steady(flat), steady(parsed)
    if type(parsed) is not base or (flat != parsed if flat == flat else parsed == parsed) or (
            base is float and str(float(flat)) != str(parsed)):
        raise Violation(f"at {path}: {short(flat)} was written as {short(parsed)}")


class Pairs(list):
    pass


def tame(x):
    """simplejson refuses NaN and the infinities."""
    if isinstance(x, tuple):
        return 0.5 if x in (("nan",), ("inf", 1), ("inf", -1)) else tuple(map(tame, x))
    if isinstance(x, list):
        return list(map(tame, x))
    if isinstance(x, dict):
        return {k: tame(v) for k, v in x.items()}
    return x


def check(case, ctx):
    if case["backend"] == "simplejson":
        case = {**case, "graph": tame(case["graph"])}
    opts = dict(case["opts"])
    backend = BACKENDS.get(case["backend"])
    if backend:
        opts["backend"] = backend
    root, _, nodes = graph.build(case["graph"])
    text = lib("encode", jsonpickle.encode, root, **opts)
    ctx.nontrivial = len(nodes) >= 2
    ctx.label(*case["layout"])
    if type(text) is not str:
        raise Violation(f"encode returned {short(text)}")
    parser = json.JSONDecoder(object_pairs_hook=Pairs, parse_constant=constant)
    try:
        parsed = parser.decode(text)
    except ValueError as exc:
        raise Violation(f"the output is not JSON ({exc}): {short(text)}") from None
    flat = lib("flatten", lambda: jsonpickle.Pickler(original_object=root, **opts).flatten(root))
    same(flat, parsed, "root")
    if not any(n[0] in "SF" or n[0] == "I" and zoo.KINDS[n[1]].items_hash for n in nodes):
        # the order of sets may depend on addresses
        root, _, _ = graph.build(case["graph"])
    again = lib("encode", jsonpickle.encode, root, **opts)
    if steady(again) != steady(text):
        raise Violation(f"the same value was encoded as {short(text)} and as {short(again)}")
    if case["layout"]:
        laid = lib("encode with layout", jsonpickle.encode, root, **opts, **case["layout"])
        if compact(laid) != compact(text):
            raise Violation(f"{case['layout']} changed the content from {short(text)} to {short(laid)}")

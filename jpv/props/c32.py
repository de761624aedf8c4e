"""C32: in decimal mode decimals are JSON numbers with all their digits."""

import decimal
import json

import jsonpickle
from hypothesis import strategies as st
from jsonpickle.backend import JSONBackend

from .. import compare, gen, graph
from ..core import Violation, lib, short

BUDGET = {"quick": 3000, "thorough": 50000}
EXACT = decimal.Context(prec=2000)
graph.LEAVES["dec"] = lambda s: decimal.Decimal(s)
graph.HASHABLE_LEAVES.add("dec")


class Money(decimal.Decimal):
    pass


graph.LEAVES["money"] = lambda s: Money(s)
graph.HASHABLE_LEAVES.add("money")

digits = st.one_of(st.integers(0, 99), st.integers(0, 10**40), st.sampled_from([0, 5, 10**17 + 1, 10**28 + 1]))
DECIMAL = st.builds(lambda neg, d, e: ("dec", ("-" if neg else "") + str(decimal.Decimal((0, tuple(map(int, str(d))), e)))),
                    st.booleans(), digits, st.one_of(st.integers(-6, -1), st.integers(-60, 30), st.just(0)))
KINDS = gen.family("attrs", "slots", "contsub", "newargs", "state", exclude=("Descriptor", "KeyData"))
MONEY = DECIMAL.map(lambda leaf: ("money", leaf[1]))
LEAVES = {"d": DECIMAL, "m": MONEY, "f": gen.finite, "t": gen.leaf("enum", "type", "ba")}
LEAF = st.sampled_from("ddddmfft").flatmap(LEAVES.get)


def strategy(tier):
    return st.fixed_dictionaries({
        "graph": gen.graph(KINDS, LEAF, inst=3, refs=4, containers="LLDDTSM", max_nodes=14 if tier == "thorough" else 9),
        "opts": st.fixed_dictionaries({}, optional={
            "unpicklable": st.just(False), "keys": st.just(True), "make_refs": st.just(False)}),
        "how": st.sampled_from(["backend", "module", "context"]),
        "off": st.sampled_from([False, False, False, True]),
    })


def seen_as(v):
    """What the decoder's number parser makes of a number that was written out."""
    if isinstance(v, decimal.Decimal):
        # subclasses, too, are numbers
        return int(v) if str(v).lstrip("-").isdigit() else decimal.Decimal(v)
    if type(v) is float:
        return decimal.Decimal(repr(v)) if v == v and v not in (float("inf"), float("-inf")) else v
    return v


def decimals(v, out):
    if isinstance(v, list):
        for x in v:
            decimals(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            decimals(x, out)
    elif isinstance(v, str) and v.startswith("#"):
        out.append(v)
    return out


def make_backend(off):
    backend = JSONBackend()
    backend.set_preferred_backend("simplejson")
    backend.set_encoder_options("simplejson", use_decimal=not off)
    backend.set_decoder_options("simplejson", use_decimal=not off)
    return backend


def check(case, ctx):
    off = case["off"]
    root, objs, nodes = graph.build(case["graph"])
    count = sum(1 for n in nodes for c, _, _ in graph.children(n) if isinstance(c, tuple) and c[0] in ("dec", "money"))
    ctx.nontrivial = count > 0
    ctx.label(case["how"], *case["opts"], *(["off"] if off else []))
    opts = dict(case["opts"])
    if opts.get("make_refs") is False:
        opts["max_depth"] = 6
    lossy = opts.keys() & {"unpicklable", "make_refs"}
    how = case["how"]
    use = {} if off else {"use_decimal": True}
    if how == "module":
        saved = jsonpickle.json
        state = {k: (dict(v) if isinstance(v, dict) else list(v)) for k, v in vars(saved).items()
                 if isinstance(v, (dict, list))}
        try:
            jsonpickle.set_preferred_backend("simplejson")
            jsonpickle.set_encoder_options("simplejson", use_decimal=not off)
            jsonpickle.set_decoder_options("simplejson", use_decimal=not off)
            text = lib("encode", jsonpickle.encode, root, **use, **opts)
            back = None if lossy else lib("decode", jsonpickle.decode, text, keys=opts.get("keys", False))
        finally:
            vars(saved).update(state)
    else:
        backend = make_backend(off)
        if how == "context":
            context = jsonpickle.Pickler(backend=backend, **use, **opts)
            text = lib("encode", jsonpickle.encode, root, context=context, backend=backend)
        else:
            text = lib("encode", jsonpickle.encode, root, backend=backend, **use, **opts)
        back = None if lossy else lib("decode", jsonpickle.decode, text, backend=backend, keys=opts.get("keys", False))
    if off:
        # decimals are objects, numbers are numbers
        if not opts:
            same(root, back, lambda v: v, text)
        return
    # the same text as for the values that the numbers stand for, decimals written out in full
    plain = json.loads(text, parse_float=lambda s: "#" + s, parse_int=lambda s: "#" + s)
    if lossy:
        if "decimal.Decimal" in text or "Money" in text:
            raise Violation(f"a decimal is not a number in {short(text, 300)}")
        if not opts.keys() & {"make_refs"} and case["graph"]["root"] % graph.ROOTS in (1, 2):
            wanted = sorted("#" + str(decimal.Decimal(c[1])) for n in nodes if n[0] == "L"
                            for c in n[1] if isinstance(c, tuple) and c[0] in ("dec", "money"))
            have = decimals(plain, [])
            for w in wanted:
                if w not in have:
                    raise Violation(f"{w[1:]} is not written out in {short(text, 300)}")
        return
    same(root, back, seen_as, text, ordered="keys" not in opts)


def same(root, back, resolve, text, **kw):
    try:
        compare.Comparer(resolve=resolve, **kw).run(root, back)
    except Violation as exc:
        raise Violation(f"{exc} from {short(text, 400)}") from exc

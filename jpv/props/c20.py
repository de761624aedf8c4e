"""C20: decoding never evaluates text from the document unless asked to."""

import array
import builtins
import collections
import copy
import datetime
import decimal
import json
import queue
import re
import sys
import uuid

import jsonpickle
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from jsonpickle.ext import gmpy, numpy as np_ext, pandas as pd_ext

from .. import gen, graph, zoo
from ..core import Violation, short

BUDGET = {"quick": 2600, "thorough": 40000}
HITS = []


def jpv_hit(n=0):
    HITS.append(n)
    return f"evaluated {n}"


# Reachable from any namespace in which text could be evaluated.
builtins.jpv_hit = jpv_hit
watching = False


def _audit(event, args):
    if watching and event == "exec":
        code = args[0]
        if "jpv_hit" in code.co_names or "jpv_hit" in code.co_consts:
            HITS.append("code executed")


sys.addaudithook(_audit)
np_ext.register_handlers()
pd_ext.register_handlers()
gmpy.register_handlers()

CODE = ["jpv_hit(1)", "jpv.zoo/jpv_hit(2)", "builtins/builtins.jpv_hit(3)", "builtins/jpv_hit(4)", "[jpv_hit(5)]",
        "json/json.loads(str(jpv_hit(6)))", "jpv_hit(7).x", "builtins.jpv_hit(8)", "(lambda: jpv_hit(9))()",
        "jpv_hit(10) or 1", "[('a', jpv_hit(11))]", "datetime/datetime.datetime(jpv_hit(12), 1, 1)", "{jpv_hit(13)}",
        "'%s' % jpv_hit(14)", "f'{jpv_hit(15)}'", "eval('jpv_hit(16)')", "exec('jpv_hit(17)')", "jpv_hit (18)",
        "builtins/builtins.eval('jpv_hit(19)')", "builtins/[jpv_hit(20)][0]", "i4,jpv_hit(21)", "@jpv_hit(22)",
        "__import__('builtins').jpv_hit(23)", "builtins/__import__('builtins').jpv_hit(24)", "json/jpv_hit(25).json",
        "builtins/builtins.int[jpv_hit(26)]", "jpv.zoo/jpv.zoo.NEST[jpv_hit(27)]", "jpv.zoo/jpv.zoo.Plain(jpv_hit(28)).a",
        "builtins/builtins.int or jpv_hit(29)", "sys/sys.path[jpv_hit(30)].x", "json/json.decoder.nope(jpv_hit(31))",
        "builtins/builtins.x;jpv_hit(32)", "builtins/builtins.int\njpv_hit(33)", "collections.abc/collections.abc.x{jpv_hit(34)}",
        "builtins/builtins.__dict__['jpv_hit'](35)", "builtins/builtins.getattr(builtins,'jpv_hit')(36)",
        "builtins/builtins.x==jpv_hit(37)", "builtins/builtins.f'{jpv_hit(38)}'", "jpv_hit(39)/jpv_hit(39).x", "builtins/builtins.(jpv_hit(40))",
        "builtins[jpv_hit(41)]", "numpy.dtype(jpv_hit(42))", "collections.OrderedDict[jpv_hit(43)]", "builtins.list(jpv_hit(44))",
        "jpv_hit()", "builtins/builtins.jpv_hit()", "builtins.jpv_hit()", "builtins/builtins.jpv_hit().upper"]
SAMPLES = [
    datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc), datetime.timedelta(3), decimal.Decimal("1.5"),
    uuid.UUID(int=7), re.compile("a", re.I), array.array("i", [1, 2]), queue.Queue(), collections.deque([1, "x"]),
    collections.OrderedDict(a=1), collections.defaultdict(list, a=[1]), collections.Counter("aab"),
    np.arange(3), np.array([["a", "bc"]]), np.array([(1, 2.5)], dtype=[("a", "i4"), ("b", "f8")]), np.float32(2.5),
    np.dtype("i4"), np.dtype([("a", "i4"), ("b", "U3")]), np.arange(400.0), np.datetime64("2020-01-01"), np.arange(6)[::2],
    pd.DataFrame({"a": [1, 2], "b": ["x", None], "c": [1.5, 2.5]}), pd.Series([1, 2], name="s"), pd.Timestamp("2020-01-01"),
    pd.Index(["a", "b"]), pd.Period("2020-01"), pd.MultiIndex.from_tuples([(1, "a"), (2, "b")], names=["p", "q"]),
    pd.Interval(1, 2), pd.Timedelta(5), pd.DataFrame({"t": pd.to_datetime(["2020-01-01"]), "k": pd.Categorical(["u"])}),
]


def bases():
    out = []
    for s in SAMPLES:
        out.append(json.loads(jsonpickle.encode([s, {"k": s}], keys=True)))
    return out


BASES = bases()
KINDS = gen.family("attrs", "slots", "contsub", "state", "newargs", "reduce", "stdlib")
TAGS = ["py/repr"] * 8 + ["py/object", "py/type", "py/function", "py/id", "py/b64", "py/state", "py/seq", "py/newargs",
                          "py/initargs", "py/ref", "py/tuple", "py/set", "py/iterator", "py/bytea", "py/property",
                          "py/default_factory", "default_factory", "py/mod", "dtype", "__dict__", "__class__"]
LEGACY = ["jpv.zoo/jpv.zoo.Plain", "builtins/builtins.int", "builtins/builtins.jpv_hit", "jpv.zoo/jpv.zoo.NEST",
          "datetime/datetime.datetime.max", "jpv.zoo/jpv.zoo.nope", "builtins/int", "nope_jpv/x"]
#: expressions that name nothing
CALLS = ["builtins/builtins.jpv_hit()", "builtins/builtins.int()", "jpv.zoo/jpv.zoo.Plain()", "builtins/builtins.jpv_hit().upper",
         "sys/sys.path[0]", "sys/sys.path[-1].upper", "math/math.pi*2", "math/math.pi+1", "builtins/5", "builtins/'text'",
         "builtins/builtins.int or 1", "builtins/builtins.int, builtins.str", "math/-math.pi", "builtins/not builtins.int",
         "builtins/builtins.int if 1 else 2", "builtins/(builtins.int)", "builtins/[]", "builtins/lambda: 1", "builtins/ builtins.int",
         "datetime/datetime.datetime.now()", "datetime/datetime.datetime.max.date()", "builtins/builtins .int", "builtins/builtins.int "]


#: expressions for which evaluating gives the result of the call
FORMS = ["builtins/builtins.jpv_hit({})", "jpv.zoo/jpv.zoo.__builtins__['jpv_hit']({})", "json/json.__builtins__['jpv_hit']({})",
         "builtins/(lambda: builtins.jpv_hit({}))()", "builtins/[builtins.jpv_hit({})][0]"]


def wrapped(code):
    """Markup around a piece of text, possibly nested and with other content."""
    simple = st.tuples(st.sampled_from(TAGS), st.just(code)).map(lambda t: {t[0]: t[1]})
    extra = st.dictionaries(st.sampled_from(TAGS + ["a", "b"]), st.sampled_from(CODE) | st.just([]), max_size=2)
    tagged = st.tuples(simple, extra).map(lambda t: {**t[1], **t[0]})
    return st.one_of(simple, tagged, simple.map(lambda d: [d]), simple.map(lambda d: {"py/tuple": [d]}),
                     simple.map(lambda d: {"py/state": d, "py/object": "jpv.zoo.StateDict"}),
                     simple.map(lambda d: {"py/object": "jpv.zoo.Plain", "a": d}),
                     simple.map(lambda d: {"py/object": "jpv.zoo.HCtx", "value": d, "parts": [d]}),
                     simple.map(lambda d: {"json://" + json.dumps(d): d}),
                     simple.map(lambda d: {"py/reduce": [{"py/type": "jpv.zoo.RedArgs"}, {"py/tuple": [d]}, d, None, None]}),
                     simple.map(lambda d: {"py/reduce": [d, {"py/tuple": []}]}),
                     simple.map(lambda d: {"py/object": "gone.X", "a": d}),
                     simple.map(lambda d: {"py/object": "collections.defaultdict", "default_factory": d}))


def strategy(tier):
    code = st.sampled_from(CODE)
    edit = st.tuples(st.sampled_from(["value", "value", "key", "insert", "insert", "insert", "replace"]),
                     st.integers(0, 400), code, code.flatmap(wrapped))
    return st.one_of(
        st.fixed_dictionaries({
            "kind": st.just("safe"),
            "base": st.integers(0, len(BASES) - 1) | gen.graph(KINDS, gen.leaf("std", "enum", "type", "func"), max_nodes=5),
            "edits": st.lists(edit, min_size=1, max_size=4),
            "opts": st.fixed_dictionaries({}, optional={
                "keys": st.just(True), "safe": st.just(True), "v1_decode": st.just(True), "handle_readonly": st.just(True),
                "on_missing": st.sampled_from(["warn", "error"]), "classes": st.just(zoo.Plain),
                "backend": st.sampled_from(["json", "simplejson"])}),
            "via": st.sampled_from(["decode", "decode", "context", "restore", "unsafe first"]),
        }),
        st.fixed_dictionaries({
            "kind": st.just("legacy"),
            "items": st.lists(st.tuples(st.sampled_from(["list", "dict", "attr"]), st.integers(0, 30),
                                        st.sampled_from(LEGACY + CALLS + ["eval"] * 8)), min_size=1, max_size=4),
            "safe": st.booleans(),
            "keys": st.booleans(),
        }))


def spots(doc):
    """All the places of the document as (container, key), and the places of strings."""
    out, todo = [], [doc]
    while todo:
        x = todo.pop()
        for k in list(x) if isinstance(x, dict) else range(len(x)):
            out.append((x, k))
            if isinstance(x[k], (dict, list)):
                todo.append(x[k])
    return out


def apply(doc, edits):
    doc = [doc]
    for how, n, text, part in edits:
        places = spots(doc)
        if how == "value":
            places = [(c, k) for c, k in places if isinstance(c[k], str)] or places
            c, k = places[n % len(places)]
            c[k] = text
        elif how == "key":
            places = [(c, k) for c, k in places if isinstance(c, dict)] or places
            c, k = places[n % len(places)]
            if isinstance(c, dict):
                c[text] = c.pop(k)
        elif how == "replace":
            c, k = places[n % len(places)]
            c[k] = copy.deepcopy(part)
        else:
            c, k = places[n % len(places)]
            if isinstance(c, dict):
                c["zz"] = copy.deepcopy(part)
            else:
                c.append(copy.deepcopy(part))
    return doc[0]


def check(case, ctx):
    global watching
    del HITS[:]
    if case["kind"] == "legacy":
        return legacy(case, ctx)
    if isinstance(case["base"], int):
        doc = copy.deepcopy(BASES[case["base"]])
    else:
        doc = json.loads(jsonpickle.encode(graph.build(case["base"])[0]))
    doc = apply(doc, case["edits"])
    text = json.dumps(doc)
    opts = dict(case["opts"])
    if opts.get("backend"):
        opts["backend"] = jsonpickle.backend.JSONBackend()
        opts["backend"].set_preferred_backend(case["opts"]["backend"])
    if case["via"] == "unsafe first":
        u = jsonpickle.Unpickler(safe=False)
        u.restore({"py/repr": "builtins/builtins.int"})
        jsonpickle.decode('{"py/repr": "builtins/builtins.int"}', safe=False)
    watching = True
    try:
        if case["via"] == "context":
            ctx_opts = {k: v for k, v in opts.items() if k != "classes"}
            jsonpickle.decode(text, context=jsonpickle.Unpickler(**ctx_opts), classes=opts.get("classes"))
        elif case["via"] == "restore":
            ctx_opts = {k: v for k, v in opts.items() if k != "classes"}
            jsonpickle.Unpickler(**ctx_opts).restore(json.loads(text), classes=opts.get("classes"))
        else:
            jsonpickle.decode(text, **opts)
    except (Exception, jsonpickle.errors.ClassNotFoundError):
        ctx.label("raised")
    else:
        ctx.label("decoded")
        ctx.nontrivial = True
    finally:
        watching = False
    if HITS:
        raise Violation(f"text of the document was evaluated ({short(HITS)}): {short(text)}")


def attribute(spec):
    """What legacy markup may yield when it is not evaluated."""
    module, _, path = spec.partition("/")
    if module not in sys.modules or not path.startswith(module + "."):
        return None
    obj = sys.modules[module]
    for part in path[len(module) + 1:].split("."):
        obj = getattr(obj, part, None)
    return obj


def legacy(case, ctx):
    global watching
    ctx.label("safe" if case["safe"] else "unsafe")
    doc, want, count = [], [], 0
    for n, (where, value, spec) in enumerate(case["items"]):
        if spec == "eval":
            spec = FORMS[value % len(FORMS)].format(value)
            want.append(None if case["safe"] else f"evaluated {value}")
            count += not case["safe"]
        elif case["safe"] or (attribute(spec) is not None):
            want.append(attribute(spec))
        else:
            continue  # evaluating it would fail
        part = {"py/repr": spec}
        doc.append([part] if where == "list" else {"k": part} if where == "dict" else {"py/object": "jpv.zoo.Plain", "k": part})
        ctx.nontrivial = True
    try:
        watching = True
        back = jsonpickle.decode(json.dumps(doc), safe=case["safe"], keys=case["keys"])
    except Exception as exc:
        raise Violation(f"legacy markup raised {type(exc).__name__}: {exc}") from exc
    finally:
        watching = False
    calls = [h for h in HITS if h != "code executed"]
    if len(calls) != count or case["safe"] and HITS:
        raise Violation(f"{count} evaluations expected, got {HITS}")
    got = [x.k if isinstance(x, zoo.Plain) else x["k"] if isinstance(x, dict) else x[0] for x in back]
    for g, w in zip(got, want, strict=True):
        if g is not w and g != w:
            raise Violation(f"legacy markup gave {short(g)} instead of {short(w)}")

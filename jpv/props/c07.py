"""C07: every call is independent of earlier calls."""

import re

import jsonpickle
from hypothesis import strategies as st
from jsonpickle import handlers

from .. import compare, gen, graph, zoo
from ..core import Violation, outcome, short

BUDGET = {"quick": 1800, "thorough": 25000}
KINDS = gen.family()
ODD = [k for k in gen.family("bomb") * 2 if k != "BombIter"] + gen.family("badrestore") * 4 + ["CtxProbe"] * 8
LEAF = gen.leaf("enum", "type", "func", "steady", "nul", "cx", "ba", "mod", "rng", "float")
KEY = st.one_of(gen.str_key, gen.str_key, gen.small_int, st.tuples(st.just("@"), st.integers(0, 9)))

PICKLERS = [{}, {}, {"make_refs": False}, {"unpicklable": False}, {"keys": True}, {"max_depth": 3},
            {"fail_safe": lambda exc: "failed"}, {"include_properties": True, "use_base85": True},
            {"numeric_keys": True, "max_iter": 2}, {"handler_context": "own"}]
UNPICKLERS = [{}, {}, {"keys": True}, {"on_missing": "error"}, {"keys": True, "on_missing": "error"}, {"handler_context": "own"}]
BAD_TEXTS = ["", "[", "{\"a\": tru}", "nope", "[1, 2", "[{\"py/object\": \"jpv.zoo.Plain\"}, {\"py/tuple\": [",
             "{\"py/object\": \"no.such.Thing\", \"a\": {\"py/id\": 1}}",
             "[{\"py/id\": 99}]", "{\"a\": {\"py/ref\": \"/\"}}",
             "{\"py/reduce\": [{\"py/function\": \"jpv.zoo._fail_build\"}, {\"py/tuple\": [[1]]}]}",
             "[[{\"a\": 1}, {\"py/object\": \"jpv.zoo.RestoreState\", \"py/state\": [[], []]}], {\"b\": [2]}]"]


class Local:
    """Found only when the caller supplies it (see ``classes``)."""


@handlers.register(zoo.CtxProbe)
class ProbeHandler(handlers.BaseHandler):
    def flatten(self, obj, data, handler_context=None):
        data["context"] = repr(handler_context)
        data["part"] = self.context.flatten(vars(obj).get("a"), reset=False)
        return data

    def restore(self, data, handler_context=None):
        out = zoo.CtxProbe.__new__(zoo.CtxProbe)
        out.seen = (data["context"], repr(handler_context))
        out.a = self.context.restore(data["part"], reset=False)
        return out


def strategy(tier):
    deep = tier == "thorough"
    recipe = gen.graph(KINDS + ODD, LEAF, key=KEY, max_nodes=9 if deep else 6, containers="LLDDTSFM")
    op = st.one_of(
        st.tuples(st.sampled_from(["encode", "encode", "flatten"]), st.integers(0, 2), st.integers(-1, 9),
                  st.sampled_from([None, None, "call", "indent", "separators"])),
        st.tuples(st.sampled_from(["decode", "decode", "restore"]), st.integers(0, 2), st.integers(-1, 5),
                  st.sampled_from([None, None, "call", "classes"])),
        st.tuples(st.just("bad"), st.integers(0, len(BAD_TEXTS) - 1), st.integers(-1, 5),
                  st.sampled_from([None, "call", "classes"])),
    )
    return st.fixed_dictionaries({
        "pool": st.sampled_from([1, 1, 2, 3, 10]),
        "first": st.integers(0, 9),
        "graphs": st.lists(recipe, min_size=1, max_size=3),
        "ops": st.lists(op, min_size=2, max_size=14 if deep else 9),
    })


def steady(x):
    return re.sub("0x[0-9a-f]{6,}|\\d{12,}", "0x", repr(x))


LOCAL = '{"py/object": "somewhere.Local", "v": [1, {"py/id": 1}]}'
CLASSES = {"somewhere.Local": Local}


def check(case, ctx):
    graphs = [graph.build(g)[0] for g in case["graphs"]]
    texts = []
    for g in graphs:
        pair = [outcome(jsonpickle.encode, g, keys=keys, fail_safe=lambda exc: None) for keys in (False, True)]
        texts.append([res[1] if res[0] == "ok" else BAD_TEXTS[5] for res in pair])
    texts.append([LOCAL, LOCAL])
    picklers = {}
    unpicklers = {}
    results = []
    failed = reused = 0
    for n, (what, which, c, extra) in enumerate(case["ops"]):
        if c >= 0:  # a small pool makes reuse likely
            pool = PICKLERS if what in ("encode", "flatten") else UNPICKLERS
            c = (case["first"] + c % case["pool"]) % len(pool)
        kwargs = {}
        if extra == "call":
            kwargs["handler_context"] = ("call", n)
        if what in ("encode", "flatten"):
            obj = graphs[which % len(graphs)]
            opts = PICKLERS[c] if c >= 0 else {}
            if extra == "indent":
                kwargs["indent"] = 1 + n % 3
            if extra == "separators":
                kwargs["separators"] = (",", ":")
            if what == "flatten":
                kwargs = {}
            fresh = jsonpickle.Pickler(**opts)
            if c >= 0:
                reused += c in picklers
                used = picklers.setdefault(c, jsonpickle.Pickler(**opts))
            else:
                used = None

            def call(p):
                if what == "flatten":
                    return (p or jsonpickle.Pickler()).flatten(obj)
                return jsonpickle.encode(obj, context=p, **kwargs)

            got = outcome(call, used)
            want = outcome(call, fresh)
            if steady(got) != steady(want):
                raise Violation(f"call {n} ({what}) gave {short(got, 300)} but on its own {short(want, 300)}")
        else:
            if what == "bad":
                text = BAD_TEXTS[which]
            elif extra == "classes":
                text = LOCAL
            else:
                text = texts[which % len(texts)]["keys" in UNPICKLERS[c] if c >= 0 else 0]
            if extra == "classes" and n % 2:
                kwargs["classes"] = CLASSES
            opts = UNPICKLERS[c] if c >= 0 else {}
            fresh = jsonpickle.Unpickler(**opts)
            if c >= 0:
                reused += c in unpicklers
                used = unpicklers.setdefault(c, jsonpickle.Unpickler(**opts))
            else:
                used = None

            def call(u):
                if what == "restore":
                    return (u or jsonpickle.Unpickler()).restore(jsonpickle.json.decode(text), classes=kwargs.get("classes"))
                return jsonpickle.decode(text, context=u, **kwargs)

            got = outcome(call, used)
            want = outcome(call, fresh)
            if got[0] != want[0]:
                raise Violation(f"call {n} ({what}) gave {short(got, 300)} but on its own {short(want, 300)}")
            if got[0] == "ok":
                compare.same_graph(want[1], got[1])
                results.append(got[1])
            elif steady(got) != steady(want):
                raise Violation(f"call {n} ({what}) gave {short(got, 300)} but on its own {short(want, 300)}")
        failed += got[0] == "exc"
    if failed:
        ctx.label("failing calls")
    if reused:
        ctx.label("reused contexts")
    ctx.nontrivial = len(case["ops"]) >= 3 and bool(failed or reused)
    unshared(results)
    now = canary()
    if now != CANARY:
        diff = [(a, b) for a, b in zip(CANARY, now) if a != b]
        raise Violation(f"after these calls a fixed call gives {short(diff[0][1], 300)} instead of {short(diff[0][0], 300)}")


def canary():
    """The results of fixed calls, which no history may change."""
    out = []
    shared = [1]
    thing = zoo.Plain.__new__(zoo.Plain)
    thing.a = shared
    probe = zoo.CtxProbe.__new__(zoo.CtxProbe)
    probe.a = thing
    value = {"x": shared, "y": [shared, thing, thing], 3: (b"\xff", {4}), "p": probe, None: True}
    for opts in ({}, {"unpicklable": False}, {"keys": True}, {"make_refs": False}, {"max_depth": 2}, {"use_base85": True}):
        res = outcome(jsonpickle.encode, value, **opts)
        out.append(steady(res))
        if res[0] == "ok":
            back = outcome(jsonpickle.decode, res[1], keys=True)
            out.append(steady(outcome(jsonpickle.encode, back[1], keys=True)) if back[0] == "ok" else back)
    out.append(steady(outcome(jsonpickle.decode, LOCAL)))
    out.append(outcome(jsonpickle.decode, LOCAL, on_missing="error"))
    return out


def unshared(results):
    """Separate decodes never return the same mutable object."""
    owner = {}
    for n, root in enumerate(results):
        todo = [root]
        while todo:
            o = todo.pop()
            if type(o) not in (list, dict, tuple):
                continue
            if type(o) is not tuple:
                if owner.setdefault(id(o), n) != n:
                    raise Violation(f"two decodes share the object {short(o)}")
                if (n, id(o)) in owner:
                    continue
                owner[n, id(o)] = n
            todo.extend(o.values() if type(o) is dict else o)


CANARY = canary()

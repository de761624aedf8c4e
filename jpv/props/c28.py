"""C28: nothing is kept alive after a call returns."""

import collections
import enum
import gc
import itertools
import types
import weakref

import jsonpickle
from hypothesis import strategies as st
from jsonpickle import handlers

from .. import gen, graph, zoo
from ..core import Violation, outcome

BUDGET = {"quick": 3000, "thorough": 20000}
KINDS = gen.family() + gen.family("handled")
ODD = [k for k in gen.family("bomb") if k != "BombIter"] * 2 + gen.family("badrestore") * 3
LEAF = gen.leaf("enum", "type", "func", "steady", "nul", "cx", "ba", "mod", "rng", "iter")
KEY = st.one_of(gen.str_key, gen.str_key, gen.small_int, st.tuples(st.just("@"), st.integers(0, 9)))
OPTIONS = [{}, {}, {}, {"make_refs": False, "max_depth": 8}, {"unpicklable": False, "max_depth": 8}, {"keys": True}, {"max_depth": 3},
           {"fail_safe": True}, {"use_base85": True}, {"include_properties": True},
           {"handler_context": True}, {"handler_context": True}, {"handler_context": True, "keys": True}]
ROUTES = ["call", "call", "context", "method"]


class Kept:
    """Handled by an object rather than a class."""


class KeptHandler(handlers.BaseHandler):
    def __init__(self):
        pass

    def flatten(self, obj, data):
        data["v"] = self.context.flatten(obj.__dict__, reset=False)
        return data

    def restore(self, data):
        obj = Kept()
        obj.__dict__.update(self.context.restore(data["v"], reset=False))
        return obj


class Passing:
    """Handled by a new handler object each time, which keeps what it handles."""


@handlers.register(Passing)
class PassingHandler(handlers.BaseHandler):
    def flatten(self, obj, data, handler_context=None):
        self.seen = obj
        data["v"] = self.context.flatten(obj.__dict__, reset=False)
        return data

    def restore(self, data, handler_context=None):
        self.seen = obj = Passing()
        obj.__dict__.update(self.context.restore(data["v"], reset=False))
        return obj


HANDLER = KeptHandler()
zoo.kind("Passing", Passing, alloc=Passing, fill=zoo._setattrs, items=False, attrs_early=True, attrs_swap=False, families=("kept",))
zoo.kind("Kept", Kept, alloc=Kept, fill=zoo._setattrs, items=False, attrs_early=True, attrs_swap=False, families=("kept",))
gen.SPECIAL.add("kept")


def strategy(tier):
    recipe = gen.graph(KINDS + ODD + ["Kept"] * 3 + ["Passing"] * 3, LEAF, key=KEY, containers="LLDDTSFM", max_nodes=9 if tier == "thorough" else 6)
    return st.fixed_dictionaries({
        "graphs": st.lists(recipe, min_size=1, max_size=2),
        "ops": st.lists(st.tuples(st.sampled_from(["encode", "encode", "decode", "decode", "cut"]), st.integers(0, 1),
                                  st.integers(0, len(OPTIONS) - 1), st.sampled_from(ROUTES), st.integers(0, 200)),
                        min_size=1, max_size=4),
    })


def options(n):
    opts = dict(OPTIONS[n])
    if "fail_safe" in opts:
        opts["fail_safe"] = lambda exc: "failed"
    if "handler_context" in opts:
        opts["handler_context"] = {"our": "own"}
    return opts


def let_go(context):
    """Our own context was seen by the handler object, which may hold it: its contents are ours to drop."""
    if getattr(HANDLER, "context", None) is context:
        HANDLER.context = None


def encode(root, opts, route):
    if route == "call":
        return jsonpickle.encode(root, **opts)
    context = jsonpickle.Pickler(**opts)
    try:
        if route == "context":
            return jsonpickle.encode(root, context=context)
        return jsonpickle.json.encode(context.flatten(root))
    finally:
        let_go(context)


def decode(text, opts, route):
    opts = {k: v for k, v in opts.items() if k in ("keys", "handler_context")}
    if route == "call":
        return jsonpickle.decode(text, **opts)
    context = jsonpickle.Unpickler(**opts)
    try:
        if route == "context":
            return jsonpickle.decode(text, context=context)
        return context.restore(jsonpickle.json.decode(text))
    finally:
        let_go(context)


def live():
    """Live instances of the classes of this framework, by class."""
    gc.collect()
    return collections.Counter(type(o) for o in gc.get_objects()
                               if type(o).__module__.startswith("jpv.") and type(o).__module__ != "jpv.core")


def one(recipe, op, watch):
    """One call; returns what happened."""
    what, _, n, route, cut = op
    root, objs, _ = graph.build(recipe)
    for obj in objs.values():
        try:
            watch.append((weakref.ref(obj), "encoded"))
        except TypeError:
            pass
    opts = options(n)
    if what == "encode":
        return outcome(encode, root, opts, route)[0]
    # a text to decode, whatever the graph is
    res = outcome(encode, root, {**opts, "fail_safe": lambda exc: None}, "call")
    if res[0] != "ok":
        return "none"
    text = res[1]
    del root, objs, obj
    if what == "cut":
        # a document that ends early, or refers to something unknown
        text = text[:cut % (len(text) or 1)] if cut % 2 else text.replace("jpv.", "jpv.no.", 1)
    res = outcome(decode, text, opts, route)
    if res[0] == "ok" and isinstance(res[1], (list, tuple)):
        for obj in res[1]:
            if isinstance(obj, FOREVER) or not type(obj).__module__.startswith("jpv."):
                continue
            try:
                watch.append((weakref.ref(obj), "decoded"))
            except TypeError:
                pass
    return res[0]


def check(case, ctx):
    handlers.register(Kept, HANDLER)
    try:
        run(case, ctx)
    finally:
        handlers.unregister(Kept)


CASES = itertools.count()
FOREVER = (enum.Enum, type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)


def run(case, ctx):
    if next(CASES) % 50 == 0:
        # what exists now will not be looked at again
        gc.collect()
        gc.freeze()
    before = live()
    watch = []
    for op in case["ops"]:
        recipe = case["graphs"][op[1] % len(case["graphs"])]
        res = one(recipe, op, watch)
        ctx.label(f"{op[0]} {res}")
        # the outcome itself is gone by now
        zoo.FAILURES.clear()
        after = live()
        kept = after - before
        # the class a weak reference points to may be anything, so name the class only
        dead = [how for ref, how in watch if ref() is not None]
        if dead:
            raise Violation(f"after {op[0]}, {len(dead)} {dead[0]} objects are still alive")
        if kept:
            names = ", ".join(sorted(f"{c.__name__} x {n}" for c, n in kept.items()))
            raise Violation(f"after {op[0]}, still alive: {names}")
    ctx.nontrivial = len(watch) >= 2

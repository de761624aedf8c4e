"""C33: a warning is issued exactly when a value is replaced by null."""

import io
import warnings

import jsonpickle
from hypothesis import strategies as st

from .. import gen, graph
from ..core import Violation, lib, short
from ..zoo import _new, _setattrs, kind

BUDGET = {"quick": 3000, "thorough": 40000}


class Refuses:
    """Its state cannot be had."""

    def __getstate__(self):
        raise TypeError("no state")


class RefusesSlots:
    __slots__ = ("a", "b", "__weakref__")

    def __getstate__(self):
        raise TypeError("no state")


class Unhandled:
    """Its handler gives up."""


class GiveUp(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data):
        return None

    def restore(self, data):
        raise RuntimeError("never stored")


class Emptied:
    """Its handler gives something that is empty but not null."""


class Empties(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data):
        return ["", 0, [], {}, False, 0.0][len(vars(obj)) % 6]

    def restore(self, data):
        return Emptied()


jsonpickle.handlers.register(Unhandled, GiveUp)
jsonpickle.handlers.register(Emptied, Empties)
graph.LEAVES["file"] = lambda: io.TextIOWrapper(io.BytesIO())
BAD = (Refuses, RefusesSlots, Unhandled)
for _c in BAD:
    kind(_c.__name__, _c, alloc=_new(_c), fill=_setattrs if _c is not RefusesSlots else None, items=False,
         families=("refuses",))
kind("Emptied", Emptied, alloc=_new(Emptied), fill=_setattrs, items=False, families=("emptied",))
gen.SPECIAL.update(("refuses", "emptied"))

KINDS = gen.family("attrs", exclude=("Descriptor",)) + gen.family("refuses") * 6 + gen.family("emptied")
LEAF = st.one_of(gen.tiny, gen.tiny, gen.leaf("enum", "type", "std", "cx", "ba"),
                 st.sampled_from([("nul", 0), ("nul", 1), ("file",)]))
CLEAN = gen.leaf("enum", "type", "std", "cx", "ba")


def strategy(tier):
    size = 14 if tier == "thorough" else 9
    return st.fixed_dictionaries({
        "graph": st.one_of(
            gen.graph(KINDS, LEAF, inst=4, containers="LLTTDDM", max_nodes=size),
            gen.graph(KINDS, LEAF, inst=4, containers="LLTTDDM", max_nodes=size),
            gen.graph(gen.family("attrs", "state", "emptied", exclude=("Descriptor",)), CLEAN, inst=4, containers="LLTSDDM",
                      max_nodes=size),
        ),
        "opts": st.fixed_dictionaries({}, optional={
            "unpicklable": st.just(False), "keys": st.just(True), "use_base85": st.just(True)}),
        "context": st.booleans(),
    })


def is_bad(v):
    return isinstance(v, BAD) or isinstance(v, io.TextIOWrapper) or is_lambda(v)


def is_lambda(v):
    return getattr(v, "__name__", None) == "<lambda>"


def replaced(root):
    """The values that become null, and others that may: unnamed functions are skipped as named values."""
    out, maybe, seen, todo = {}, {}, set(), [(root, False)]
    while todo:
        v, named = todo.pop()
        if is_bad(v):
            (maybe if named and is_lambda(v) else out)[id(v)] = v
            continue
        if id(v) in seen or isinstance(v, Emptied):
            continue
        seen.add(id(v))
        if isinstance(v, (list, tuple, set, frozenset)):
            todo += [(x, False) for x in v]
        elif isinstance(v, dict):
            todo += [(x, True) for x in v.values()]
        if type(v).__module__ in ("jpv.zoo", __name__) and isinstance(getattr(v, "__dict__", None), dict):
            todo += [(x, True) for x in vars(v).values()]
    return list(out.values()), list(maybe.values())


def encode(root, case, warn):
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        if case["context"]:
            context = jsonpickle.Pickler(warn=warn, **case["opts"])
            text = lib("encode", jsonpickle.encode, root, context=context)
        else:
            text = lib("encode", jsonpickle.encode, root, warn=warn, **case["opts"])
    return text, [str(w.message) for w in log]


def check(case, ctx):
    root, _, nodes = graph.build(case["graph"])
    bad, maybe = replaced(root)
    ctx.nontrivial = bool(bad)
    ctx.label(*case["opts"], *{type(v).__name__ for v in bad})
    text, log = encode(root, case, True)
    for v in bad:
        if not any(str(v) in m for m in log):
            raise Violation(f"no warning for {short(v)} in {short(text, 300)}; got {short(log, 300)}")
    for m in log:
        if not any(str(v) in m for v in bad + maybe):
            raise Violation(f"warning {short(m)} though everything was encoded: {short(text, 300)}")
    quiet, log = encode(root, case, False)
    if log:
        raise Violation(f"warning {short(log[0])} though warnings are off")
    if quiet != text:
        raise Violation(f"warnings change the text: {short(text, 300)} and {short(quiet, 300)}")

"""C31: including properties adds their current values and changes nothing else."""

import dataclasses
import json

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph
from ..core import Violation, lib, short
from ..zoo import _new, kind

BUDGET = {"quick": 3000, "thorough": 50000}
UIDS = {}


class Props:
    """Properties computed from the object, under names of several forms."""

    __slots__ = ()
    CONSTANT = ("a", 1)

    @property
    def ident(self):
        return UIDS[id(self)]

    @property
    def summary(self):
        return [UIDS[id(self)], {"k": [1, None, "é"]}, 0.5]

    @property
    def _hidden(self):
        return {"py/objec": True, "": -1}

    @property
    def first(self):
        """Some other object of the graph."""
        return getattr(self, "a", None)

    @property
    def me(self):
        return self

    @property
    def fresh(self):
        return [[], {}]

    def method(self):
        return self


class More(Props):
    __slots__ = ()

    @property
    def summary(self):
        return "more"

    @property
    def Extra(self):
        return {"n": UIDS[id(self)]}


class PropPlain(Props):
    pass


class PropMore(More):
    pass


class PropOver(More):
    fresh = "a class attribute"

    @property
    def first(self):
        return 7

    @first.setter
    def first(self, v):
        raise RuntimeError("never set")


class PropSlots(Props):
    __slots__ = ("a", "b", "c", "name", "_u", "value", "data")


class PropSlotsMore(PropSlots, More):
    __slots__ = ("limit",)


class PropSlotsDict(PropSlots):
    """Slots of its base and attributes of its own."""


class PropState(Props):
    def __getstate__(self):
        return {"state": dict(self.__dict__)}

    def __setstate__(self, state):
        self.__dict__.update(state["state"])


class PropReduce(More):
    def __reduce__(self):
        return (PropReduce, (), dict(self.__dict__))


@dataclasses.dataclass(repr=False, eq=False)
class PropData(Props):
    a: object = None
    b: object = None


class PropList(list, Props):
    pass


class PropDict(dict, Props):
    pass


class PropExcl(Props):
    _jsonpickle_exclude = ("summary", "method")


def _attrs(obj, items, attrs):
    for k, v in attrs:
        try:
            object.__setattr__(obj, k, v)
        except AttributeError:  # no such slot
            pass


def _items(obj, items, attrs):
    obj.extend(items)
    _attrs(obj, (), attrs)


def _entries(obj, items, attrs):
    obj.update((f"k{n}", v) for n, v in enumerate(items))
    _attrs(obj, (), attrs)


for _c in (PropPlain, PropMore, PropOver, PropSlots, PropSlotsMore, PropSlotsDict, PropState, PropReduce, PropData,
           PropExcl):
    kind(_c.__name__, _c, alloc=_new(_c), fill=_attrs, items=False, attrs_swap=_c not in (PropState, PropReduce),
         families=("prop",))
for _c in (PropList, PropDict):
    kind(_c.__name__, _c, alloc=_new(_c), fill=_entries if _c is PropDict else _items,
         items_swap=True, families=("prop",))
gen.SPECIAL.add("prop")

OWN = gen.family("prop")
OTHER = gen.family("attrs", "slots", "contsub", exclude=("Descriptor",))
NAMES = st.sampled_from(["a", "a", "b", "c", "name", "_u", "value", "data", "limit", "k1"])
LEAF = gen.leaf("enum", "type", "cx", "steady")


def strategy(tier):
    return st.fixed_dictionaries({
        "graph": gen.graph(OWN * 4 + OTHER, LEAF, inst=7, names=NAMES, containers="LLDDTM",
                           max_nodes=14 if tier == "thorough" else 9),
        "opts": st.fixed_dictionaries({}, optional={
            "unpicklable": st.just(False), "keys": st.just(True), "use_base85": st.just(True),
            "handle_readonly": st.just(True), "numeric_keys": st.just(True)}),
        "context": st.booleans(),
    })


def plain(v):
    """JSON made of scalars only, so that it looks the same wherever it stands."""
    return v is None or type(v) in (bool, int, str) or type(v) is float and v == v


def expected(obj):
    """The properties of an object and their values; a value that cannot be told is left out."""
    cls, out = type(obj), {}
    excluded = getattr(cls, "_jsonpickle_exclude", ())
    for name in dir(cls):
        if isinstance(getattr(cls, name), property) and name not in excluded:
            v = getattr(obj, name)
            out[name] = (v,) if name not in ("first", "me") or plain(v) else ()
    return out


def found(doc, out):
    """Collects the property lists that are not themselves inside a property."""
    if isinstance(doc, list):
        for v in doc:
            found(v, out)
    elif isinstance(doc, dict):
        for k, v in doc.items():
            if k == "py/property":
                out.append(v)
            else:
                found(v, out)
    return out


def unlisted(doc):
    """Every instance with properties has to list them."""
    if isinstance(doc, list):
        for v in doc:
            unlisted(v)
    elif isinstance(doc, dict):
        name = doc.get("py/object")
        if "py/reduce" in doc and isinstance(doc["py/reduce"][0], dict):
            name = doc["py/reduce"][0].get("py/type")
        if isinstance(name, str) and name.startswith(__name__ + ".") and "ident" not in doc.get("py/property", ()):
            raise Violation(f"no properties listed in {short(doc, 300)}")
        for k, v in doc.items():
            if k != "py/property":
                unlisted(v)


def strip(doc):
    if isinstance(doc, list):
        return [strip(v) for v in doc]
    if isinstance(doc, dict):
        return {k: strip(v) for k, v in doc.items() if k != "py/property"}
    return doc


def check(case, ctx):
    UIDS.clear()
    opts = dict(case["opts"])
    # (without references cycles are cut where they are met first, which may be in a property)
    root, objs, nodes = graph.build(case["graph"], acyclic="unpicklable" in opts)
    mine = {n: o for n, o in objs.items() if isinstance(o, Props)}
    UIDS.update((id(o), n) for n, o in mine.items())
    ctx.nontrivial = bool(mine) and len(nodes) >= 2
    ctx.label(*case["opts"], *(type(o).__name__ for o in mine.values()))
    if "('std'" in repr(nodes) or any(n[0] == "I" and n[1] in ("PropSlots", "PropSlotsMore") and not n[3] for n in nodes):
        # (objects without attributes have no plain form to compare)
        opts.pop("unpicklable", None)
    if case["context"]:
        context = jsonpickle.Pickler(include_properties=True, **opts)
        text = lib("encode", jsonpickle.encode, root, context=context)
    else:
        text = lib("encode", jsonpickle.encode, root, include_properties=True, **opts)
    bare = lib("encode", jsonpickle.encode, root, **opts)
    doc = json.loads(text)
    if strip(doc) != json.loads(bare):
        raise Violation(f"without its properties {short(text, 500)} is not {short(bare, 300)}")
    for props in found(doc, []):
        uid = props.get("ident")
        if uid is None:
            continue
        if uid not in mine:
            raise Violation(f"unknown object {uid!r} in {short(text, 300)}")
        obj = mine[uid]
        if any(not hasattr(type(obj), name) or name in getattr(obj, "_jsonpickle_exclude", ()) for name in props):
            raise Violation(f"properties {sorted(props)} listed for {type(obj).__name__}")
        for name, value in expected(obj).items():
            if name not in props:
                raise Violation(f"{name} of a {type(obj).__name__} is missing in {short(text, 300)}")
            if value and props[name] != value[0] or value and type(props[name]) is not type(value[0]):
                raise Violation(f"{name} of a {type(obj).__name__} listed as {short(props[name])} "
                                f"instead of {short(value[0])}")
    if opts.get("unpicklable", True):
        unlisted(doc)
        back = lib("decode", jsonpickle.decode, text, keys=opts.get("keys", False))
        compare.same_graph(root, back, ordered="keys" not in opts)


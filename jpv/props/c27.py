"""C27: excluded attributes never leave the object and everything else does."""

import collections
import dataclasses

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph, zoo
from ..core import Violation, lib, short
from ..zoo import EXCLUDED, KINDS, _fill_known, _new, _setattrs, kind

BUDGET = {"quick": 3500, "thorough": 50000}
MORE = ("excl2",)


@dataclasses.dataclass(frozen=True, repr=False, eq=False)
class ExclFrozen:
    _jsonpickle_exclude = frozenset(EXCLUDED)
    a: object = None
    b: object = None


class ExclPlainSub(zoo.Plain):
    _jsonpickle_exclude = EXCLUDED


class ExclDropped(zoo.Excl):
    """Turns the exclusion of its base class off."""

    _jsonpickle_exclude = ()


class ExclMangled:
    """Excludes a private attribute."""

    _jsonpickle_exclude = ("_ExclMangled__s", "b")


class ExclStateSlots:
    __slots__ = ("a", "b", "c", "name", "_u", "value", "data")
    _jsonpickle_exclude = EXCLUDED

    def __getstate__(self):
        return {n: getattr(self, n) for n in self.__slots__ if hasattr(self, n)}

    def __setstate__(self, state):
        for k, v in state.items():
            setattr(self, k, v)


class ExclStateDerived:
    """The state has names that the object does not have."""

    _jsonpickle_exclude = EXCLUDED

    def __getstate__(self):
        return {**self.__dict__, "b": "SECRET state"}

    def __setstate__(self, state):
        self.__dict__.update(state)


class ExclAny:
    """Knows what to exclude without listing it all."""

    _jsonpickle_exclude = {n: True for n in EXCLUDED + ("limit", "k0")}


class ExclOrd(collections.OrderedDict):
    _jsonpickle_exclude = EXCLUDED
    __repr__ = zoo.ExclDict.__repr__


class ExclDefault(collections.defaultdict):
    _jsonpickle_exclude = EXCLUDED
    __repr__ = zoo.ExclDict.__repr__


for _c in (ExclFrozen, ExclPlainSub, ExclDropped, ExclMangled, ExclStateDerived, ExclAny):
    kind(_c.__name__, _c, alloc=_new(_c), fill=_setattrs, items=False, attrs_swap=_c is not ExclStateDerived,
         families=("excl2",))
kind("ExclStateSlots", ExclStateSlots, alloc=_new(ExclStateSlots), fill=_fill_known, items=False,
     attrs_swap=False, families=("excl2",))
graph.MAPPINGS.update({"ExclDict": zoo.ExclDict, "ExclOrd": ExclOrd, "ExclDefault": lambda: ExclDefault(list)})
gen.SPECIAL.add("excl2")

HIDING = gen.family("excl", "excl2")
OPEN = gen.family("attrs", "slots", "contsub", "state", "newargs", exclude=("Descriptor",))
NAMES = st.sampled_from(["b", "_u", "data", "name", "a", "b", "c", "value", "limit", "k0"])
KEY = st.sampled_from(["b", "_u", "data", "name", "a", "k0", "k1", "py/objec", ""])
LEAF = gen.leaf("enum", "type", "cx", "ba")


def strategy(tier):
    maps = st.sampled_from(["ExclDict", "ExclDict", "ExclOrd", "ExclDefault", "DictSub", "OrderedDict", "defaultdict"])
    return st.fixed_dictionaries({
        "graph": gen.graph(HIDING * 3 + OPEN, LEAF, key=KEY, containers="LDDTMMM", names=NAMES, maps=maps, inst=6,
                           max_nodes=14 if tier == "thorough" else 9),
        "secrets": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 13)), min_size=1, max_size=6),
        "opts": st.fixed_dictionaries({}, optional={
            "unpicklable": st.just(False), "make_refs": st.just(False), "keys": st.just(True),
            "include_properties": st.just(True), "max_depth": st.integers(1, 6), "use_base85": st.just(True),
            "numeric_keys": st.just(True)}),
    })


def hidden(obj):
    return sorted(getattr(type(obj), "_jsonpickle_exclude", ()))


def secret(style, n, other):
    token = f"SECRET {n}"
    if style == 0:
        return token
    if style == 1:
        return [token, other]
    if style == 2:
        return {token: other, "b": token}
    box = zoo.Plain.__new__(zoo.Plain)
    box.public = token
    return box


def put(obj, name, value):
    """Stores a value where the object keeps its attributes, and as an entry of dicts."""
    try:
        object.__setattr__(obj, name, value)
    except AttributeError:  # no such slot
        return False
    if isinstance(obj, dict):
        dict.__setitem__(obj, name, value)
    return True


def strip(obj):
    for name in hidden(obj):
        if isinstance(obj, dict):
            dict.pop(obj, name, None)
        try:
            object.__delattr__(obj, name)
        except AttributeError:
            pass


def check(case, ctx):
    root, objs, nodes = graph.build(case["graph"])
    expected, bare, _ = graph.build(case["graph"])
    planted = 0
    plan = case["secrets"]
    everything = list(objs.values())
    for n, obj in enumerate(everything):
        names = hidden(obj)
        for m, name in enumerate(names):
            style, which = plan[(n + m) % len(plan)]
            planted += put(obj, name, secret(style, planted, everything[which % len(everything)]))
        if names:
            ctx.label(type(obj).__name__)
    for obj in bare.values():
        strip(obj)
    ctx.nontrivial = planted > 0
    opts = case["opts"]
    ctx.label(*opts)
    if opts.get("make_refs") is False:
        opts = {**opts, "max_depth": opts.get("max_depth", 6)}
    text = lib("encode", jsonpickle.encode, root, **opts)
    at = text.find("SECRET")
    if at >= 0:
        raise Violation(f"excluded data in the text: {text[max(0, at - 60):at + 30]!r}")
    if opts.keys() & {"unpicklable", "make_refs", "max_depth"}:
        return
    back = lib("decode", jsonpickle.decode, text, keys=opts.get("keys", False))
    try:
        compare.same_graph(expected, back)
    except Violation as exc:
        raise Violation(f"{exc} from {short(text, 400)}") from exc


assert all(k in KINDS for k in HIDING)

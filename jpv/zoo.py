"""Importable classes covering every way in which an object can expose its state.

``KINDS`` maps a short name to a :class:`Kind`, which knows how to construct an
instance of the class from a list of items and a list of (name, value) attributes.
"""

import abc
import collections
import copyreg
import dataclasses
import enum
import io
import time
import types
import typing

INIT_LOG = []


class Kind:
    """How the graph builder makes instances of one class.

    ``lazy``: the items are needed to construct the object (constructor arguments).
    ``items_swap``/``attrs_swap``: a reference from this object to an enclosing object
    that is still being constructed is patched up afterwards by the decoder.
    ``attrs_early``: the attributes, too, are restored before the object exists.
    """

    def __init__(self, cls, alloc=None, make=None, fill=None, *, items=True, attrs=True,
                 items_swap=False, attrs_swap=True, items_hash=False, hashable=False,
                 scalar_items=False, attrs_early=False, families=()):
        self.cls = cls
        self.alloc = alloc
        self.make = make
        self.fill = fill
        self.lazy = make is not None
        self.items = items
        self.attrs = attrs
        self.items_swap = items_swap
        self.attrs_swap = attrs_swap
        self.items_hash = items_hash
        self.hashable = hashable
        self.scalar_items = scalar_items
        self.attrs_early = attrs_early
        self.families = set(families)


KINDS = {}


def _new(cls):
    return lambda: cls.__new__(cls)


def _setattrs(obj, items, attrs):
    for k, v in attrs:
        object.__setattr__(obj, k, v)


def kind(name, cls, **kw):
    KINDS[name] = Kind(cls, **kw)


# ---------------------------------------------------------------- plain attributes


class Plain:
    def __init__(self, required):
        INIT_LOG.append("Plain")
        raise RuntimeError("constructor must not run")


class PlainSub(Plain):
    limit = 10  # a class attribute that instances may shadow

    @property
    def doubled(self):
        return 2

    def method(self):
        return self


class PlainEq:
    """Compares equal to every other instance: identity must not be confused with ==."""

    def __eq__(self, other):
        return isinstance(other, PlainEq)

    __hash__ = None


class Outer:
    class Inner:
        class Innermost:
            pass


@dataclasses.dataclass(eq=False, repr=False)
class Data:
    a: object
    b: object = 7

    def __post_init__(self):
        INIT_LOG.append("Data")


@dataclasses.dataclass(frozen=True, eq=False, repr=False)
class Frozen:
    a: object
    b: object = 7


for _n, _c in [("Plain", Plain), ("PlainSub", PlainSub), ("PlainEq", PlainEq),
               ("Inner", Outer.Inner), ("Innermost", Outer.Inner.Innermost),
               ("Data", Data), ("Frozen", Frozen)]:
    kind(_n, _c, alloc=_new(_c), fill=_setattrs, items=False, families=("attrs",))


class Falsy:
    """An object that is false and empty must not be mistaken for a missing one."""

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Callable:
    def __call__(self):
        INIT_LOG.append("Callable")
        return 1


class NoRepr:
    """Callable, but cannot be printed."""

    def __call__(self):
        return 1

    def __repr__(self):
        raise RuntimeError("no repr")


kind("NoRepr", NoRepr, alloc=_new(NoRepr), fill=_setattrs, items=False, families=("norepr",))


class Getattr:
    """Answers for attributes it does not have."""

    def __getattr__(self, name):
        if name.startswith("__") or name in ("_jsonpickle_exclude", "default_factory", "_"):
            raise AttributeError(name)
        return f"dynamic {name}"


class Descriptor:
    """Stores what is assigned to ``a`` under another name."""

    @property
    def a(self):
        return self.__dict__.get("_stored")

    @a.setter
    def a(self, value):
        self.__dict__["_stored"] = value

    @property
    def boom(self):
        raise RuntimeError("properties are not part of the state")


class Abstract(abc.ABC):
    @abc.abstractmethod
    def run(self):
        pass


class Concrete(Abstract, typing.Generic[typing.TypeVar("T")]):
    def run(self):
        return 1


for _n, _c in [("Falsy", Falsy), ("Callable", Callable), ("Getattr", Getattr),
               ("Descriptor", Descriptor), ("Concrete", Concrete)]:
    kind(_n, _c, alloc=_new(_c), fill=_setattrs, items=False, families=("attrs",))


class Rich:
    """Class attributes and properties, one of which changes the object when assigned."""

    b = 1
    c = "class attribute"
    limit = None

    @property
    def value(self):
        return 5

    @value.setter
    def value(self, new):
        self.__dict__["_sets"] = self.__dict__.get("_sets", 0) + 1

    @property
    def name(self):
        return "read only"

    @property
    def data(self):
        return self.__dict__.get("a")

    @data.setter
    def data(self, new):
        self.__dict__["a"] = [new]


def _fill_rich(obj, items, attrs):
    obj.__dict__.update((k, v) for k, v in attrs if k not in ("value", "name", "data"))


kind("Rich", Rich, alloc=_new(Rich), fill=_fill_rich, items=False, families=("attrs",))


class Hashed:
    """Usable as a set element and dictionary key while it is still empty."""

    def __hash__(self):
        return 11

    def __eq__(self, other):
        return self is other


kind("Hashed", Hashed, alloc=_new(Hashed), fill=_setattrs, items=False, hashable=True,
     families=("attrs",))


# ------------------------------------------------------------------------- slots


class SlotBase:
    __slots__ = ("a", "b", "__p")


class SlotSub(SlotBase):
    __slots__ = ("c", "_u", "__p")


class SlotStr:
    __slots__ = "a"


class SlotEmptySub(SlotBase):
    __slots__ = ()


class SlotAndDict(SlotBase):
    pass


class _SlotUnder:
    __slots__ = ("__q", "a")


class SlotOuter:
    class Nested:
        __slots__ = ("__r", "a", "s__")

    class _Under(SlotBase):
        __slots__ = ("__r", "c")


class SlotConst:
    """What the class itself has to say is no part of an instance."""

    __slots__ = ("a", "b")

    LIMIT = 7
    names = {"a": 1}
    Kind = SlotOuter

    @property
    def total(self):
        return 3

    @staticmethod
    def helper():
        return 1


class SlotDictMix(SlotSub):
    __slots__ = ("__dict__", "z")


@dataclasses.dataclass(slots=True, eq=False, repr=False)
class SlotData:
    a: object
    b: object = 1


@dataclasses.dataclass(frozen=True, slots=True, eq=False, repr=False)
class FrozenSlots:
    """Gets state hooks from dataclass(): its state is a list of the field values."""

    a: object
    b: object = 1


SLOT_NAMES = {
    "SlotBase": (SlotBase, ["a", "b", "_SlotBase__p"]),
    "SlotSub": (SlotSub, ["a", "b", "_SlotBase__p", "c", "_u", "_SlotSub__p"]),
    "SlotStr": (SlotStr, ["a"]),
    "SlotEmptySub": (SlotEmptySub, ["a", "b", "_SlotBase__p"]),
    "SlotAndDict": (SlotAndDict, ["a", "b", "_SlotBase__p", "dd", "ee"]),
    "SlotUnder": (_SlotUnder, ["_SlotUnder__q", "a"]),
    "SlotNested": (SlotOuter.Nested, ["_Nested__r", "a", "s__"]),
    "SlotNestedUnder": (SlotOuter._Under, ["_Under__r", "a", "c", "_SlotBase__p"]),
    "SlotConst": (SlotConst, ["a", "b"]),
}


def _slotfill(names):
    def fill(obj, items, attrs):
        for i, (k, v) in enumerate(attrs):
            object.__setattr__(obj, names[(len(k) + i) % len(names)], v)

    return fill


for _n, (_c, _names) in SLOT_NAMES.items():
    kind(_n, _c, alloc=_new(_c), fill=_slotfill(_names), items=False, families=("slots",))


# A dataclass with slots gets __getstate__/__setstate__ only when it is frozen.
kind("SlotData", SlotData, alloc=_new(SlotData), fill=_slotfill(["a", "b"]), items=False,
     families=("slots",))


def _fill_frozenslots(obj, items, attrs):
    vals = [v for _, v in attrs] + [1, 2]
    object.__setattr__(obj, "a", vals[0])
    object.__setattr__(obj, "b", vals[1])


kind("FrozenSlots", FrozenSlots, alloc=_new(FrozenSlots), fill=_fill_frozenslots, items=False,
     attrs_swap=False, families=("slots",))


# ---------------------------------------------------- subclasses of the containers


class ListSub(list):
    pass


class SetSub(set):
    __hash__ = None


class DictSub(dict):
    pass


class TupleSub(tuple):
    pass


class OrdSub(collections.OrderedDict):
    pass


Named = collections.namedtuple("Named", "x y z")


class NamedSub(Named):
    pass


def _fill_list(obj, items, attrs):
    obj.extend(items)
    _setattrs(obj, items, attrs)


def _fill_set(obj, items, attrs):
    obj.update(items)
    _setattrs(obj, items, attrs)


ITEM_KEYS = ["k0", "k1", "a", "key 2", "ké", "json://k", "py/object2", "", "k8", "k9"]


def _fill_dict(obj, items, attrs):
    for i, v in enumerate(items):
        dict.__setitem__(obj, ITEM_KEYS[i % len(ITEM_KEYS)] + ("" if i < 10 else str(i)), v)
    _setattrs(obj, items, attrs)


kind("ListSub", ListSub, alloc=ListSub, fill=_fill_list, items_swap=True, families=("contsub",))
kind("SetSub", SetSub, alloc=SetSub, fill=_fill_set, items_hash=True, families=("contsub",))
kind("DictSub", DictSub, alloc=DictSub, fill=_fill_dict, items_swap=True, families=("contsub",))
kind("TupleSub", TupleSub, make=lambda items: TupleSub(items), fill=_setattrs,
     families=("contsub",))
kind("Named", Named, make=lambda items: Named(*(list(items) + [None] * 3)[:3]), attrs=False,
     families=("contsub",))
kind("NamedSub", NamedSub, make=lambda items: NamedSub(*(list(items) + [None] * 3)[:3]),
     fill=_setattrs, families=("contsub",))


# --------------------------------------------------------------- subclasses of scalars


class IntSub(int):
    pass


class StrSub(str):
    pass


class FloatSub(float):
    pass


def _scalar(cls, conv):
    def make(items):
        return cls(conv(items[0]) if items else conv(None))

    return make


kind("IntSub", IntSub, make=_scalar(IntSub, lambda v: v if type(v) in (int, bool) else 3),
     fill=_setattrs, scalar_items=True, families=("scalarsub",))
kind("StrSub", StrSub, make=_scalar(StrSub, lambda v: v if type(v) is str else "s"),
     fill=_setattrs, scalar_items=True, families=("scalarsub",))
kind("FloatSub", FloatSub, make=_scalar(FloatSub, lambda v: v if type(v) is float else 0.5),
     fill=_setattrs, scalar_items=True, families=("scalarsub",))


class IntRead(int):
    """No attributes of its own: all that can be read is read-only."""

    __slots__ = ()
    limit = 10

    @property
    def doubled(self):
        return self * 2

    @staticmethod
    def parse(v):
        return v


class StrRead(str):
    __slots__ = ()
    limit = 10
    data = ("x",)

    @property
    def name(self):
        return self.upper()

    @classmethod
    def build(cls, v):
        return cls(v)

    def __html__(self):
        return self


class StrReadSub(StrRead):
    __slots__ = ()


class FloatRead(float):
    __slots__ = ()


class IntReadState(int):
    """Like the 64-bit integers of bson."""

    __slots__ = ()
    _type_marker = 18

    def __getstate__(self):
        return {}

    def __setstate__(self, state):
        pass


for _c, _f in ((IntRead, lambda v: v if type(v) in (int, bool) else 3),
               (IntReadState, lambda v: v if type(v) in (int, bool) else 3),
               (StrRead, lambda v: v if type(v) is str else "s"),
               (StrReadSub, lambda v: v if type(v) is str else "s"),
               (FloatRead, lambda v: v if type(v) is float else 0.5)):
    kind(_c.__name__, _c, make=_scalar(_c, _f), attrs=False, scalar_items=True, families=("readonly",))


# ------------------------------------------------------------------ __getstate__ forms


class StateDict:
    def __getstate__(self):
        return dict(self.__dict__)

    def __setstate__(self, state):
        if type(state) is not dict:
            raise RuntimeError(f"unexpected state {state!r}")
        self.__dict__.update(state)
        self.__dict__.pop("never", None)


class StateDictNoSet:
    def __getstate__(self):
        return dict(self.__dict__)


class StateTuple:
    """State is a tuple."""

    def __getstate__(self):
        return (self.vals[0], self.vals[1:], len(self.vals))

    def __setstate__(self, state):
        first, rest, count = state
        self.vals = [first, *rest]
        if count != len(self.vals):
            raise RuntimeError("state was altered")


class StateList:
    def __getstate__(self):
        return [1, *self.vals]

    def __setstate__(self, state):
        if type(state) is not list or state[0] != 1:
            raise RuntimeError(f"unexpected state {state!r}")
        self.vals = state[1:]


class StateScalar:
    def __getstate__(self):
        return self.v

    def __setstate__(self, state):
        self.v = state


class StateEmpty:
    def __getstate__(self):
        return {}


class StateSlots:
    """The default state of objects with slots: (None or dict, slot dict)."""

    __slots__ = ("a", "b", "__dict__")

    def __getstate__(self):
        slots = {k: getattr(self, k) for k in ("a", "b") if hasattr(self, k)}
        return (dict(self.__dict__) or None, slots)


class StateSub(StateDict):
    pass


class StateKey:
    """Uses its state hook to rename things."""

    def __getstate__(self):
        return {"wrapped": [self.v], "extra": {"n": 1}}

    def __setstate__(self, state):
        if state["extra"] != {"n": 1}:
            raise RuntimeError("state was altered")
        (self.v,) = state["wrapped"]


def _fill_vals(obj, items, attrs):
    obj.vals = [0, *items]


def _fill_v(obj, items, attrs):
    obj.v = items[0] if items else 1


def _fill_scalar(obj, items, attrs):
    v = items[0] if items else 1
    obj.v = v if isinstance(v, (int, str, float)) and v else "state"


kind("StateDict", StateDict, alloc=_new(StateDict), fill=_setattrs, items=False,
     attrs_swap=False, families=("state",))
kind("StateSub", StateSub, alloc=_new(StateSub), fill=_setattrs, items=False,
     attrs_swap=False, families=("state",))
kind("StateDictNoSet", StateDictNoSet, alloc=_new(StateDictNoSet), fill=_setattrs, items=False,
     families=("state",))
kind("StateTuple", StateTuple, alloc=_new(StateTuple), fill=_fill_vals, attrs=False,
     families=("state",))
kind("StateList", StateList, alloc=_new(StateList), fill=_fill_vals, attrs=False,
     families=("state",))
kind("StateScalar", StateScalar, alloc=_new(StateScalar), fill=_fill_scalar, attrs=False,
     scalar_items=True, families=("state",))
kind("StateEmpty", StateEmpty, alloc=_new(StateEmpty), fill=lambda o, i, a: None, items=False,
     attrs=False, families=("state",))
kind("StateSlots", StateSlots, alloc=_new(StateSlots),
     fill=_slotfill(["a", "b", "dd", "ee"]), items=False, families=("state",))
kind("StateKey", StateKey, alloc=_new(StateKey), fill=_fill_v, attrs=False, families=("state",))


# ----------------------------------------------------------- constructor argument hooks


class NewArgs:
    def __new__(cls, *args):
        self = object.__new__(cls)
        self.seen = list(args)
        return self

    def __getnewargs__(self):
        return tuple(self.seen)


class NewArgsState:
    """The arguments only travel through __getnewargs__."""

    def __new__(cls, *args):
        self = object.__new__(cls)
        self.seen = list(args)
        return self

    def __getnewargs__(self):
        return tuple(self.seen)

    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if k != "seen"}


class NewArgsEx:
    def __new__(cls, *args, **kwargs):
        self = object.__new__(cls)
        self.seen = list(args)
        self.kw = kwargs
        return self

    def __getnewargs_ex__(self):
        return tuple(self.seen), dict(self.kw)

    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if k not in ("seen", "kw")}


class InitArgs:
    def __init__(self, *args):
        INIT_LOG.append("InitArgs")
        self.seen = list(args)

    def __getinitargs__(self):
        return tuple(self.seen)


def _make_ex(items):
    half = len(items) // 2
    return NewArgsEx(*items[:half], **{f"k{i}": v for i, v in enumerate(items[half:])})


def _make_init(items):
    obj = object.__new__(InitArgs)
    obj.seen = list(items)
    return obj


kind("NewArgs", NewArgs, make=lambda items: NewArgs(*items), fill=_setattrs,
     families=("newargs",))
kind("NewArgsState", NewArgsState, make=lambda items: NewArgsState(*items), fill=_setattrs,
     families=("newargs",))
kind("NewArgsEx", NewArgsEx, make=_make_ex, fill=_setattrs, families=("newargs",))
kind("InitArgs", InitArgs, make=_make_init, fill=_setattrs, families=("newargs",))


class HashedNew:
    """Hashes by a tag that is known as soon as it is constructed."""

    def __new__(cls, tag):
        self = object.__new__(cls)
        self.tag = tag
        return self

    def __getnewargs__(self):
        return (self.tag,)

    def __hash__(self):
        return hash(self.tag)

    def __eq__(self, other):
        return self is other


def _tag(v):
    return v if type(v) in (int, str, float, bytes, bool) else "tag"


kind("HashedNew", HashedNew, make=lambda items: HashedNew(_tag(items[0]) if items else 5),
     fill=_setattrs, scalar_items=True, hashable=True, families=("newargs",))


@dataclasses.dataclass(frozen=True, repr=False)
class KeyData:
    """Compares and hashes by value."""

    a: object
    b: object = 7


kind("KeyData", KeyData, make=lambda items: KeyData(_tag(items[0]) if items else 5),
     attrs=False, scalar_items=True, families=("attrs",))


# ------------------------------------------------------------------- __reduce__ forms


class RedArgs:
    def __init__(self, *args):
        self.seen = list(args)

    def __reduce__(self):
        return (RedArgs, tuple(self.seen))


def make_redfunc(*args):
    obj = object.__new__(RedFunc)
    obj.seen = list(args)
    return obj


class RedFunc:
    def __reduce__(self):
        return (make_redfunc, tuple(self.seen), {k: v for k, v in self.__dict__.items() if k != "seen"})


class RedState:
    def __reduce__(self):
        return (RedState, (), dict(self.__dict__))


class RedSetState:
    def __reduce__(self):
        return (RedSetState, (), tuple(self.vals))

    def __setstate__(self, state):
        if type(state) is not tuple:
            raise RuntimeError(f"unexpected state {state!r}")
        self.vals = list(state)


class RedAny:
    """Any value can be the state, false ones too; None means that there is none."""

    state = None

    def __reduce__(self):
        return (RedAny, (), self.state)

    def __setstate__(self, state):
        self.state = state
        self.count = vars(self).get("count", 0) + 1


class RedList:
    def __init__(self, tag):
        self.tag = tag
        self.vals = []

    def append(self, v):
        self.vals.append(v)

    def extend(self, vs):
        self.vals.extend(vs)

    def __reduce__(self):
        return (RedList, ("t",), None, iter(self.vals))


class RedAppend:
    def __init__(self):
        self.vals = []

    def append(self, v):
        self.vals.append(v)

    def __reduce__(self):
        return (RedAppend, (), {"extra": 3} if self.vals else None, iter(self.vals))


class RedDict:
    def __init__(self):
        self.vals = {}

    def __setitem__(self, k, v):
        self.vals[k] = v

    def __reduce__(self):
        return (RedDict, (), None, None, iter(self.vals.items()))


class RedAll:
    def __init__(self, *args):
        self.seen = list(args)
        self.vals = []
        self.map = {}

    def extend(self, vs):
        self.vals.extend(vs)

    def __setitem__(self, k, v):
        self.map[k] = v

    def __reduce_ex__(self, protocol):
        state = {k: v for k, v in self.__dict__.items() if k not in ("seen", "vals", "map")}
        return (RedAll, tuple(self.seen), state or None, iter(self.vals), iter(self.map.items()))


def set_red_state(obj, state):
    obj.vals = state["v"]


class RedSetter:
    def __setstate__(self, state):
        raise RuntimeError("the state setter takes priority")

    def __reduce__(self):
        return (RedSetter, (), {"v": self.vals}, None, None, set_red_state)


class RedNewObj:
    """Reduces through copyreg.__newobj__, as the default protocol does."""

    def __new__(cls, *args):
        self = object.__new__(cls)
        self.seen = list(args)
        return self

    def __reduce_ex__(self, protocol):
        return (copyreg.__newobj__, (RedNewObj, *self.seen),
                {k: v for k, v in self.__dict__.items() if k != "seen"} or None)


class RedDefault:
    def __reduce_ex__(self, protocol):
        return super().__reduce_ex__(protocol)


class RedSlots:
    __slots__ = ("a", "b")

    def __reduce__(self):
        return (RedSlots, (), (None, {k: getattr(self, k) for k in ("a", "b") if hasattr(self, k)}))


SINGLETON = Plain.__new__(Plain)
SINGLETON.__dict__.update(a=1, b=[2, 3], c="single")


class Registry:
    one = Plain.__new__(Plain)


Registry.one.__dict__.update(z=[9])


class RedName:
    """Reduces to the name of another object, which is encoded in its place."""

    target = SINGLETON

    def __reduce__(self):
        return "jpv.zoo.SINGLETON"


class RedNameDeep:
    target = Registry.one

    def __reduce__(self):
        return "jpv.zoo.Registry.one"


def _fill_all(obj, items, attrs):
    for i, (k, v) in enumerate(attrs):
        if i % 3 == 0:
            obj.vals.append(v)
        elif i % 3 == 1:
            obj.map[k] = v
        else:
            setattr(obj, k, v)


def _fill_redany(obj, items, attrs):
    # files and unnamed functions become null, which is no state
    if items and items[0] is not None and not isinstance(items[0], (io.TextIOWrapper, types.FunctionType)):
        obj.state, obj.count = items[0], 1


def _fill_redvals(obj, items, attrs):
    obj.vals = list(items)


def _fill_redappend(obj, items, attrs):
    obj.vals = list(items)
    if items:
        obj.extra = 3


def _fill_reddict(obj, items, attrs):
    obj.vals = {ITEM_KEYS[i % 10]: v for i, v in enumerate(items)}


kind("RedArgs", RedArgs, make=lambda items: RedArgs(*items), attrs=False, families=("reduce",))
kind("RedFunc", RedFunc, make=lambda items: make_redfunc(*items), fill=_setattrs,
     families=("reduce",))
kind("RedState", RedState, alloc=_new(RedState), fill=_setattrs, items=False,
     families=("reduce",))
kind("RedSetState", RedSetState, alloc=_new(RedSetState),
     fill=lambda o, i, a: setattr(o, "vals", list(i)), attrs=False, families=("reduce",))
kind("RedAny", RedAny, alloc=_new(RedAny), fill=_fill_redany, attrs=False, families=("reduce",))
kind("RedList", RedList, alloc=lambda: RedList("t"), fill=_fill_redvals, attrs=False,
     families=("reduce",))
kind("RedAppend", RedAppend, alloc=RedAppend, fill=_fill_redappend, attrs=False,
     families=("reduce",))
kind("RedDict", RedDict, alloc=RedDict, fill=_fill_reddict, attrs=False, families=("reduce",))
kind("RedAll", RedAll, make=lambda items: RedAll(*items), fill=_fill_all, attrs_swap=False,
     families=("reduce",))
kind("RedSetter", RedSetter, alloc=_new(RedSetter),
     fill=lambda o, i, a: setattr(o, "vals", list(i)), attrs=False, items_swap=True,
     families=("reduce",))
kind("RedNewObj", RedNewObj, make=lambda items: RedNewObj(*items), fill=_setattrs,
     families=("reduce",))
kind("RedDefault", RedDefault, alloc=_new(RedDefault), fill=_setattrs, items=False,
     families=("reduce",))
kind("RedSlots", RedSlots, alloc=_new(RedSlots), fill=_slotfill(["a", "b"]), items=False,
     attrs_swap=False, families=("reduce",))
kind("RedName", RedName, alloc=RedName, fill=lambda o, i, a: None, items=False, attrs=False,
     families=("redirect",))
kind("RedNameDeep", RedNameDeep, alloc=RedNameDeep, fill=lambda o, i, a: None, items=False,
     attrs=False, families=("redirect",))


# ------------------------------------------------------------------------- exceptions


class Err(Exception):
    pass


class ErrInit(ValueError):
    def __init__(self, *args):
        super().__init__(*args)


kind("Err", Err, make=lambda items: Err(*items), fill=_setattrs, attrs_swap=False, families=("exc",))
kind("ErrInit", ErrInit, make=lambda items: ErrInit(*items), fill=_setattrs, attrs_swap=False, families=("exc",))
kind("KeyError", KeyError, make=lambda items: KeyError(*items), fill=_setattrs,
     attrs_swap=False, families=("exc",))


# ------------------------------------------------------------ standard library containers


def _fill_plaindict(obj, items, attrs):
    for i, v in enumerate(items):
        obj[ITEM_KEYS[i % 10]] = v


kind("OrderedDict", collections.OrderedDict, alloc=collections.OrderedDict, fill=_fill_plaindict,
     attrs=False, families=("stdlib",))
kind("OrdSub", OrdSub, alloc=OrdSub, fill=_fill_plaindict, attrs=False, items_swap=True,
     families=("stdlib",))
kind("defaultdict", collections.defaultdict, alloc=lambda: collections.defaultdict(list),
     fill=_fill_plaindict, attrs=False, items_swap=True, families=("stdlib",))
kind("deque", collections.deque, alloc=collections.deque,
     fill=lambda o, i, a: o.extend(i), attrs=False, families=("stdlib",))
kind("UserDict", collections.UserDict, alloc=collections.UserDict, fill=_fill_plaindict,
     attrs=False, items_swap=True, families=("stdlib",))
kind("UserList", collections.UserList, alloc=collections.UserList,
     fill=lambda o, i, a: o.extend(i), attrs=False, items_swap=True, families=("stdlib",))
kind("struct_time", time.struct_time,
     make=lambda items: time.struct_time((list(items) + [1, 2, 3, 4, 5, 6, 0, 8, -1])[-9:]),
     attrs=False, scalar_items=True, families=("stdlib",))
kind("Namespace", types.SimpleNamespace, alloc=types.SimpleNamespace, fill=_setattrs,
     items=False, attrs_swap=False, families=("stdlib",))


# -------------------------------------------------------------------------------- enums


class Color(enum.Enum):
    RED = 1
    GREEN = "green"
    BLUE = (1, 2)
    ALIAS = 1


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


class Text(enum.StrEnum):
    A = "a"
    B = "b"


class Perm(enum.Flag):
    R = 4
    W = 2
    X = 1


class IPerm(enum.IntFlag):
    R = 4
    W = 2


ENUMS = [Color.RED, Color.GREEN, Color.BLUE, Num.ONE, Num.TWO, Text.A, Text.B, Perm.R, Perm.W,
         Perm.R | Perm.X, IPerm.R, IPerm.R | IPerm.W, Perm(0)]


# ----------------------------------------------------------------------------- functions


def func_a(x=1):
    return x


def func_b():
    return None


class Meta(type):
    pass


class WithMeta(metaclass=Meta):
    pass


class Methods:
    def ping(self):
        return self

    @classmethod
    def cping(cls):
        return cls

    @staticmethod
    def sping():
        return 1


TYPES = [int, str, dict, type(None), type, Plain, Outer.Inner, Color, collections.OrderedDict,
         WithMeta, Exception, KeyError, types.FunctionType, types.ModuleType, object, Meta]
FUNCS = [func_a, func_b, len, make_redfunc, isinstance, copyreg.pickle]


class OneShot:
    """An iterator that remembers what it will produce."""

    def __init__(self, items):
        self._items = list(items)
        self.pos = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self._items):
            raise StopIteration
        self.pos += 1
        return self._items[self.pos - 1]


def nullish():
    """A value without an importable name, encoded as null (or skipped)."""
    return lambda: 0


# ---------------------------------------------------------- attributes to be left out

EXCLUDED = ("b", "_u", "data")


class Excl:
    _jsonpickle_exclude = EXCLUDED


class ExclSub(Excl):
    pass


class ExclMore(Excl):
    _jsonpickle_exclude = ("name",)


class ExclState:
    """Hands out its own dictionary as its state."""

    _jsonpickle_exclude = list(EXCLUDED)

    def __getstate__(self):
        return self.__dict__

    def __setstate__(self, state):
        self.__dict__.update(state)


class ExclStateOnly:
    """A state hook without its counterpart."""

    _jsonpickle_exclude = EXCLUDED

    def __getstate__(self):
        return dict(self.__dict__)


class ExclSlots:
    __slots__ = ("a", "b", "c", "name", "_u", "value", "data")
    _jsonpickle_exclude = EXCLUDED


class ExclSlotsSub(ExclSlots):
    __slots__ = ("limit",)


class ExclBoth(ExclSlots):
    """Slots and a __dict__."""


class ExclDict(dict):
    _jsonpickle_exclude = EXCLUDED

    def __repr__(self):
        # objects below the depth limit are encoded as their repr
        return f"<{type(self).__name__} of {len(self)}>"


class ExclList(list):
    _jsonpickle_exclude = set(EXCLUDED)


class ExclSet(set):
    _jsonpickle_exclude = EXCLUDED
    __hash__ = object.__hash__


class ExclTuple(tuple):
    _jsonpickle_exclude = EXCLUDED


class ExclNewArgs:
    _jsonpickle_exclude = EXCLUDED

    def __new__(cls, *args):
        return object.__new__(cls)

    def __getnewargs__(self):
        return ()


@dataclasses.dataclass(repr=False)
class ExclData:
    _jsonpickle_exclude = EXCLUDED
    a: object = None
    b: object = None


def _fill_known(obj, items, attrs):
    for k, v in attrs:
        if hasattr(obj, "__dict__") or k in ("a", "b", "c", "name", "_u", "value", "data"):
            setattr(obj, k, v)


for _c in (Excl, ExclSub, ExclMore, ExclState, ExclStateOnly, ExclNewArgs, ExclData):
    kind(_c.__name__, _c, alloc=_new(_c), fill=_setattrs, items=False, attrs_swap=_c is not ExclState,
         families=("excl",))
for _c in (ExclSlots, ExclSlotsSub, ExclBoth):
    kind(_c.__name__, _c, alloc=_new(_c), fill=_fill_known, items=False, families=("excl",))
kind("ExclDict", ExclDict, alloc=ExclDict, fill=_fill_dict, items_swap=True, families=("excl",))
kind("ExclList", ExclList, alloc=ExclList, fill=_fill_list, items_swap=True, families=("excl",))
kind("ExclSet", ExclSet, alloc=ExclSet, fill=_fill_set, items_hash=True, families=("excl",))
kind("ExclTuple", ExclTuple, make=ExclTuple, fill=_setattrs, families=("excl",))


# ------------------------------------------------------- objects that cannot be encoded


class Boom(Exception):
    """What the failing objects raise."""


class BoomValue(ValueError):
    pass


class BoomKey(KeyError):
    pass


class BoomAttr(AttributeError):
    pass


BOOMS = [Boom, BoomValue, BoomKey, RecursionError, OSError, ZeroDivisionError, StopIteration, AssertionError]
FAILURES = []


INTERRUPT = []


def explode(obj):
    """Raise the exception that the object carries."""
    cls = BOOMS[getattr(obj, "which", 0) % len(BOOMS)]
    if cls is StopIteration and isinstance(obj, (BombList, BombDict, BombIter, BombRedItems)):
        cls = Boom  # means something else inside an iterator
    if INTERRUPT:
        cls = INTERRUPT[0]
    exc = cls("boom", id(obj))
    FAILURES.append(exc)
    raise exc


class BombState:
    def __getstate__(self):
        explode(self)


class BombReduce:
    def __reduce__(self):
        explode(self)


class BombReduceEx:
    def __reduce_ex__(self, protocol):
        explode(self)


class BombNewArgs:
    def __getnewargs__(self):
        explode(self)


class BombNewArgsEx:
    def __getnewargs_ex__(self):
        explode(self)


class BombSlot:
    """A slot whose descriptor fails."""

    __slots__ = ("a", "b", "which")

    def __getattribute__(self, name):
        if name == "b":
            explode(self)
        return object.__getattribute__(self, name)


class BombList(list):
    """Fails after some of its items have been encoded."""

    def __iter__(self):
        for i, v in enumerate(list.__iter__(self)):
            yield v
        explode(self)


class BombDict(dict):
    def items(self):
        yield from dict.items(self)
        explode(self)


class BombIter:
    """An iterator that fails part way."""

    def __init__(self):
        self._vals = []
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.n < len(self._vals):
            self.n += 1
            return self._vals[self.n - 1]
        self.n = 0
        explode(self)


class BombRedItems:
    """Its reduction succeeds but the iterator of its items does not."""

    def __init__(self):
        self.vals = []

    def append(self, v):
        self.vals.append(v)

    def __reduce__(self):
        def gen():
            yield from self.vals
            explode(self)

        return (BombRedItems, (), None, gen())


class BombHandled:
    """Its handler fails (see props/c13.py)."""


class BombDeep:
    """Its state contains other objects and an object that fails."""

    def __getstate__(self):
        return {"before": self.__dict__.get("a"), "list": BombList([self.__dict__.get("b")])}

    def __setstate__(self, state):
        self.__dict__.update(state)


def _fill_which(obj, items, attrs):
    obj.which = len(items) + 3 * len(attrs)
    for k, v in attrs:
        if hasattr(obj, "__dict__"):
            object.__setattr__(obj, k, v)
        else:
            obj.a = v


def _fill_bomblist(obj, items, attrs):
    list.extend(obj, items)
    _fill_which(obj, items, attrs)


def _fill_bombdict(obj, items, attrs):
    _fill_dict(obj, items, [])
    _fill_which(obj, items, attrs)


def _fill_bombiter(obj, items, attrs):
    obj._vals = list(items)
    _fill_which(obj, items, [])


def _fill_bombitems(obj, items, attrs):
    obj.vals = list(items)
    _fill_which(obj, items, [])


for _c, _f in [(BombState, _fill_which), (BombReduce, _fill_which), (BombReduceEx, _fill_which),
               (BombHandled, _fill_which), (BombNewArgs, _fill_which), (BombNewArgsEx, _fill_which), (BombSlot, _fill_which)]:
    kind(_c.__name__, _c, alloc=_new(_c), fill=_f, items=True, families=("bomb",))
kind("BombList", BombList, alloc=BombList, fill=_fill_bomblist, families=("bomb",))
kind("BombDict", BombDict, alloc=BombDict, fill=_fill_bombdict, families=("bomb",))
kind("BombIter", BombIter, alloc=BombIter, fill=_fill_bombiter, families=("bomb",))
kind("BombRedItems", BombRedItems, alloc=BombRedItems, fill=_fill_bombitems, families=("bomb",))


# ------------------------------------------------------- objects that cannot be decoded


class RestoreState:
    def __getstate__(self):
        return {"a": self.__dict__.get("a"), "items": list(self.__dict__.get("vals", []))}

    def __setstate__(self, state):
        raise Boom("restore")


class RestoreNew:
    def __new__(cls, *args):
        if args:
            raise BoomKey("restore")
        return object.__new__(cls)

    def __getnewargs__(self):
        return (1, self.__dict__.get("a"))


def _fail_build(*args):
    raise BoomValue("restore")


class RestoreReduce:
    def __reduce__(self):
        return (_fail_build, (self.__dict__.get("a"),))


class RestoreItem(list):
    def append(self, item):
        raise Boom("restore")


def _fill_vals_attrs(obj, items, attrs):
    obj.__dict__.update(attrs)
    obj.__dict__["vals"] = list(items)


for _c in (RestoreState, RestoreNew, RestoreReduce):
    kind(_c.__name__, _c, alloc=_new(_c), fill=_fill_vals_attrs, families=("badrestore",))
kind("RestoreItem", RestoreItem, alloc=RestoreItem, fill=_fill_list, families=("badrestore",))


class CtxProbe:
    """Its handler notes the handler context it is given (see props/c07.py)."""


kind("CtxProbe", CtxProbe, alloc=_new(CtxProbe), fill=_setattrs, items=False, families=("badrestore",))


# ------------------------------------- objects whose hooks call the library (see props/c08.py)

NEST = {"encode": lambda obj: "", "decode": lambda obj, text: None}


class NestState:
    def __getstate__(self):
        return {"rest": dict(self.__dict__), "text": NEST["encode"](self)}

    def __setstate__(self, state):
        self.inner = NEST["decode"](self, state["text"])
        self.__dict__.update(state["rest"])


class NestReduce:
    def __reduce__(self):
        return (NestReduce, (), {"text": NEST["encode"](self), **self.__dict__})

    def __setstate__(self, state):
        self.__dict__.update(state)
        self.inner = NEST["decode"](self, state["text"])


class NestNewArgs:
    def __new__(cls, *args):
        self = object.__new__(cls)
        if args:
            self.inner = NEST["decode"](self, args[0])
        return self

    def __getnewargs__(self):
        return (NEST["encode"](self),)


class NestHandled:
    """Its handler makes the calls (see props/c08.py)."""


for _c in (NestState, NestReduce, NestNewArgs, NestHandled):
    kind(_c.__name__, _c, alloc=_new(_c), fill=_setattrs, items=False, families=("nest",))


# ----------------------------------- objects with custom handlers (see props/c17.py)


class _Handled:
    """``parts`` are restored before the object exists, ``vars`` may refer back to it."""

    __slots__ = ("parts", "vars", "__weakref__")

    def __init__(self, parts=(), vars=None):
        self.parts = list(parts)
        self.vars = {} if vars is None else vars


def _fill_vars(obj, items, attrs):
    obj.vars.update(attrs)


class HParts(_Handled):
    __slots__ = ()


class HBase(_Handled):
    """Its handler is registered for subclasses."""

    __slots__ = ()


class HBaseSub(HBase):
    __slots__ = ()


class HInst(_Handled):
    """Its handler is registered as an instance."""

    __slots__ = ()


class HCtx(_Handled):
    """Its handler accepts the context value."""

    __slots__ = ()


class HCtxKw(_Handled):
    """Its handler accepts the context value as a keyword-only argument."""

    __slots__ = ()


class HTwice(_Handled):
    """Its handler delegates every part twice."""

    __slots__ = ()


class HLate(_Handled):
    """Its handler delegates ``vars`` before ``parts`` and nests the results."""

    __slots__ = ()


class HFresh(_Handled):
    """Its handler returns a dictionary of its own."""

    __slots__ = ()


class HMany(_Handled):
    """Its handler delegates all the parts as one temporary tuple and list."""

    __slots__ = ()


class HReduce(_Handled):
    """The handler takes precedence over these hooks."""

    __slots__ = ()

    def __reduce__(self):
        raise RuntimeError("the handler should have been used")

    def __getstate__(self):
        raise RuntimeError("the handler should have been used")


HANDLED = (HParts, HBaseSub, HInst, HCtx, HCtxKw, HTwice, HLate, HFresh, HMany, HReduce)
for _c in HANDLED:
    kind(_c.__name__, _c, make=_c, fill=_fill_vars, attrs_early=True, families=("handled",))


class HList(list):
    """A list subclass whose handler delegates its items as a list."""


kind("HList", HList, make=HList, attrs=False, families=("handled",))


# ------------------------------------- classes that are missing when decoding (see props/c18.py)


class MissPlain:
    pass


class MissSlots:
    __slots__ = ("uid", "a", "b")


class MissList(list):
    pass


class MissDict(dict):
    pass


class MissState:
    def __getstate__(self):
        return {"uid": self.uid, "rest": [self.rest, self.rest]}

    def __setstate__(self, state):
        self.uid, self.rest = state["uid"], state["rest"][0]


class MissNew:
    def __new__(cls, *args):
        return object.__new__(cls)

    def __getnewargs__(self):
        return (self.uid, self.rest)


class MissNewEx(MissNew):
    def __getnewargs_ex__(self):
        return (self.uid, self.rest), {"k": self.rest}


MISSING = (MissPlain, MissSlots, MissList, MissDict, MissState, MissNew, MissNewEx)
_uids = iter(range(1 << 60))


def _fill_missing(obj, items, attrs):
    uid = f"uid{next(_uids)}"
    if isinstance(obj, list):
        obj.append(uid)
        obj.extend(items)
        obj.__dict__.update(attrs)
    elif isinstance(obj, dict):
        obj["uid"] = uid
        obj.update(attrs)
        obj.__dict__["inner"] = list(items)
    elif isinstance(obj, MissSlots):
        obj.uid = uid
        obj.a = list(items)
        if attrs:
            obj.b = attrs[0][1]
    elif isinstance(obj, MissPlain):
        obj.uid = uid
        obj.__dict__.update(attrs)
    else:
        obj.uid = uid
        obj.rest = [*items, dict(attrs)]


for _c in MISSING:
    kind(_c.__name__, _c, alloc=_new(_c), fill=_fill_missing, families=("missing",))


def _local_classes():
    class Local:
        pass

    class LocalList(list):
        pass

    class LocalState:
        def __getstate__(self):
            return [dict(self.__dict__)]

        def __setstate__(self, state):
            self.__dict__.update(state[0])

    return Local, LocalList, LocalState


LOCAL = _local_classes()
kind("Local", LOCAL[0], alloc=_new(LOCAL[0]), fill=_setattrs, items=False, families=("local",))
kind("LocalList", LOCAL[1], alloc=LOCAL[1], fill=_fill_list, items_swap=True, families=("local",))
kind("LocalState", LOCAL[2], alloc=_new(LOCAL[2]), fill=_setattrs, items=False, attrs_swap=False, families=("local",))


class Hole:
    """Stands for a part of a document that is damaged later (see props/c19.py)."""

    def __init__(self, n):
        self.n = n


# -------------------------------------------------- things restored by name (see props/c23.py)

IMPORTABLES = []
MODULES = []


class Bound:
    """Keeps bound methods of the objects it is given."""

    def act(self):
        return 1

    @classmethod
    def make(cls):
        return 2

    @staticmethod
    def plain():
        return 3

    def _private(self):
        return 4

    class Part:
        def deep(self):
            return 5


class BoundSub(Bound):
    def act(self):
        return 6


class BoundSlots:
    __slots__ = ("calls", "a", "b")

    def act(self):
        return 7


def _fill_bound(obj, items, attrs):
    obj.calls = [_pick(n, x) for n, x in enumerate([obj, *items])]
    for n, (k, v) in enumerate(attrs):
        setattr(obj, "ab"[n % 2], v)


def _pick(n, x):
    if isinstance(x, Bound):
        return (x.act, x.make, x.plain, x._private, x.act)[n % 5]
    return x.act if isinstance(x, BoundSlots) else x


for _c in (Bound, BoundSub, BoundSlots):
    kind(_c.__name__, _c, alloc=_new(_c), fill=_fill_bound, families=("bound",))


def _locals():
    def inner():
        pass

    return [inner]


LOCAL_FUNCS = _locals()

"""C16: handler lookup follows registration history."""

import abc
import collections
import datetime
import enum
import re
import uuid

import gmpy2
import jsonpickle
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from jsonpickle import handlers
from jsonpickle.ext import gmpy as ext_gmpy
from jsonpickle.ext import numpy as ext_numpy
from jsonpickle.ext import pandas as ext_pandas

from ..core import Violation, lib, outcome, short

BUDGET = {"quick": 2200, "thorough": 30000}


class A:
    x = 0


class B(A):
    pass


class Mixin:
    pass


class C(B):
    __slots__ = ()


class D(C, Mixin):
    class Inner(A):
        pass


class State(B):
    def __getstate__(self):
        return {"s": 1}

    def __setstate__(self, state):
        self.s = state


class Reduce(A):
    def __reduce__(self):
        return (Reduce, ())


class Lst(list, Mixin):
    pass


class Dct(dict, A):
    pass


class Set(set):
    pass


class Tup(tuple, Mixin):
    pass


class Num(int, Mixin):
    pass


class Text(str):
    pass


class Col(enum.Enum):
    RED = 1


class Exc(ValueError, A):
    pass


Nt = collections.namedtuple("Nt", "p q")


class Slots(A):
    __slots__ = ("v",)


class Meta(type):
    pass


class WithMeta(B, metaclass=Meta):
    pass


class Virtual(abc.ABC):
    """Has no real subclasses."""


Virtual.register(Slots)
Virtual.register(Lst)
Virtual.register(State)


def blank(cls):
    o = cls()
    o.attr = "v"
    return o


CLASSES = [A, B, Mixin, C, D, D.Inner, State, Reduce, Lst, Dct, Set, Tup, Num, Exc, Slots, WithMeta, Nt, Col, Text]
BASES = [list, dict, set, tuple, int, ValueError, object, Virtual]  # registered for subclasses only
MAKE = {c: (lambda c=c: blank(c)) for c in CLASSES}
MAKE.update({Lst: lambda: Lst([1]), Dct: lambda: Dct(k=1), Set: lambda: Set([1]), Tup: lambda: Tup([1]),
             Num: lambda: Num(3), Nt: lambda: Nt(1, 2), Col: lambda: Col.RED, Text: lambda: Text("t")})
# classes of the standard library that have handlers from the start
STD = {datetime.date: (lambda: datetime.date(2020, 1, 2), handlers.DatetimeHandler),
       uuid.UUID: (lambda: uuid.UUID(int=5), handlers.UUIDHandler),
       type(re.compile("")): (lambda: re.compile("a"), handlers.RegexHandler)}

LOG = []


class Restored:
    def __init__(self, n, name):
        self.key = (n, name)


def make_handler(n):
    class Handler(handlers.BaseHandler):
        def flatten(self, obj, data):
            LOG.append(("flatten", n, type(obj)))
            data["handler"] = n
            return data

        def restore(self, data):
            LOG.append(("restore", n, data["handler"]))
            return Restored(n, data["py/object"])

    Handler.__name__ = f"Handler{n}"
    return Handler


HANDLERS = [make_handler(n) for n in range(4)]
INSTANCES = [h(None) for h in HANDLERS]

EXT = {
    "numpy": (ext_numpy, [lambda: np.arange(20), lambda: np.float64(1.5), lambda: np.dtype("i4,f8"), lambda: np.dtype("M8[s]"),
                          lambda: np.datetime64("2020-01-01"), lambda: np.add, lambda: np.int32(3), lambda: np.dtype("f4")]),
    "pandas": (ext_pandas, [lambda: pd.Timestamp(5), lambda: pd.Interval(1, 2), lambda: pd.Period("2020-01", "M"),
                            lambda: pd.Series([1, 2]), lambda: pd.Index([1, 2]), lambda: pd.DataFrame({"a": [1]}),
                            lambda: pd.MultiIndex.from_tuples([(1, 2)]), lambda: pd.period_range("2020-01", periods=2, freq="M")]),
    "gmpy": (ext_gmpy, [lambda: gmpy2.mpz(10**30)]),
}


def text_of(make):
    # only the structure: the default mechanism writes memory addresses for some of these
    res = outcome(jsonpickle.encode, make())
    return res[0], re.sub("0x[0-9a-f]{6,}|\\d{12,}", "0x", str(res[1]))


for _mod, _ in EXT.values():
    _mod.unregister_handlers()
PLAIN = {name: [text_of(m) for m in makes] for name, (_, makes) in EXT.items()}
HANDLED = {}
for _name, (_mod, _makes) in EXT.items():
    _mod.register_handlers()
    HANDLED[_name] = [text_of(m) for m in _makes]
    _mod.unregister_handlers()


def strategy(tier):
    cls = st.integers(0, len(CLASSES) - 1)
    op = st.one_of(
        st.tuples(st.just("register"), cls, st.integers(0, 3), st.booleans(), st.integers(0, 4)),
        st.tuples(st.just("register"), cls, st.integers(0, 3), st.booleans(), st.integers(0, 4)),
        st.tuples(st.just("register base"), st.integers(0, len(BASES) - 1), st.integers(0, 3)),
        st.tuples(st.just("unregister"), cls, st.booleans()),
        st.tuples(st.just("unregister base"), st.integers(0, len(BASES) - 1)),
        st.tuples(st.just("probe"), cls, st.integers(0, 5)),
        st.tuples(st.just("probe"), cls, st.integers(0, 5)),
        st.tuples(st.just("std"), st.integers(0, len(STD) - 1), st.sampled_from([None, 0, 1, "own"])),
        st.tuples(st.just("not a class"), st.sampled_from(["x", 3, None])),
        st.tuples(st.just("ext"), st.sampled_from(sorted(EXT)), st.booleans()),
    )
    return st.fixed_dictionaries({"ops": st.lists(op, min_size=2, max_size=20 if tier == "thorough" else 12)})


class Model:
    def __init__(self):
        self.exact = {}
        self.base = {}

    def expected(self, cls):
        """The set of handlers that may be used; empty when the default mechanism applies."""
        if cls in self.exact:
            return {self.exact[cls]}
        return {h for c, h in self.base.items() if issubclass(cls, c)}


def check(case, ctx):
    model = Model()
    std = dict.fromkeys(STD, "own")
    ext = dict.fromkeys(EXT, False)
    changes = 0
    try:
        for n, op in enumerate(case["ops"]):
            changes += step(n, op, model, std, ext)
        for cls in CLASSES:
            probe("at the end", cls, 0, model)
        for cls in STD:
            if object not in model.base:
                probe_std("at the end", cls, std[cls])
        for cls in STD:  # the extensions write some of these
            STD[cls][1].handles(cls)
        for name in EXT:
            probe_ext("at the end", name, ext, model)
    finally:
        for c in CLASSES + BASES + list(STD):
            handlers.unregister(c)
        for c, (_, own) in STD.items():
            own.handles(c)
        for mod, _ in EXT.values():
            mod.unregister_handlers()
    ctx.nontrivial = changes >= 2
    ctx.label(f"{min(changes, 8)} changes")


def register(cls, n, base, form):
    h = HANDLERS[n]
    if form == 0:
        handlers.register(cls, h, base=base)
    elif form == 1:
        if handlers.register(cls, base=base)(h) is not h:
            raise Violation("the decorator did not return the handler")
    elif form == 2 and not base:
        if h.handles(cls) is not cls:
            raise Violation("handles() did not return the class")
    elif form == 3:
        handlers.registry.register(cls, INSTANCES[n], base)
    else:
        jsonpickle.register(cls, h, base)


def step(n, op, model, std, ext):
    what = op[0]
    if what == "register":
        _, c, h, base, form = op
        register(CLASSES[c], h, base, form)
        model.exact[CLASSES[c]] = h
        if base:
            model.base[CLASSES[c]] = h
        return 1
    if what == "register base":
        cls = BASES[op[1]]
        if cls is object and any(ext.values()):
            return 0
        register(cls, op[2], True, 0)
        model.exact[cls] = model.base[cls] = op[2]
        return 1
    if what in ("unregister", "unregister base"):
        cls = CLASSES[op[1]] if what == "unregister" else BASES[op[1]]
        (jsonpickle.unregister if what == "unregister" and op[2] else handlers.unregister)(cls)
        model.exact.pop(cls, None)
        model.base.pop(cls, None)
        return 1
    if what == "probe":
        probe(f"operation {n}", CLASSES[op[1]], op[2], model)
    elif what == "std":
        cls = list(STD)[op[1]]
        if op[2] is None:
            handlers.unregister(cls)
        elif op[2] == "own":
            STD[cls][1].handles(cls)
        else:
            handlers.register(cls, HANDLERS[op[2]])
        std[cls] = op[2]
        return 1
    elif what == "not a class":
        got = outcome(handlers.register, op[1], HANDLERS[0])
        if got[:2] != ("exc", TypeError):
            raise Violation(f"registering a handler for {op[1]!r} gave {got}")
    else:
        _, name, on = op
        if object in model.base:
            return 0
        mod, _ = EXT[name]
        (mod.register_handlers if on else mod.unregister_handlers)()
        ext[name] = on
        if name == "pandas":
            ext["numpy"] = on
        return 1
    return 0


def probe(where, cls, how, model):
    obj = MAKE[cls]()
    value, get = [
        (obj, lambda v: v),
        ([1, obj], lambda v: v[1]),
        ({"k": obj}, lambda v: v["k"]),
        ((obj,), lambda v: v[0]),
        ([[obj], "x"], lambda v: v[0][0]),
        ({"a": {"b": [obj]}}, lambda v: v["a"]["b"][0]),
    ][how]
    want = model.expected(cls)
    LOG.clear()
    text = lib(f"{where}: encode", jsonpickle.encode, value)
    used = [h for what, h, c in LOG if what == "flatten" and c is cls]
    LOG.clear()
    back = get(lib(f"{where}: decode", jsonpickle.decode, text))
    restored = [h for what, h, _ in LOG if what == "restore"]
    if not want:
        if used or restored:
            raise Violation(f"{where}: {cls.__name__} has no handler but {used or restored} was used")
        if type(back) is not cls:
            raise Violation(f"{where}: without a handler {cls.__name__} came back as {short(back)}")
        return
    if len(used) != 1 or used[0] not in want:
        raise Violation(f"{where}: {cls.__name__} was flattened by {used or 'the default mechanism'} instead of {want}")
    if restored != used:
        raise Violation(f"{where}: {cls.__name__} was flattened by {used} but restored by {restored}")
    if type(back) is not Restored or back.key[0] != used[0]:
        raise Violation(f"{where}: {cls.__name__} came back as {short(back)}, not what its handler returned")


def probe_std(where, cls, mode):
    value = STD[cls][0]()
    LOG.clear()
    text = lib("encode", jsonpickle.encode, [value])
    if [h for w, h, _ in LOG] != ([mode] if isinstance(mode, int) else []):
        raise Violation(f"{where}: {cls} is handled by {mode} but {LOG} ran")
    own = {datetime.date: "__reduce__", uuid.UUID: "hex", type(re.compile("")): "pattern"}[cls]
    if mode == "own" and f'"{own}"' not in text:
        raise Violation(f"{where}: {cls} is not encoded by its own handler: {text}")
    if not isinstance(mode, int):
        back = lib("decode", jsonpickle.decode, text)[0]
        if mode == "own" and back != value:
            raise Violation(f"{where}: {value!r} came back as {back!r}")


def probe_ext(where, name, ext, model):
    if any(c in model.base for c in BASES) or name == "pandas" and ext["numpy"] != ext["pandas"]:
        return  # parts of these values may be handled by something else
    want = HANDLED[name] if ext[name] else PLAIN[name]
    for make, w in zip(EXT[name][1], want):
        got = text_of(make)
        if got != w:
            raise Violation(f"{where}: with the {name} extension {'on' if ext[name] else 'off'} {short(make())} gives {short(got)} instead of {short(w)}")

"""Exact comparison of an original and a decoded object graph."""

import array
import collections
import datetime
import decimal
import enum
import fractions
import io
import pathlib
import re
import types
import uuid

from . import zoo
from .core import Violation, short

SCALARS = (type(None), bool, int, float, str, bytes, complex)
FUNCS = (types.FunctionType, types.BuiltinFunctionType)
STD_ATOMS = (datetime.date, datetime.time, datetime.timedelta, datetime.tzinfo, decimal.Decimal,
             fractions.Fraction, uuid.UUID, re.Pattern, pathlib.PurePath, range, slice,
             types.ModuleType)


def is_atom(v):
    return (type(v) in SCALARS or isinstance(v, (type, enum.Enum)) or isinstance(v, FUNCS)
            or isinstance(v, STD_ATOMS) or type(v) is bytearray)


def is_lambda(v):
    return isinstance(v, types.FunctionType) and v.__name__ == "<lambda>"


def drop_unnamed(o, d):
    """Values without an importable name are skipped, or null if a reduction lists them."""
    gone = [k for k, v in o.items() if is_lambda(v)]
    if gone:
        o = {k: v for k, v in o.items() if k not in gone}
        d = {k: v for k, v in d.items() if not (k in gone and v is None)}
    return o, d


def is_null(v):
    """Values that are encoded as null."""
    return is_lambda(v) or isinstance(v, io.TextIOWrapper)


def atoms_equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (type, enum.Enum)) or isinstance(a, FUNCS) or isinstance(a, types.ModuleType):
        return a is b
    if type(a) in (float, complex):
        return repr(a) == repr(b)
    if type(a) is slice:
        return all(atoms_equal(x, y) for x, y in
                   zip((a.start, a.stop, a.step), (b.start, b.stop, b.step)))
    return a == b and repr(a) == repr(b)


def hkey(v):
    """A key that identifies a hashable value including its type."""
    t = type(v)
    if t is tuple:
        return ("t", tuple(hkey(x) for x in v))
    if t is frozenset:
        return ("f", frozenset(hkey(x) for x in v))
    if t is zoo.Hashed:
        return ("h", v.__dict__.get("uid"))
    if t is zoo.HashedNew:
        return ("hn", v.__dict__.get("uid"))
    if t is zoo.KeyData:
        return ("kd", hkey(v.__dict__.get("a")), hkey(v.__dict__.get("b")))
    if isinstance(v, type) or isinstance(v, enum.Enum) or isinstance(v, FUNCS):
        return ("i", id(v))
    return (t.__name__, repr(v))


def slot_items(obj):
    out = {}
    for cls in type(obj).__mro__:
        slots = cls.__dict__.get("__slots__", ())
        if isinstance(slots, str):
            slots = (slots,)
        try:
            names = list(slots)
        except TypeError:
            continue
        for s in names:
            if s in ("__dict__", "__weakref__"):
                continue
            name = s
            if s.startswith("__") and not s.endswith("__"):
                name = "_" + cls.__name__.lstrip("_") + s
            desc = cls.__dict__.get(name)
            if isinstance(desc, types.MemberDescriptorType):
                try:
                    out[name] = desc.__get__(obj)
                except AttributeError:
                    pass
    return out


def attrs_of(obj):
    d = getattr(obj, "__dict__", None)
    out = dict(d) if isinstance(d, dict) else {}
    if d is obj:
        out = {}
    out.update(slot_items(obj))
    return out


class Raw:
    """Stands for plain data whose identity does not matter."""

    def __init__(self, data):
        self.data = data


class Comparer:
    """Walks both graphs in lockstep.

    ``identity``: the two graphs must also agree on which positions are the same object.
    ``ordered``: dictionaries must keep their order.
    ``resolve``: maps an original value to the value expected in its place.
    """

    def __init__(self, identity=True, ordered=True, resolve=None, limit=200000):
        self.identity = identity
        self.ordered = ordered
        self.resolve = resolve
        self.o2d = {}
        self.d2o = {}
        self.pairs = set()
        self.keep = []
        self.limit = limit

    def fail(self, path, msg):
        raise Violation(f"at {path or 'root'}: {msg}")

    def run(self, orig, dec, path=""):
        try:
            self.eq(orig, dec, path)
        except Violation:
            raise
        except RecursionError as exc:
            raise Violation(f"decoded graph is too deep to compare: {exc}") from exc
        except Exception as exc:
            raise Violation(
                f"decoded graph cannot be compared: {type(exc).__name__}: {short(str(exc))}"
            ) from exc

    def eq(self, o, d, path):
        self.limit -= 1
        if self.limit < 0:
            self.fail(path, "decoded graph is unexpectedly large")
        if self.resolve is not None:
            o = self.resolve(o)
        if type(o) is Raw:
            if type(d) is not type(o.data) or d != o.data:
                self.fail(path, f"expected {short(o.data)}, got {short(d)}")
            return None
        if isinstance(o, (zoo.RedName, zoo.RedNameDeep)):
            o = o.target
        if is_null(o):
            o = None
        if isinstance(o, zoo.OneShot):
            if not hasattr(d, "__next__"):
                self.fail(path, f"expected an iterator, got {short(d)}")
            if id(o) in self.o2d:
                if self.o2d[id(o)] is not d:
                    self.fail(path, "an iterator shared in the input is not shared in the output")
                return None
            self.o2d[id(o)] = d
            self.keep.append((o, d))
            got = list(d)
            return self.seq(o._items, got, path + "<iter>")
        to = type(o)
        if to is not type(d):
            self.fail(path, f"expected {to.__name__} {short(o)}, got {type(d).__name__} {short(d)}")
        if to is types.MethodType:
            if o.__func__ is not d.__func__:
                self.fail(path, f"expected {short(o.__func__)}, got {short(d.__func__)}")
            return self.eq(o.__self__, d.__self__, path + ".__self__")
        if is_atom(o):
            if not atoms_equal(o, d):
                self.fail(path, f"expected {short(o)}, got {short(d)}")
            return None
        if to is tuple:
            return self.seq(o, d, path)
        if to in (set, frozenset):
            return self.sets(o, d, path)
        if self.identity:
            if id(o) in self.o2d:
                if self.o2d[id(o)] is not d:
                    self.fail(path, f"{to.__name__} shared in the input is not shared in the output")
                return None
            if id(d) in self.d2o:
                self.fail(path, f"distinct {to.__name__} objects became one object")
            self.o2d[id(o)] = d
            self.d2o[id(d)] = o
            self.keep.append((o, d))
        else:
            if (id(o), id(d)) in self.pairs:
                return None
            self.pairs.add((id(o), id(d)))
            self.keep.append((o, d))
        if to is list:
            return self.seq(o, d, path)
        if to is dict:
            return self.dicts(o, d, path)
        return self.instance(o, d, path)

    def seq(self, o, d, path):
        if len(o) != len(d):
            self.fail(path, f"expected {len(o)} items, got {len(d)}: {short(d)}")
        for i, (x, y) in enumerate(zip(o, d)):
            self.eq(x, y, f"{path}[{i}]")

    def inner(self, v):
        """What an element of a set is expected to be."""
        if self.resolve is None:
            return v
        if type(v) in (tuple, frozenset):
            return type(v)(self.inner(x) for x in v)
        return self.resolve(v)

    def sets(self, o, d, path):
        ko = {hkey(self.inner(x)): x for x in o}
        kd = {hkey(x): x for x in d}
        if ko.keys() != kd.keys() or len(o) != len(d):
            self.fail(path, f"expected elements {short(o)}, got {short(d)}")
        for k, x in ko.items():
            self.eq(x, kd[k], f"{path}<{short(x, 30)}>")

    def dicts(self, o, d, path):
        o, d = drop_unnamed(dict(dict.items(o)), dict(dict.items(d)))
        if all(type(k) is str for k in o) and all(type(k) is str for k in d):
            if list(o) != list(d) if self.ordered else o.keys() != d.keys():
                self.fail(path, f"expected keys {short(list(o))}, got {short(list(d))}")
            for k, v in o.items():
                self.eq(v, d[k], f"{path}[{k!r}]")
            return
        ko = {hkey(k): (k, v) for k, v in o.items()}
        kd = {hkey(k): (k, v) for k, v in d.items()}
        if ko.keys() != kd.keys() or len(o) != len(d):
            self.fail(path, f"expected keys {short(list(o))}, got {short(list(d))}")
        for h, (k, v) in ko.items():
            self.eq(k, kd[h][0], f"{path}<key {short(k, 30)}>")
            self.eq(v, kd[h][1], f"{path}[{short(k, 30)}]")

    def named(self, o, d, path):
        o, d = drop_unnamed(o, d)
        if o.keys() != d.keys():
            self.fail(path, f"expected attributes {sorted(o)}, got {sorted(d)}")
        for k, v in o.items():
            self.eq(v, d[k], f"{path}.{k}")

    def instance(self, o, d, path):
        if isinstance(o, (list, tuple, collections.deque, collections.UserList)):
            self.seq(list(o), list(d), path)
            if isinstance(o, collections.deque) and o.maxlen != d.maxlen:
                self.fail(path, f"expected maxlen {o.maxlen}, got {d.maxlen}")
        elif isinstance(o, dict):
            self.dicts(o, d, path)
            if isinstance(o, collections.defaultdict):
                self.eq(o.default_factory, d.default_factory, path + ".default_factory")
        elif isinstance(o, (set, frozenset)):
            self.sets(o, d, path)
        elif isinstance(o, BaseException):
            self.seq(list(o.args), list(d.args), path + ".args")
        elif isinstance(o, (int, float, str)):
            base = int if isinstance(o, int) else float if isinstance(o, float) else str
            if repr(base(o)) != repr(base(d)):
                self.fail(path, f"expected value {base(o)!r}, got {base(d)!r}")
        elif isinstance(o, array.array):
            if o.typecode != d.typecode or o.tobytes() != d.tobytes():
                self.fail(path, f"expected {short(o)}, got {short(d)}")
        self.named(attrs_of(o), attrs_of(d), path)


def same_graph(orig, dec, **kw):
    Comparer(**kw).run(orig, dec)

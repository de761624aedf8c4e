"""C22: standard library values round-trip with full precision."""

import array
import argparse
import collections
import datetime
import decimal
import enum
import fractions
import functools
import http
import io
import ipaddress
import operator
import pathlib
import queue
import random
import re
import statistics
import string
import threading
import types
import typing
import urllib.parse
import uuid
import zoneinfo

import gmpy2
import jsonpickle
from hypothesis import strategies as st
from jsonpickle.ext import gmpy

from .. import gen, zoo
from ..core import Violation, lib, short

BUDGET = {"quick": 3500, "thorough": 50000}
gmpy.register_handlers()


class Color(enum.Enum):
    RED = 1
    GREEN = "g"
    PAIR = (1, 2)
    ALIAS = 1
    NESTED = frozenset([1])


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 9


class Word(enum.StrEnum):
    A = "a"
    JSON = "json://1"


class Perm(enum.Flag):
    R = 4
    W = 2
    X = 1


class IPerm(enum.IntFlag):
    R = 4
    W = 2
    X = 1


class Lenient(enum.IntFlag, boundary=enum.KEEP):
    A = 1


class Planet(enum.Enum):
    EARTH = (5.97e24, 6.37e6)

    def __init__(self, mass, radius):
        self.mass = mass


class Outer:
    class Mood(enum.Enum):
        OK = "ok"


class Pt(typing.NamedTuple):
    x: object
    y: object = 7


Old = collections.namedtuple("Old", "a b c", defaults=[3])


class DateSub(datetime.date):
    pass


class StampSub(datetime.datetime):
    pass


class AppError(Exception):
    def __init__(self, code, detail=None):
        super().__init__(code, detail)
        self.code = code


ENUMS = [*Color, *Level, *Word, *Perm, *IPerm, *Planet, Outer.Mood.OK, http.HTTPStatus.NOT_FOUND, re.I | re.S,
         uuid.SafeUUID.safe]


def zones():
    out = []
    for key in ("UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Etc/GMT+5"):
        try:
            out.append(zoneinfo.ZoneInfo(key).key)
        except Exception:
            continue
    return out


ZONES = zones()
FACTORIES = [None, int, list, dict, str, zoo.Plain, collections.OrderedDict, functools.partial(int, 5)]
TYPECODES = {"b": 8, "B": 8, "h": 16, "H": 16, "i": 32, "I": 32, "l": 64, "L": 64, "q": 64, "Q": 64}

small = st.integers(-3, 40)
word = st.sampled_from(["", "a", "xy", "json://1", "py/object", "é😀", "\x00", "a/b", " "]) | st.text(max_size=5)
# escaped names change places in dictionaries and are the subject of C05
name = word.filter(lambda w: w not in gen.RESERVED and not w.startswith("json://"))
fl = st.one_of(st.floats(), st.sampled_from([0.1, -0.0, 5e-324, 1e300]))
offsets = st.one_of(st.integers(-86399, 86399), st.sampled_from([0, 3600, -3600, 19800]))
tz = st.one_of(
    st.none(), st.just(("utc",)), st.tuples(st.just("off"), offsets, st.sampled_from([0, 0, 1, 999999])),
    st.tuples(st.just("named"), offsets, word), *([st.tuples(st.just("zone"), st.sampled_from(ZONES))] if ZONES else []))
us = st.sampled_from([0, 1, 999999, 123000]) | st.integers(0, 999999)


def _dec():
    return st.one_of(
        st.sampled_from(["0", "-0", "NaN", "-NaN", "sNaN", "NaN123", "Infinity", "-Infinity", "0E+5", "-0E-7", "1.50",
                         "1E+400", "123456789012345678901234567890.123"]),
        st.tuples(st.integers(-10**35, 10**35), st.integers(-60, 60)).map(lambda t: f"{t[0]}E{t[1]}"))


def _array():
    def values(tc):
        if tc in "fd":
            return st.lists(fl | st.floats(width=32 if tc == "f" else 64, allow_nan=False) | st.floats(-1e-3, 1e-3), max_size=4)
        if tc == "u":
            return st.text(max_size=4)
        bits = TYPECODES[tc]
        lo, hi = (0, 2**bits - 1) if tc.isupper() else (-(2**(bits - 1)), 2**(bits - 1) - 1)
        return st.lists(st.integers(lo, hi) | st.sampled_from([lo, hi]), max_size=4)

    return st.sampled_from("bBhHiIlLqQfdu").flatmap(lambda tc: st.tuples(st.just("array"), st.just(tc), values(tc)))


PATTERNS = ["", "a+", "(?P<n>x)|y", "a\nb", "é", r"\d{2,}", "#c", "[/\"']", "(?i:a)b", "(?ms)a.b"]


def atom():
    """Values without children."""
    return st.one_of(
        st.tuples(st.just("date"), st.integers(1, 3652059), st.booleans()),
        st.tuples(st.just("time"), st.integers(0, 86399), us, st.integers(0, 1), tz),
        st.tuples(st.just("dt"), st.integers(2, 3652058), st.integers(0, 86399), us, st.integers(0, 1), tz, st.booleans()),
        st.tuples(st.just("dt"), st.integers(2, 3652058), st.integers(0, 86399), us, st.integers(0, 1), tz, st.booleans()),
        st.tuples(st.just("td"), st.integers(-999999999, 999999999) | small, st.integers(0, 86399), us),
        st.tuples(st.just("tz"), tz.filter(bool)),
        st.tuples(st.just("dec"), _dec()),
        st.tuples(st.just("frac"), st.integers(-10**30, 10**30), st.integers(1, 10**30)),
        st.tuples(st.just("uuid"), st.integers(0, 2**128 - 1)),
        st.tuples(st.just("re"), st.sampled_from(PATTERNS), st.sampled_from([0, 2, 8, 16, 24, 64, 256, 258, 2 | 8 | 16 | 64]),
                  st.booleans()),
        _array(),
        _array(),
        st.tuples(st.just("enum"), st.integers(0, len(ENUMS) - 1)),
        st.tuples(st.just("flag"), st.sampled_from(["Perm", "IPerm", "Lenient"]), st.integers(0, 7)),
        st.tuples(st.just("path"), st.sampled_from(["PurePosixPath", "PureWindowsPath", "Path"]), st.lists(
            st.sampled_from(["a", "..", "/", "b c", "é", "C:\\x", ".", "x.tar.gz", "~"]), max_size=3)),
        st.tuples(st.just("range"), small, small, st.sampled_from([1, 2, -1, -7, 10**20])),
        st.tuples(st.just("slice"), st.none() | small, st.none() | small, st.none() | small),
        st.tuples(st.just("lock"), st.booleans()),
        st.tuples(st.just("queue"), st.integers(0, 2)),
        st.tuples(st.just("mpz"), st.integers() | st.integers(-10**60, 10**60)),
        st.tuples(st.just("cx"), fl, fl),
        st.tuples(st.just("ip"), st.sampled_from(["1.2.3.4", "::1", "fe80::1%3", "255.255.255.255"]),
                  st.sampled_from(["address", "interface"])),
        st.tuples(st.just("net"), st.sampled_from(["10.0.0.0/8", "::/64", "1.2.3.4/32"])),
        st.tuples(st.just("getter"), st.sampled_from(["item", "attr", "method"]), st.lists(
            st.sampled_from(["a", "b", "c.d"]), min_size=1, max_size=3)),
        st.tuples(st.just("sio"), word),
        st.tuples(st.just("bio"), gen.blob),
        st.tuples(st.just("ba"), gen.blob),
        st.tuples(st.just("rand"), small),
        st.tuples(st.just("norm"), st.integers(0, 5), st.integers(1, 5)),
        st.tuples(st.just("url"), st.sampled_from(["http://a/b;p?c=1#d", "", "x:y"])),
        st.tuples(st.just("tmpl"), word),
        st.tuples(st.just("ustr"), name),
        st.tuples(st.just("oserr"), st.sampled_from([1, 2, 13]), word, st.none() | word),
        st.tuples(st.just("uerr"), gen.blob),
    )


def tree(depth):
    leaf = st.one_of(atom(), atom(), gen.tiny.map(lambda v: ("val", v)))
    if not depth:
        return leaf
    sub = tree(depth - 1)
    items = st.lists(sub, max_size=3)
    pairs = st.lists(st.tuples(name, sub), max_size=3, unique_by=lambda t: t[0])
    return st.one_of(
        atom(), atom(), atom(), atom(),
        st.tuples(st.just("deque"), items, st.sampled_from([None, None, 3, 5, 0])),
        st.tuples(st.sampled_from(["odict", "userdict", "dict", "chain"]), pairs),
        st.tuples(st.just("ddict"), pairs, st.integers(0, len(FACTORIES) - 1)),
        st.tuples(st.just("counter"), st.lists(st.tuples(name, small), max_size=3, unique_by=lambda t: t[0])),
        st.tuples(st.sampled_from(["ulist", "list", "tuple", "pt1", "exc", "group", "app", "partial"]), items),
        st.tuples(st.just("pt"), sub, sub),
        st.tuples(st.just("old"), sub, sub, sub),
        st.tuples(st.sampled_from(["ns", "args", "attrs", "note"]), st.lists(
            st.tuples(st.sampled_from(["a", "b", "c", "_d"]), sub), max_size=3, unique_by=lambda t: t[0])),
    )


def strategy(tier):
    return st.fixed_dictionaries({
        "value": tree(2 if tier == "thorough" else 1),
        "at": st.sampled_from(["root", "list", "dict", "attr", "tuple", "set", "key", "slots", "twice", "state"]),
        "more": atom(),
        "opts": st.fixed_dictionaries({}, optional={"keys": st.just(True), "warn": st.just(True), "indent": st.just(2),
                                                    "use_base85": st.just(True)}),
        "backend": st.sampled_from([None, "json", "simplejson"]),
    })


def make_tz(s):
    if s is None:
        return None
    if s[0] == "utc":
        return datetime.timezone.utc
    if s[0] == "zone":
        return zoneinfo.ZoneInfo(s[1])
    if s[0] == "off":
        return datetime.timezone(datetime.timedelta(seconds=s[1], microseconds=s[2] if s[1] >= 0 else 0))
    return datetime.timezone(datetime.timedelta(seconds=s[1]), s[2])


def clock(secs, micros):
    return secs // 3600, secs // 60 % 60, secs % 60, micros


def make(s):
    k, a = s[0], s[1:]
    if k == "val":
        return a[0]
    if k == "date":
        return (DateSub if a[1] else datetime.date).fromordinal(a[0])
    if k == "time":
        return datetime.time(*clock(a[0], a[1]), fold=a[2], tzinfo=make_tz(a[3]))
    if k == "dt":
        d = datetime.date.fromordinal(a[0])
        cls = StampSub if a[5] else datetime.datetime
        return cls(d.year, d.month, d.day, *clock(a[1], a[2]), fold=a[3] and not a[5],
                   tzinfo=make_tz(a[4]))  # a reduction without fold is used for subclasses
    if k == "td":
        return datetime.timedelta(days=a[0], seconds=a[1], microseconds=a[2])
    if k == "tz":
        return make_tz(a[0])
    if k == "dec":
        return decimal.Decimal(a[0])
    if k == "frac":
        return fractions.Fraction(a[0], a[1])
    if k == "uuid":
        return uuid.UUID(int=a[0])
    if k == "re":
        if a[2]:
            return re.compile(a[0].encode(), a[1] & ~32)
        return re.compile(a[0], a[1])
    if k == "array":
        return array.array(a[0], a[1])
    if k == "enum":
        return ENUMS[a[0]]
    if k == "flag":
        return globals()[a[0]](a[1])
    if k == "path":
        return getattr(pathlib, a[0])(*a[1])
    if k == "range":
        return range(*a)
    if k == "slice":
        return slice(*a)
    if k == "queue":
        # only the queue itself is stored
        q = queue.Queue()
        for n in range(a[0]):
            q.put(n)
        return q
    if k == "lock":
        lock = threading.Lock()
        if a[0]:
            lock.acquire()
        return lock
    if k == "mpz":
        return gmpy2.mpz(a[0])
    if k == "cx":
        return complex(*a)
    if k == "ip":
        return getattr(ipaddress, f"ip_{a[1]}")(a[0])
    if k == "net":
        return ipaddress.ip_network(a[0])
    if k == "getter":
        cls = {"item": operator.itemgetter, "attr": operator.attrgetter, "method": operator.methodcaller}[a[0]]
        return cls(*a[1])
    if k == "sio":
        return io.StringIO(a[0], newline="")
    if k == "bio":
        return io.BytesIO(a[0])
    if k == "ba":
        return bytearray(a[0])
    if k == "rand":
        return random.Random(a[0])
    if k == "norm":
        return statistics.NormalDist(*a)
    if k == "url":
        return urllib.parse.urlparse(a[0])
    if k == "tmpl":
        return string.Template(a[0])
    if k == "ustr":
        return collections.UserString(a[0])
    if k == "oserr":
        return OSError(*[x for x in a if x is not None])
    if k == "uerr":
        return UnicodeDecodeError("utf-8", a[0] + b"\xff", 0, 1, "bad")
    if k == "deque":
        return collections.deque(map(make, a[0]), a[1])
    if k in ("odict", "userdict", "dict", "chain"):
        pairs = [(n, make(v)) for n, v in a[0]]
        if k == "chain":
            return collections.ChainMap(dict(pairs[:1]), dict(pairs[1:]))
        return {"odict": collections.OrderedDict, "userdict": collections.UserDict, "dict": dict}[k](pairs)
    if k == "ddict":
        return collections.defaultdict(FACTORIES[a[1]], [(n, make(v)) for n, v in a[0]])
    if k == "counter":
        return collections.Counter(dict(a[0]))
    if k in ("ulist", "list", "tuple", "exc", "app", "partial", "pt1", "group"):
        items = [make(v) for v in a[0]]
        if k == "group":
            return ExceptionGroup("m", [ValueError(*items), AppError(3)])
        if k == "app":
            return AppError(*(items + [None])[:2])
        if k == "partial":
            return functools.partial(sorted, *items, key=str)
        if k == "exc":
            return (ValueError, KeyError, StopIteration, AssertionError)[len(items)](*items)
        if k == "pt1":
            return Pt(items)
        return {"ulist": collections.UserList, "list": list, "tuple": tuple}[k](items)
    if k == "pt":
        return Pt(*map(make, a))
    if k == "old":
        return Old(*map(make, a))
    attrs = {n: make(v) for n, v in a[0]}
    if k == "ns":
        return types.SimpleNamespace(**attrs)
    if k == "args":
        return argparse.Namespace(**attrs)
    if k == "note":
        exc = AppError(1, "x")
        exc.__dict__.update(attrs)
        exc.add_note("noted")
        return exc
    obj = zoo.Plain.__new__(zoo.Plain)
    obj.__dict__.update(attrs)
    return obj


def works(q):
    """Whether something put into the queue comes out last."""
    if q.mutex.locked():
        return "locked"
    mark = object()
    try:
        q.put_nowait(mark)
        for _ in range(q.qsize() - 1):
            q.put_nowait(q.get_nowait())
        return q.get_nowait() is mark
    except Exception as exc:
        return repr(exc)


def view(v):
    """A plain description of a value that tells any two different values apart."""
    t = type(v)
    name = f"{t.__module__}.{t.__qualname__}"
    if v is None or t in (bool, int, str, bytes):
        return (name, v)
    if t in (float, complex, array.array, range, slice, decimal.Decimal, fractions.Fraction, uuid.UUID, gmpy2.mpz):
        return (name, repr(v))
    if isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType)):
        return (name, v.__qualname__)
    if isinstance(v, enum.Enum):
        return (name, id(type(v)), v.value if isinstance(v, enum.Flag) else id(v))
    if isinstance(v, (datetime.date, datetime.time, datetime.timedelta)):
        out = [name, v.isoformat() if hasattr(v, "isoformat") else (v.days, v.seconds, v.microseconds)]
        if hasattr(v, "tzinfo"):
            out += [v.fold, view(v.tzinfo), v.__dict__ if hasattr(v, "__dict__") else None]
        return tuple(out)
    if isinstance(v, datetime.tzinfo):
        return (name, id(v)) if isinstance(v, zoneinfo.ZoneInfo) else (name, repr(v))
    if isinstance(v, re.Pattern):
        return (name, type(v.pattern).__name__, v.pattern, v.flags)
    if isinstance(v, queue.Queue):
        return (name, v.maxsize, works(v))
    if isinstance(v, type(threading.Lock())):
        return (name, v.locked())
    if isinstance(v, pathlib.PurePath):
        return (name, str(v), v.parts)
    if isinstance(v, collections.deque):
        return (name, v.maxlen, [view(x) for x in v])
    if isinstance(v, (io.StringIO, io.BytesIO)):
        return (name, v.getvalue(), v.tell())
    if isinstance(v, random.Random):
        return (name, v.getstate())
    if isinstance(v, (operator.itemgetter, operator.attrgetter, operator.methodcaller, statistics.NormalDist)):
        return (name, repr(v))
    if isinstance(v, bytearray):
        return (name, bytes(v))
    if isinstance(v, functools.partial):
        return (name, id(v.func), view(v.args), view(v.keywords))
    if isinstance(v, collections.defaultdict):
        f = v.default_factory
        # other factories than classes are replaced by ones that make copies of their product
        return (name, id(f) if f is None or isinstance(f, type) else repr(f()), [(k, view(x)) for k, x in v.items()])
    if isinstance(v, collections.Counter):
        return (name, sorted(v.items()))
    if isinstance(v, dict):
        return (name, [(view(k), view(x)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)):
        return (name, sorted((view(x) for x in v), key=repr))
    if isinstance(v, (list, tuple)):
        return (name, [view(x) for x in v])
    out = [name]
    if isinstance(v, BaseException):
        out += [view(v.args)]
        if isinstance(v, OSError):
            out += [v.errno, v.strerror, v.filename]
        if isinstance(v, UnicodeError):
            out += [v.object, v.start, v.end, v.reason]
        if isinstance(v, BaseExceptionGroup):
            out += [v.message, view(v.exceptions)]
    if hasattr(v, "__dict__"):
        out.append(sorted((k, repr(view(x))) for k, x in v.__dict__.items() if k != "_hash"))
    elif isinstance(v, (ipaddress.IPv4Address, ipaddress.IPv6Address)):
        out.append(str(v))
    else:
        raise TypeError(f"no description for {name}")
    return tuple(out)


def hashable(v):
    try:
        hash(v)
    except TypeError:
        return False
    # values that are not equal to themselves, or hash by identity, cannot be looked up
    # and text of any sort is used as a key as it is
    return v == v and type(v).__hash__ is not object.__hash__ and not isinstance(v, (slice, BaseException, str))


def place(at, v, more):
    if at == "root":
        return v
    if at in ("set", "key") and not hashable(v):
        at = "list"
    if at == "list":
        return [more, v, more]
    if at == "dict":
        return {"a": v, "b": more, "c": v}
    if at == "tuple":
        return (more, v, [more])
    if at == "set":
        return {"s": {v}, "m": more}
    if at == "key":
        return [{v: more}, more]
    if at == "twice":
        return [v, [v, more], {"k": v, "m": more}]
    obj = zoo.SlotSub() if at == "slots" else zoo.StateDict() if at == "state" else zoo.Plain.__new__(zoo.Plain)
    obj.a, obj.b = v, more
    return obj


def parts_of(x):
    if isinstance(x, zoo.SlotSub):
        return [x.a, x.b]
    return x


def check(case, ctx):
    value, more = make(case["value"]), make(case["more"])
    opts = dict(case["opts"])
    if case["at"] == "key":
        opts["keys"] = True
    before = place(case["at"], value, more)
    backend = None
    if case["backend"]:
        backend = jsonpickle.backend.JSONBackend()
        backend.set_preferred_backend(case["backend"])
    want = view(parts_of(before))
    ctx.label(case["value"][0])
    ctx.nontrivial = case["value"][0] not in ("val", "list", "dict", "tuple", "attrs")
    base85 = opts.pop("use_base85", False)
    text = lib("encode", jsonpickle.encode, before, backend=backend, use_base85=base85, **opts)
    if view(parts_of(before)) != want:
        raise Violation("encoding changed the value")
    back = lib("decode", jsonpickle.decode, text, backend=backend, keys=opts.get("keys", False))
    if type(back) is not type(before):
        raise Violation(f"expected {type(before).__name__}, got {short(back)} from {short(text)}")
    try:
        got = view(parts_of(back))
    except Exception as exc:
        raise Violation(f"the decoded value of {short(before)} cannot be examined: {exc!r}; {short(text)}") from exc
    if got != want:
        raise Violation(f"expected {short(want)}, got {short(got)} from {short(text)}")
    if case["at"] == "twice" and not (back[0] is back[1][0] is back[2]["k"]) and shared_type(value):
        raise Violation(f"{short(value)} is no longer shared: {short(text)}")


def shared_type(v):
    """Types of which one shared instance stays one instance."""
    return isinstance(v, (collections.deque, collections.OrderedDict, collections.defaultdict, collections.UserDict,
                          collections.UserList, types.SimpleNamespace, datetime.date, re.Pattern, uuid.UUID,
                          array.array, decimal.Decimal, fractions.Fraction, BaseException, dict, list))

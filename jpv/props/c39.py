"""C39: standard library objects survive as pickle would carry them."""

import argparse
import ast
import calendar
import collections
import copyreg
import csv
import datetime
import decimal
import difflib
import email.message
import enum
import fractions
import functools
import http
import inspect
import io
import ipaddress
import itertools
import json
import logging
import operator
import optparse
import os
import pathlib
import plistlib
import random
import re
import statistics
import string
import subprocess
import tarfile
import textwrap
import time
import tokenize
import traceback
import types
import urllib.parse
import uuid
import warnings
import xml.etree.ElementTree as ElementTree
import xmlrpc.client
import zipfile

import jsonpickle
from hypothesis import strategies as st

from .. import gen, zoo
from ..core import Violation, lib, short

BUDGET = {"quick": 3000, "thorough": 40000}
FUNCS = [max, len, int, dict, zoo.Plain, os.path.join, operator.add, str.upper, fractions.Fraction]
SOURCES = ["x = 1 + y", "def f(a, *b, c=2, **d):\n    return [a for a in b if a]", "", "lambda: (yield)", "f'{a!r:>{w}}'",
           "class A(B, metaclass=C):\n    x: int = 0", "b'\\x00' + 1j + 2.5 + 10**30", "match a:\n    case {'k': 1, **r}: pass"]
XML = ['<a b="1">t<c/>u</a>', "<r><x y='é'>1</x><x/>tail</r>", "<a/>", "<n:a xmlns:n='u'><n:b>&lt;&#10;</n:b></n:a>"]
WORDS = ["a", "b", "name", "x1", "key", "value", "_u"]


def message(n, s, c):
    m = email.message.Message()
    m["To"] = s.strip().encode("ascii", "replace").decode().replace("\n", "").replace("\r", "") or "x"
    m["X-Two"] = "2"
    m.set_payload("body " + repr(s))
    return m


def at(stream, n):
    stream.seek(n % 7)
    return stream


def noted(exc, c):
    for k, v in zip(["note", "extra"], c):
        setattr(exc, k, v)
    return exc


def stepped(it, n):
    for _ in range(n % 3):
        next(it, None)
    return it


def record(n, s, c):
    r = logging.LogRecord("a." + s, n % 50, "p.py", n, s, tuple(c), None)
    r.created, r.msecs, r.relativeCreated, r.thread, r.process = 1.5, 2.0, 3.25, n, n
    return r


def rng(n):
    r = random.Random(n)
    if n % 2:
        r.gauss(0, 1)
    return r


def signature(n, s, c):
    kinds = sorted(inspect._ParameterKind)
    ps = [inspect.Parameter("p%d" % i, kinds[(n + i) % 2 if i < 2 else 3], default=v, annotation=int if n % 3 else inspect._empty)
          for i, v in enumerate(c)]
    return inspect.Signature(sorted(ps, key=lambda p: p.kind), return_annotation=str if n % 2 else inspect._empty)


# each takes a small integer, a text and a list of other values
KINDS = {
    "Namespace": lambda n, s, c: argparse.Namespace(**dict(zip(WORDS, c))),
    "SimpleNamespace": lambda n, s, c: types.SimpleNamespace(**dict(zip(WORDS, c))),
    "Values": lambda n, s, c: optparse.Values(dict(zip(WORDS, c))),
    "Random": lambda n, s, c: rng(n),
    "LogRecord": record,
    "Formatter": lambda n, s, c: logging.Formatter("%(message)s " + s.replace("%", ""), style="%"),
    "Logger": lambda n, s, c: logging.getLogger("jpv.%d" % n),
    "ip4": lambda n, s, c: ipaddress.IPv4Address(n * 2654435761 % 2**32),
    "ip6": lambda n, s, c: ipaddress.IPv6Address(n * 2654435761**3 % 2**128),
    "net4": lambda n, s, c: ipaddress.ip_network((n * 2654435761 % 2**32, n % 33), strict=False),
    "net6": lambda n, s, c: ipaddress.ip_network((n * 2654435761**3 % 2**128, n % 129), strict=False),
    "iface": lambda n, s, c: ipaddress.ip_interface("10.0.%d.1/%d" % (n % 256, n % 33)),
    "NormalDist": lambda n, s, c: statistics.NormalDist(n, n / 3 + 1),
    "Fraction": lambda n, s, c: fractions.Fraction(n - 7, 9),
    "Decimal": lambda n, s, c: decimal.Decimal((n % 2, (1, n % 10), -n)),
    "Context": lambda n, s, c: decimal.Context(prec=n + 1, rounding=decimal.ROUND_UP, traps=[decimal.Inexact][: n % 2]),
    "Template": lambda n, s, c: string.Template(s + " $b"),
    "ParseResult": lambda n, s, c: urllib.parse.ParseResult("http", s, "/b", "", "c", str(n)),
    "SplitResultBytes": lambda n, s, c: urllib.parse.urlsplit(b"http://a/b?c#d%d" % n),
    "UserDict": lambda n, s, c: collections.UserDict(zip(WORDS, c)),
    "UserList": lambda n, s, c: collections.UserList(c),
    "UserString": lambda n, s, c: collections.UserString(s),
    "ChainMap": lambda n, s, c: collections.ChainMap(dict(zip(WORDS, c)), {"z": n}, {}),
    "OrderedDict": lambda n, s, c: collections.OrderedDict(reversed(list(zip(WORDS, c)))),
    "Counter": lambda n, s, c: collections.Counter(s + "a" * n),
    "deque": lambda n, s, c: collections.deque(c, [None, 2, 9][n % 3]),
    "defaultdict": lambda n, s, c: collections.defaultdict([list, None, int][n % 3], zip(WORDS, c)),
    "partial": lambda n, s, c: functools.partial(FUNCS[n % len(FUNCS)], *c),
    "partial kw": lambda n, s, c: noted(functools.partial(FUNCS[n % len(FUNCS)], n, **dict(zip(WORDS, c))), c[: n % 2]),
    "itemgetter": lambda n, s, c: operator.itemgetter(n, s, *c),
    "attrgetter": lambda n, s, c: operator.attrgetter("a.b", "c%d" % n),
    "methodcaller": lambda n, s, c: operator.methodcaller("m", n, *c),
    "methodcaller kw": lambda n, s, c: operator.methodcaller("m", n, k=s),
    "Parameter": lambda n, s, c: inspect.Parameter("p", inspect.Parameter.KEYWORD_ONLY, default=c, annotation=int),
    "Signature": signature,
    "FullArgSpec": lambda n, s, c: inspect.FullArgSpec([s], None, "k", tuple(c), [], None, {"a": n}),
    "ast": lambda n, s, c: ast.parse(SOURCES[n % len(SOURCES)]),
    "TokenInfo": lambda n, s, c: tokenize.TokenInfo(n, s, (1, 2), (3, n), "l"),
    "struct_time": lambda n, s, c: time.gmtime(n * 86399),
    "stat_result": lambda n, s, c: os.stat_result(range(n, n + [10, 19][n % 2])),
    "terminal_size": lambda n, s, c: os.terminal_size((n, 2)),
    "Message": message,
    "HTTPStatus": lambda n, s, c: [http.HTTPStatus.NOT_FOUND, http.HTTPMethod.GET, re.I, re.I | re.M, inspect._ParameterKind.VAR_KEYWORD][n % 5],
    "TextWrapper": lambda n, s, c: textwrap.TextWrapper(width=n, initial_indent=s),
    "Calendar": lambda n, s, c: [calendar.TextCalendar, calendar.HTMLCalendar][n % 2](n % 7),
    "BytesIO": lambda n, s, c: at(io.BytesIO(s.encode("utf-8", "surrogatepass") + b"\x00\xffabc"), n),
    "StringIO": lambda n, s, c: at(io.StringIO(s + "a\nb\r\nc", ["\n", "", None][n % 3]), n),
    "dialect": lambda n, s, c: [csv.excel, csv.excel_tab, csv.unix_dialect][n % 3](),
    "Element": lambda n, s, c: ElementTree.fromstring(XML[n % len(XML)]),
    "FrameSummary": lambda n, s, c: traceback.FrameSummary("f", n, s, lookup_line=False, line="x", locals={"a": "1"}),
    "Ellipsis": lambda n, s, c: [..., NotImplemented][n % 2],
    "OSError": lambda n, s, c: noted(OSError(n, s, *[[], ["f"]][n % 2]), c),
    "UnicodeDecodeError": lambda n, s, c: noted(UnicodeDecodeError("utf8", b"x\xff" * n, 0, n, s), c),
    "ExceptionGroup": lambda n, s, c: noted(ExceptionGroup(s, [ValueError(n), KeyError(*c)]), c[:1]),
    "KeyError": lambda n, s, c: noted(KeyError(*c), c[1:]),
    "StopIteration": lambda n, s, c: StopIteration(c),
    "SystemExit": lambda n, s, c: SystemExit(n, *c),
    "ImportError": lambda n, s, c: ImportError(s, name="n", path=str(n)),
    "JSONDecodeError": lambda n, s, c: json.JSONDecodeError(s, "doc\n", n % 4),
    "CalledProcessError": lambda n, s, c: subprocess.CalledProcessError(n, s, *c[:2]),
    "CompletedProcess": lambda n, s, c: subprocess.CompletedProcess(["a", s], n, *c[:2]),
    "UID": lambda n, s, c: plistlib.UID(n),
    "ZipInfo": lambda n, s, c: zipfile.ZipInfo("a" + s.replace("\x00", ""), (1980 + n, 1, 1, 0, 0, 0)),
    "TarInfo": lambda n, s, c: tarfile.TarInfo("a" + s),
    "Fault": lambda n, s, c: xmlrpc.client.Fault(n, s),
    "DateTime": lambda n, s, c: xmlrpc.client.DateTime("20200101T00:00:%02d" % (n % 60)),
    "Binary": lambda n, s, c: xmlrpc.client.Binary(s.encode("utf-8", "surrogatepass")),
    "SequenceMatcher": lambda n, s, c: difflib.SequenceMatcher(None, s, "abc"),
    "Match": lambda n, s, c: difflib.Match(n, 2, 3),
    "Pattern": lambda n, s, c: re.compile(re.escape(s) + "(?P<a>b)?", [0, re.I, re.M | re.S, re.A][n % 4]),
    "UUID": lambda n, s, c: uuid.UUID(int=n * 2654435761**3 % 2**128),
    "PurePath": lambda n, s, c: [pathlib.PurePosixPath, pathlib.PureWindowsPath][n % 2]("a", s.replace("\x00", ""), "b"),
    "timezone": lambda n, s, c: datetime.timezone(datetime.timedelta(minutes=n), "z" + s) if n % 2 else datetime.timezone.utc,
    "datetime": lambda n, s, c: datetime.datetime(2000, 1, 1 + n % 28, tzinfo=[None, datetime.timezone.utc][n % 2], fold=n // 2 % 2),
    "count": lambda n, s, c: itertools.count(n, 1 + n % 3),
    "chain": lambda n, s, c: stepped(itertools.chain([n, s], list(c)), n),
    "cycle": lambda n, s, c: itertools.cycle([n, s]),
    "repeat": lambda n, s, c: itertools.repeat(c, n % 5),
    "islice": lambda n, s, c: stepped(itertools.islice([1, 2, 3, n], 1, 4), n),
    "zip": lambda n, s, c: stepped(zip([1, 2, n], list(c)), n),
    "map": lambda n, s, c: map(FUNCS[n % len(FUNCS)], list(c)),
    "filter": lambda n, s, c: filter(FUNCS[n % len(FUNCS)], list(c)),
    "enumerate": lambda n, s, c: stepped(enumerate(list(c), n), n),
    "reversed": lambda n, s, c: stepped(reversed([1, n, *c]), n),
    "permutations": lambda n, s, c: stepped(itertools.permutations([1, 2, n], 2), n),
    "product": lambda n, s, c: stepped(itertools.product([1, n], [s, "b"]), n),
    "accumulate": lambda n, s, c: stepped(itertools.accumulate([1, n, 3], operator.add), n),
    "listiter": lambda n, s, c: stepped(iter([1, n, *c]), n),
    "tupleiter": lambda n, s, c: stepped(iter((1, n, *c)), n),
    "rangeiter": lambda n, s, c: stepped(iter(range(n + 3)), n),
    "striter": lambda n, s, c: stepped(iter("ab" + s), n),
    "bytes iter": lambda n, s, c: stepped(iter(b"abc"), n),
    "list": lambda n, s, c: list(c),
    "dict": lambda n, s, c: dict(zip(WORDS, c)),
    "tuple": lambda n, s, c: tuple(c),
    "Plain": lambda n, s, c: noted(zoo.Plain.__new__(zoo.Plain), c),
}
NAMES = sorted(KINDS)


def strategy(tier):
    leaf = st.one_of(gen.tiny, gen.scalar)
    ref = st.tuples(st.just("@"), st.integers(0, 7))
    child = st.sampled_from([leaf, ref, ref]).flatmap(lambda s: s)
    node = st.tuples(st.sampled_from(NAMES), st.integers(0, 60), gen.text if hasattr(gen, "text") else st.text(max_size=4),
                     st.lists(child, max_size=3))
    return st.fixed_dictionaries({
        "nodes": st.lists(node, min_size=1, max_size=12 if tier == "thorough" else 6),
        "tops": st.lists(st.integers(0, 7), max_size=3),
        "at": st.sampled_from(["root", "list", "list", "dict", "attr"]),
    })


ATOMS = (type(None), bool, int, float, complex, str, bytes, type, types.FunctionType, types.BuiltinFunctionType,
         types.ModuleType, enum.Enum, type(...), type(NotImplemented), types.MethodDescriptorType)


class Same:
    """Compares two values by what their reductions say."""

    def __init__(self):
        self.there, self.back, self.keep = {}, {}, []

    def fail(self, path, why):
        raise Violation(f"at {path}: {why}")

    def same(self, a, b, path):
        if type(a) is not type(b):
            self.fail(path, f"{short(a)} came back as {short(b)}")
        if isinstance(a, ATOMS):
            if a is not b and (type(a) in (type, types.FunctionType) or isinstance(a, enum.Enum) or repr(a) != repr(b)):
                self.fail(path, f"{short(a)} came back as {short(b)}")
            return
        if isinstance(a, (tuple, frozenset, set)) and type(a).__module__ == "builtins":
            if len(a) != len(b):
                self.fail(path, f"{short(a)} came back as {short(b)}")
            if isinstance(a, tuple):
                for n, (x, y) in enumerate(zip(a, b)):
                    self.same(x, y, f"{path}[{n}]")
            elif a != b:
                self.fail(path, f"{short(a)} came back as {short(b)}")
            return
        if id(a) in self.there or id(b) in self.back:
            if self.there.get(id(a)) != id(b) or self.back.get(id(b)) != id(a):
                self.fail(path, f"{short(a)} is shared otherwise than before")
            return
        self.there[id(a)], self.back[id(b)] = id(b), id(a)
        self.keep.append((a, b))
        if type(a) is list:
            if len(a) != len(b):
                self.fail(path, f"{short(a)} came back as {short(b)}")
            for n, (x, y) in enumerate(zip(a, b)):
                self.same(x, y, f"{path}[{n}]")
            return
        if type(a) is dict:
            if list(a) != list(b):
                self.fail(path, f"{short(a)} came back as {short(b)}")
            for k in a:
                self.same(a[k], b[k], f"{path}[{k!r}]")
            return
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x, y = (copyreg.dispatch_table.get(type(a), lambda v: v.__reduce_ex__(4))(v) for v in (a, b))
        if isinstance(x, str):
            if a is not b:
                self.fail(path, f"{x} came back as something else")
            return
        x, y = (list(v) + [None] * (6 - len(v)) for v in (x, y))
        for v in (x, y):
            v[3], v[4] = list(v[3] or ()), list(v[4] or ())
            if v[2] == {}:
                v[2] = None
            if hasattr(a, "__next__") and not isinstance(a, io.IOBase):
                v[2] = v[2] or None
            if isinstance(a, (io.IOBase, functools.partial)):
                # attributes there are none of
                v[2] = (*v[2][:-1], v[2][-1] or None)
                self.keep.append(v[2])
            self.keep.append(v)
        name = type(a).__name__
        for n, part in enumerate(["constructor", "arguments", "state", "items", "entries", "setter"]):
            self.same(x[n], y[n], f"{path} ({part} of the {name})")


def build(case):
    objs = []
    for name, n, s, kids in case["nodes"]:
        c = []
        for k in kids:
            if isinstance(k, tuple) and len(k) == 2 and k[0] == "@":
                if objs:
                    c.append(objs[k[1] % len(objs)])
            else:
                c.append(k)
        objs.append(KINDS[name](n, s, c))
    tops = [objs[-1], *(objs[t % len(objs)] for t in case["tops"])]
    if case["at"] == "root":
        return tops[0]
    if case["at"] == "list":
        return tops
    if case["at"] == "dict":
        return {f"k{n}": v for n, v in enumerate(tops)}
    p = zoo.Plain.__new__(zoo.Plain)
    p.a, p.b = tops, objs[0]
    return p


def check(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        root = build(case)
        for name, *_ in case["nodes"]:
            ctx.label(name)
        ctx.nontrivial = any(n[0] not in ("list", "dict", "tuple", "Plain") for n in case["nodes"])
        text = lib("encode", jsonpickle.encode, root)
        dec = lib("decode", jsonpickle.decode, text)
    Same().same(root, dec, "root")

"""C23: classes, functions, modules and bound methods are restored by name."""

import functools
import importlib
import sys
import types
import warnings

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph, zoo
from ..core import lib

BUDGET = {"quick": 2600, "thorough": 40000}
NAMES = """builtins types typing collections collections.abc abc ast argparse array asyncio base64 bisect calendar cmath
codecs concurrent.futures contextlib copy copyreg csv dataclasses datetime decimal difflib dis email email.message
email.mime.text enum fractions functools gc glob graphlib hashlib heapq hmac html html.parser http http.client
http.cookies importlib importlib.abc importlib.machinery importlib.util inspect io ipaddress itertools json json.decoder
keyword logging logging.handlers math mimetypes multiprocessing multiprocessing.pool numbers operator os os.path pathlib
pickle platform plistlib pprint queue random re reprlib secrets select selectors shelve shlex signal socket sqlite3 ssl
stat statistics string struct subprocess symtable sys tempfile textwrap threading time timeit tokenize traceback
tracemalloc unittest unittest.mock urllib.parse urllib.request uuid warnings weakref xml.dom.minidom
xml.etree.ElementTree zipfile zlib zoneinfo jsonpickle jsonpickle.pickler jsonpickle.unpickler jsonpickle.handlers
jsonpickle.ext.numpy numpy numpy.linalg numpy.random pandas gmpy2 yaml simplejson jpv.zoo jpv.graph jpv.props.c23
jpv.props""".split()


class Weird(type):
    """A metaclass with behaviour that must not matter."""

    def __eq__(cls, other):
        return NotImplemented

    def __hash__(cls):
        return 7

    def __bool__(cls):
        return False

    def __len__(cls):
        return 0

    def __iter__(cls):
        return iter(())

    def __call__(cls, *args):
        raise RuntimeError("not to be called")


class Odd(metaclass=Weird):
    class Inner(metaclass=Weird):
        class Innermost:
            def method(self):
                pass

            class Deeper:
                class Deepest:
                    class Bottom(dict):
                        def method(self):
                            pass

        @staticmethod
        def helper():
            pass


class HasState:
    """Its hooks concern the instances and not the class."""

    __slots__ = ("a",)
    flatten = None

    def __getstate__(self):
        raise RuntimeError

    def __reduce__(self):
        raise RuntimeError

    def __getnewargs__(self):
        raise RuntimeError


class Generic_(list):
    def __class_getitem__(cls, item):
        return cls


def inner_work():
    pass


@functools.wraps(inner_work, assigned=())
def outer_work():
    """Mentions another function, and is found under its own name."""


@functools.wraps(Generic_, assigned=(), updated=())
class Wrapper:
    pass


def importable(obj):
    """The rule of the pickle module."""
    try:
        found = sys.modules[obj.__module__]
        for part in obj.__qualname__.split("."):
            found = getattr(found, part)
    except Exception:
        return False
    return found is obj


def universe():
    found, modules = {}, []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for name in NAMES:
            try:
                mod = importlib.import_module(name)
            except ImportError:
                continue
            if sys.modules.get(mod.__name__) is mod and mod not in modules:
                modules.append(mod)
            todo = [getattr(mod, n, None) for n in sorted(dir(mod))]
            for depth in range(7):
                more = []
                for v in todo:
                    if isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType)) and id(v) not in found:
                        if importable(v):
                            found[id(v)] = v
                        if isinstance(v, type):
                            more += [w for _, w in sorted(vars(v).items(), key=lambda t: str(t[0]))
                                     if isinstance(w, (type, types.FunctionType))]
                todo = more
    return list(found.values()), modules


zoo.IMPORTABLES[:], zoo.MODULES[:] = universe()
CLASSES = [n for n, v in enumerate(zoo.IMPORTABLES) if isinstance(v, type)]
OWN = [n for n, v in enumerate(zoo.IMPORTABLES) if v.__module__.startswith("jpv")]
DEEP = [n for n, v in enumerate(zoo.IMPORTABLES) if v.__qualname__.count(".") > 1]
NESTED = [n for n, v in enumerate(zoo.IMPORTABLES) if "." in v.__qualname__ and isinstance(v, type)]
BUILTIN = [n for n, v in enumerate(zoo.IMPORTABLES) if isinstance(v, types.BuiltinFunctionType)]
TYPES = [n for n, v in enumerate(zoo.IMPORTABLES) if isinstance(v, type) and v.__module__ in ("builtins", "types")
         or v in vars(types).values()]
WRAPS = [n for n, v in enumerate(zoo.IMPORTABLES) if "__wrapped__" in getattr(v, "__dict__", ())]
SORTS = [range(len(zoo.IMPORTABLES)), CLASSES, OWN, NESTED, BUILTIN, TYPES, DEEP, WRAPS]
KINDS = gen.family("attrs", "slots", "contsub", "state", "newargs", "reduce", exclude=("Descriptor",))
BOUND = gen.family("bound")


def strategy(tier):
    imp = st.sampled_from(SORTS).flatmap(lambda s: st.tuples(st.just("imp"), st.sampled_from(s)))
    lf = st.sampled_from("iiiimnlt").flatmap(lambda c: {
        "i": imp, "m": st.tuples(st.just("module"), st.integers(0, len(zoo.MODULES) - 1)),
        "n": st.just(("nul", 0)), "l": st.just(("local", 0)), "t": gen.tiny}[c])
    return st.fixed_dictionaries({
        "graph": gen.graph(KINDS + BOUND * 9, lf, refs=4, inst=5, max_nodes=14 if tier == "thorough" else 6,
                           containers="LLDDTSFM"),
        "opts": st.fixed_dictionaries({}, optional={"keys": st.just(True), "warn": st.just(True)}),
    })


def check(case, ctx):
    root, _, nodes = graph.build(case["graph"])
    ctx.nontrivial = "'imp'" in repr(nodes) or "'module'" in repr(nodes) or "Bound" in repr(nodes)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        text = lib("encode", jsonpickle.encode, root, **case["opts"])
    back = lib("decode", jsonpickle.decode, text, keys=case["opts"].get("keys", False))

    def resolve(o):
        return None if isinstance(o, types.FunctionType) and "<locals>.inner" in o.__qualname__ else o

    compare.same_graph(root, back, resolve=resolve, ordered="keys" not in case["opts"])

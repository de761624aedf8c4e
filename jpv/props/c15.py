"""C15: backends are interchangeable and managed as documented."""

import copy
import importlib
import json
import sys
import types

import jsonpickle
from hypothesis import strategies as st
from jsonpickle.ext import yaml as ext_yaml

from .. import compare, gen, graph
from ..core import Violation, lib, outcome, short

BUDGET = {"quick": 3000, "thorough": 30000}


# ------------------------------------------------------------------ stand-in backends


class StandInError(Exception):
    """A decoder error of its own, not a ValueError."""


class OtherError(Exception):
    """Not a decoder error."""


LOG = []
FAIL = {}


def stand_in(name, missing=()):
    mod = types.ModuleType(name)

    def dumps(obj, *args, **kwargs):
        LOG.append((name, "dumps", args, kwargs))
        if FAIL.get(name) == "encode":
            raise TypeError(name)
        return f"{name}|{json.dumps(obj)}"

    def loads(text, *args, **kwargs):
        LOG.append((name, "loads", args, kwargs))
        if FAIL.get(name) == "decode":
            raise mod.DecodeError(name)
        if FAIL.get(name) == "value":
            raise ValueError(name)
        if FAIL.get(name) == "other":
            raise OtherError(name)
        return {"by": name, "data": json.loads(text.split("|")[-1])}

    mod.dumps = mod.dump_it = dumps
    mod.loads = mod.load_it = loads
    mod.DecodeError = StandInError
    for attr in missing:
        delattr(mod, attr)
    return mod


STAND_INS = ["jpvback_a", "jpvback_b", "jpvback_c", "jpvpkg.inner.back"]
BROKEN = {"jpvback_x": ("dumps",), "jpvback_y": ("loads",), "jpvback_z": ("DecodeError",)}
MISSING = ["jpvback_none", "jpvpkg.none", "jpvpkg.inner.none"]
REAL = ["json", "simplejson", "ujson", "yaml"]
# yaml text is not JSON
PAIRS = [(w, r) for w in REAL[:3] for r in REAL[:3]] + [("yaml", "yaml")] * 2


def install():
    for n in STAND_INS[:3]:
        sys.modules[n] = stand_in(n)
    for n, missing in BROKEN.items():
        sys.modules[n] = stand_in(n, missing)
    pkg, inner = types.ModuleType("jpvpkg"), types.ModuleType("jpvpkg.inner")
    pkg.__path__ = inner.__path__ = []
    pkg.inner, inner.back = inner, stand_in("jpvpkg.inner.back")
    sys.modules["jpvpkg"], sys.modules["jpvpkg.inner"] = pkg, inner
    sys.modules["jpvpkg.inner.back"] = inner.back


install()


class Model:
    def __init__(self):
        self.names = ["simplejson", "json", "ujson"]
        self.fall = True
        self.enc = {"simplejson": ((), {"sort_keys": False}), "json": ((), {"sort_keys": False}),
                    "ujson": ((), {"sort_keys": False, "escape_forward_slashes": False})}
        self.dec = {}
        self.funcs = {n: (sys.modules[n].dumps, sys.modules[n].loads) for n in self.names}
        self.exc = dict.fromkeys(self.names, ValueError)

    def load(self, name, dumps, loads, exc):
        mod = importlib.import_module(name)
        self.funcs[name] = (getattr(mod, dumps), getattr(mod, loads))
        self.exc[name] = getattr(mod, exc) if isinstance(exc, str) else exc
        self.enc.setdefault(name, ((), {}))
        self.dec.setdefault(name, ((), {}))
        if name not in self.names:
            self.names.append(name)

    def remove(self, name):
        if name in self.names:
            self.names.remove(name)
        self.enc.pop(name, None)
        self.dec.pop(name, None)

    def encode(self, value, layout):
        return self._call(0, value, layout, self.enc, lambda name: Exception)

    def decode(self, text):
        return self._call(1, text, {}, self.dec, lambda name: self.exc[name])

    def _call(self, which, arg, layout, options, forgiven):
        if not self.names:
            return ("none",)
        last = None
        for name in self.names if self.fall else self.names[:1]:
            args, kwargs = options.get(name, ((), {}))
            try:
                return ("ok", self.funcs[name][which](arg, *args, **{**kwargs, **layout}))
            except Exception as exc:
                last = ("exc", type(exc), str(exc))
                if not isinstance(exc, forgiven(name)):
                    break
        return last


def operation(stand, real):
    """One operation on some of the backends."""
    name = st.sampled_from(stand * 3 + real)
    loadable = st.sampled_from(stand * 4 + [n for n in real if n != "yaml"])
    stand = st.sampled_from(stand)
    kwargs = st.sampled_from([{}, {"k": 1}, {"opt": True, "k": 2}])
    args = st.sampled_from([[], [], [7], [None, "x"]])
    value = st.sampled_from([[1, "a", None], {"k": [True, 1.5]}, "text", [], {"a": 0, "b": {"c": []}}])
    load = st.tuples(st.just("load"), loadable, st.sampled_from([0, 0, 1]), st.sampled_from(["DecodeError", "ValueError"]))
    return st.one_of(
        load,
        load,
        st.tuples(st.just("load bad"), st.sampled_from(sorted(BROKEN) + MISSING)),
        st.tuples(st.just("yaml")),
        st.tuples(st.just("remove"), name),
        st.tuples(st.just("remove real")),
        st.tuples(st.just("prefer"), name),
        st.tuples(st.just("prefer"), name),
        st.tuples(st.just("fall"), st.booleans()),
        st.tuples(st.just("enc"), stand, args, kwargs),
        st.tuples(st.just("dec"), stand, args, kwargs),
        st.tuples(st.just("sort"), st.sampled_from(real), st.booleans()),
        st.tuples(st.just("fail"), stand, st.sampled_from([None, "encode", "decode", "value", "other"])),
        st.tuples(st.just("encode"), value, st.sampled_from([{}, {}, {"indent": 2}, {"separators": (", ", ":")}]),
                  st.integers(0, 3)),
        st.tuples(st.just("encode"), value, st.just({}), st.integers(0, 3)),
        st.tuples(st.just("decode"), value, st.booleans(), st.integers(0, 3)),
        st.tuples(st.just("decode"), value, st.booleans(), st.integers(0, 3)),
    )


def strategy(tier):
    most = 24 if tier == "thorough" else 14
    # all backends, or few of them so that the operations meet on the same ones
    anything = st.lists(operation(STAND_INS, REAL), min_size=3, max_size=most)
    narrow = [st.lists(operation([s], [r]), min_size=4, max_size=most).map(
        lambda ops, s=s: [("load", s, 0, "ValueError"), ("prefer", s), *ops]) for s in STAND_INS for r in REAL]
    history = st.fixed_dictionaries({
        "ops": st.one_of(anything, st.sampled_from(narrow).flatmap(lambda s: s)),
        "shared": st.sampled_from([True, False, False]),
    })
    kinds = gen.family(exclude=())
    leaf = st.one_of(gen.leaf("enum", "type", "func", "std", "nul", "cx", "ba", "mod", "rng", "slc"),
                     gen.scalar, gen.scalar)
    across = st.fixed_dictionaries({
        "graph": gen.graph(kinds, leaf, max_nodes=9, containers="LLDDTSFM"),
        "pair": st.sampled_from(PAIRS),
        "opts": st.sampled_from([{}, {}, {}, {"keys": True}, {"use_base85": True}, {"indent": 1}, {"make_refs": False}]),
    })
    sorting = st.fixed_dictionaries({
        "graph": gen.graph(["Plain", "PlainEq", "Data", "Callable"], gen.leaf("enum", "type", "ba", "cx"),
                           key=gen.str_key.map(lambda s: s.replace("json://", "")), max_nodes=9, containers="LLDDDT"),
        "pair": st.sampled_from(PAIRS),
        "opts": st.just({}), "sort": st.just(True),
    })
    # the order of slots is not that of their names, so references may change places
    slots = st.fixed_dictionaries({
        "graph": gen.graph(["Plain"] + gen.family("slots"), gen.leaf("enum", "type", "ba", "cx"),
                           key=gen.str_key.map(lambda s: s.replace("json://", "")), max_nodes=5, containers="LLDT"),
        "pair": st.sampled_from(PAIRS),
        "opts": st.just({"make_refs": False}), "sort": st.just(True),
    })
    return st.sampled_from([history] * 6 + [across] * 4 + [sorting] * 2 + [slots]).flatmap(lambda s: s)


def check(case, ctx):
    if "ops" in case:
        if not case["shared"]:
            return history(case, ctx, jsonpickle.JSONBackend())
        # the default backend through the module-level functions
        before = {k: copy.copy(v) for k, v in vars(jsonpickle.json).items()}
        try:
            return history(case, ctx, jsonpickle)
        finally:
            vars(jsonpickle.json).clear()
            vars(jsonpickle.json).update(before)
    return across(case, ctx)


# ------------------------------------------------------------------ management histories


def history(case, ctx, be):
    model = Model()
    FAIL.clear()
    shared = be is jsonpickle
    managed = used = 0
    for n, op in enumerate(case["ops"]):
        what = op[0]
        managed += what not in ("encode", "decode", "fail")
        if what == "load":
            _, name, alt, exc = op
            if name in REAL:
                exc, alt = "ValueError", 0
            dumps, loads = ("dump_it", "load_it") if alt else ("dumps", "loads")
            exc = ValueError if exc == "ValueError" else exc
            if be.load_backend(name, dumps=dumps, loads=loads, loads_exc=exc) is not True:
                raise Violation(f"operation {n}: loading {name} failed")
            model.load(name, dumps, loads, exc)
        elif what == "load bad":
            got = be.load_backend(op[1], loads_exc="DecodeError")
            if got is not False:
                raise Violation(f"operation {n}: loading {op[1]} gave {got!r}")
        elif what == "yaml":
            if (ext_yaml.register() if shared else ext_yaml.register(be)) is not True:
                raise Violation(f"operation {n}: yaml was not registered")
            model.load("yaml", "dump", "safe_load", "YAMLError")
            if model.enc["yaml"] == ((), {}):
                model.enc["yaml"] = ((), {"sort_keys": False})
        elif what == "remove":
            be.remove_backend(op[1])
            model.remove(op[1])
        elif what == "remove real":
            for name in REAL:
                be.remove_backend(name)
                model.remove(name)
        elif what == "prefer":
            got = outcome(be.set_preferred_backend, op[1])
            if op[1] in model.names:
                model.names.remove(op[1])
                model.names.insert(0, op[1])
                if got[0] != "ok":
                    raise Violation(f"operation {n}: preferring the loaded {op[1]} gave {got}")
            elif got[:2] != ("exc", AssertionError):
                raise Violation(f"operation {n}: preferring {op[1]}, which is not loaded, gave {got}")
        elif what == "fall":
            be.enable_fallthrough(op[1])
            model.fall = op[1]
        elif what in ("enc", "dec"):
            _, name, args, kwargs = op
            if what == "enc":
                be.set_encoder_options(name, *args, **kwargs)
                model.enc[name] = (tuple(args), kwargs)
            else:
                be.set_decoder_options(name, *args, **kwargs)
                model.dec[name] = (tuple(args), kwargs)
        elif what == "sort":
            be.set_encoder_options(op[1], sort_keys=op[2])
            model.enc[op[1]] = ((), {"sort_keys": op[2]})
        elif what == "fail":
            FAIL[op[1]] = op[2]
        else:
            used += 1
            use(n, op, be, shared, model)
    ctx.label("history")
    ctx.nontrivial = managed >= 3 and used >= 1


def use(n, op, be, shared, model):
    how = op[3]
    backend = None if shared else be
    direct = jsonpickle.json if shared else be
    if op[0] == "encode":
        _, value, layout, _ = op
        call = [lambda: direct.encode(value, **layout), lambda: direct.dumps(value, **layout),
                lambda: jsonpickle.encode(value, backend=backend, **layout),
                lambda: jsonpickle.dumps(value, backend=backend, **layout)][how]
        expect = lambda: model.encode(value, layout)  # noqa: E731
    else:
        _, value, plain, _ = op
        text = json.dumps(value) if plain else "x|" + json.dumps(value)
        call = [lambda: direct.decode(text), lambda: direct.loads(text),
                lambda: jsonpickle.decode(text, backend=backend),
                lambda: jsonpickle.loads(text, backend=backend)][how]
        expect = lambda: model.decode(text)  # noqa: E731
    LOG.clear()
    got = outcome(call)
    calls = list(LOG)
    LOG.clear()
    want = expect()
    wanted_calls = list(LOG)
    where = f"operation {n}, {short(op)} with {model.names}"
    if want == ("none",):
        if got[0] == "ok" or issubclass(got[1], (IndexError, KeyError, TypeError, AttributeError)):
            raise Violation(f"{where}: no backend is loaded but the outcome is {got}")
        return
    if calls != wanted_calls:
        raise Violation(f"{where}: the calls were {calls} instead of {wanted_calls}")
    if got != want:
        raise Violation(f"{where}: the outcome is {short(got)} instead of {short(want)}")


# ------------------------------------------------------------------ graphs across backends


def representable(x):
    """Maps a recipe to data that every backend can represent."""
    if isinstance(x, str):
        return "".join(c if c.isprintable() or c in "\n\t " else "?" for c in x)
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x if abs(x) < 2**62 else x % 1000
    if isinstance(x, float):
        return x if x == x and (x == 0 or 1e-300 < abs(x) < 1e300) else 0.25
    if isinstance(x, (list, tuple)):
        return type(x)(representable(v) for v in x)
    if isinstance(x, dict):
        return {k: representable(v) for k, v in x.items()}
    return x


def only(name):
    be = jsonpickle.JSONBackend()
    if name == "yaml":
        ext_yaml.register(be)
    lib(f"preferring {name}", be.set_preferred_backend, name)
    be.enable_fallthrough(False)
    return be


def across(case, ctx):
    recipe = representable(case["graph"])
    opts = dict(case["opts"])
    refs = opts.get("make_refs", True)
    root, _, nodes = graph.build(recipe, acyclic=not refs)
    w, r = case["pair"]
    writer, reader = only(w), only(r)
    if case.get("sort"):
        writer.set_encoder_options(w, sort_keys=True)
        ctx.label("sorted")
    text = lib(f"encode with {w}", jsonpickle.encode, root, backend=writer, **opts)
    back = lib(f"decode with {r}", jsonpickle.decode, text, backend=reader, keys="keys" in opts)
    ctx.label(f"{w} to {r}")
    ctx.nontrivial = len(nodes) >= 2
    try:
        compare.same_graph(root, back, identity=refs, ordered=not case.get("sort") and "keys" not in opts)
    except Violation as exc:
        raise Violation(f"{w} to {r}: {exc} in {short(text, 300)}") from None

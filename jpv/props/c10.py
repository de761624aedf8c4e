"""C10: unpicklable mode gives the documented plain projection."""

import base64
import datetime
import json

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph
from ..core import Violation, lib, short
from ..tree import Shape

BUDGET = {"quick": 4000, "thorough": 60000}
KINDS = ([k for k in gen.family("attrs", "slots", "contsub", "state", "exc") if k != "SlotConst"]
         + [k for k in gen.family("reduce", "stdlib") if k not in ("defaultdict", "deque", "struct_time")]
         + [k for k in gen.family("excl") if k not in ("ExclSlots", "ExclSlotsSub", "ExclNewArgs")])
LEAF = st.one_of(
    gen.tiny, gen.tiny, gen.special_float, gen.blob, st.tuples(st.just("std"), st.integers(0, 3)),
    st.tuples(st.just("ba"), gen.blob), st.tuples(st.just("nul"), st.integers(0, 1)),
    st.tuples(st.just("func"), st.integers(0, 5)))
KEY = st.one_of(gen.str_key, gen.str_key, st.integers(100, 103), gen.blob)


def strategy(tier):
    return st.fixed_dictionaries({
        "graph": gen.graph(KINDS, LEAF, key=KEY, containers="LLLDDDTTSM", refs=5, max_kids=3,
                           maps=st.sampled_from(["DictSub", "OrdSub", "OrderedDict"]),
                           max_nodes=14 if tier == "thorough" else 9),
        "opts": st.fixed_dictionaries({}, optional={
            "max_depth": st.just(400), "warn": st.just(True),
            "use_base85": st.just(True)}),
    })


def key_text(k):
    if isinstance(k, str):
        return k
    return "null" if k is None else repr(k)


def mangled(obj, name):
    """The class of an object may write its private names without the prefix."""
    if name.startswith("__") and not name.endswith("__"):
        return f"_{type(obj).__name__.lstrip('_')}{name}"
    return name


def own_state(obj):
    hook = getattr(type(obj), "__getstate__", None)
    if hook is None or hook is object.__getstate__:
        return None
    return obj.__getstate__()


def project(o):
    kind, parts = project_all(o)
    if kind == "map":
        # values without an importable name are skipped
        parts = {k: v for k, v in parts.items() if not compare.is_lambda(v)}
    return kind, parts


def project_all(o):
    """('null'|'text'|'seq'|'map'|'atom', parts): what the object is written as."""
    if compare.is_null(o) or isinstance(o, compare.FUNCS):
        return "null", None
    if isinstance(o, (datetime.datetime, datetime.date, datetime.time)):
        return "text", o.isoformat()
    t = type(o)
    if compare.is_atom(o):
        return "atom", o
    if t in (list, tuple, set):
        return "seq", list(o)
    if t is dict:
        return "map", {key_text(k): v for k, v in o.items()}
    exclude = set(getattr(o, "_jsonpickle_exclude", ()))
    state = own_state(o)
    if exclude and isinstance(state, dict):
        state = {k: v for k, v in state.items() if k not in exclude}
    if state:
        return project(state)
    if isinstance(o, dict):
        return "map", {key_text(k): v for k, v in dict.items(o) if k not in exclude}
    if isinstance(o, (list, tuple, set)):
        return "seq", list(o)
    return "map", {k: v for k, v in compare.attrs_of(o).items() if k not in exclude}




class Matcher:
    def __init__(self, shape, b85):
        self.shape = shape
        self.b85 = b85
        self.expanded = set()
        self.nulls = {}
        self.cut = 0
        self.repeated = 0

    def fail(self, path, msg):
        raise Violation(f"at {path or 'root'}: {msg}")

    def atom(self, o, j, path):
        if isinstance(o, (bytes, bytearray)):
            # bytes keep their tag: JSON has no other form for them
            code = base64.b85encode if self.b85 else base64.b64encode
            expect = {"py/b85" if self.b85 else "py/b64": code(bytes(o)).decode()}
            if isinstance(o, bytearray):
                expect = {"py/bytea": expect}
            if j != expect:
                self.fail(path, f"{short(o)} was written as {short(j)}")
        elif type(j) is not type(o) or not compare.atoms_equal(o, j):
            self.fail(path, f"{short(o)} was written as {short(j)}")

    def match(self, o, j, path, stack):
        kind, parts = project(o)
        if kind == "null":
            if j is not None:
                self.fail(path, f"expected null, got {short(j)}")
            return
        if kind == "text":
            if j != parts:
                self.fail(path, f"expected {parts!r}, got {short(j)}")
            return
        if kind == "atom":
            self.atom(parts, j, path)
            return
        tracked = type(o) not in (tuple, set)
        if id(o) in stack and tracked:
            self.cut += 1
            if j is not None:
                self.fail(path, f"a value that contains itself was written as {short(j)}")
            return
        if j is None:
            comp = self.shape.comp.get(id(o))
            if not any(self.shape.comp.get(a) == comp for a in stack):
                self.fail(path, f"{type(o).__name__} {short(o)} was written as null")
            self.nulls.setdefault(id(o), path)
            return
        if id(o) in self.expanded:
            self.repeated += 1
        self.expanded.add(id(o))
        stack = stack | {id(o)}
        if kind == "seq":
            if type(j) is not list or len(j) != len(parts):
                self.fail(path, f"expected an array of {len(parts)} items, got {short(j)}")
            for i, (c, x) in enumerate(zip(parts, j)):
                self.match(c, x, f"{path}[{i}]", stack)
        else:
            if type(j) is not dict:
                self.fail(path, f"expected an object, got {short(j)}")
            plain = isinstance(o, dict)
            got = {(k if plain else mangled(o, k)): v for k, v in j.items()}
            if set(got) != set(parts):
                self.fail(path, f"expected the keys {sorted(parts)}, got {sorted(got)}")
            for k, c in parts.items():
                self.match(c, got[k], f"{path}[{k!r}]", stack)


def check(case, ctx):
    root, _, nodes = graph.build(case["graph"])
    shape = Shape(root, project)
    if shape.too_big:
        ctx.label("too big")
        return
    opts = case["opts"]
    text = lib("encode", jsonpickle.encode, root, unpicklable=False, **opts)
    data = json.loads(text)
    m = Matcher(shape, opts.get("use_base85"))
    m.match(root, data, "", frozenset())
    for oid, path in m.nulls.items():
        if oid not in m.expanded:
            m.fail(path, "a value that is written as null here is written out nowhere")
    if m.cut:
        ctx.label("recursion cut")
    if m.repeated:
        ctx.label("repeated")
    ctx.nontrivial = bool(m.cut or m.repeated or any(n[0] == "I" for n in nodes)) and len(m.expanded) >= 3

"""C11: turning references off expands shared values and still terminates."""

import json

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph
from ..core import Violation, lib, short
from ..snapshot import parts
from ..tree import Shape

BUDGET = {"quick": 4000, "thorough": 60000}
# hashable instances on a cycle would need their repr matched inside sets
KINDS = gen.family(exclude=("Hashed", "HashedNew", "KeyData")) + gen.family("dyn")[::7]
LEAF = gen.leaf("enum", "type", "func", "std", "nul", "cx", "ba", "rng", "mod")


def strategy(tier):
    return st.fixed_dictionaries({
        "graph": gen.graph(KINDS, LEAF, refs=5, max_kids=3, containers="LLDDTSFM",
                           max_nodes=14 if tier == "thorough" else 9),
        "opts": st.fixed_dictionaries({}, optional={
            "keys": st.just(True), "use_base85": st.just(True), "max_depth": st.just(400),
            "numeric_keys": st.just(True), "warn": st.just(True)}),
    })


def project(o):
    if compare.is_atom(o) or compare.is_null(o):
        return "atom", o
    return "seq", parts(o)[1]


class TreeComparer(compare.Comparer):
    def __init__(self, shape, **kw):
        super().__init__(identity=False, **kw)
        self.shape = shape
        self.stack = {}
        self.cut = {}
        self.whole = set()
        self.repeats = 0
        self.cuts = 0

    def eq(self, o, d, path):
        if compare.is_atom(o) or compare.is_null(o):
            return super().eq(o, d, path)
        tracked = type(o) not in (tuple, set)
        if tracked and self.stack.get(id(o)):
            self.cuts += 1
            if type(d) is not str or d != repr(o):
                self.fail(path, f"a value that contains itself became {type(d).__name__} {short(d)}")
            return None
        if type(d) is str and d == repr(o):
            comp = self.shape.comp.get(id(o))
            if not any(n and self.shape.comp.get(a) == comp for a, n in self.stack.items()):
                self.fail(path, f"{short(o)} became its repr although it does not contain itself here")
            self.cut.setdefault(id(o), path)
            return None
        if id(o) in self.whole:
            self.repeats += 1
        self.whole.add(id(o))
        self.stack[id(o)] = self.stack.get(id(o), 0) + 1
        try:
            return super().eq(o, d, path)
        finally:
            self.stack[id(o)] -= 1


def no_refs(data, path="root"):
    todo = [(data, path)]
    while todo:
        x, path = todo.pop()
        if isinstance(x, dict):
            if "py/id" in x or "py/ref" in x:
                raise Violation(f"at {path}: a reference was written: {short(x)}")
            todo.extend((v, f"{path}[{k!r}]") for k, v in x.items())
        elif isinstance(x, list):
            todo.extend((v, f"{path}[{i}]") for i, v in enumerate(x))


def check(case, ctx):
    root, _, nodes = graph.build(case["graph"])
    shape = Shape(root, project, 8000)
    if shape.too_big:
        ctx.label("too big")
        return
    keys = case["opts"].get("keys", False)
    text = lib("encode", jsonpickle.encode, root, make_refs=False, **case["opts"])
    no_refs(json.loads(text))
    dec = lib("decode", jsonpickle.decode, text, keys=keys)
    c = TreeComparer(shape, ordered=not keys)
    c.run(root, dec)
    for oid, path in c.cut.items():
        if oid not in c.whole:
            c.fail(path, "a value that is cut here is written out nowhere")
    if c.cuts:
        ctx.label("recursion cut")
    if c.repeats:
        ctx.label("repeated")
    ctx.nontrivial = bool(c.cuts or c.repeats)
    unshared(dec)


def unshared(dec):
    """No two positions of the decoded tree hold the same mutable object."""
    seen = {}
    todo = [dec]
    while todo:
        o = todo.pop()
        if compare.is_atom(o) or compare.is_null(o):
            continue
        if type(o) in (list, dict):
            if id(o) in seen:
                raise Violation(f"the decoded tree contains {short(o)} twice")
            seen[id(o)] = o
            todo.extend(o if type(o) is list else o.values())
        elif type(o) is tuple:
            todo.extend(o)

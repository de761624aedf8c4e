"""Recipes for object graphs: normalising them and building the real objects.

A graph recipe is ``{"nodes": [...], "root": style}`` made of Python literals only.

Nodes::

    ("L", [child, ...])                 list
    ("D", [(key, child), ...])          dict
    ("T", [child, ...])                 tuple
    ("S", [child, ...])                 set
    ("F", [child, ...])                 frozenset
    ("I", kind, [child, ...], [(name, child), ...])   instance of a zoo class
    ("M", kind, [(key, child), ...])    instance of a mapping class

Children are scalars, ``("@", n)`` for node ``n`` (modulo the number of nodes), or a
tagged tuple for values that have no literal (see ``LEAVES``).
"""

import collections
import datetime
import decimal
import fractions
import io
import math
import pathlib
import re
import uuid

from . import dyn, zoo  # noqa: F401  (dyn adds node kinds)

STD = [
    datetime.datetime(2020, 1, 2, 3, 4, 5, 6),
    datetime.datetime(1999, 12, 31, tzinfo=datetime.timezone.utc),
    datetime.date(2001, 2, 3),
    datetime.time(4, 5, 6, 7),
    datetime.timedelta(days=-3, seconds=7, microseconds=9),
    decimal.Decimal("1.50"),
    fractions.Fraction(-3, 7),
    uuid.UUID(int=0x1234567890ABCDEF1234567890ABCDEF),
    re.compile("a+b", re.I),
    pathlib.PurePosixPath("/a/b"),
    datetime.timezone(datetime.timedelta(hours=2), "X"),
    collections.Counter("abca"),
]
for _path in STD:
    if isinstance(_path, pathlib.PurePath):
        # paths cache their parts: from here on nothing that is done with them changes them
        repr(_path), hash(_path), _path < _path, _path.parts, _path.match("b")
MODULES = [math, collections, re, zoo]

LEAVES = {
    "nan": lambda: float("nan"),
    "inf": lambda s: float("inf") * s,
    "cx": lambda a, b: complex(a, b),
    "ba": lambda b: bytearray(b),
    "rng": lambda a, b, c: range(a, b, c),
    "slc": lambda a, b, c: slice(a, b, c),
    "enum": lambda n: zoo.ENUMS[n % len(zoo.ENUMS)],
    "type": lambda n: zoo.TYPES[n % len(zoo.TYPES)],
    "func": lambda n: zoo.FUNCS[n % len(zoo.FUNCS)],
    "mod": lambda n: MODULES[n % len(MODULES)],
    "std": lambda n: STD[n % len(STD)],
    "iter": lambda items: zoo.OneShot(items),
    "nul": lambda n: zoo.nullish() if n % 2 == 0 else io.TextIOWrapper(io.BytesIO()),
    "obj": lambda n: object(),
    "imp": lambda n: zoo.IMPORTABLES[n % len(zoo.IMPORTABLES)],
    "module": lambda n: zoo.MODULES[n % len(zoo.MODULES)],
    "local": lambda n: zoo.LOCAL_FUNCS[n % len(zoo.LOCAL_FUNCS)],
    "hole0": lambda n: f"\x01hole:{n}",
    "hole1": lambda n: zoo.Hole(n),
}
HASHABLE_LEAVES = {"imp", "nan", "inf", "cx", "enum", "type", "func", "rng", "std"}
MAPPINGS = {
    "DictSub": zoo.DictSub, "OrdSub": zoo.OrdSub, "OrderedDict": collections.OrderedDict,
    "defaultdict": lambda: collections.defaultdict(list),
}


def is_ref(child):
    return isinstance(child, tuple) and child and child[0] == "@"


def is_leaf_tag(child):
    return isinstance(child, tuple) and child and child[0] in LEAVES


class Opts:
    """Static facts about one node."""

    def __init__(self, node):
        tag = node[0]
        self.attrs_early = False
        self.args = tag in ("T", "S", "F")  # children needed for construction
        self.numbered_args = tag == "F"  # gets a reference number before its children
        self.hash_items = tag in ("S", "F")
        if tag == "I":
            k = zoo.KINDS[node[1]]
            self.args = k.lazy
            self.numbered_args = k.lazy
            self.hash_items = k.items_hash
            self.items_swap = k.items_swap and not k.lazy
            self.attrs_swap = k.attrs_swap
            self.attrs_early = k.attrs_early
        elif tag == "M":
            self.items_swap = node[1] not in ("OrderedDict", "ExclOrd", "ExclDefault")
            self.attrs_swap = True
        else:
            self.items_swap = tag in ("L", "D")
            self.attrs_swap = True


def children(node):
    """Yield (child, position, is_attr)."""
    if node[0] == "I":
        for i, c in enumerate(node[2]):
            yield c, i, False
        for i, (_, c) in enumerate(node[3]):
            yield c, i, True
    elif node[0] in "DM":
        for i, (_, c) in enumerate(node[-1]):
            yield c, i, False
    else:
        for i, c in enumerate(node[1]):
            yield c, i, False


def keyrefs(node):
    if node[0] in "DM":
        for k, _ in node[-1]:
            if is_ref(k):
                yield k


def replace(node, cuts):
    """Replace the children at the given (position, is_attr) by None."""
    if node[0] == "I":
        items = [None if (i, False) in cuts else c for i, c in enumerate(node[2])]
        attrs = [(n, None if (i, True) in cuts else c) for i, (n, c) in enumerate(node[3])]
        return ("I", node[1], items, attrs)
    if node[0] in "DM":
        return (*node[:-1], [(k, None if (i, False) in cuts else c) for i, (k, c) in enumerate(node[-1])])
    return (node[0], [None if (i, False) in cuts else c for i, c in enumerate(node[1])])


def trim(node):
    """Drop parts of an instance node that its kind does not use."""
    if node[0] != "I":
        return node
    k = zoo.KINDS[node[1]]
    items = list(node[2]) if k.items else []
    if k.scalar_items:
        items = [c for c in items if not isinstance(c, tuple)][:1]
    return ("I", node[1], items, list(node[3]) if k.attrs else [])


def normalise(recipe, acyclic=False):
    """Resolve node numbers and cut the few edges that lie outside the supported domain.

    Such an edge leads from a value that cannot be patched afterwards (tuple, set,
    items consumed by a hook) to an enclosing object whose own construction needs
    that very value.
    """
    nodes = [trim(n) for n in recipe["nodes"]]
    n = len(nodes)

    def target(i, c):
        if acyclic:
            return i + 1 + c[1] % (n - i - 1) if i + 1 < n else None
        return c[1] % n

    out = []
    for i, node in enumerate(nodes):
        def fix(c, i=i):
            if is_ref(c):
                t = target(i, c)
                return None if t is None else ("@", t)
            return c

        if node[0] == "I":
            node = ("I", node[1], [fix(c) for c in node[2]], [(k, fix(c)) for k, c in node[3]])
        elif node[0] in "DM":
            node = (*node[:-1], [(fix(k), fix(c)) for k, c in node[-1]])
        else:
            node = (node[0], [fix(c) for c in node[1]])
        out.append(node)
    nodes = out
    if acyclic:
        return nodes
    facts = [Opts(nd) for nd in nodes]
    succ = [
        {c[1] for c, _, _ in children(nd) if is_ref(c)} | {k[1] for k in keyrefs(nd)}
        for nd in nodes
    ]

    def closure(start):
        seen, todo = set(), list(start)
        while todo:
            u = todo.pop()
            if u not in seen:
                seen.add(u)
                todo.extend(succ[u])
        return seen

    for r, node in enumerate(nodes):
        if not facts[r].numbered_args:
            continue
        inner = closure(
            c[1] for c, _, a in children(node) if is_ref(c) and (not a or facts[r].attrs_early)
        )
        for u in inner:
            cuts = set()
            for c, pos, is_attr in children(nodes[u]):
                if is_ref(c) and c[1] == r:
                    ok = facts[u].attrs_swap if is_attr else facts[u].items_swap
                    if not ok:
                        cuts.add((pos, is_attr))
            if cuts:
                nodes[u] = replace(nodes[u], cuts)
            if any(k[1] == r for k in keyrefs(nodes[u])):
                nodes[u] = (*nodes[u][:-1], [(k, c) for k, c in nodes[u][-1]
                                             if not (is_ref(k) and k[1] == r)])
    return nodes


UNSET = object()


class Builder:
    """Builds the objects of a normalised node list."""

    def __init__(self, nodes):
        self.nodes = nodes
        self.objs = [UNSET] * len(nodes)
        self.busy = set()
        self.todo = []

    def hashed(self, value, fallback):
        if hash_ok(value):
            return value
        return fallback

    def child(self, c, hashed=False):
        if isinstance(c, tuple):
            if c[0] == "@":
                v = self.node(c[1])
                return self.hashed(v, f"n{c[1]}") if hashed else v
            if hashed and (c[0] not in HASHABLE_LEAVES or c[0] == "std" and c[1] % len(STD) == 11):
                return c[0]
            return LEAVES[c[0]](*c[1:])
        return c

    def pairs(self, pairs):
        out = [(self.child(k, True), self.child(c)) for k, c in pairs]
        nan = [p for p in out if p[0] != p[0]]
        return [p for p in out if p[0] == p[0]] + nan[:1]

    def node(self, i):
        if self.objs[i] is not UNSET:
            return self.objs[i]
        if i in self.busy:
            return None
        node = self.nodes[i]
        tag = node[0]
        if tag == "L":
            obj = self.objs[i] = []
            self.todo.append(lambda: obj.extend([self.child(c) for c in node[1]]))
        elif tag in "DM":
            obj = self.objs[i] = {} if tag == "D" else MAPPINGS[node[1]]()
            self.todo.append(lambda: obj.update(self.pairs(node[-1])))
        elif tag in "TSF":
            self.busy.add(i)
            vals = [self.child(c, tag != "T") for c in node[1]]
            if tag != "T":
                vals = one_nan(vals)
            obj = self.objs[i] = {"T": tuple, "S": set, "F": frozenset}[tag](vals)
        else:
            k = zoo.KINDS[node[1]]
            if k.lazy:
                self.busy.add(i)
                items = [self.child(c, k.items_hash) for c in node[2]]
                if k.items_hash:
                    items = one_nan(items)
                obj = self.objs[i] = k.make(items)
            else:
                obj = self.objs[i] = k.alloc()
            if k.fill:
                def fill():
                    items = [] if k.lazy else [self.child(c, k.items_hash) for c in node[2]]
                    if k.items_hash:
                        items = one_nan(items)
                    attrs = [(a, self.child(c)) for a, c in node[3]]
                    if k.hashable:
                        attrs.append(("uid", i))
                    k.fill(obj, items, attrs)

                self.todo.append(fill)
        return obj

    def run(self):
        while self.todo:
            self.todo.pop()()


HASH_TYPES = (type(None), bool, int, float, str, bytes, complex, zoo.Hashed, zoo.HashedNew,
              zoo.KeyData, type, zoo.Color, zoo.Num, zoo.Text, zoo.Perm, zoo.IPerm)


def one_nan(values):
    """A set can hold several NaN objects, but they are indistinguishable."""
    out = [v for v in values if v == v]
    return out + [v for v in values if v != v][:1]


def hash_ok(v):
    if type(v) is float and v != v:
        return False
    if type(v) in (tuple, frozenset):
        return all(hash_ok(x) for x in v)
    return type(v) in HASH_TYPES or isinstance(v, type) or v in zoo.FUNCS


ROOTS = 5


def build(recipe, acyclic=False):
    """Return (root object, {node number: object}, normalised nodes)."""
    nodes = normalise(recipe, acyclic)
    b = Builder(nodes)
    style = recipe.get("root", 0) % ROOTS
    n = len(nodes)
    if style == 0:
        root = b.node(0)
        b.run()
    elif style in (1, 2):
        order = range(n) if style == 1 else reversed(range(n))
        root = [b.node(i) for i in order]
        b.run()
    elif style == 3:
        root = {f"n{i}": b.node(i) for i in range(n)}
        b.run()
    else:
        root = tuple(b.node(i) for i in reversed(range(n)))
        b.run()
    return root, {i: o for i, o in enumerate(b.objs) if o is not UNSET}, nodes


def shape(nodes, root_style):
    """(reachable nodes, shared nodes, has cycle) of a normalised graph."""
    n = len(nodes)
    succ = [[c[1] for c, _, _ in children(nd) if is_ref(c)] + [k[1] for k in keyrefs(nd)]
            for nd in nodes]
    starts = [0] if root_style % ROOTS == 0 else list(range(n))
    indeg = collections.Counter(starts)
    seen, todo = set(), list(starts)
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        for v in succ[u]:
            indeg[v] += 1
            todo.append(v)
    state = {}

    def cyc(u):
        stack = [(u, iter(succ[u]))]
        state[u] = 1
        while stack:
            x, it = stack[-1]
            for v in it:
                if state.get(v) == 1:
                    return True
                if v not in state:
                    state[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
            else:
                state[x] = 2
                stack.pop()
        return False

    has_cycle = any(cyc(u) for u in seen if u not in state)
    return len(seen), sum(1 for u in seen if indeg[u] > 1), has_cycle

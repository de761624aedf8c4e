"""C34: default dictionaries keep their items and get a factory of equal values."""

import collections
import functools

import jsonpickle
from hypothesis import strategies as st

from ..core import Violation, lib, short

BUDGET = {"quick": 3500, "thorough": 50000}


class DefSub(collections.defaultdict):
    pass


class DefCall(collections.defaultdict):
    """Can be the factory of itself and of others."""

    def __call__(self):
        return ["called", len(self)]


class Item:
    pass


class Maker:
    def __init__(self, value):
        self.value = value

    def __call__(self):
        return self.value

    def make(self):
        return self.value


def new_list():
    return []


def new_data():
    return {"k": [1, {"a": None}], "": 0.5}


def new_default():
    return collections.defaultdict(list, a=[1])


def new_plain():
    out = Item()
    out.a = [1, (2, "é")]
    return out


def new_nested():
    return collections.defaultdict(new_list)


def five():
    return 5


def nothing():
    return None


FUNCTIONS = [new_list, new_data, new_default, new_plain, new_nested, five, nothing]
TYPES = [list, dict, int, str, Item, collections.OrderedDict, collections.defaultdict]
CLASSES = {"defaultdict": collections.defaultdict, "DefSub": DefSub, "DefCall": DefCall}

kid = st.one_of(st.tuples(st.just("a"), st.sampled_from([None, True, 0, 1, -7, "", "x", 0.5])),
                st.tuples(st.just("n"), st.integers(0, 11)))
name = st.sampled_from(["a", "b", "k", "default_factory", "x y", "é", "exemplar", "json:/", "py/objec"])
pairs = st.lists(st.tuples(name, kid), max_size=4, unique_by=lambda t: t[0])
keyed = st.lists(st.tuples(st.one_of(name, name, st.sampled_from([1, (1, 2), None, 2.5, "json://1", "py/object", "py/id"])), kid),
                 max_size=4, unique_by=lambda t: t[0])
factory = st.sampled_from([
    st.just(("none",)),
    st.tuples(st.just("type"), st.integers(0, len(TYPES) - 1)),
    *[st.tuples(st.just("fn"), st.integers(0, len(FUNCTIONS) - 1))] * 2,
    *[st.tuples(st.just("made"), st.integers(0, 2))] * 3,
    *[st.tuples(st.just("node"), st.integers(0, 11))] * 3,
]).flatmap(lambda s: s)


def nodes(items):
    dd = st.tuples(st.just("dd"), st.sampled_from(["defaultdict", "defaultdict", "DefSub", "DefCall"]), factory, items, pairs)
    node = st.sampled_from([
        dd, dd, dd, dd,
        st.tuples(st.just("L"), st.lists(kid, max_size=4)),
        st.tuples(st.just("D"), pairs),
        st.tuples(st.just("P"), pairs),
        *[st.tuples(st.just("M"), kid)] * 2,
        st.tuples(st.just("T"), st.lists(kid, max_size=3)),
    ]).flatmap(lambda s: s)
    root = st.tuples(st.just("L"), st.lists(st.tuples(st.just("n"), st.integers(1, 11)), min_size=2, max_size=4))
    return st.tuples(st.sampled_from([dd, dd, root, root, root]).flatmap(lambda s: s), st.lists(node, min_size=2, max_size=7)).map(
        lambda t: [t[0], *t[1]])


#: factories that are made for the case: how they are made and what they give
made = st.tuples(st.sampled_from(["lambda", "local", "partial", "bound", "method"]), st.sampled_from("LDTPK"), st.lists(kid, max_size=3))


def strategy(tier):
    opts = {"use_base85": st.just(True), "warn": st.just(False), "include_properties": st.just(True), "make_refs": st.just(False)}
    return st.one_of(
        st.fixed_dictionaries({"nodes": nodes(pairs), "made": st.lists(made, min_size=3, max_size=3),
                               "opts": st.fixed_dictionaries({}, optional=opts)}),
        st.fixed_dictionaries({"nodes": nodes(keyed), "made": st.lists(made, min_size=3, max_size=3),
                               "opts": st.fixed_dictionaries({"keys": st.just(True)}, optional=opts)}))


def build(case):
    """The root; nodes refer to later ones only when references are off."""
    spec = case["nodes"]
    acyclic = case["opts"].get("make_refs", True) is False
    out = []
    for s in spec:
        kind = s[0]
        if kind == "dd":
            out.append(CLASSES[s[1]]())
        else:
            out.append({"L": list, "D": dict, "P": Item, "M": lambda: Maker(None), "T": lambda: None}[kind]())
    # tuples last to first so that they only hold later nodes
    def get(n, k, fixed=False):
        if k[0] == "a":
            return k[1]
        m = k[1] % len(spec)
        # a tuple cannot be completed later when its dictionary exists
        if fixed and spec[m][0] in ("dd", "T"):
            return m
        if (acyclic or spec[n][0] == "T") and m <= n:
            return m
        return out[m]

    for n in range(len(spec) - 1, -1, -1):
        if spec[n][0] == "T":
            out[n] = tuple(get(n, k, True) for k in spec[n][1])
    factories = {}
    for n in range(len(spec) - 1, -1, -1):
        s = spec[n]
        if s[0] == "L":
            out[n].extend(get(n, k) for k in s[1])
        elif s[0] == "D":
            out[n].update((name, get(n, k)) for name, k in s[1])
        elif s[0] == "P":
            for name, k in s[1]:
                setattr(out[n], name, get(n, k))
        elif s[0] == "M":
            out[n].value = get(n, s[1])
        elif s[0] == "dd":
            out[n].default_factory = make_factory(case, s[2], n, out, get, factories, acyclic)
            out[n].update((name, get(n, k)) for name, k in s[3])
            if s[1] != "defaultdict":
                for name, k in s[4]:
                    if name != "default_factory":
                        setattr(out[n], name, get(n, k))
    return out[0], out


def make_factory(case, spec, n, out, get, factories, acyclic):
    how = spec[0]
    if how == "none":
        return None
    if how == "type":
        return TYPES[spec[1]]
    if how == "fn":
        return FUNCTIONS[spec[1]]
    if how == "node":
        m = spec[1] % len(out)
        if acyclic and m <= n:
            return list
        return out[m] if callable(out[m]) else new_list
    key = (spec[1], n if acyclic else 0)
    if key not in factories:
        how, what, kids = case["made"][spec[1]]
        kids = [get(n if acyclic else -1, k, what == "T") for k in kids]
        product = {"L": kids, "D": {f"k{i}": k for i, k in enumerate(kids)}, "T": tuple(kids), "P": Item(),
                   "K": kids[0] if kids else 7}[what]
        if what == "P":
            for i, k in enumerate(kids):
                setattr(product, f"k{i}", k)

        def local():
            return product

        factories[key] = {"lambda": lambda: product, "local": local, "partial": functools.partial(local),
                          "bound": Maker(product).__call__, "method": Maker(product).make}[how]
    return factories[key]


class Compare:
    def __init__(self, identity):
        self.identity = identity
        self.there, self.back = {}, {}
        self.products = []
        self.made = {}
        self.shared = 0

    def fail(self, path, what):
        raise Violation(f"at {path}: {what}")

    def eq(self, o, d, path, fresh=False):
        if type(o) is not type(d):
            self.fail(path, f"expected {type(o).__name__} {short(o)}, got {type(d).__name__} {short(d)}")
        if o is None or isinstance(o, (bool, int, float, str)):
            if o != d:
                self.fail(path, f"expected {short(o)}, got {short(d)}")
            return
        if isinstance(o, tuple):
            self.seq(o, d, path)
            return
        if not fresh:
            if id(o) in self.there:
                self.shared += 1
                if self.identity and self.there[id(o)] is not d:
                    self.fail(path, f"{short(o)} is not the same object as before")
                if self.identity:
                    return
            elif self.identity and id(d) in self.back:
                self.fail(path, f"{short(d)} is also something else")
            self.there[id(o)] = d
            self.back[id(d)] = (o, d)
        if isinstance(o, list):
            self.seq(o, d, path)
        elif isinstance(o, dict):
            self.mapping(o, d, path)
            if isinstance(o, collections.defaultdict):
                self.factory(o.default_factory, d.default_factory, path + ".default_factory")
        elif not isinstance(o, (Item, Maker)):
            self.fail(path, f"unexpected {short(o)}")
        # copying a default dictionary does not copy its attributes
        if hasattr(o, "__dict__") and not (fresh and isinstance(o, dict)):
            self.mapping(vars(o), vars(d), path + ".__dict__")

    def seq(self, o, d, path):
        if len(o) != len(d):
            self.fail(path, f"expected {short(o)}, got {short(d)}")
        for i, (x, y) in enumerate(zip(o, d, strict=True)):
            self.eq(x, y, f"{path}[{i}]")

    def mapping(self, o, d, path):
        if set(o) != set(d):
            self.fail(path, f"expected the names {short(list(o))}, got {short(list(d))}")
        for k, v in o.items():
            self.eq(v, d[k], f"{path}[{k!r}]")

    def factory(self, o, d, path):
        if o is None or isinstance(o, type):
            if o is not d:
                self.fail(path, f"expected {o}, got {short(d)}")
        elif not callable(d):
            self.fail(path, f"{short(d)} is not a factory")
        elif isinstance(o, (Maker, DefCall)):
            # an object of the graph, or what it gives
            if type(d) is type(o):
                self.eq(o, d, path)
            self.products.append((o, d, path))
        elif self.identity and self.made.setdefault(id(o), d) is not d:
            self.fail(path, "a factory is not shared any more")
        else:
            self.products.append((o, d, path))


def check(case, ctx):
    identity = case["opts"].get("make_refs", True)
    root, all_nodes = build(case)
    before = [len(x) for x in all_nodes if isinstance(x, dict)]
    text = lib("encode", jsonpickle.encode, root, **case["opts"])
    if before != [len(x) for x in all_nodes if isinstance(x, dict)]:
        raise Violation("encoding added items to a default dictionary")
    back = lib("decode", jsonpickle.decode, text, keys=case["opts"].get("keys", False))
    c = Compare(identity)
    c.eq(root, back, "root")
    checked = 0
    done = []
    while c.products:
        o, d, path = c.products.pop()
        if (id(o), id(d)) in done:
            continue
        done.append((id(o), id(d)))
        first, second = lib("the factory", d), lib("the factory", d)
        c.eq(o(), first, path + "()", fresh=True)
        checked += 1
        if not isinstance(d, (Maker, DefCall)) and type(first) in (list, dict, Item) and first is second:
            raise Violation(f"{path} gives the same object twice")
    ctx.nontrivial = checked > 0
    ctx.label(*case["opts"], *(["shared"] if c.shared else []), *[s[2][0] for s in case["nodes"] if s[0] == "dd"])
    if back.__class__ is collections.defaultdict and back.default_factory is not None:
        try:
            value = back["no such key"]
        except Exception as exc:
            raise Violation(f"a missing key raised {type(exc).__name__}: {exc}") from exc
        if back["no such key"] is not value:
            raise Violation("the value of a missing key is not stored")

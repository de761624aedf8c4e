"""C36: decoding imports the modules that a document names.

Every case makes up a tree of packages and modules that exist only in memory,
encodes values taken from them, forgets that they were ever imported and decodes.
"""

import collections
import importlib
import importlib.abc
import importlib.util
import sys

import jsonpickle
from hypothesis import strategies as st

from ..core import Violation, lib, short

BUDGET = {"quick": 2500, "thorough": 40000}
ROOT = "jpvgen"

SOURCE = {
    "plain": "class {n}:\n    pass\n",
    "slots": "class {n}:\n    __slots__ = ('a', 'b')\n",
    "outer": "class {n}:\n    class In:\n        class Deep:\n            pass\n",
    "list": "class {n}(list):\n    pass\n",
    "dict": "class {n}(dict):\n    pass\n",
    "enum": "import enum\nclass {n}(enum.Enum):\n    a = 1\n    b = 'two'\n",
    "flag": "import enum\nclass {n}(enum.IntFlag):\n    a = 1\n    b = 2\n",
    "data": "import dataclasses\n@dataclasses.dataclass\nclass {n}:\n    a: object = None\n    b: object = 0\n",
    "named": "import collections\n{n} = collections.namedtuple('{n}', 'a b')\n",
    "func": "def {n}(x=None):\n    return ['{n}', x]\n",
    "reduce": (
        "def make_{n}(p_, q_):\n    out = {n}()\n    out.a, out.b = p_, q_\n    return out\n"
        "class {n}:\n    a = b = None\n    def __reduce__(self):\n        return make_{n}, (self.a, self.b)\n"
    ),
    "state": (
        "class {n}:\n    def __getstate__(self):\n        return [vars(self)]\n"
        "    def __setstate__(self, state):\n        vars(self).update(state[0])\n"
    ),
    "method": "class {n}:\n    def call(self, x=None):\n        return [self, x]\n    make = classmethod(lambda cls: cls())\n",
    # made when it is first asked for
    "lazy": (
        "def __getattr__(name, store={{}}):\n    if name != '{n}':\n        raise AttributeError(name)\n"
        "    if not store:\n        store[0] = type(name, (), {{'__module__': __name__}})\n    return store[0]\n"
    ),
    # lives elsewhere and claims to be defined here
    "moved": "from {root}._private import Real_{sort} as {n}\n{n}.__module__ = __name__\n{n}.__qualname__ = {n}.__name__ = '{n}'\n",
}
CLASSES = ("plain", "slots", "list", "dict", "data", "reduce", "state", "method", "lazy", "moved", "outer")
PATHS = ("", "a", "a.b", "a.b.c", "a.x", "b", "b.b", "x", "x.x", "x.x.x")
NAMES = ("A", "B", "In", "Deep", "x", "a", "b", "Ünï")


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self):
        self.sources, self.broken, self.loaded = {}, set(), []

    def find_spec(self, name, path=None, target=None):
        if name not in self.sources:
            return None
        package = any(n.startswith(name + ".") for n in self.sources)
        return importlib.util.spec_from_loader(name, self, is_package=package)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if module.__name__ in self.broken:
            raise ImportError(f"{module.__name__} cannot be imported")
        self.loaded.append(module.__name__)
        exec(compile(self.sources[module.__name__], module.__name__, "exec"), vars(module))

    def forget(self):
        for name in list(self.sources):
            sys.modules.pop(name, None)
        self.loaded = []


def strategy(tier):
    item = st.tuples(st.sampled_from(NAMES), st.sampled_from(sorted(SOURCE)))
    module = st.tuples(st.sampled_from(PATHS), st.lists(item, min_size=1, max_size=4))
    part = st.one_of(st.integers(-3, 3), st.sampled_from(["", "a", None, True, 0.5]), st.tuples(st.just("@"), st.integers(0, 12)))
    value = st.fixed_dictionaries({
        "item": st.integers(0, 40),
        "sort": st.sampled_from(["instance"] * 6 + ["class"] * 2 + ["module", "method", "key", "factory", "member"]),
        "nested": st.integers(0, 2), "a": part, "b": part,
    })
    return st.fixed_dictionaries({
        "modules": st.lists(module, min_size=1, max_size=6),
        "exports": st.lists(st.integers(0, 20), max_size=3),
        "values": st.lists(value, min_size=1, max_size=8),
        "broken": st.sampled_from([None, None, None, 0, 1, 2]),
        "supplied": st.sampled_from([None, None, None, 0, 1, 2]),
        "keys": st.booleans(),
    })


def full(path):
    return f"{ROOT}.{path}" if path else ROOT


def layout(case):
    """Module name -> [(name, sort)], without names that a submodule has, too."""
    out = {}
    for path, items in case["modules"]:
        parts = path.split(".") if path else []
        for i in range(len(parts) + 1):
            out.setdefault(full(".".join(parts[:i])), {})
        for name, sort in items:
            out[full(path)][name] = sort
    for mod, items in out.items():
        lazy = [n for n, s in items.items() if s == "lazy"]
        moved = [n for n, s in items.items() if s == "moved"]
        # the text of such a name could mean either
        drop = {n for n in items if f"{mod}.{n}" in out} | set(lazy[1:]) | set(moved[1:])
        for n in drop:
            del items[n]
    return out


def sources(tree, exports):
    out = {}
    private = []
    for i, (mod, items) in enumerate(sorted(tree.items())):
        text = []
        for n, sort in items.items():
            text.append(SOURCE[sort].format(n=n, root=ROOT, sort=i))
            if sort == "moved":
                private.append(f"class Real_{i}:\n    pass\n")
        out[mod] = "\n".join(text) or "pass\n"
    if private:
        out[f"{ROOT}._private"] = "".join(private)
    # packages that offer a class under the name of the module that defines it
    shadows = sorted(m for m in tree if m.rpartition(".")[2] in tree[m] and m != ROOT)
    for i in sorted(set(exports)):
        if shadows:
            mod = shadows[i % len(shadows)]
            parent, _, last = mod.rpartition(".")
            line = f"from {mod} import {last}\n"
            if line not in out[parent]:
                out[parent] += line
    return out


def plan(case, tree):
    """What every value is: (sort, module, names, a, b)."""
    things = [(m, n, s) for m in sorted(tree) for n, s in tree[m].items()]
    if not things:
        return []
    out = []
    for v in case["values"]:
        mod, name, sort = things[v["item"] % len(things)]
        names = [name]
        if sort == "outer":
            names += ["In", "Deep"][: v["nested"]]
        what = v["sort"]
        if what == "module":
            pass
        elif sort in ("enum", "flag"):
            what = "class" if what == "class" else "member"
        elif sort == "func":
            what = "key" if what == "key" and case["keys"] else "class"
        elif what in ("member", "factory", "method", "key"):
            what = {"factory": "factory", "method": "method" if sort == "method" else "instance"}.get(what, "instance")
        if sort == "named" and what == "factory":
            what = "class"
        if what == "key" and not case["keys"]:
            what = "class"
        out.append((what, sort, mod, names, v["a"], v["b"]))
    return out


def resolve(mod, names):
    obj = sys.modules[mod]
    for n in names:
        obj = getattr(obj, n)
    return obj


def part(x, made):
    if isinstance(x, tuple):
        return made[x[1] % len(made)] if made else x[1]
    return x


def member(cls, sort, which):
    if sort == "flag" and isinstance(which, str):
        return cls.a | cls.b
    return cls.a if isinstance(which, int) else cls.b


def build(entries):
    made = []
    for what, sort, mod, names, a, b in entries:
        importlib.import_module(mod)
        if what == "module":
            made.append(sys.modules[mod])
            continue
        obj = resolve(mod, names)
        which = a
        a, b = part(a, made), part(b, made)
        if what == "class":
            made.append(obj)
        elif what == "key":
            made.append({obj: a})
        elif what == "member":
            made.append(member(obj, sort, which))
        elif what == "factory":
            made.append(collections.defaultdict(obj, k=a))
        elif sort == "named":
            made.append(obj(a, b))
        else:
            out = obj()
            if sort == "list":
                out.extend([a, b])
            elif sort == "dict":
                out.update(a=a, b=b)
            else:
                out.a, out.b = a, b
            made.append([out.call] if what == "method" else out)
    return made


def verify(entries, dec, missing):
    if type(dec) is not list or len(dec) != len(entries):
        raise Violation(f"{len(entries)} values decoded to {short(dec)}")
    done = []

    def need(cond, what):
        if not cond:
            raise Violation(f"value {len(done)} ({entries[len(done)][:4]!r}) {what}: {short(dec[len(done)])}")

    def same(x, value, what):
        if isinstance(x, tuple) and done:
            i = x[1] % len(done)
            x = dec[i]
            # tuples, and functions or classes that are gone, have no identity to keep
            if isinstance(x, tuple) or i in missing:
                need(repr_safe(x) == repr_safe(value), what)
            else:
                need(value is x, what)
        else:
            x = x[1] if isinstance(x, tuple) else x
            need(type(value) is type(x) and value == x, what)

    for i, ((what, sort, mod, names, a, b), got) in enumerate(zip(entries, dec)):
        name = ".".join([mod, *names])
        if i in missing:
            if what == "class" and sort == "func":
                need(got is None, "names a missing function but is not None")
            elif what == "class":
                need(got == {"py/type": name}, "names a missing class but is not its markup")
            else:
                need(type(got) is dict and got.get("py/object") == name and got.keys() == {"py/object", "a", "b"}, "is not the markup of the missing class")
                # references stay as they were written
                for x, value in ((a, got["a"]), (b, got["b"])):
                    if not isinstance(x, tuple):
                        same(x, value, "has a wrong part")
            done.append(got)
            continue
        need(mod in sys.modules, "did not get its module imported")
        if what == "module":
            need(got is sys.modules[mod], "is not the module")
            done.append(got)
            continue
        obj = resolve(mod, names)
        if what == "class":
            need(got is obj, "is not the object of that name")
        elif what == "key":
            need(type(got) is dict and list(got) == [obj], "does not have the key")
            same(a, got[obj], "has a wrong value")
        elif what == "member":
            need(got is member(obj, sort, a), "is not the member")
        elif what == "factory":
            need(type(got) is collections.defaultdict and got.default_factory is obj and list(got) == ["k"], "is not the dictionary")
            same(a, got["k"], "has a wrong item")
        elif what == "method":
            need(type(got) is list and len(got) == 1 and getattr(got[0], "__func__", None) is obj.call, "is not the method")
            same(a, got[0].__self__.a, "has a wrong part")
        else:
            need(type(got) is obj, "is not an instance of the class")
            if sort in ("list", "named"):
                need(len(got) == 2, "has wrong items")
                pair = got[0], got[1]
            elif sort == "dict":
                need(list(got) == ["a", "b"], "has wrong items")
                pair = got["a"], got["b"]
            else:
                need(hasattr(got, "a") and hasattr(got, "b"), "lost an attribute")
                pair = got.a, got.b
            same(a, pair[0], "has a wrong part")
            same(b, pair[1], "has a wrong part")
        done.append(got)


def repr_safe(x):
    return short(x, 2000)


def check(case, ctx):
    tree = layout(case)
    entries = plan(case, tree)
    if not entries:
        return
    finder = Finder()
    finder.sources = sources(tree, case["exports"])
    sys.meta_path.insert(0, finder)
    try:
        run(case, ctx, tree, entries, finder)
    finally:
        finder.forget()
        sys.meta_path.remove(finder)


def run(case, ctx, tree, entries, finder):
    opts = {"keys": True} if case["keys"] else {}
    root = build(entries)
    text = lib("encode", jsonpickle.encode, root, **opts)
    del root
    missing = set()
    extra = {}
    plain = {i for i, e in enumerate(entries) if e[0] == "class" or (e[0] == "instance" and e[1] in ("plain", "outer", "slots", "lazy"))}
    shown = {m for m in tree if m != ROOT and not any(n.startswith(m + ".") for n in tree)}
    if case["broken"] is not None:
        # a module at the end of a branch, which nobody else imports and of which only simple things are used
        good = [m for m in sorted(shown) if all(i in plain for i, e in enumerate(entries) if e[2] == m)
                and not any(f"from {m} import" in s for s in finder.sources.values())]
        if good:
            bad = good[case["broken"] % len(good)]
            finder.broken = {bad}
            missing = {i for i, e in enumerate(entries) if e[2] == bad}
            ctx.label("broken module")
    finder.forget()
    before = set(sys.modules)
    dec = lib("decode", jsonpickle.decode, text, **opts, **extra)
    loaded = list(finder.loaded)
    if len(set(loaded)) != len(loaded):
        raise Violation(f"modules were run more than once: {loaded}")
    verify(entries, dec, missing)
    # what importing the named modules does
    finder.forget()
    named = sorted({e[2] for i, e in enumerate(entries) if i not in missing})
    for i in missing:
        named += sorted(m for m in tree if entries[i][2].startswith(m + ".") and m not in named)
    for m in named:
        importlib.import_module(m)
    if set(finder.loaded) != set(loaded):
        raise Violation(f"decoding imported {sorted(loaded)}, the values need {sorted(set(finder.loaded))}")
    again = lib("decode", jsonpickle.decode, text, **opts)
    verify(entries, again, missing)
    if any(m.startswith(ROOT) for m in before):
        raise AssertionError("a module was not forgotten")
    supplied(case, ctx, entries, text, opts, finder, missing)
    ctx.nontrivial = len(named) > 1 or any("." in e[2] for e in entries)
    for e in entries:
        ctx.label(e[0], f"item:{e[1]}")


def supplied(case, ctx, entries, text, opts, finder, missing):
    """A class given by the caller is used without importing its module."""
    if case["supplied"] is None or missing:
        return
    simple = {e[2] for e in entries if e[0] in ("class", "instance") and e[1] in ("plain", "slots")}
    simple -= {e[2] for e in entries if not (e[0] in ("class", "instance") and e[1] in ("plain", "slots"))}
    if not simple:
        return
    mod = sorted(simple)[case["supplied"] % len(simple)]
    if any(m.startswith(mod + ".") for m in finder.sources) or any(f"from {mod} import" in s for s in finder.sources.values()):
        return
    ctx.label("supplied class")
    given = {".".join([mod, *e[3]]): type("Given", (), {}) for e in entries if e[2] == mod}
    finder.forget()
    dec = lib("decode with classes", jsonpickle.decode, text, classes=given, **opts)
    for e, got in zip(entries, dec):
        if e[2] == mod:
            cls = given[".".join([mod, *e[3]])]
            if (got if e[0] == "class" else type(got)) is not cls:
                raise Violation(f"{e[:4]!r} did not become the supplied class: {short(got)}")
    if mod in finder.loaded:
        raise Violation(f"{mod} was imported although its classes were supplied")

"""Hypothesis strategies that produce recipes (see graph.py)."""

from hypothesis import strategies as st

from . import dyn, zoo  # noqa: F401  (dyn adds node kinds)

RESERVED = [
    "py/bytes", "py/bytea", "py/b64", "py/b85", "py/function", "py/id", "py/initargs",
    "py/iterator", "py/mod", "py/newargs", "py/newargsex", "py/newobj", "py/object",
    "py/property", "py/reduce", "py/default_factory", "py/ref", "py/repr", "py/seq", "py/set",
    "py/state", "py/tuple", "py/type",
]
MARKUP = RESERVED + ["json://", "json://1", 'json://"a"', "json://{", "py/", "py/objec", "null",
                     "__dict__x", "__class__", "builtins.int", "\\", '"', "/", " ", "\ud800",
                     "\udfff x", "\x00", "é", "😀", "NaN", "1", "true"]

small_int = st.integers(-3, 12)
any_int = st.one_of(small_int, st.integers(-(2**80), 2**80),
                    st.sampled_from([2**31, 2**32, 2**53, 2**53 + 1, -(2**63), 2**63, 2**64,
                                     10**30, -(10**400)]))
finite = st.one_of(
    st.floats(allow_nan=False, allow_infinity=False),
    st.sampled_from([0.0, -0.0, 0.1, 1e16, 1e22, 1.5, -2.0, 5e-324, 1.7976931348623157e308, 1e-7]),
)
text = st.one_of(st.text(max_size=6), st.sampled_from(MARKUP))
short_text = st.one_of(st.sampled_from(["", "a", "b", "xy", "py/object", "json://1", "é"]),
                       st.text(max_size=3))
blob = st.one_of(st.binary(max_size=5), st.sampled_from([b"\x00", b"\xff\xfe", b"~}", b"a" * 17]))

special_float = st.sampled_from([("nan",), ("inf", 1), ("inf", -1)])
scalar = st.one_of(st.none(), st.booleans(), any_int, finite, text, blob)
tiny = st.one_of(st.none(), st.booleans(), small_int, short_text,
                 st.sampled_from([0.5, -0.0, b"", b"\x01z"]))


def leaf(*extra):
    """Mostly simple scalars, sometimes a tagged leaf of one of the given sorts."""
    sorts = {
        "float": special_float,
        "cx": st.tuples(st.just("cx"), st.sampled_from([0.0, -0.0, 1.5]), st.sampled_from([0.0, -2.5])),
        "ba": st.tuples(st.just("ba"), blob),
        "rng": st.tuples(st.just("rng"), small_int, small_int, st.sampled_from([1, 2, -1])),
        "slc": st.tuples(st.just("slc"), st.none() | small_int, st.none() | small_int,
                         st.none() | small_int),
        "enum": st.tuples(st.just("enum"), st.integers(0, len(zoo.ENUMS) - 1)),
        "type": st.tuples(st.just("type"), st.integers(0, len(zoo.TYPES) - 1)),
        "func": st.tuples(st.just("func"), st.integers(0, len(zoo.FUNCS) - 1)),
        "mod": st.tuples(st.just("mod"), st.integers(0, 3)),
        "std": st.tuples(st.just("std"), st.integers(0, 11)),
        # without paths, which cache their parts
        "steady": st.tuples(st.just("std"), st.sampled_from([n for n in range(12) if n != 9])),
        "iter": st.tuples(st.just("iter"), st.lists(tiny, max_size=3)),
        # positions that props/c19.py damages
        "hole": st.tuples(st.sampled_from(["hole0", "hole1"]), st.integers(0, 999)),
        # importable objects and modules; the lists are filled in by props/c23.py
        "imp": st.tuples(st.just("imp"), st.integers(0, 20000)),
        "module": st.tuples(st.just("module"), st.integers(0, 200)),
        "nul": st.tuples(st.just("nul"), st.integers(0, 1)),
    }
    if not extra:
        return tiny
    return st.one_of(tiny, tiny, st.one_of([sorts[e] for e in extra]))


ref = st.tuples(st.just("@"), st.integers(0, 11))
ATTRS = ["a", "b", "c", "name", "_u", "value", "data", "args2", "é", "__x__", "k0", "limit"]
attr_name = st.sampled_from(ATTRS)
str_key = st.one_of(
    st.sampled_from(["k0", "k1", "a", "json://1", "json://{", "py/objec", "default_factory", "",
                     "null", "1", "\ud800", "é ", "__dict__x", 'quote"', "py/refs"]),
    st.text(max_size=4),
).map(lambda s: s + "_" if s in RESERVED else s)


SIZES = {9: [1, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9], 14: [2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14],
         5: [1, 2, 3, 4, 5], 6: [1, 2, 3, 4, 5, 6]}


mapping = st.sampled_from(["DictSub", "OrdSub", "OrderedDict", "defaultdict"])


def weighted(*pairs):
    return st.sampled_from([v for v, w in pairs for _ in range(w)])


@st.composite
def graph(draw, kinds, lf, key=str_key, containers="LLDDTSF", max_nodes=9, max_kids=4, refs=6,
          inst=5, roots=5, names=attr_name, maps=mapping):
    """A graph recipe over the given instance kinds and container types.

    ``refs`` out of ten children refer to another node; ``inst`` out of ten nodes are
    instances.
    """
    n = draw(st.sampled_from(SIZES[max_nodes]))
    what = st.sampled_from("r" * refs + "v" * (10 - refs))
    cont = st.sampled_from(containers)
    which = st.sampled_from("i" * inst + "c" * (10 - inst)) if kinds else st.just("c")
    kind = st.sampled_from(sorted(kinds)) if kinds else None
    count = st.sampled_from([0, 1, 1, 2, 2, 3, max_kids])
    style = st.sampled_from("naaa")
    anynode = st.integers(0, n - 1)

    def child(i):
        if draw(what) == "r":
            if draw(style) == "n":
                return ("@", (i + 1) % n)
            return ("@", draw(anynode))
        return draw(lf)

    out = []
    for i in range(n):
        if draw(which) == "i":
            name = draw(kind)
            k = zoo.KINDS[name]
            items = [child(i) for _ in range(draw(count))] if k.items else []
            attrs = []
            if k.attrs:
                seen = set()
                for _ in range(draw(count)):
                    a = draw(names)
                    if a not in seen:
                        seen.add(a)
                        attrs.append((a, child(i)))
            out.append(("I", name, items, attrs))
        else:
            c = draw(cont)
            if c in "DM":
                pairs = [(draw(key), child(i)) for _ in range(draw(count))]
                out.append((c, pairs) if c == "D" else (c, draw(maps), pairs))
            else:
                out.append((c, [child(i) for _ in range(draw(count))]))
    return {"nodes": out, "root": draw(st.integers(0, roots - 1))}


SPECIAL = {"dyn", "bomb", "excl", "badrestore", "nest", "handled", "missing", "local", "bound", "readonly", "norepr"}


def family(*names, exclude=()):
    return [n for n, k in zoo.KINDS.items() if n not in exclude
            and (k.families & set(names) if names else not k.families & SPECIAL)]

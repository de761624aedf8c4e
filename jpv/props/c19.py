"""C19: documents with malformed markup decode without crashing."""

import base64
import json

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph, zoo
from ..core import lib

BUDGET = {"quick": 2600, "thorough": 40000}
KINDS = gen.family("attrs", "slots", "contsub", "state", "newargs", "reduce", "stdlib",
                   exclude=("Descriptor", "struct_time", "SetSub", "RedAny"))
WRONG = [None, True, False, 0, 1, -1, 2.5, [], {}, "", ""]
NOT_TEXT = [None, True, False, 0, 1, 2.5, [], {}, [1], ["x"], {"x": 1}, [None]]
BAD_TEXT = ["x", "!", "abc", "/", "é", "\ud800", "AAA", "\x00", "QUI", " ", "a.b", "a b", "~~~~~~", "zzzzz", "0"]
NAMES = ["gone.X", "gone", "", ".", "..", "gone.", ".gone", "a..b", " ", "jpv.zoo.Nope", "jpv.zoo.Plain.Nope",
         "builtins.nope", "builtins.int.nope", "__builtin__.nope", "\ud800.x", "\x00.x", "é.ü", "gone/a.b", "jpv.zoo.",
         "jpv.zoo.Plain.", "None.x", "1.2", "gone." + "x." * 20 + "y", "os.path/join.x", "jpv/zoo.Plain"]


class EmptyIter(zoo.OneShot):
    pass


# What the damaged part looks like and what it must decode to, for the parts that have no
# reference number of their own (0) and those that have one (1).
DAMAGE0 = st.one_of(
    st.tuples(st.sampled_from(["py/b64", "py/b85"]), st.sampled_from(NOT_TEXT + BAD_TEXT) | gen.text),
    st.tuples(st.just("py/bytea"), st.sampled_from([{}, None, 3, [], "", "x", {"py/b64": None}, {"py/b85": "é"}, {"py/b64": "x"},
                                                    {"py/b85": [1]}, {"x": 1}])),
    st.tuples(st.sampled_from(["py/tuple", "py/set"]), st.sampled_from(WRONG)),
    st.tuples(st.just("py/set"), st.sampled_from([[{"py/set": [1]}], [1, {"py/set": []}], [{"py/tuple": [{"py/set": 2}]}]])),
    st.tuples(st.just("py/id"), st.sampled_from(["", "x", "0", [], {}, [1], {"x": 1}, None, 1.5, 10**6, 99999, 2**40])),
    st.tuples(st.just("py/type"), st.sampled_from(NAMES)),
    st.tuples(st.just("py/function"), st.sampled_from(NAMES)),
)
DAMAGE1 = st.one_of(
    st.tuples(st.just("py/iterator"), st.sampled_from([None, True, 0, 2.5])),
    st.tuples(st.just("py/reduce"), st.sampled_from(
        [None, True, False, 0, 2.5, "", [], {}, ["x"], {"x": True}, [1], [None], [None, None], ["x", {"py/tuple": []}],
         [{"py/type": "gone.X"}, {"py/tuple": [1]}], [{"py/function": "gone.f"}, {"py/tuple": []}, None, None, None],
         [{"py/type": "gone.X"}, {"py/tuple": [1]}, 5, None], [5, 6, 7, 8]])),
    st.tuples(st.just("py/object"), st.sampled_from(NAMES)),
)


def strategy(tier):
    lf = st.sampled_from("hhhl").flatmap(
        lambda c: gen.leaf("hole", "enum", "std", "cx") if c == "l" else
        st.tuples(st.sampled_from(["hole0", "hole1"]), st.integers(0, 999)))
    return st.fixed_dictionaries({
        "graph": gen.graph(KINDS, lf, refs=4, max_nodes=14 if tier == "thorough" else 9, max_kids=4,
                           containers="LLDDTM"),
        "damage0": st.lists(DAMAGE0, min_size=1, max_size=6),
        "damage1": st.lists(DAMAGE1, min_size=1, max_size=5),
        "extra": st.dictionaries(st.sampled_from(["x", "y"]), st.sampled_from([None, 1, "t"]), max_size=1),
        "keys": st.booleans(),
        "via": st.sampled_from(["decode", "restore"]),
    })


def bytes_of(tag, text):
    """The value of byte markup according to the standard library."""
    if not isinstance(text, str):
        return b""
    try:
        return (base64.b64decode if tag == "py/b64" else base64.b85decode)(text.encode("utf-8"))
    except ValueError:  # includes bad padding and text that cannot be encoded
        return b""


def expected(tag, value, doc):
    if tag in ("py/b64", "py/b85"):
        return bytes_of(tag, value)
    if tag == "py/bytea":
        if not isinstance(value, dict):
            return bytearray()
        return bytearray(next((bytes_of(k, v) for k, v in value.items() if k.startswith("py/b")), b""))
    if tag == "py/iterator":
        return EmptyIter([])
    if tag == "py/type":
        return compare.Raw(doc)
    if tag == "py/object":
        return dict(doc)
    return {"py/tuple": (), "py/set": set(), "py/id": None, "py/function": None, "py/reduce": []}[tag]


def check(case, ctx):
    root, _, nodes = graph.build(case["graph"])
    text = lib("encode", jsonpickle.encode, root, keys=case["keys"])
    used = []
    want0, want1 = {}, {}

    def damage(n, bare):
        """The damaged markup for a position, and what it becomes."""
        which = n % len(case["damage0"])
        tag, value = case["damage0"][which]
        if tag == "py/id" and type(value) is int and not bare:
            value = "x"  # a dangling number is only cleared in lists, dicts and attributes
        doc = {tag: value}
        used.append(tag)
        return doc

    def walk(x, bare):
        if isinstance(x, dict):
            if x.get("py/object") == "jpv.zoo.Hole":
                tag, value = case["damage1"][x["n"] % len(case["damage1"])]
                doc = {tag: value}
                if tag == "py/object":
                    doc.update(case["extra"])
                used.append(tag)
                want1[x["n"]] = (tag, value, doc)
                return doc
            return {k: walk(v, bare and not (k.startswith("py/") and k != "py/seq")) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(v, bare) for v in x]
        if isinstance(x, str) and x.startswith("\x01hole:"):
            n = int(x[6:])
            return damage(n, bare)
        return x

    doc = walk(json.loads(text), True)
    new = json.dumps(doc)
    for t in used:
        ctx.label(t)
    ctx.nontrivial = bool(used) and len(nodes) > 1

    def resolve(o):
        if type(o) is zoo.Hole or type(o) is str and o.startswith("\x01hole:"):
            if id(o) not in want0:
                if type(o) is str:
                    tag, value = case["damage0"][int(o[6:]) % len(case["damage0"])]
                    want = tag, value, {tag: value}
                else:
                    want = want1[o.n]
                want0[id(o)] = (o, expected(*want))
            return want0[id(o)][1]
        return o

    def decode():
        if case["via"] == "decode":
            return jsonpickle.decode(new, keys=case["keys"])
        return jsonpickle.Unpickler(keys=case["keys"]).restore(json.loads(new))

    back = lib("decode", decode)
    compare.same_graph(root, back, resolve=resolve, ordered=not case["keys"])

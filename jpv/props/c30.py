"""C30: handling read-only attributes leaves out what cannot be set, and nothing else."""

import json

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph, zoo
from ..core import Violation, lib, short
from ..zoo import KINDS, _new, kind

BUDGET = {"quick": 3000, "thorough": 50000}


class ReadName:
    """Keeps values where its read-only properties hide them."""

    @property
    def name(self):
        return self.__dict__.get("name")

    @property
    def value(self):
        raise RuntimeError("never read")

    @property
    def count(self):
        return 1

    def method(self):
        return self


class ReadNameSub(ReadName):
    limit = 3

    @property
    def data(self):
        return "data"


class WriteName:
    """Properties that can be set, and names that only the class mentions."""

    limit = 10
    b = None

    @property
    def a(self):
        return self.__dict__.get("a")

    @a.setter
    def a(self, v):
        self.__dict__["a"] = v

    def data(self):
        return self

    @classmethod
    def c(cls):
        return cls

    @staticmethod
    def k0():
        return 1


class Mixed(ReadName, WriteName):
    pass


def _store(obj, items, attrs):
    obj.__dict__.update(attrs)


for _c in (ReadName, ReadNameSub, WriteName, Mixed):
    kind(_c.__name__, _c, alloc=_new(_c), fill=_store, items=False, families=("hiding",))
gen.SPECIAL.add("hiding")

SCALARS = gen.family("readonly")
HIDING = gen.family("hiding")
OTHER = gen.family()
PLAIN = gen.family("attrs", "contsub", "hiding", exclude=("Descriptor",))
MEMBERS = ["join", "count", "append", "items", "keys", "name", "real", "limit", "index", "a", "b", "data",
           "value", "method", "get", "doubled", "values", "split", "imag", "k0", "format"]
# (a container is not usable with its own methods replaced)
NAMES = st.sampled_from([n for n in MEMBERS if n not in ("append", "items", "keys", "get", "values", "doubled",
                                                    "real", "imag")])
MEMBER = st.sampled_from(MEMBERS)
KEY = st.one_of(MEMBER, MEMBER, st.sampled_from(["k1", "", "py/objec", "json://1", "__len__", "__class__"]))
LEAF = gen.leaf("enum", "type", "cx", "steady")
EXTRA = st.lists(st.sampled_from(["upper", "real", "join", "limit", "doubled", "name", "bit_length", "parse",
                                  "build", "numerator", "_type_marker", "split"]), min_size=1, max_size=3, unique=True)


def strategy(tier):
    big = 14 if tier == "thorough" else 9
    base = {"names": NAMES, "key": KEY, "containers": "LDDDTMM", "max_nodes": big}
    return st.fixed_dictionaries({
        "graph": st.one_of(
            gen.graph(SCALARS * 2 + HIDING * 3, LEAF, inst=6, **base),
            gen.graph(SCALARS * 6 + HIDING * 6 + OTHER, LEAF, inst=7, **base),
            gen.graph(PLAIN, LEAF, inst=5, **base),
        ),
        "extra": EXTRA,
        "keys": st.booleans(),
        "how": st.sampled_from(["encode", "encode", "encode", "stored", "context", "reused", "plain", "properties"]),
    })


def hidden(obj):
    cls = type(obj)
    if cls.__setattr__ is not object.__setattr__ or not isinstance(getattr(obj, "__dict__", None), dict):
        return []
    return [n for n in vars(obj) if isinstance(getattr(cls, n, None), property) and getattr(cls, n).fset is None]


def older(doc, extra):
    """Adds entries for read-only members, the way earlier versions wrote them."""
    count = 0
    if isinstance(doc, list):
        return sum(older(v, extra) for v in doc)
    if isinstance(doc, dict):
        count = sum(older(v, extra) for v in list(doc.values()))
        name = doc.get("py/object")
        if isinstance(name, str) and name.startswith("jpv.zoo."):
            cls = getattr(zoo, name[8:], None)
            if isinstance(cls, type) and issubclass(cls, (int, str)) and cls.__name__ in SCALARS:
                for n in extra:
                    member = getattr(cls, n, None)
                    if n in doc or member is None:
                        continue
                    doc[n] = {"py/function": f"{name}.{n}"} if callable(member) else 10
                    count += 1
    return count


def check(case, ctx):
    how = case["how"]
    root, _, nodes = graph.build(case["graph"])
    bare, twins, _ = graph.build(case["graph"])
    kinds = {n[1] for n in nodes if n[0] == "I"}
    gone = 0
    for obj in twins.values():
        # (what a state hook returns is stored as it is)
        for name in hidden(obj):
            if not hasattr(type(obj), "__setstate__"):
                del obj.__dict__[name]
                gone += 1
    scalars = kinds & set(SCALARS)
    member_keys = any(k in MEMBERS for n in nodes if n[0] in "DM" for k, _ in n[-1] if isinstance(k, str))
    ctx.label(how, *(["hidden"] if gone else []), *(["scalars"] if scalars else []),
              *(["member keys"] if member_keys else []))
    ctx.nontrivial = bool(gone or scalars or member_keys)
    opts = {"keys": True} if case["keys"] else {}
    if how == "plain":
        if not kinds <= set(PLAIN):
            how = "encode"
        else:
            opts["unpicklable"] = False
    elif how == "properties" and "Descriptor" not in kinds and not kinds & {"ReadName", "ReadNameSub", "Mixed"}:
        opts["include_properties"] = True
    if how == "context":
        context = jsonpickle.Pickler(handle_readonly=True, **opts)
        text = lib("encode", jsonpickle.encode, root, context=context)
    elif how == "reused":
        context = jsonpickle.Pickler(handle_readonly=True, **opts)
        lib("encode", jsonpickle.encode, "a name", context=context)
        text = lib("encode", jsonpickle.encode, root, context=context)
    else:
        text = lib("encode", jsonpickle.encode, root, handle_readonly=True, **opts)
    plain = lib("encode", jsonpickle.encode, bare, **opts)
    if json.loads(text) != json.loads(plain):
        raise Violation(f"encoded as {short(text, 400)} instead of {short(plain, 400)}")
    if how == "plain":
        return
    if how == "stored":
        doc = json.loads(text)
        if older(doc, case["extra"]):
            ctx.label("older")
        text = json.dumps(doc)
    if how == "context":
        context = jsonpickle.Unpickler(handle_readonly=True, keys=case["keys"])
        back = lib("decode", jsonpickle.decode, text, context=context, keys=case["keys"])
    else:
        back = lib("decode", jsonpickle.decode, text, handle_readonly=True, keys=case["keys"])
    try:
        compare.same_graph(bare, back, ordered=not case["keys"])
        if how != "stored":
            compare.same_graph(bare, lib("decode", jsonpickle.decode, text, keys=case["keys"]),
                               ordered=not case["keys"])
    except Violation as exc:
        raise Violation(f"{exc} from {short(text, 400)}") from exc


assert all(k in KINDS for k in SCALARS + HIDING)

"""C18: class resolution honours caller-supplied classes and the missing-class policy."""

import json
import warnings

import jsonpickle
from hypothesis import strategies as st

from .. import compare, gen, graph, zoo
from ..core import Violation, lib, short

BUDGET = {"quick": 2600, "thorough": 40000}
MISS = gen.family("missing")
LOCALS = gen.family("local")
NORMAL = gen.family("attrs", "slots", "contsub", "state", "newargs", "reduce", exclude=("Descriptor",))
# classes with the same shape, of which one can stand for the other
SIMPLE = ["Plain", "PlainSub", "PlainEq", "Callable", "Falsy", "Inner", "Innermost", "Concrete"]
LEAF = gen.leaf("enum", "type", "func", "std", "cx", "ba", "rng")


def full(name):
    cls = zoo.KINDS[name].cls
    return f"{cls.__module__}.{cls.__qualname__}"


def strategy(tier):
    return st.fixed_dictionaries({
        "graph": gen.graph(SIMPLE * 2 + NORMAL + MISS * 5 + LOCALS * 4, LEAF, refs=7, inst=7,
                           max_nodes=14 if tier == "thorough" else 9, containers="LLDDTSM"),
        "fates": st.lists(st.tuples(st.sampled_from(SIMPLE), st.sampled_from(["map", "short", "redirect", "redirect"]),
                                    st.sampled_from(SIMPLE)), max_size=3, unique_by=lambda t: t[0]),
        "form": st.integers(0, 7),
        "via": st.sampled_from(["decode", "decode", "restore", "register"]),
        "policy": st.sampled_from(["ignore", "warn", "error", "callback", "callback", "IGNORE", "Warn"]),
        "has_missing": st.sampled_from([True, True, False]),
    })


def rename(nodes, table):
    return [("I", table.get(n[1], n[1]), n[2], n[3]) if n[0] == "I" else n for n in nodes]


def no_types(x):
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "type":
        return ("enum", 0)
    return type(x)(no_types(y) for y in x) if isinstance(x, (list, tuple)) else x


def uid_of(doc):
    for where in (doc, doc.get("py/state")):
        if isinstance(where, dict) and "uid" in where:
            return where["uid"]
    if "py/seq" in doc:
        return doc["py/seq"][0]
    args = doc.get("py/newargs") or doc["py/newargsex"][0]
    return args["py/tuple"][0]


def raw_parts(doc, out):
    """All the objects of missing classes in the document, by uid."""
    todo = [doc]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if str(x.get("py/object", "")).startswith("gone.zoo.Miss"):
                out[uid_of(x)] = x
            todo.extend(x.values())
        elif isinstance(x, list):
            todo.extend(x)
    return out


def check(case, ctx):
    recipe = case["graph"]
    nodes = recipe["nodes"]
    if not case["has_missing"]:
        nodes = rename(nodes, dict.fromkeys(MISS, "Plain"))
    table = {a: b for a, fate, b in case["fates"] if fate == "redirect"}
    # redirected classes are not looked for among the elements of sets
    nodes = [no_types(n) if n[0] in "SFT" or n[1] in ("SetSub", "TupleSub", "Named", "NamedSub", "KeyData") else n for n in nodes] if table else nodes
    root, _, built = graph.build({**recipe, "nodes": nodes})
    expected, _, _ = graph.build({**recipe, "nodes": rename(nodes, table)})
    text = lib("encode", jsonpickle.encode, root)

    classes = {}
    for a, fate, b in case["fates"]:
        cls = zoo.KINDS[a].cls
        if fate == "map":
            text = text.replace(f'"{full(a)}"', f'"gone.away.{a}"')
            classes[f"gone.away.{a}"] = cls
        elif fate == "short":
            text = text.replace(f'"{full(a)}"', f'"other.place.{a}"')
            classes[a] = cls
        else:
            classes[full(a) if case["form"] % 2 else cls] = zoo.KINDS[b].cls
    text = text.replace('"jpv.zoo.Miss', '"gone.zoo.Miss')
    doc = json.loads(text)
    raw = raw_parts(doc, {})
    if classes:
        if len(table) < len(case["fates"]):
            ctx.label("renamed")
        for n, cls in enumerate(zoo.LOCAL):
            classes[full(LOCALS[n]) if case["form"] % 3 else cls] = cls
        forms = [classes]
    else:
        one, two, three = zoo.LOCAL
        forms = [[one, two, three], (one, two, three), {one, two, three}, [[one], (two, three)],
                 {full(n): zoo.KINDS[n].cls for n in LOCALS}, {"Local": one, "LocalList": two, "LocalState": three}]
        used = {n[1] for n in built if n[0] == "I" and n[1] in LOCALS}
        if len(used) == 1:
            forms.append(zoo.KINDS[used.pop()].cls)  # a single class
        elif not used:
            forms.append(None)
    classes = forms[case["form"] % len(forms)]

    events = []
    policy = events.append if case["policy"] == "callback" else case["policy"]
    if case["policy"] == "callback":
        def policy(name):  # a plain function, as documented
            events.append(name)

    def decode():
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            if case["via"] == "decode":
                out = jsonpickle.decode(text, classes=classes, on_missing=policy)
            else:
                u = jsonpickle.Unpickler(on_missing=policy if callable(policy) else policy.lower())
                if case["via"] == "restore" or classes is None:
                    out = u.restore(json.loads(text), classes=classes)
                else:
                    out = jsonpickle.decode(text, context=u, classes=classes)
            if case["policy"].lower() == "warn":
                events.extend(str(w.message) for w in log)
            elif log:
                raise Violation(f"unexpected warnings: {short([str(w.message) for w in log])}")
        return out

    names = sorted(d["py/object"] for d in raw.values())
    ctx.label(case["policy"].lower())
    ctx.nontrivial = bool(raw or classes and any(n[0] == "I" and n[1] in (*LOCALS, *[f[0] for f in case["fates"]])
                                                 for n in built))
    if case["policy"] == "error" and raw:
        try:
            got = decode()
        except jsonpickle.errors.ClassNotFoundError:
            return
        except Exception as exc:
            raise Violation(f"a missing class raised {type(exc).__name__}: {exc}") from exc
        raise Violation(f"a missing class was ignored: {short(got)}")
    try:
        back = lib("decode", decode)
    except jsonpickle.errors.ClassNotFoundError as exc:
        raise Violation(f"every class is available but the decode raised {exc!r}") from exc
    if case["policy"] == "callback":
        if sorted(events) != names:
            raise Violation(f"the callback was told about {sorted(events)} instead of {names}")
    elif case["policy"].lower() == "warn":
        if len(events) != len(names) or any(not any(n in e for e in events) for n in names):
            raise Violation(f"the warnings were {events} for {names}")
    # The expected graph has the same layout as the encoded one but its own uids.
    pairs = uid_pairs(root, expected)

    types = {zoo.KINDS[a].cls: zoo.KINDS[b].cls for a, b in table.items()}

    def resolve(o):
        if isinstance(o, type):
            return types.get(o, o)
        return raw[pairs[o_uid(o)]] if isinstance(o, zoo.MISSING) else o

    compare.same_graph(expected, back, resolve=resolve)


def o_uid(o):
    return o[0] if isinstance(o, list) else dict.__getitem__(o, "uid") if isinstance(o, dict) else o.uid


def uid_pairs(a, b):
    """Maps the uids of one build of a recipe to those of another build."""
    from ..snapshot import parts

    out, seen, todo = {}, set(), [(a, b)]
    while todo:
        x, y = todo.pop()
        if id(x) in seen or type(x) in (str, int, float, bytes, bool, type(None)):
            continue
        seen.add(id(x))
        if isinstance(x, zoo.MISSING):
            out[o_uid(y)] = o_uid(x)
        todo.extend(zip(parts(x)[1], parts(y)[1]))
    return out

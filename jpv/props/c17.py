"""C17: objects handled by custom handlers keep their place in the graph."""

import jsonpickle
from hypothesis import strategies as st
from jsonpickle import handlers

from .. import compare, gen, graph, zoo
from ..core import Violation, lib, short
from ..snapshot import parts

BUDGET = {"quick": 2500, "thorough": 40000}
HANDLED = gen.family("handled")
KINDS = gen.family() + HANDLED * 9
LEAF = gen.leaf("enum", "type", "func", "std", "nul", "cx", "ba", "mod", "rng", "iter")
LOG = []


class Base(handlers.BaseHandler):
    """Delegates the parts one by one, then the variables."""

    def down(self, value):
        return self.context.flatten(value, reset=False)

    def up(self, data):
        return self.context.restore(data, reset=False)

    def flatten(self, obj, data):
        LOG.append(("flatten", obj, None))
        return self.write(obj, data)

    def restore(self, data):
        obj = self.read(data)
        LOG.append(("restore", obj, None))
        return obj

    def write(self, obj, data):
        data["parts"] = [self.down(p) for p in obj.parts]
        data["vars"] = self.down(obj.vars)
        return data

    def read(self, data):
        cls = getattr(zoo, data["py/object"].rpartition(".")[2])
        return cls([self.up(p) for p in data["parts"]], self.up(data["vars"]))


class Ctx(Base):
    def flatten(self, obj, data, handler_context=None):
        LOG.append(("flatten", obj, handler_context))
        return self.write(obj, data)

    def restore(self, data, handler_context="missing"):
        obj = self.read(data)
        LOG.append(("restore", obj, handler_context))
        return obj


class CtxKw(Base):
    def flatten(self, obj, data, *, handler_context=None):
        LOG.append(("flatten", obj, handler_context))
        return self.write(obj, data)

    def restore(self, data, *, handler_context="missing"):
        obj = self.read(data)
        LOG.append(("restore", obj, handler_context))
        return obj


class Twice(Base):
    def write(self, obj, data):
        data["parts"] = [[self.down(p), self.down(p)] for p in obj.parts]
        data["vars"] = [self.down(obj.vars), self.down(obj.vars)]
        return data

    def read(self, data):
        pairs = [[self.up(a), self.up(b)] for a, b in data["parts"]]
        v, w = (self.up(x) for x in data["vars"])
        for a, b in [*pairs, (v, w)]:
            if a is not b and isinstance(a, (list, dict, zoo._Handled)):
                LOG.append(("split", a, b))
        return zoo.HTwice([a for a, _ in pairs], v)


class Late(Base):
    def write(self, obj, data):
        data["inner"] = {"vars": self.down(obj.vars), "parts": [{"p": self.down(p)} for p in obj.parts]}
        return data

    def read(self, data):
        v = self.up(data["inner"]["vars"])
        return zoo.HLate([self.up(p["p"]) for p in data["inner"]["parts"]], v)


class Fresh(Base):
    def write(self, obj, data):
        return {"py/object": data["py/object"], "vars": self.down(obj.vars), "parts": [self.down(p) for p in obj.parts]}

    def read(self, data):
        v = self.up(data["vars"])
        return zoo.HFresh([self.up(p) for p in data["parts"]], v)


class Many(Base):
    def write(self, obj, data):
        data["first"] = self.down(tuple(obj.parts[:1]))
        data["rest"] = self.down(list(obj.parts[1:]))
        data["vars"] = self.down(obj.vars)
        return data

    def read(self, data):
        first, rest, v = (self.up(data[k]) for k in ("first", "rest", "vars"))
        if type(first) is not tuple or type(rest) is not list:
            LOG.append(("split", first, rest))
        return zoo.HMany([*first, *rest], v)


class Lst(Base):
    def write(self, obj, data):
        data["list"] = [self.down(x) for x in list.__iter__(obj)]
        return data

    def read(self, data):
        return zoo.HList([self.up(x) for x in data["list"]])


handlers.register(zoo.HParts, Base)
handlers.register(zoo.HBase, Base, base=True)
handlers.register(zoo.HInst, Base(None))
handlers.register(zoo.HCtx, Ctx)
handlers.register(zoo.HCtxKw, CtxKw)
handlers.register(zoo.HTwice, Twice)
handlers.register(zoo.HLate, Late)
handlers.register(zoo.HFresh, Fresh)
handlers.register(zoo.HMany, Many)
handlers.register(zoo.HReduce, Base)
handlers.register(zoo.HList, Lst)
ALL = (*zoo.HANDLED, zoo.HList)


def strategy(tier):
    return st.fixed_dictionaries({
        "graph": gen.graph(KINDS, LEAF, max_nodes=14 if tier == "thorough" else 9, refs=7, inst=7,
                           containers="LLDDTSFM"),
        "context": st.sampled_from([None, None, "value", {"k": 1}, 0, ""]),
        "other": st.booleans(),
        "own": st.sampled_from(["none", "none", "empty", "set"]),
        "opts": st.sampled_from([{}, {}, {}, {"keys": True}, {"use_base85": True}, {"max_depth": 500}]),
    })


def handled_in(root):
    seen, todo, out = {}, [root], []
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = o
        if isinstance(o, ALL):
            out.append(o)
        if type(o) not in (str, bytes, int, float, bool, type(None)):
            todo.extend(parts(o)[1])
    return out


def check(case, ctx):
    root, objs, nodes = graph.build(case["graph"])
    mine = handled_in(root)
    opts = dict(case["opts"])
    context = case["context"]
    LOG.clear()
    own = case["own"]
    text = call("encode", jsonpickle.Pickler, own, context, root, opts)
    done = [o for what, o, _ in LOG if what == "flatten"]
    if len({id(o) for o in done}) != len(done):
        raise Violation(f"an object was flattened more than once: {short(done)}")
    if {id(o) for o in done} != {id(o) for o in mine}:
        raise Violation(f"the handlers flattened {short(done)} instead of {short(mine)}")
    told(MINE if own == "set" and context is None else context)
    LOG.clear()
    context = {"other": 1} if case["other"] else context
    back = call("decode", jsonpickle.Unpickler, own, context, text, {"keys": "keys" in opts})
    split = [e for e in LOG if e[0] == "split"]
    if split:
        raise Violation(f"the same part was restored as {short(split[0][1:])}")
    made = [o for what, o, _ in LOG if what == "restore"]
    if len(made) != len(done) or len({id(o) for o in made}) != len(made):
        raise Violation(f"{len(done)} objects were flattened but {len(made)} were restored")
    told(MINE if own == "set" and context is None else context)
    compare.same_graph(root, back, ordered="keys" not in opts)
    interesting = [n for n in nodes if n[0] == "I" and n[1] in HANDLED]
    ctx.nontrivial = bool(interesting and mine) and len(nodes) >= 2
    if len(mine) > 1:
        ctx.label("several handled objects")
    if context is not None:
        ctx.label("context")


MINE = ["of the encoder or decoder"]


def call(what, maker, own, context, arg, opts):
    """Encodes or decodes, maybe with an object made beforehand that may have a context value of its own."""
    fn = getattr(jsonpickle, what)
    if own == "none":
        return lib(what, fn, arg, handler_context=context, **opts)
    obj = maker(handler_context=MINE if own == "set" else None, **opts)
    result = lib(what, fn, arg, context=obj, handler_context=context)
    left = obj.handler_context
    if left is not (MINE if own == "set" else None):
        raise Violation(f"{what} left the context value {left!r} behind")
    return result


def told(context):
    for what, obj, value in LOG:
        if what == "split":
            continue
        accepts = isinstance(obj, (zoo.HCtx, zoo.HCtxKw))
        want = context if accepts else None
        if accepts and context is None:
            want = "missing" if what == "restore" else None
        if value != want or type(value) is not type(want):
            raise Violation(f"{what} of a {type(obj).__name__} was given the context {value!r} instead of {want!r}")

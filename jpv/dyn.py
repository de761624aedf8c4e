"""Classes made from every sensible combination of base, slots and pickle hooks.

They are registered as graph node kinds ``dyn/<base>/<slots>/<state>/<set>/<args>``.
"""

import collections
import itertools

from . import zoo

BASES = {
    "object": object, "list": list, "dict": dict, "set": set, "tuple": tuple,
    "frozenset": frozenset, "int": int, "str": str, "float": float, "exc": Exception,
    "odict": collections.OrderedDict, "ddict": collections.defaultdict,
}
MAPPINGS = ("dict", "odict", "ddict")
LAYOUTS = ("dict", "slots", "both", "inherited", "mixed")
STATES = ("none", "dict", "slotstate", "tuple", "list", "copy")
ARGS = ("none", "args", "argsex")


def supported(base, layout, state, setter, args):
    if base in ("tuple", "int") and layout in ("slots", "inherited", "both", "mixed"):
        return False  # not possible in Python
    if base in ("str", "float") and layout in ("slots", "inherited"):
        return False  # needs handle_readonly
    if base == "exc" and layout != "dict":
        return False  # pickle does not support it either
    if base in MAPPINGS and layout != "dict":
        return False  # known finding: slots of dict subclasses are not encoded
    if base in ("list", "set", "frozenset", *MAPPINGS) and state != "none":
        return False  # known finding: a state hook hides the items
    if state in ("tuple", "list", "copy") and not setter:
        return False  # pickle does not support it either
    if state == "none" and setter and base == "exc":
        return False  # BaseException has its own setter and state
    if base == "exc" and state in ("tuple", "list", "slotstate", "copy"):
        return False  # pickle calls the setter with the wrong state
    if args != "none" and base not in ("object", "list", "set"):
        return False
    if args == "argsex" and base == "list":
        return False
    if base == "frozenset" and setter:
        return False
    return True


SLOTS = ("a", "_b", "__c")


def attributes(obj, slots):
    out = {k: getattr(obj, k) for k in slots if hasattr(obj, k)}
    out.update(getattr(obj, "__dict__", {}))
    return out


def make(base, layout, state, setter, args):
    name = "_".join(["Dyn", base, layout, state, "set" if setter else "no", args]).replace("_", "X")
    cls_base = BASES[base]
    ns = {"__module__": __name__, "__qualname__": name}
    slots = ()
    bases = (cls_base,)
    if layout in ("slots", "both"):
        ns["__slots__"] = SLOTS + (("__dict__",) if layout == "both" else ())
        slots = ("a", "_b", f"_{name}__c")
    elif layout in ("inherited", "mixed"):
        pname = "P" + name
        parent = type(pname, bases, {"__module__": __name__, "__qualname__": pname,
                                     "__slots__": SLOTS})
        globals()[pname] = parent
        bases = (parent,)
        slots = ("a", "_b", f"_{pname}__c")
        if layout == "inherited":
            ns["__slots__"] = ("d", "__c")
            slots += ("d", f"_{name}__c")

    def full(self):
        return attributes(self, slots)

    if state == "dict":
        ns["__getstate__"] = full
    elif state == "slotstate":
        def getstate(self):
            return (dict(getattr(self, "__dict__", {})) or None,
                    {k: getattr(self, k) for k in slots if hasattr(self, k)})

        ns["__getstate__"] = getstate
    elif state == "tuple":
        ns["__getstate__"] = lambda self: (1, full(self), "end")
    elif state == "list":
        ns["__getstate__"] = lambda self: [full(self), 2]
    elif state == "copy":
        ns["__getstate__"] = lambda self: {"keys": list(full(self)), "values": tuple(full(self).values())}
    if setter:
        def setstate(self, value):
            if state in ("dict",):
                pairs = value
                if type(value) is not dict:
                    raise RuntimeError(f"unexpected state {value!r}")
            elif state == "slotstate":
                first, second = value
                if type(value) is not tuple or type(second) is not dict:
                    raise RuntimeError(f"unexpected state {value!r}")
                pairs = {**(first or {}), **second}
            elif state == "tuple":
                one, pairs, end = value
                if (one, end, type(value)) != (1, "end", tuple):
                    raise RuntimeError(f"unexpected state {value!r}")
            elif state == "list":
                pairs, two = value
                if (two, type(value)) != (2, list):
                    raise RuntimeError(f"unexpected state {value!r}")
            elif state == "copy":
                if list(value) != ["keys", "values"] or type(value["values"]) is not tuple:
                    raise RuntimeError(f"unexpected state {value!r}")
                pairs = dict(zip(value["keys"], value["values"]))
            else:
                raise RuntimeError("there is no state to set")
            for k, v in pairs.items():
                object.__setattr__(self, k, v)

        ns["__setstate__"] = setstate
    if args != "none":
        given = ((1, "x", [2]), {}) if args == "args" else ((1,), {"q": [2, None]})

        def new(cls, *a, **k):
            if (a, k) != given:
                raise RuntimeError(f"unexpected constructor arguments {a!r} {k!r}")
            return cls_base.__new__(cls)

        ns["__new__"] = new
        if args == "args":
            ns["__getnewargs__"] = lambda self: (1, "x", [2])
        else:
            ns["__getnewargs_ex__"] = lambda self: ((1,), {"q": [2, None]})

        def alloc():
            return cls.__new__(cls, *given[0], **given[1])
    else:
        def alloc():
            return cls.__new__(cls)
    if base == "object":
        def init(self, *a, **k):
            zoo.INIT_LOG.append(name)

        ns["__init__"] = init
    cls = type(name, bases, ns)
    cls.__qualname__ = name
    globals()[name] = cls

    def names(attrs):
        out = {}
        for i, (k, v) in enumerate(attrs):
            if slots and (layout in ("slots", "inherited") or i % 2 == 0):
                k = slots[(len(k) + i) % len(slots)]
            out[k] = v
        return list(out.items())

    fills = {
        "list": lambda o, i: list.extend(o, i), "set": lambda o, i: set.update(o, i),
        "dict": lambda o, i: zoo._fill_dict(o, i, []), "odict": lambda o, i: zoo._fill_plaindict(o, i, []),
        "ddict": lambda o, i: zoo._fill_plaindict(o, i, []),
    }

    def fill(obj, items, attrs):
        if base in fills:
            fills[base](obj, items)
        zoo._setattrs(obj, [], names(attrs))

    kw = {"families": ("dyn",), "attrs_swap": state == "none" and base != "exc"}
    if base in fills:
        if base == "ddict":
            def alloc():
                obj = cls.__new__(cls)
                obj.default_factory = list
                return obj
        zoo.kind(f"dyn/{name}", cls, alloc=alloc, fill=fill, items_swap=base in ("list", *MAPPINGS),
                 items_hash=base == "set", **kw)
    elif base == "object":
        zoo.kind(f"dyn/{name}", cls, alloc=alloc, fill=fill, items=False, **kw)
    elif base in ("tuple", "frozenset"):
        zoo.kind(f"dyn/{name}", cls, make=lambda items: cls(items), fill=fill,
                 items_hash=base == "frozenset", **kw)
    elif base == "exc":
        zoo.kind(f"dyn/{name}", cls, make=lambda items: cls(*items), fill=fill, **kw)
    else:
        conv = {"int": lambda v: v if type(v) in (int, bool) else 3,
                "str": lambda v: v if type(v) is str else "s",
                "float": lambda v: v if type(v) is float else 0.5}[base]
        zoo.kind(f"dyn/{name}", cls, make=zoo._scalar(cls, conv), fill=fill, scalar_items=True, **kw)


for _spec in itertools.product(BASES, LAYOUTS, STATES, (False, True), ARGS):
    if supported(*_spec):
        make(*_spec)

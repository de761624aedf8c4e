"""An independent reader and writer of the JSON format.

The format numbers lists, dictionaries, instances, iterators and modules from zero in the order
in which a reader meets them, and ``{"py/id": n}`` stands for the n-th of them.  Tuples, sets,
bytes, classes and functions have no number.  Inside an instance a reader meets the default
factory first, then the constructor arguments, the attributes or items in document order, the
sequence items and at last the state.  In a plain dictionary the escaped keys come last.

Neither class uses any code of the library.
"""

import base64
import collections
import copyreg
import datetime
import importlib
import inspect
import json
import re
import types
import uuid

from .core import Violation

RESERVED = {
    "py/bytes", "py/bytea", "py/b64", "py/b85", "py/function", "py/id", "py/initargs",
    "py/iterator", "py/mod", "py/newargs", "py/newargsex", "py/newobj", "py/object",
    "py/property", "py/reduce", "py/default_factory", "py/ref", "py/repr", "py/seq", "py/set",
    "py/state", "py/tuple", "py/type",
}
TYPE_NAMES = {getattr(types, n): f"types.{n}" for n in types.__all__ if n.endswith("Type")}
DATES = (datetime.datetime, datetime.date, datetime.time)


class Pending:
    """Something whose construction has not finished yet."""

    def __init__(self, number):
        self.number = number


def lookup(name):
    """The object with a dotted name."""
    if name == "types.NoneType":
        return type(None)
    parts = name.split(".")
    for i in range(len(parts) - 1, 0, -1):
        try:
            obj = importlib.import_module(".".join(parts[:i]))
        except ImportError:
            continue
        for p in parts[i:]:
            obj = getattr(obj, p)
        return obj
    raise Violation(f"the document names {name!r}, which does not exist")


class Reader:
    def __init__(self, keys=False):
        self.keys = keys
        self.objs = []
        self.fix = []

    def read_document(self, text):
        try:
            value = self.read(json.loads(text))
            for job in self.fix:
                job()
        except (AttributeError, LookupError, TypeError, ValueError) as exc:
            raise Violation(f"the document is not readable: {type(exc).__name__}: {exc}") from exc
        if isinstance(value, Pending):
            raise Violation("the document consists of a reference to itself")
        return value

    def number(self, obj):
        self.objs.append(obj)
        return len(self.objs) - 1

    def read(self, x):
        if isinstance(x, list):
            out = []
            self.number(out)
            self.fill_list(out, x)
            return out
        if not isinstance(x, dict):
            return x
        tags = RESERVED & set(x)
        if not tags:
            out = {}
            self.number(out)
            for k, v in self.pairs(x):
                self.put(out, k, v)
            return out
        for tag in ("py/id", "py/tuple", "py/set", "py/b64", "py/b85", "py/bytea", "py/type", "py/function", "py/mod",
                    "py/iterator", "py/reduce"):
            if tag in x:
                if tags - {tag, "py/property"} and tag != "py/iterator":
                    raise Violation(f"unknown combination of markup: {sorted(tags)}")
                return getattr(self, "read_" + tag[3:])(x[tag])
        if "py/object" in x:
            return self.read_object(x)
        raise Violation(f"unknown markup: {sorted(tags)}")

    def later(self, value, put):
        """Patch a value once everything exists."""
        def job():
            real = self.objs[value.number]
            if isinstance(real, Pending):
                raise Violation(f"number {value.number} was never completed")
            put(real)
        self.fix.append(job)

    def put(self, d, k, v):
        d[k] = v
        if isinstance(v, Pending):
            self.later(v, lambda real: d.__setitem__(k, real))

    def fill_list(self, out, x):
        for i, v in enumerate(x):
            v = self.read(v)
            out.append(v)
            if isinstance(v, Pending):
                self.later(v, lambda real, i=i: out.__setitem__(i, real))

    def pairs(self, x, in_order=False):
        """Keys and values in reading order."""
        escaped = [k for k in x if self.keys and k.startswith("json://")]
        for k in x if in_order else [k for k in x if k not in escaped] + escaped:
            key = self.read(json.loads(k[len("json://"):])) if k in escaped else k
            yield key, self.read(x[k])

    def read_id(self, n):
        if type(n) is not int or not 0 <= n < len(self.objs):
            raise Violation(f"reference to {n!r} when {len(self.objs)} objects are known")
        return self.objs[n]

    def read_tuple(self, x):
        return tuple([self.read(v) for v in x])

    def read_set(self, x):
        return {self.read(v) for v in x}

    def read_b64(self, x):
        return base64.b64decode(x, validate=True)

    def read_b85(self, x):
        return base64.b85decode(x)

    def read_bytea(self, x):
        return bytearray(self.read(x))

    def read_type(self, x):
        cls = lookup(x)
        if not isinstance(cls, type):
            raise Violation(f"{x!r} is not a class")
        return cls

    def read_function(self, x):
        return lookup(x)

    def read_mod(self, x):
        first, _, second = x.partition("/")
        if first != second:
            raise Violation(f"unknown form of module name: {x!r}")
        mod = importlib.import_module(first)
        self.number(mod)
        return mod

    def read_iterator(self, x):
        n = self.number(Pending(len(self.objs)))
        out = []
        self.fill_list(out, x)
        self.objs[n] = result = iter(out)
        return result

    def read_reduce(self, x):
        n = self.number(Pending(len(self.objs)))
        func = x[0] if x[0] == "py/newobj" else self.read(x[0])
        args = self.read(x[1])
        if func == "py/newobj":
            obj = args[0].__new__(*args)
        else:
            obj = func(*args)
        self.objs[n] = obj
        state, items, pairs, setter = (self.read(v) for v in (list(x[2:]) + [None] * 4)[:4])
        if state is not None:
            if setter is not None:
                setter(obj, state)
            else:
                self.set_state(obj, state)
        if items:
            if hasattr(obj, "extend"):
                obj.extend(items)
            else:
                for v in items:
                    obj.append(v)
        for k, v in pairs or ():
            obj[k] = v
        return obj

    def set_state(self, obj, state):
        if hasattr(obj, "__setstate__"):
            obj.__setstate__(state)
            return
        if isinstance(state, tuple) and len(state) == 2:
            parts = [p for p in state if p]
        else:
            parts = [state] if state else []
        for part in parts:
            for k, v in part.items():
                self.set_attr(obj, k, v)

    def set_attr(self, obj, k, v):
        if k.startswith("__") and not k.endswith("__"):
            k = "_" + type(obj).__name__.lstrip("_") + k
        if hasattr(obj, "__dict__") and not isinstance(getattr(type(obj), k, None), types.MemberDescriptorType):
            obj.__dict__[k] = v
        else:
            object.__setattr__(obj, k, v)
        if isinstance(v, Pending):
            self.later(v, lambda real: self.set_attr(obj, k, real))

    def read_object(self, x):
        name = x["py/object"]
        n = self.number(Pending(len(self.objs)))
        cls = lookup(name)
        if cls in DATES:
            kind, args = x["__reduce__"]
            obj = self.read(kind)(base64.b64decode(args[0], validate=True), *[self.read(a) for a in args[1:]])
        elif cls is uuid.UUID:
            obj = uuid.UUID(hex=x["hex"])
        elif cls is re.Pattern:
            obj = re.compile(self.read(x["pattern"]), x["flags"])
        else:
            obj = None
        if obj is not None:
            self.objs[n] = obj
            return obj
        factory = None
        body = {k: v for k, v in x.items() if k not in RESERVED}
        if "py/default_factory" in x:
            factory = self.read(x["py/default_factory"])
        elif "default_factory" in x:
            factory = self.read(body.pop("default_factory"))
        args, kwargs = (), {}
        if "py/newargsex" in x:
            args, kwargs = [self.read(v) for v in x["py/newargsex"]]
        elif "py/newargs" in x:
            args = self.read(x["py/newargs"])
        elif "py/initargs" in x:
            args = self.read(x["py/initargs"])
        obj = cls.__new__(cls, *args, **kwargs)
        if factory is not None:
            obj.default_factory = factory
        self.objs[n] = obj
        for k, v in self.pairs(body, in_order=True):
            if isinstance(obj, dict):
                if k == "__dict__":
                    obj.__dict__ = v
                else:
                    obj[k] = v
                    if isinstance(v, Pending):
                        self.later(v, lambda real, k=k: obj.__setitem__(k, real))
            else:
                self.set_attr(obj, k, v)
        if "py/seq" in x and not isinstance(obj, tuple):
            for v in x["py/seq"]:
                v = self.read(v)
                if isinstance(obj, set):
                    obj.add(v)
                else:
                    obj.append(v)
                    if isinstance(v, Pending):
                        self.later(v, lambda real, i=len(obj) - 1: obj.__setitem__(i, real))
        if "py/state" in x:
            self.set_state(obj, self.read(x["py/state"]))
        return obj


class Writer:
    """Writes documents, in the form that the library writes or in one of the others it accepts.

    ``reduce``: numbers of instances (in order of appearance) written through the standard
    reduction of their class although they do not ask for it.
    """

    def __init__(self, keys=False, v1=False, b85=False, py2=False, long_reduce=False, func_newobj=False,
                 repr_modules=False, reduce=(), reverse=False, indent=None):
        self.keys = keys
        self.v1 = v1
        self.b85 = b85
        self.py2 = py2
        self.long_reduce = long_reduce
        self.func_newobj = func_newobj
        self.repr_modules = repr_modules
        self.reduce = set(reduce)
        self.reverse = reverse
        self.indent = indent
        self.ids = {}
        self.keep = []
        self.instances = 0
        self.used = set()

    def document(self, obj):
        return json.dumps(self.write(obj), indent=self.indent)

    def name(self, obj):
        if obj is type(None) and self.py2:
            self.used.add("py2")
            return "builtins.NoneType"
        if obj in TYPE_NAMES:
            return TYPE_NAMES[obj]
        mod = obj.__module__
        if mod == "builtins" and self.py2:
            self.used.add("py2")
            mod = "exceptions" if isinstance(obj, type) and issubclass(obj, BaseException) else "__builtin__"
        return f"{mod}.{obj.__qualname__}"

    def seen(self, obj):
        """A reference if there is one already, otherwise the object gets its number."""
        if id(obj) in self.ids:
            self.used.add("reference")
            return {"py/id": self.ids[id(obj)]}
        self.ids[id(obj)] = len(self.ids)
        self.keep.append(obj)
        return None

    def write(self, o):
        t = type(o)
        if o is None or t in (bool, int, float, str):
            return o
        if t is bytes:
            if self.b85:
                return {"py/b85": base64.b85encode(o).decode()}
            return {"py/b64": base64.b64encode(o).decode()}
        if t is bytearray:
            return {"py/bytea": self.write(bytes(o))}
        if t is tuple:
            return {"py/tuple": [self.write(v) for v in o]}
        if t is set:
            return {"py/set": [self.write(v) for v in o]}
        if isinstance(o, type):
            return {"py/type": self.name(o)}
        if isinstance(o, (types.FunctionType, types.BuiltinFunctionType)):
            return {"py/function": self.name(o)}
        if t is dict:
            return self.write_dict(o)
        if "__reduce__" in vars(t) and isinstance(o.__reduce__(), str):
            return self.write(lookup(o.__reduce__()))  # stands for something else
        ref = self.seen(o)
        if ref:
            return ref
        if t is list:
            return [self.write(v) for v in o]
        if t is types.ModuleType:
            return {"py/repr" if self.repr_modules else "py/mod": f"{o.__name__}/{o.__name__}"}
        if hasattr(o, "__next__"):
            return {"py/iterator": [self.write(v) for v in o]}
        return self.instance(o)

    def write_dict(self, o):
        if not self.v1:
            ref = self.seen(o)
            if ref:
                return ref
        out = {}
        self.pairs(out, o)
        return out

    def pairs(self, out, items):
        items = list(items.items())
        late = []
        for k, v in items:
            if self.keys and (not isinstance(k, str) or k.startswith("json://") or k in RESERVED):
                late.append((k, v))
            else:
                out[k] = self.write(v)
        for k, v in late:
            self.used.add("key")
            key = "json://" + json.dumps(self.write(k))
            out[key] = self.write(v)

    def instance(self, o):
        cls = type(o)
        self.instances += 1
        out = {}
        if cls in DATES:
            _, args = o.__reduce_ex__(4)
            out["py/object"] = self.name(cls)
            out["__reduce__"] = [self.write(cls), [base64.b64encode(args[0]).decode(), *[self.write(a) for a in args[1:]]]]
            return out
        if cls is uuid.UUID:
            return {"py/object": "uuid.UUID", "hex": o.hex}
        if cls is re.Pattern:
            return {"py/object": "re.Pattern", "pattern": self.write(o.pattern), "flags": o.flags}
        overridden = cls.__reduce__ is not object.__reduce__ or cls.__reduce_ex__ is not object.__reduce_ex__
        hooks = [h for h in ("__getnewargs_ex__", "__getnewargs__", "__getinitargs__") if hasattr(cls, h)]
        custom_state = cls.__getstate__ is not object.__getstate__
        own_set = hasattr(cls, "__setstate__")
        factory = getattr(o, "default_factory", None) if isinstance(o, dict) else None
        # of the classes with a reduction of their own, these have a native form
        native = isinstance(o, (list, set, tuple)) or isinstance(o, dict) and cls is not collections.OrderedDict and \
            cls is not collections.Counter
        if overridden and not native:
            return self.reduction(o, out)
        if self.instances in self.reduce and "__getinitargs__" not in hooks and "__getnewargs_ex__" not in hooks and (
                own_set or not custom_state) and not isinstance(o, (BaseException,)):
            self.used.add("reduce")
            return self.reduction(o, out)
        out["py/object"] = self.name(cls)
        if factory is not None:
            value = self.write(factory)
            out["py/default_factory" if "default_factory" in o else "default_factory"] = value
        elif isinstance(o, dict) and "default_factory" in o:
            out["py/default_factory"] = None
        if "__getnewargs_ex__" in hooks:
            args, kwargs = o.__getnewargs_ex__()
            out["py/newargsex"] = [self.write(tuple(args)), self.write(kwargs)]
        elif "__getnewargs__" in hooks:
            out["py/newargs"] = self.write(o.__getnewargs__())
        elif "__getinitargs__" in hooks:
            out["py/initargs"] = self.write(o.__getinitargs__())
        if custom_state:
            state = o.__getstate__()
            if state:
                out["py/state"] = self.write(state)
            return out
        if isinstance(o, dict):
            self.pairs(out, o)
            if getattr(o, "__dict__", None):
                out["__dict__"] = self.write_dict(o.__dict__)
            return out
        self.pairs(out, self.attributes(o))
        if isinstance(o, (list, set)):
            out["py/seq"] = [self.write(v) for v in o]
        elif isinstance(o, tuple) and not hooks:
            out["py/seq"] = [self.write(v) for v in o]
        return out

    def attributes(self, o):
        out = dict(getattr(o, "__dict__", {}))
        for name, member in inspect.getmembers_static(type(o), lambda m: isinstance(m, types.MemberDescriptorType)):
            if "__slots__" in vars(member.__objclass__) and hasattr(o, name):
                out[name] = getattr(o, name)
        return dict(reversed(out.items())) if self.reverse else out

    def reduction(self, o, out):
        parts = list(o.__reduce_ex__(2))
        parts += [None] * (6 - len(parts))
        func, args, state, items, pairs, setter = parts
        first = self.write(func)
        if func is copyreg.__newobj__ and not self.func_newobj:
            first = "py/newobj"
        doc = [first, self.write(args), self.write(state),
               None if items is None else self.write(tuple(items)),
               None if pairs is None else self.write(tuple((k, v) for k, v in pairs)), self.write(setter)]
        if self.long_reduce:
            doc = doc if doc[5] is not None else doc[:5]
        else:
            while len(doc) > 2 and doc[-1] is None:
                doc.pop()
        out["py/reduce"] = doc
        return out

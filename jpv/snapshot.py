"""Records everything reachable from a value so that later changes can be noticed."""

import array
import collections
import types

from . import compare, zoo
from .core import Violation, short


def parts(obj):
    """(description, children): what the object consists of, by identity."""
    t = type(obj)
    if t in compare.SCALARS or isinstance(obj, (type, types.FunctionType, types.BuiltinFunctionType,
                                                types.ModuleType)):
        return (repr(obj),), []
    if t is bytearray or isinstance(obj, array.array):
        return (bytes(obj),), []
    kids, desc = [], [t.__name__, id(t)]
    if isinstance(obj, (zoo.OneShot, zoo.BombIter)):
        # being consumed is what iterators are for
        kids.extend(obj._items if isinstance(obj, zoo.OneShot) else obj._vals)
        return (*desc, [id(x) for x in kids]), kids
    if isinstance(obj, (list, tuple)):
        base = list if isinstance(obj, list) else tuple
        items = list(base.__iter__(obj))
        kids.extend(items)
        desc.append([id(x) for x in items])
    elif isinstance(obj, dict):
        if isinstance(obj, collections.OrderedDict):
            items = list(collections.OrderedDict.items(obj))
        else:
            items = list(dict.items(obj))
        for k, v in items:
            kids += [k, v]
        desc.append([(id(k), id(v)) for k, v in items])
        if isinstance(obj, collections.defaultdict):
            desc.append(id(obj.default_factory))
    elif isinstance(obj, (set, frozenset)):
        base = set if isinstance(obj, set) else frozenset
        items = list(base.__iter__(obj))
        kids.extend(items)
        desc.append([id(x) for x in items])
    elif isinstance(obj, collections.deque):
        items = list(collections.deque.__iter__(obj))
        kids.extend(items)
        desc += [[id(x) for x in items], obj.maxlen]
    elif isinstance(obj, BaseException):
        kids.extend(obj.args)
        desc.append([id(x) for x in obj.args])
        desc += [id(obj.__cause__), id(obj.__traceback__)]
    elif isinstance(obj, (int, float, str)):
        base = int if isinstance(obj, int) else float if isinstance(obj, float) else str
        desc.append(base.__repr__(obj))
    elif not t.__module__.startswith(("jpv.", "collections", "types", "argparse", "builtins")):
        # library classes may fill private caches when they are merely read
        return (*desc, repr(obj)), []
    try:
        d = object.__getattribute__(obj, "__dict__")
    except AttributeError:
        d = None
    if isinstance(d, dict):
        kids.extend(d.values())
        desc.append([(k, id(v)) for k, v in d.items()])
    slots = compare.slot_items(obj)
    kids.extend(slots.values())
    desc.append([(k, id(v)) for k, v in slots.items()])
    return tuple(desc), kids


class Snapshot:
    def __init__(self, root):
        self.root = root
        self.seen = {}
        self.iters = []
        self.classes = {}
        todo = [root]
        while todo:
            obj = todo.pop()
            if id(obj) in self.seen:
                continue
            desc, kids = parts(obj)
            self.seen[id(obj)] = (obj, desc, kids)
            if isinstance(obj, zoo.OneShot):
                self.iters.append((obj, obj.pos))
            cls = type(obj)
            if cls not in self.classes and cls.__module__.startswith("jpv."):
                self.classes[cls] = {k: id(v) for k, v in vars(cls).items()}
            todo.extend(kids)

    def verify(self, what="encoding"):
        for obj, desc, _ in self.seen.values():
            now, _ = parts(obj)
            if now != desc:
                raise Violation(f"{what} changed {short(obj)}: {short(desc, 300)} became {short(now, 300)}")
        for cls, names in self.classes.items():
            now = {k: id(v) for k, v in vars(cls).items()
                   if k not in ("__abstractmethods__", "_abc_impl", "__annotations__", "__slotnames__")}
            for k in now:
                if now[k] != names.get(k):
                    raise Violation(f"{what} changed attribute {k} of class {cls.__name__}")

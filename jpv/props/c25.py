"""C25: memory sharing between NumPy views survives a round trip."""

import bz2
import warnings
import zlib

import jsonpickle
import numpy as np
from hypothesis import strategies as st
from jsonpickle.ext import numpy as np_ext

from .. import nparr, zoo
from ..core import Violation, lib, short

BUDGET = {"quick": 2200, "thorough": 30000}
COMPRESSION = {"zlib": zlib, "bz2": bz2, "none": None}
DTYPES = ["i4", "i4", "f8", "u1", "i2", "c16", "?", "S3", "U2", "M8[s]", "m8[D]", "pair", "mixed", "nested", "sub", "times", "V4"]
VIEWED = ["u1", "i2", "i4", "i8", "f4", "f8", "c8", "c16", "M8[s]", "m8[us]", "pair", "one", "sub"]
SHAPES = [(4,), (6,), (8,), (2, 3), (3, 4), (4, 4), (4, 4), (16,), (17,), (5, 5), (2, 3, 4), (3, 4, 2), (1,), (2, 1, 3), (0, 3), ()]

small = st.integers(-4, 4) | st.none()
op = st.one_of(
    st.tuples(st.just("slice"), st.lists(st.tuples(small, small, st.sampled_from([None, 1, 2, -1, -2, 3])), min_size=1, max_size=3)),
    st.tuples(st.just("slice"), st.lists(st.tuples(small, small, st.sampled_from([None, 1, 2, -1, -2, 3])), min_size=1, max_size=3)),
    st.tuples(st.just("item"), st.integers(0, 3)),
    st.tuples(st.just("axes"), st.integers(0, 5)),
    st.tuples(st.just("shape"), st.sampled_from(["flat", "tail2", "tail3", "F"])),
    st.tuples(st.just("dtype"), st.sampled_from(VIEWED)),
    st.tuples(st.just("dtype"), st.sampled_from(VIEWED)),
    st.tuples(st.just("swap"), st.none()),
    st.tuples(st.just("field"), st.integers(0, 3)),
    st.tuples(st.just("part"), st.sampled_from(["real", "imag"])),
    st.tuples(st.just("whole"), st.sampled_from(["view", "new", "view", "new", "diag", "cast", "readonly"])),
)


def strategy(tier):
    base = st.fixed_dictionaries({
        "dtype": st.tuples(st.sampled_from(DTYPES), st.sampled_from("<<<>")), "shape": st.sampled_from(SHAPES),
        "bits": st.lists(nparr.pattern, min_size=1, max_size=4),
        "order": st.sampled_from("CCF"), "writeable": st.sampled_from([True] * 15 + [False]),
    })
    return st.fixed_dictionaries({
        "bases": st.lists(base, min_size=1, max_size=3),
        "views": st.lists(st.tuples(st.integers(0, 9), st.lists(op, min_size=1, max_size=3)), min_size=1, max_size=6),
        "members": st.lists(st.integers(0, 11), min_size=3, max_size=9),
        "at": st.sampled_from(["list", "dict", "attr", "state", "nested"]),
        "threshold": st.sampled_from(["default", "default", 0, None, 4]),
        "compression": st.sampled_from(["default", "zlib", "bz2", "none"]),
        "writes": st.lists(st.tuples(st.integers(0, 9), st.integers(0, 40), nparr.pattern), min_size=2, max_size=6),
    })


def apply(arr, name, arg):
    if name == "slice":
        return arr[tuple(slice(*s) for s in arg[:arr.ndim])]
    if name == "item":
        return arr[arg % arr.shape[0]:][:1].reshape(arr.shape[1:]) if arr.ndim and arr.shape[0] else arr[...]
    if name == "axes":
        order = list(range(arr.ndim))
        for n in range(arg):
            order.insert(n % (arr.ndim or 1), order.pop()) if order else None
        return arr.transpose(order)
    if name == "shape":
        if arg == "flat":
            return arr.reshape(-1)
        if arg == "F":
            return arr.reshape(-1, order="F")
        n = int(arg[-1])
        return arr.reshape(-1, n) if arr.size % n == 0 else arr[...]
    if name == "dtype":
        return arr.view(nparr.make_dtype((arg, "<")))
    if name == "swap":
        return arr.view(arr.dtype.newbyteorder())
    if name == "field":
        return arr[arr.dtype.names[arg % len(arr.dtype.names)]] if arr.dtype.names else arr[...]
    if name == "part":
        return getattr(arr, arg) if arr.dtype.kind == "c" else arr[...]
    if arg == "view":
        return arr.view()
    if arg == "new":
        return arr[..., np.newaxis]
    if arg == "diag":
        return arr.diagonal() if arr.ndim > 1 else arr[...]
    if arg == "cast":
        return np.broadcast_to(arr, (2,) + arr.shape)
    view = arr[...]
    view.flags.writeable = False
    return view


def unsupported(arr, base):
    if not isinstance(arr, np.ndarray) or arr.dtype.hasobject:
        return True
    # text values exist for every pattern of these
    if base.dtype.kind in "U?" and arr.dtype.kind != base.dtype.kind:
        return True
    if arr.dtype.kind in "U?" and arr.dtype.kind != base.dtype.kind and base.dtype.names is None:
        return True
    owner = arr if arr.base is None else arr.base
    return not (isinstance(owner, np.ndarray) and owner.base is None and owner.flags.forc)


def has_text(dt):
    return dt.kind in "U?" or dt.names is not None and any(has_text(dt[n].base) for n in dt.names)


def settle(arr):
    """Makes the NaNs the usual one, as the text form has only that."""
    if arr.dtype.names is not None:
        for f in arr.dtype.names:
            settle(arr[f])
    elif arr.dtype.kind in "fc":
        for part in (arr.real, arr.imag) if arr.dtype.kind == "c" else (arr,):
            part[np.isnan(part)] = np.nan


def build(case):
    bases, arrays = [], []
    for spec in case["bases"]:
        arr = nparr.make_array({**spec, "writeable": True})
        settle(arr)
        arr.flags.writeable = spec["writeable"]
        bases.append(arr)
        arrays.append((arr, arr))
    for parent, ops in case["views"]:
        arr, base = arrays[parent % len(arrays)]
        for name, arg in ops:
            if name in ("dtype", "swap") and has_text(base.dtype):
                continue
            try:
                new = apply(arr, name, arg)
            except (ValueError, TypeError):
                # this array has no such view
                continue
            if not unsupported(new, base):
                arr = new
        arrays.append((arr, base))
    return [a for a, _ in arrays], len(bases)


def write(arr, where, raw):
    """Writes one element; the same for equal arrays."""
    if not arr.size or not arr.flags.writeable:
        return False
    at = np.unravel_index(where % arr.size, arr.shape)
    value = np.zeros((1,), arr.dtype)
    nparr.fill(value, [raw])
    arr[at] = value[0]
    return True


def check(case, ctx):
    opts = {}
    if case["threshold"] != "default":
        opts["ndarray_size_threshold"] = case["threshold"]
    if case["compression"] != "default":
        opts["ndarray_compression"] = COMPRESSION[case["compression"]]
    np_ext.register_handlers(ndarray_mode="raise", **opts)
    try:
        run(case, ctx)
    finally:
        np_ext.unregister_handlers()


def place(members, at):
    if at == "list":
        return members
    if at == "dict":
        return {f"k{n}": m for n, m in enumerate(members)}
    if at == "nested":
        return [[m, n] for n, m in enumerate(members)]
    cls = zoo.Plain if at == "attr" else zoo.StateDict
    obj = cls.__new__(cls)
    for n, m in enumerate(members):
        setattr(obj, f"k{n}", m)
    return obj


def unplace(obj, at, n):
    if at == "list":
        return obj
    if at == "dict":
        return list(obj.values())
    if at == "nested":
        return [m[0] for m in obj]
    return [getattr(obj, f"k{i}") for i in range(n)]


def run(case, ctx):
    arrays, nbases = build(case)
    shared = zoo.Plain.__new__(zoo.Plain)
    shared.x = 1
    others = [shared, [shared, "y"]]
    pool = arrays + others
    members = [pool[n % len(pool)] for n in case["members"]]
    # the pool in full, in another order, so that nothing depends on the order of appearance
    members += pool[::-1] if len(case["members"]) % 2 else []
    obj = place(members, case["at"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        text = lib("encode", jsonpickle.encode, obj)
        back = unplace(lib("decode", jsonpickle.decode, text), case["at"], len(members))
    if len(back) != len(members):
        raise Violation(f"{len(members)} members became {len(back)}")
    first = {}
    for n, m in enumerate(members):
        first.setdefault(id(m), n)
        if back[n] is not back[first[id(m)]]:
            raise Violation(f"[{n}] is not the same object as [{first[id(m)]}] from {short(text, 600)}")

    def compare(when):
        for n, (a, b) in enumerate(zip(members, back)):
            if isinstance(a, np.ndarray):
                nparr.same_array(a, b, f"{when} [{n}]")
                if a.flags.writeable != b.flags.writeable:
                    raise Violation(f"{when} [{n}]: expected writeable={a.flags.writeable}")
            elif type(a) is not type(b) or isinstance(a, list) and (len(b) != 2 or type(b[0]) is not zoo.Plain or b[1] != "y"):
                raise Violation(f"{when} [{n}]: expected {short(a)}, got {short(b)}")
    try:
        compare("decoded")
        reals = [n for n, m in enumerate(members) if isinstance(m, np.ndarray)]
        related = False
        for who, where, raw in case["writes"]:
            if not reals:
                break
            n = reals[who % len(reals)]
            if write(members[n], where, raw):
                write(back[n], where, raw)
                related = related or sum(np.may_share_memory(members[n], members[k]) for k in reals) > 1
                compare(f"after writing to [{n}]")
        ctx.nontrivial = related
        ctx.label("written" if related else "read")
        if any(isinstance(m, np.ndarray) and m.base is not None for m in members):
            ctx.label("views")
    except Violation as exc:
        raise Violation(f"{exc} from {short(text, 600)}") from exc

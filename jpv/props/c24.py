"""C24: NumPy arrays, scalars and dtypes round-trip exactly."""

import array
import bz2
import warnings
import zlib

import jsonpickle
import numpy as np
from hypothesis import strategies as st
from jsonpickle.ext import numpy as np_ext

from .. import nparr, zoo
from ..core import Violation, lib, outcome, short

BUDGET = {"quick": 2600, "thorough": 40000}
COMPRESSION = {"zlib": zlib, "bz2": bz2, "none": None}
UFUNCS = ["add", "sin", "maximum", "logical_and", "isnan"]
SOURCES = ["bytes", "bytearray", "memoryview", "kcopy", "offset", "strided", "sub", "array", "interface", "interface"]
DTYPES = ["(2,)i4", "S", "U", "V", "M8", "(2,3)f4"]


def strategy(tier):
    item = st.one_of(
        st.tuples(st.just("array"), nparr.array_spec()),
        st.tuples(st.just("array"), nparr.array_spec()),
        st.tuples(st.just("array"), nparr.array_spec()),
        st.tuples(st.just("buffer"), st.tuples(nparr.array_spec(), st.sampled_from(SOURCES))),
        st.tuples(st.just("scalar"), nparr.array_spec()),
        st.tuples(st.just("dtype"), nparr.dtype_spec | st.sampled_from(DTYPES).map(lambda d: (d, "<"))),
        st.tuples(st.just("ufunc"), st.sampled_from(UFUNCS)),
        st.tuples(st.just("plain"), st.sampled_from(["x", 1, None])),
    )
    return st.fixed_dictionaries({
        "items": st.lists(item, min_size=1, max_size=4),
        "refs": st.lists(st.integers(0, 3), max_size=3),
        "at": st.sampled_from(["list", "list", "root", "dict", "attr", "tuple", "state"]),
        "threshold": st.sampled_from(["default", 16, 0, 1, 4, None, 1000]),
        "compression": st.sampled_from(["default", "zlib", "bz2", "none"]),
        "handler": st.sampled_from(["view"] * 4 + ["binary", "text"]),
        "mode": st.sampled_from(["warn", "ignore", "raise"]),
        "backend": st.sampled_from([None, "json", "simplejson"]),
    })


class Sub(np.ndarray):
    """Its data, at least, has to come back."""


class Owner:
    """Only offers the array interface."""

    def __init__(self, arr):
        self.arr = arr
        self.__array_interface__ = arr.__array_interface__


def source(arr, via):
    """The same array, with memory of another kind."""
    if via == "own" or arr.dtype.hasobject:
        return arr
    if via == "kcopy":
        # neither in C nor in Fortran order
        return np.stack([arr, arr]).swapaxes(0, -1).copy("K")
    if via == "sub":
        return arr.view(Sub)
    if not arr.size or not arr.dtype.itemsize:
        return arr
    if via == "interface":
        new = np.asarray(Owner(arr))
        # (some layouts of records cannot be told this way)
        return new if new.dtype == arr.dtype else arr
    raw = arr.tobytes()
    if via == "array":
        pad = len(raw) % 3 * 8
        return np.ndarray(arr.shape, arr.dtype, buffer=array.array("B", b"#" * pad + raw + b"#"), offset=pad)
    if via == "offset":
        pad = 8 + len(raw) % 5
        return np.ndarray(arr.shape, arr.dtype, buffer=bytearray(b"#" * pad + raw + b"#"), offset=pad)
    if via == "strided":
        step = arr.dtype.itemsize * 2
        wide = b"".join(raw[n:n + step // 2] + b"#" * (step // 2) for n in range(0, len(raw), step // 2))
        strides = tuple(2 * s for s in np.zeros(arr.shape, arr.dtype).strides)
        return np.ndarray(arr.shape, arr.dtype, buffer=memoryview(bytearray(wide)), strides=strides)
    if via == "memoryview":
        raw = memoryview(bytearray(raw))
    elif via == "bytearray":
        raw = bytearray(raw)
    return np.frombuffer(raw, arr.dtype).reshape(arr.shape)


def make(item):
    kind, spec = item
    if kind == "array":
        return nparr.make_array(spec)
    if kind == "buffer":
        return source(nparr.make_array(spec[0]), spec[1])
    if kind == "scalar":
        arr = nparr.make_array({**spec, "shape": (1,)})
        return arr[0] if arr.dtype.kind != "O" else np.float32(1.5)
    if kind == "dtype":
        return np.dtype(spec[0]) if spec[0] in DTYPES else nparr.make_dtype(spec)
    return getattr(np, spec) if kind == "ufunc" else spec


def copied(values):
    """Whether there are arrays of which only a copy can be stored."""
    return any(isinstance(v, np.ndarray) and isinstance(v.base, Owner) for v in values)


def register(case, values=()):
    mode = case["mode"]
    if mode == "raise" and any(kind == "buffer" for kind, _ in case["items"]) and not copied(values):
        mode = "warn"  # not all foreign memory can be stored by reference
    opts = {"ndarray_mode": mode}
    if case["threshold"] != "default":
        opts["ndarray_size_threshold"] = case["threshold"]
    if case["compression"] != "default":
        opts["ndarray_compression"] = COMPRESSION[case["compression"]]
    np_ext.register_handlers(**opts)
    if case["handler"] == "text":
        jsonpickle.handlers.register(np.ndarray, np_ext.NumpyNDArrayHandler, base=True)
    elif case["handler"] == "binary":
        named = {k[len("ndarray_"):]: v for k, v in opts.items() if k != "ndarray_mode"}
        jsonpickle.handlers.register(np.ndarray, np_ext.NumpyNDArrayHandlerBinary(**named), base=True)


def same(a, b, path, case):
    if isinstance(a, np.ndarray):
        if type(a) is Sub and isinstance(b, np.ndarray):
            a, b = a.view(np.ndarray), b.view(np.ndarray)
        if case["handler"] == "text":
            a = a.astype(a.dtype.newbyteorder("=")) if a.dtype.names is None else a
        nparr.same_array(a, b, path)
        if b.flags.writeable != a.flags.writeable and case["handler"] != "text":
            raise Violation(f"{path}: expected writeable={a.flags.writeable}")
    elif isinstance(a, np.generic):
        if type(b) is not type(a) or not isinstance(b, np.generic):
            raise Violation(f"{path}: expected {type(a)}, got {short(b)}")
        want = a.dtype if a.dtype.names is not None else a.dtype.newbyteorder("=")
        if b.dtype != want:
            raise Violation(f"{path}: expected dtype {want}, got {b.dtype}")
        if nparr.plain_values(np.array([a])) != nparr.plain_values(np.array([b])):
            raise Violation(f"{path}: expected {a!r}, got {b!r}")
    elif isinstance(a, np.dtype):
        if not isinstance(b, np.dtype) or a != b or a.isalignedstruct != b.isalignedstruct or str(a) != str(b):
            raise Violation(f"{path}: expected {a!r}, got {b!r}")
    elif a is not b and (type(a) is not type(b) or a != b):
        raise Violation(f"{path}: expected {a!r}, got {short(b)}")


def check(case, ctx):
    values = [make(i) for i in case["items"]]
    if case["at"] == "root":
        values = values[:1]
    register(case, values)
    try:
        run(case, values, ctx)
    finally:
        np_ext.unregister_handlers()


def run(case, values, ctx):
    ctx.nontrivial = any(isinstance(v, (np.ndarray, np.generic, np.dtype)) for v in values)
    for i in case["items"]:
        ctx.label(i[0])
    seq = values + [values[r % len(values)] for r in case["refs"]]
    if case["at"] == "root":
        seq = seq[:1]
        obj = seq[0]
    elif case["at"] == "list":
        obj = seq
    elif case["at"] == "tuple":
        obj = tuple(seq)
    elif case["at"] == "dict":
        obj = {f"k{n}": v for n, v in enumerate(seq)}
    else:
        obj = (zoo.StateDict if case["at"] == "state" else zoo.Plain).__new__(zoo.StateDict if case["at"] == "state" else zoo.Plain)
        obj.items = seq
        obj.first = seq[0]
    backend = None
    if case["backend"]:
        backend = jsonpickle.backend.JSONBackend()
        backend.set_preferred_backend(case["backend"])
    if copied(values) and case["handler"] == "view":
        ctx.label(f"copied, {case['mode']}")
        if case["mode"] == "raise":
            got = outcome(jsonpickle.encode, obj, backend=backend)
            if got[:2] != ("exc", ValueError):
                raise Violation(f"memory that cannot be stored was not refused: {short(got)}")
            return
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            lib("encode", jsonpickle.encode, obj, backend=backend)
        told = [w for w in log if w.category is UserWarning]
        if case["mode"] == "warn" and not told:
            raise Violation("a copy was stored without a warning")
        if case["mode"] == "ignore" and told:
            raise Violation(f"there was a warning: {told[0].message}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        text = lib("encode", jsonpickle.encode, obj, backend=backend)
        back = lib("decode", jsonpickle.decode, text, backend=backend)
    if type(back) is not type(obj) and case["at"] != "root":
        raise Violation(f"got {short(back)}")
    if case["at"] == "root":
        got = [back]
    elif case["at"] == "dict":
        got = list(back.values())
    elif case["at"] in ("attr", "state"):
        got = back.items
        same(seq[0], back.first, "first", case)
    else:
        got = list(back)
    if len(got) != len(seq):
        raise Violation(f"{len(seq)} values became {len(got)}")
    try:
        for n, (a, b) in enumerate(zip(seq, got)):
            same(a, b, f"[{n}]", case)
    except Violation as exc:
        raise Violation(f"{exc} from {short(text)}") from exc
    for n in range(len(values), len(seq)):
        first = next(i for i, v in enumerate(values) if v is seq[n])
        if isinstance(seq[n], np.ndarray) and got[n] is not got[first]:
            raise Violation("an array shared in the input is not shared in the output")

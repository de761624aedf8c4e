"""C29: stored documents of arrays and data frames stay readable.

The documents are written here, in the layouts of the releases so far, without
using any of the library.
"""

import base64
import bz2
import csv
import io
import json
import warnings
import zlib

import jsonpickle
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from jsonpickle.ext import numpy as np_ext
from jsonpickle.ext import pandas as pd_ext

from .. import nparr
from ..core import Violation, lib, short
from . import c26

BUDGET = {"quick": 1500, "thorough": 15000}
COMPRESSION = {"zlib": zlib, "bz2": bz2, "none": None}
TEXTS = ["a", "b", "é", "x,y", 'say "hi"', "two\nlines", "1.5", "true", " lead", "\U0001f600", "0012", "a;b", "it's", "#1"]
FLOATS = [0.0, 1.5, -2.25, 1e10, 0.125, float("inf"), float("-inf"), 3.0, None]
OBJECTS = [None, 1, "a", 1.5, True, 2**70, "", "py/id"]
#: the codes that stand for the types of columns in stored documents
CODES = {
    "np/b": "bool", "np/c128": "complex128", "np/s": "str", "np/o": "object", "pd/in": "int8", "pd/u": "uint8", "pd/i16": "int16",
    "pd/u16": "uint16", "pd/i32": "int32", "pd/u32": "uint32", "pd/i64": "int64", "pd/u64": "uint64", "pd/f": "float32",
    "pd/f64": "float64", "np/f": "float16", "np/d64[ns]": "datetime64[ns]", "np/d64[us]": "datetime64[us]", "np/d64[s]": "datetime64[s]",
    "np/d64[ms]": "datetime64[ms]", "np/t64[ns]": "timedelta64[ns]", "np/t64[us]": "timedelta64[us]", "np/t64[s]": "timedelta64[s]",
    "pd/c": "category", "pd/b": "boolean", "pd/s": "string", "py/jp": "nested",
    "int64": "int64", "float64": "float64", "Int64": "Int64",
}
CSV_TYPES = ["int64", "int64", "float64", "bool", "object", "object", "datetime64[ns]", "timedelta64[ns]", "complex128", "int8", "uint64", "float32"]
LABELS = ["a", "b", "c d", "é", "x,y", 'q"', "1", "value", "index", "a.b"]
INDEXES = ["range", "int", "text", "time", "multi"]
#: where the classes have been found over time
CLASSES = {
    "frame": ["pandas.core.frame.DataFrame", "pandas.DataFrame"],
    "series": ["pandas.core.series.Series", "pandas.Series"],
    "range": ["pandas.core.indexes.range.RangeIndex", "pandas.RangeIndex"],
    "index": ["pandas.core.indexes.base.Index", "pandas.Index"],
    "time": ["pandas.core.indexes.datetimes.DatetimeIndex", "pandas.DatetimeIndex"],
    "multi": ["pandas.core.indexes.multi.MultiIndex", "pandas.MultiIndex"],
    "stamp": ["pandas._libs.tslibs.timestamps.Timestamp", "pandas.Timestamp"],
    "period": ["pandas._libs.tslibs.period.Period", "pandas.Period"],
    "interval": ["pandas._libs.interval.Interval", "pandas.Interval"],
}

number = st.integers(0, 2**64 - 1) | st.integers(0, 60)


def strategy(tier):
    rows = st.sampled_from([0, 1, 2, 3, 4, 5, 60])
    index = st.tuples(st.sampled_from(INDEXES), st.integers(0, 9), st.sampled_from([None, None, "n"]))

    def column(n, types):
        return st.tuples(st.sampled_from(types), st.lists(number, min_size=n, max_size=n))

    def frame(n):
        return st.fixed_dictionaries({
            "kind": st.just("frame"), "rows": st.just(n), "index": index,
            "columns": st.lists(column(n, sorted(CODES)), min_size=1, max_size=5),
            "labels": st.permutations(LABELS + [0, 1]).map(lambda p: p[:5]), "name": st.sampled_from([None, None, "n"]),
            "index dtype": st.booleans(), "small": st.booleans(),
        })

    def table(n):
        return st.fixed_dictionaries({
            "kind": st.just("table"), "rows": st.just(n), "index": index,
            "columns": st.lists(column(n, CSV_TYPES), min_size=0, max_size=5),
            "labels": st.permutations(LABELS).map(lambda p: p[:5]),
            "levels": st.sampled_from([1, 1, 1, 2]), "names": st.sampled_from(["none", "null", "some"]), "small": st.booleans(),
        })

    def other(n):
        return st.fixed_dictionaries({
            "kind": st.sampled_from(["series", "index"]), "rows": st.just(n), "index": index, "nums": st.lists(number, min_size=n, max_size=n),
            "name": st.sampled_from([None, "n", 3]), "small": st.booleans(),
        })
    scalar = st.fixed_dictionaries({"kind": st.sampled_from(["stamp", "period", "interval", "tinterval"]), "number": number, "other": st.integers(0, 20)})
    array = st.fixed_dictionaries({
        "kind": st.just("array"), "array": nparr.array_spec(),
        "layout": st.sampled_from(["text", "binary", "binary", "objects", "view", "view", "list view", "bytes view", "scalar", "dtype"]),
        "order given": st.booleans(), "view": st.tuples(st.integers(0, 3), st.integers(0, 3), st.sampled_from([1, 2, 3, -1, -2])),
        "base": st.sampled_from(["text", "binary"]),
    })
    value = st.sampled_from(["array"] * 4 + ["table"] * 3 + ["frame"] * 3 + ["other", "scalar"]).flatmap(
        lambda k: {"array": array, "scalar": scalar}.get(k) or rows.flatmap({"table": table, "frame": frame, "other": other}[k]))
    return st.fixed_dictionaries({
        "value": value, "twice": st.booleans(), "old": st.booleans(),
        "compression": st.sampled_from(["zlib", "zlib", "bz2", "none"]),
    })


# ------------------------------------------------------------------------ arrays


def b64(raw):
    return base64.b64encode(raw).decode()


def array_type(arr, given):
    """The dtype, and the byte order that is stored beside it."""
    dt = arr.dtype
    out = {"dtype": str(dt)}
    if dt.names is None and dt.byteorder != "|":
        order = {"=": "<"}.get(dt.byteorder, dt.byteorder)
        if given and order == ">":
            out["dtype"] = str(dt.newbyteorder("N"))
        out["byteorder"] = order
    return out


def text_array(arr, given):
    out = {"py/object": "numpy.ndarray", **array_type(arr, given), "values": arr.tolist()}
    if out["byteorder" if "byteorder" in out else "dtype"] == "<" or not given and out["dtype"].startswith(">"):
        out.pop("byteorder")
    if 0 in arr.shape or given and arr.ndim:
        out["shape"] = list(arr.shape)
    return flags(arr, out)


def flags(arr, out):
    if not arr.flags.writeable:
        out["writeable"] = False
    return out


def binary_array(arr, given, compression):
    raw = arr.tobytes(order="A")
    raw = compression.compress(raw) if compression else raw
    out = {"py/object": "numpy.ndarray", "values": b64(raw), "shape": list(arr.shape), **array_type(arr, given)}
    if arr.flags.fnc:
        out["order"] = "F"
    return flags(arr, out)


def array_document(spec, compression):
    layout, given = spec["layout"], spec["order given"]
    arr = spec["array"]
    name, order = arr["dtype"]
    if layout in ("text", "list view"):
        name = {"c8": "f4", "c16": "f8", "g": "f8", "G": "f8"}.get(name, name if name in nparr.PLAIN or name[0] == "U" else "i4")
    elif name == "O" and layout != "objects" or name in ("titles", "subin") or name[0] in "SUV" and name[1:] == "0":
        name = "i4"
    if layout in ("view", "bytes view") and name in ("U1", "U4"):
        name = "f8"
    if layout == "list view":
        name, order = "i8", "<"
    arr = nparr.make_array({**arr, "dtype": (name, order), "shape": arr["shape"]})
    if layout == "text":
        return text_array(arr, given), arr
    if layout == "binary":
        return binary_array(arr, given, compression), arr
    if layout == "objects":
        pool = [OBJECTS[len(b) + b[0] & 7] for b in spec["array"]["bits"]]
        flat = [pool[i % len(pool)] for i in range(arr.size)]
        want = np.empty(arr.size, object)
        want[:] = flat
        want = want.reshape(arr.shape)
        raw = json.dumps(want.tolist()).encode()
        raw = compression.compress(raw) if compression else raw
        return {"py/object": "numpy.ndarray", "dtype": "object", "values": b64(raw), "shape": list(arr.shape)}, want
    if layout == "scalar":
        value = arr.ravel()[:1]
        if not value.size or value.dtype.kind not in "iufb?U" or value.dtype.char == "g":
            value = np.array([7], "i2")
        value = value.astype(value.dtype.newbyteorder("="))
        name = value.dtype.name if value.dtype.kind != "b" else "bool"
        name = {"U": "str_"}.get(value.dtype.kind, name)
        item = value.tolist()[0]
        return {"py/object": f"numpy.{name}", "dtype": str(value.dtype), "value": item}, value[0]
    if layout == "dtype":
        return {"py/object": "numpy.dtype", "dtype": str(arr.dtype)}, arr.dtype
    # views
    arr = arr.ravel() if not arr.flags.fnc else arr.ravel().copy()
    first, last, step = spec["view"]
    base = arr.copy()
    if layout == "list view":
        view = base[first:len(base) - last:step]
        doc = base.tolist()
    elif layout == "bytes view":
        base.flags.writeable = False
        view = base[first:len(base) - last:step]
        doc = {"py/b64": b64(base.tobytes())}
    else:
        base.flags.writeable = spec["array"]["writeable"]
        view = base[first:len(base) - last:step]
        textual = base.dtype.kind in "iuf" and base.dtype.char != "g" and spec["base"] == "text"
        doc = text_array(base, given) if textual else binary_array(base, given, compression)
    if not base.size or not base.itemsize:
        return text_array(np.arange(3), given), np.arange(3)
    out = {"py/object": "numpy.ndarray", "base": doc, **array_type(view, given), "shape": list(view.shape)}
    offset = view.ctypes.data - base.ctypes.data
    if offset and view.size:
        out["offset"] = offset
    if not view.flags.c_contiguous or given:
        out["strides"] = list(view.strides)
    return flags(view, out), view


# ------------------------------------------------------------------------ tables


def packed(text, small):
    """The text as it is, or compressed."""
    if small or not text.strip():
        return {"values": text, "txt": True}
    return {"values": b64(zlib.compress(text.encode())), "comp": True, "txt": False}


def stamp(case, value):
    return {"py/object": pick(case, "stamp"), "values": "", "txt": True, "meta": {"isoformat": value.isoformat()}}


def pick(case, what):
    return CLASSES[what][0 if case["old"] else 1]


def index_of(case, spec, n, small=True):
    kind, seed, name = spec
    nums = [seed + 3 * k for k in range(n)]
    if kind == "multi" and not n:
        kind = "int"
    meta = {"name": name}
    if kind == "range":
        want = pd.RangeIndex(seed, seed + n, name=name)
        items, meta["dtype"] = list(range(seed, seed + n)), "int64"
    elif kind == "int":
        want = pd.Index([x * 7919 % 1000 for x in nums], dtype="int64", name=name)
        items, meta["dtype"] = want.tolist(), "int64"
    elif kind == "text":
        want = pd.Index([f"{TEXTS[x % 14]}{x}" for x in nums], dtype=object, name=name)
        items, meta["dtype"] = want.tolist(), "object"
    elif kind == "time":
        want = pd.DatetimeIndex(np.array([x * 3600 * 10**9 + 10**18 for x in nums], "M8[ns]"), name=name)
        items, meta["dtype"] = [stamp(case, t) for t in want], "datetime64[ns]"
    else:
        want = pd.MultiIndex.from_tuples([("xy"[x % 2], x) for x in nums], names=[name, None])
        items, meta = [{"py/tuple": list(t)} for t in want], {"dtype": "object", "names": [name, None]}
    cls = pick(case, kind if kind in ("range", "time", "multi") else "index")
    return {"py/object": cls, **packed(json.dumps(items), small), "meta": meta}, want


def cell(x):
    if x is None or x is pd.NaT:
        return ""
    if isinstance(x, (pd.Timestamp, pd.Timedelta)):
        return str(x)
    return repr(x) if isinstance(x, (float, complex)) else str(x)


def table_column(dtype, nums):
    """The elements, and the column they make."""
    if dtype == "float64" or dtype == "float32":
        items = [FLOATS[x % 9] for x in nums]
    elif dtype == "bool":
        items = [bool(x % 2) for x in nums]
    elif dtype == "object":
        items = [TEXTS[x % 14] for x in nums]
    elif dtype == "datetime64[ns]":
        items = [pd.NaT if x % 7 == 6 else pd.Timestamp(int(x % 10**9) + 10**9, unit="s") for x in nums]
        if items and items[0] is pd.NaT:
            items[0] = pd.Timestamp(0)
    elif dtype == "timedelta64[ns]":
        items = [pd.NaT if x % 7 == 6 else pd.Timedelta(int(x % 10**15) - 10**14, "ns") for x in nums]
    elif dtype == "complex128":
        items = [complex(x % 9, x % 5 - 2) for x in nums]
    else:
        items = np.array([x & 0xFF if dtype == "int8" else x for x in nums], "u8").astype(dtype).tolist()
    return items, pd.Series(items, dtype=dtype)


def table_document(case, spec):
    n = spec["rows"]
    index, want_index = index_of(case, spec["index"], n)
    levels = spec["levels"]
    labels = spec["labels"][:len(spec["columns"])]
    cols = []
    for dtype, nums in spec["columns"]:
        if levels == 2 or dtype == "complex128" and not n:
            dtype = "int64"
        cols.append((dtype, *table_column(dtype, nums)))
    if levels == 2 and not n:
        levels = 1
    out = io.StringIO()
    writer = csv.writer(out, lineterminator="\n")
    if levels == 2:
        want_columns = [(label, f"s{k % 2}") for k, label in enumerate(labels)]
        writer.writerow(labels)
        writer.writerow([c[1] for c in want_columns])
        dtypes = {repr(c): t for c, (t, _, _) in zip(want_columns, cols)}
    else:
        want_columns = labels
        writer.writerow(labels)
        dtypes = {c: t for c, (t, _, _) in zip(want_columns, cols)}
    for r in range(n if cols else 0):
        writer.writerow([cell(items[r]) for _, items, _ in cols])
    meta = {"dtypes": dtypes, "index": json.dumps(index)}
    names = [None] * levels
    if levels == 2:
        meta["header"] = [0, 1]
    elif spec["names"] != "none":
        meta["header"] = [0]
    if spec["names"] != "none":
        names = ["lev", None][:levels] if spec["names"] == "some" else names
        meta["column_level_names"] = names
    if not cols:
        index, want_index = index_of(case, spec["index"], 0)
        meta["index"] = json.dumps(index)
        meta.pop("column_level_names", None)
        names = [None]
        levels = 1
    want = pd.DataFrame(dict(enumerate(c[2] for c in cols)), index=pd.RangeIndex(n if cols else 0))
    want.index = want_index
    if cols:
        want.columns = pd.MultiIndex.from_tuples(want_columns, names=names) if levels == 2 else pd.Index(want_columns, name=names[0])
    return {"py/object": pick(case, "frame"), **packed(out.getvalue(), spec["small"]), "meta": meta}, want


def frame_column(case, code, nums):
    dtype = CODES[code]
    if dtype == "nested":
        items = [[1], {"a": 2}, None, "x"]
        items = [items[x % 4] for x in nums]
        return [json.dumps(i) for i in items], pd.Series(items, dtype=object)
    if dtype in ("float64", "float32", "float16"):
        items = [FLOATS[x % 8] if x % 8 != 3 else 0.5 for x in nums]
        return items, pd.Series(items, dtype=dtype)
    if dtype == "bool":
        items = [bool(x % 2) for x in nums]
    elif dtype == "boolean":
        items = [bool(x % 2) for x in nums]
    elif dtype in ("str", "string", "category"):
        items = [TEXTS[x % 14] for x in nums]
        if dtype == "category":
            return items, pd.Series(items, dtype="str").astype("category")
    elif dtype == "object":
        items = [OBJECTS[x % 8] for x in nums]
    elif dtype == "complex128":
        items = [complex(x % 9, x % 5 - 2) for x in nums]
        return [{"py/object": "builtins.complex", "py/newargs": {"py/tuple": [c.real, c.imag]}} for c in items], pd.Series(items, dtype=dtype)
    elif dtype.startswith("datetime64"):
        items = [pd.Timestamp(int(x % 10**9) + 10**9, unit="s") for x in nums]
        return [stamp(case, t) for t in items], pd.Series(items, dtype=dtype)
    elif dtype.startswith("timedelta64"):
        items = [int(x % 10**6) for x in nums]
        docs = [{"py/reduce": [{"py/type": "datetime.timedelta"}, {"py/tuple": [0, s, 0]}]} for s in items]
        return docs, pd.Series(np.array(items, "m8[s]").astype(dtype.replace("timedelta64", "m8")))
    else:
        items = np.array([x & 0x7F if dtype.endswith("8") else x for x in nums], "u8").astype(dtype.lower()).tolist()
    return items, pd.Series(items, dtype=dtype)


def frame_document(case, spec):
    n = spec["rows"]
    labels = spec["labels"][:len(spec["columns"])]
    kind, seed, name = spec["index"]
    index, want_index = index_of(case, spec["index"], n)
    texts, codes, series = {}, [], []
    for label, (code, nums) in zip(labels, spec["columns"]):
        items, ser = frame_column(case, code, nums)
        texts[label if isinstance(label, str) else f"json://{label}"] = items
        codes.append([code, 1])
        series.append(ser)
    if len(codes) > 1 and codes[0][0] == codes[1][0]:
        codes[:2] = [[codes[0][0], 2]]
    values = want_index.tolist()
    meta = {
        "dtypes_rle": codes,
        "index": json.dumps([stamp(case, v) if isinstance(v, pd.Timestamp) else {"py/tuple": list(v)} if isinstance(v, tuple) else v for v in values]),
        "index_names": [name, None] if isinstance(want_index, pd.MultiIndex) else name,
        "columns": json.dumps(labels), "column_names": spec["name"],
        "is_multiindex": isinstance(want_index, pd.MultiIndex), "is_multicolumns": False,
    }
    if spec["index dtype"] or kind in ("text", "time"):
        # newer documents have it; without it the labels' own type has to do
        meta["index_dtype"] = None if isinstance(want_index, pd.MultiIndex) else str(want_index.dtype)
    want = pd.DataFrame(dict(enumerate(series)), index=pd.RangeIndex(n))
    want.index = want_index
    want.columns = pd.Index(labels, name=spec["name"])
    return {"py/object": pick(case, "frame"), **packed(json.dumps(texts), spec["small"]), "meta": meta}, want


def document(case):
    spec = case["value"]
    kind = spec["kind"]
    if kind == "array":
        return array_document(spec, COMPRESSION[case["compression"]])
    if kind == "table":
        return table_document(case, spec)
    if kind == "frame":
        return frame_document(case, spec)
    if kind == "index":
        return index_of(case, spec["index"], spec["rows"], spec["small"])
    if kind == "series":
        index, want = index_of(case, spec["index"], spec["rows"], spec["small"])
        arr = np.array([x % 2**60 for x in spec["nums"]], "i8")
        doc = text_array(arr, False) if spec["small"] else binary_array(arr, False, COMPRESSION[case["compression"]])
        doc.pop("byteorder", None)
        return ({"py/object": pick(case, "series"), "name": spec["name"], "index": index, "values": doc},
                pd.Series(arr, index=want, name=spec["name"]))
    x, o = spec["number"], spec["other"]
    at = pd.Timestamp(int(x % 10**18), unit="ns")
    if kind == "stamp":
        return stamp(case, at), at
    if kind == "period":
        want = at.to_period(c26.PERIODS[o % len(c26.PERIODS)])
        meta = {"start_time": json.dumps(stamp(case, want.start_time)), "freqstr": want.freqstr}
    else:
        closed = ["left", "right", "both", "neither"][o % 4]
        if kind == "interval":
            want = pd.Interval(x % 1000, x % 1000 + o, closed)
            meta = {"left": json.dumps(want.left), "right": json.dumps(want.right), "closed": closed}
        else:
            want = pd.Interval(at, at + pd.Timedelta(o, "s"), closed)
            meta = {"left": json.dumps(stamp(case, want.left)), "right": json.dumps(stamp(case, want.right)), "closed": closed}
    return {"py/object": pick(case, "period" if kind == "period" else "interval"), "values": "", "txt": True, "meta": meta}, want


def same(want, got, case, path):
    if isinstance(want, np.ndarray):
        nparr.same_array(want, got, path)
        if got.flags.writeable != want.flags.writeable:
            raise Violation(f"{path}: expected writeable={want.flags.writeable}")
    elif isinstance(want, np.dtype):
        if not isinstance(got, np.dtype) or want != got:
            raise Violation(f"{path}: expected {want!r}, got {got!r}")
    elif isinstance(want, np.generic):
        if type(got) is not type(want) or want.dtype != got.dtype or nparr.plain_values(np.array([want])) != nparr.plain_values(np.array([got])):
            raise Violation(f"{path}: expected {want!r}, got {got!r}")
    else:
        c26.same(want, got, path)


def check(case, ctx):
    np_ext.unregister_handlers()
    pd_ext.register_handlers()
    np_ext.register_handlers(ndarray_mode="ignore", ndarray_compression=COMPRESSION[case["compression"]])
    try:
        run(case, ctx)
    finally:
        pd_ext.unregister_handlers()


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        doc, want = document(case)
        kind = case["value"]["kind"]
        ctx.label(kind if kind != "array" else case["value"]["layout"])
        ctx.nontrivial = not isinstance(want, (np.ndarray, pd.Index, pd.DataFrame, pd.Series)) or want.size > 0
        text = json.dumps([doc, {"py/id": 1}] if case["twice"] else doc)
        back = lib("decode", jsonpickle.decode, text)
        if case["twice"]:
            if type(back) is not list or len(back) != 2:
                raise Violation(f"got {short(back)}")
            if back[0] is not back[1]:
                raise Violation(f"the reference is not to the value: {short(back)} from {short(text)}")
            back = back[0]
        try:
            same(want, back, case, kind)
        except Violation as exc:
            raise Violation(f"{exc} from {short(text, 500)}") from exc

"""C26: pandas objects round-trip."""

import datetime
import decimal
import warnings

import jsonpickle
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from jsonpickle.ext import pandas as pd_ext

from .. import zoo
from ..core import Violation, lib, short

BUDGET = {"quick": 800, "thorough": 8000}
FLOATS = [0.0, -0.0, 1.5, 0.1, -2.25, 1e300, 5e-324, float("inf"), float("-inf"), float("nan"), 2.0**53, 3.0]
TEXTS = ["", "a", "b", "é", "\U0001f600", "a\nb", '"', "NaN", "None", "py/object", "json://x", "1", "py/id", "x" * 60, "1.5", "null"]
OBJECTS = [None, 1, 2**60 + 1, 2**70, -3, "a", "", "py/id", 1.5, 3.0, float("nan"), True, False, decimal.Decimal("1.50"),
           datetime.date(2020, 2, 29), b"\xff", 1 + 2j]
NESTED = [[1], [], (1, "a"), {"a": 1}, {}, {1, 2}, [[None]], {"k": [1, (2,)]}, (), None, 1, "a", 2**60 + 1, 3.5]
INTS = ["int64", "int8", "int16", "int32", "uint8", "uint16", "uint32", "uint64"]
UNITS = ["s", "ms", "us", "ns"]
ZONES = ["UTC", "Europe/Paris", "America/St_Johns", "UTC+05:30"]
PERIODS = ["M", "D", "Q-DEC", "h", "W-SUN", "Y-DEC", "W-WED", "Q-NOV", "Y-MAR", "2D", "15min", "B", "2W-TUE", "s", "100ms"]
INTERVALS = ["interval left", "interval both", "finterval right", "tinterval neither"]
DTYPES = (INTS + ["float64", "float32", "float16", "bool", "complex128", "complex64", "str", "str", "object", "object", "nested", "category", "intcat"]
          + [f"datetime64[{u}]" for u in UNITS] + [f"timedelta64[{u}]" for u in UNITS] + [f"tz {z}" for z in ZONES]
          + [f"period {p}" for p in PERIODS[:9]] + INTERVALS + ["Int8", "Int64", "UInt16", "Float64", "Float32", "boolean", "string"])
#: labels by kind; the labels of one axis are of one kind, as in practice
LABELS = ["range", "int", "str", "float", "datetime", "tz", "timedelta", "mixed", "multi", "multi", "int64", "bool", "period", "category", "uint8", "float32",
          *INTERVALS]
COLUMN_LABELS = ["str", "str", "str", "int", "multi", "range", "mixed", "datetime", "float", "period", "interval left"]
NAMES = [None, None, "n", "", "py/object", 0, 7]

number = st.integers(0, 2**64 - 1) | st.integers(0, 40)


def column(n):
    return st.tuples(st.sampled_from(DTYPES), st.lists(number, min_size=n, max_size=n))


def strategy(tier):
    rows = st.sampled_from([0, 1, 2, 3, 3, 4, 5, 40 if tier == "quick" else 120])

    def frame(n):
        return st.fixed_dictionaries({
            "kind": st.just("frame"), "rows": st.just(n),
            "columns": st.lists(column(n), min_size=1, max_size=5),
            "index": st.tuples(st.sampled_from(LABELS), st.integers(0, 12), st.sampled_from(NAMES)),
            "labels": st.tuples(st.sampled_from(COLUMN_LABELS), st.integers(0, 12), st.sampled_from(NAMES)),
        })

    def series(n):
        return st.fixed_dictionaries({
            "kind": st.just("series"), "rows": st.just(n), "column": column(n),
            "index": st.tuples(st.sampled_from(LABELS), st.integers(0, 12), st.sampled_from(NAMES)),
            "name": st.sampled_from(NAMES + [("a", 1)]),
        })

    def index(n):
        return st.fixed_dictionaries({
            "kind": st.just("index"), "rows": st.just(n), "column": column(n), "name": st.sampled_from(NAMES),
        }) | st.fixed_dictionaries({
            "kind": st.just("labels"), "rows": st.just(n),
            "index": st.tuples(st.sampled_from(LABELS), st.integers(0, 12), st.sampled_from(NAMES)),
        })
    scalar = st.fixed_dictionaries({"kind": st.just("scalar"), "what": st.sampled_from(["stamp", "tzstamp", "delta", "period", "interval", "tinterval"]),
                                    "number": number, "other": st.integers(0, 60)})
    value = st.sampled_from(["frame"] * 3 + ["series"] * 2 + ["index", "scalar"]).flatmap(
        lambda k: scalar if k == "scalar" else rows.flatmap({"frame": frame, "series": series, "index": index}[k]))
    return st.fixed_dictionaries({
        "values": st.lists(value, min_size=1, max_size=3),
        "refs": st.lists(st.integers(0, 3), max_size=2),
        "at": st.sampled_from(["list", "root", "dict", "attr"]),
    })


def stamps(nums, unit):
    """Numbers of microseconds around now, and missing ones."""
    out = []
    for x in nums:
        if x % 7 == 6:
            out.append(np.datetime64("NaT", unit))
        else:
            out.append(np.datetime64(int(x % 4 * 10**15 + x % (86400 * 10**6) - 10**15), "us").astype(f"M8[{unit}]"))
    return np.array(out, f"M8[{unit}]")


def intervals(kind, nums):
    kind, closed = kind.split()
    left = [x % 1000 for x in nums]
    right = [x % 1000 + x % 5 for x in nums]
    if kind == "finterval":
        left, right = [x / 8 - 2 for x in left], [x / 8 - 2 for x in right]
    if kind == "tinterval":
        left, right = pd.DatetimeIndex(np.array(left, "M8[h]").astype("M8[us]")), pd.DatetimeIndex(np.array(right, "M8[h]").astype("M8[us]"))
    dtype = {"interval": "int64", "finterval": "float64", "tinterval": "datetime64[us]"}[kind]
    return pd.arrays.IntervalArray.from_arrays(np.array(left, dtype), np.array(right, dtype), closed=closed)


def values(dtype, nums):
    """A series without labels."""
    if dtype in INTS:
        return pd.Series(np.array([x & 0xFF if dtype.endswith("8") else x for x in nums], "u8").astype(dtype))
    if dtype.startswith(("float", "complex")):
        with np.errstate(all="ignore"):
            if dtype.startswith("float"):
                return pd.Series(np.array([FLOATS[x % 12] for x in nums], "f8").astype(dtype))
            return pd.Series(np.array([complex(FLOATS[x % 10 + 2], FLOATS[x // 12 % 3 + 2]) for x in nums], "c16").astype(dtype))
    if dtype == "bool":
        return pd.Series([bool(x % 2) for x in nums], dtype=bool)
    if dtype in ("str", "string"):
        return pd.Series([None if x % 17 == 16 else TEXTS[x % 17] for x in nums], dtype=dtype)
    if dtype == "category":
        return pd.Series([TEXTS[x % 4] for x in nums], dtype="str").astype("category")
    if dtype == "intcat":
        return pd.Series([x % 5 for x in nums], dtype="int64").astype("category")
    if dtype in ("object", "nested"):
        pool = OBJECTS if dtype == "object" else NESTED
        out = np.empty(len(nums), object)
        for n, x in enumerate(nums):
            out[n] = pool[x % len(pool)]
        return pd.Series(out, dtype=object)
    if dtype.startswith("datetime64"):
        return pd.Series(stamps(nums, dtype[11:-1]))
    if dtype.startswith("timedelta64"):
        base = stamps(nums, "us") - np.datetime64(0, "us")
        return pd.Series(base.astype(dtype))
    if dtype.startswith("tz "):
        return pd.Series(stamps(nums, UNITS[len(nums) % 4])).dt.tz_localize("UTC").dt.tz_convert(dtype[3:])
    if dtype.startswith("period "):
        return pd.Series(pd.PeriodIndex(pd.DatetimeIndex(stamps(nums, "ns")), freq=dtype[7:]))
    if "interval " in dtype:
        return pd.Series(intervals(dtype, nums))
    if dtype == "boolean":
        return pd.Series([None if x % 3 == 2 else bool(x % 3) for x in nums], dtype=dtype)
    if dtype.startswith("Float"):
        return pd.Series([None if x % 5 == 4 else FLOATS[x % 5] for x in nums], dtype=dtype)
    return pd.Series([None if x % 5 == 4 else x % 100 if dtype != "Int64" else x % 2**62 for x in nums], dtype=dtype)


def labels(spec, n):
    kind, seed, name = spec
    nums = [seed + k for k in range(n)]
    if kind == "range":
        return pd.RangeIndex(seed, seed + 2 * n, 2, name=name)
    if kind in ("int", "int64") or kind == "mixed" and n < 2:
        return pd.Index([(x * 37) % 1009 - 20 if kind == "int" else x * 2**55 - 2**62 for x in nums], dtype="int64", name=name)
    if kind == "str":
        return pd.Index([TEXTS[x % 16] + (str(x) if x > 15 else "") for x in nums], dtype="str", name=name)
    if kind == "float":
        return pd.Index([x * 0.75 - 3 for x in nums], dtype="float64", name=name)
    if kind == "bool":
        return pd.Index([bool(x % 2) for x in nums], name=name) if n else pd.Index([True], name=name)[:0]
    if kind in ("datetime", "tz", "timedelta"):
        idx = pd.DatetimeIndex(np.array([x * 3600 * 10**6 * 31 + 10**15 for x in nums], "M8[us]"), name=name)
        if kind == "timedelta":
            return idx - idx[0] if n else pd.TimedeltaIndex([], name=name)
        return idx.tz_localize("UTC").tz_convert("Europe/Paris") if kind == "tz" else idx
    if kind == "period":
        return pd.PeriodIndex(pd.period_range("2020-01-06", periods=n, freq=PERIODS[seed]), name=name)
    if kind == "category":
        return pd.CategoricalIndex(pd.Index([TEXTS[x % 4] for x in nums], dtype="str"), name=name)
    if kind in ("uint8", "float32"):
        return pd.Index([x * 2 for x in nums], dtype=kind, name=name)
    if kind in INTERVALS:
        return pd.IntervalIndex(intervals(kind, [x * 7 % 100 for x in nums]), name=name)
    if kind == "mixed":
        return pd.Index(["a" + str(x) if x % 2 else x for x in nums], dtype=object, name=name)
    return pd.MultiIndex.from_tuples([("xy"[x % 2], x) for x in nums], names=[name, None]) if n else pd.RangeIndex(0)


def frame(spec):
    n = spec["rows"]
    index = labels(spec["index"], n)
    cols = [values(*c) for c in spec["columns"]]
    df = pd.DataFrame(dict(enumerate(cols)), index=pd.RangeIndex(n))
    df.index = index
    df.columns = labels(spec["labels"], len(cols))
    return df


def make(spec):
    kind = spec["kind"]
    if kind == "frame":
        return frame(spec)
    if kind == "series":
        ser = values(*spec["column"])
        ser.index = labels(spec["index"], spec["rows"])
        return ser.rename(spec["name"])
    if kind == "labels":
        return labels(spec["index"], spec["rows"])
    if kind == "index":
        dtype, nums = spec["column"]
        if dtype in ("float16", "nested", "complex64"):
            dtype = "int64"
        return pd.Index(values(dtype, nums), name=spec["name"])
    x, o = spec["number"], spec["other"]
    stamp = pd.Timestamp(int(x % 10**19 - 4 * 10**18 if o % 2 else x % 10**18), unit="ns")
    if spec["what"] == "stamp":
        return stamp
    if spec["what"] == "tzstamp":
        stamp = pd.Timestamp(int(x % 10**18), unit="ns")  # pandas cannot parse the odd offsets of earlier times
        return stamp.tz_localize("UTC").tz_convert(ZONES[o % 4])
    if spec["what"] == "delta":
        return pd.Timedelta(int(x % 10**18 - 10**17), "ns")
    if spec["what"] == "period":
        return stamp.to_period(PERIODS[o % len(PERIODS)])
    closed = ["left", "right", "both", "neither"][o % 4]
    if spec["what"] == "interval":
        return pd.Interval(x % 1000, x % 1000 + o, closed) if o % 3 else pd.Interval(x % 1000 / 8, x % 1000 / 8 + o, closed)
    return pd.Interval(stamp, stamp + pd.Timedelta(o, "s"), closed)


def element(x):
    """A form in which equal means the same element."""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [element(y) for y in x])
    if isinstance(x, dict):
        return (type(x).__name__, [(element(k), element(v)) for k, v in x.items()])
    if isinstance(x, set):
        return (type(x).__name__, sorted(map(repr, x)))
    if isinstance(x, pd.Timestamp):
        return ("Timestamp", x.isoformat())
    if x is pd.NaT or x is pd.NA:
        return "missing"
    return (type(x).__name__, repr(x))


def same_index(a, b, path):
    if not len(a):
        # nothing remains from which the type of the labels could be told
        if len(b):
            raise Violation(f"{path}: expected no labels, got {short(b)}")
        return
    try:
        pd.testing.assert_index_equal(a, b, exact="equiv", check_exact=True)
    except AssertionError as exc:
        raise Violation(f"{path}: {exc}") from exc
    if [element(x) for x in a.tolist()] != [element(x) for x in b.tolist()] or list(map(element, a.names)) != list(map(element, b.names)):
        raise Violation(f"{path}: expected {short(a)}, got {short(b)}")


def same_column(a, b, path):
    if a.dtype.name in ("category", "interval") and not len(a):
        # the categories and the type of the bounds are those of the elements
        if b.dtype.name != a.dtype.name:
            raise Violation(f"{path}: expected dtype {a.dtype!r}, got {b.dtype!r}")
    elif a.dtype != b.dtype:
        raise Violation(f"{path}: expected dtype {a.dtype!r}, got {b.dtype!r}")
    left, right = [element(x) for x in a.tolist()], [element(x) for x in b.tolist()]
    if left != right:
        raise Violation(f"{path}: expected {short(left)}, got {short(right)}")


def same(a, b, path):
    if isinstance(a, pd.DataFrame):
        if type(b) is not pd.DataFrame or a.shape != b.shape:
            raise Violation(f"{path}: expected {short(a)}, got {short(b)}")
        same_index(a.index, b.index, f"{path} index")
        same_index(a.columns, b.columns, f"{path} columns")
        for n in range(a.shape[1]):
            same_column(a.iloc[:, n], b.iloc[:, n], f"{path} column {n}")
    elif isinstance(a, pd.Series):
        if type(b) is not pd.Series:
            raise Violation(f"{path}: expected {short(a)}, got {short(b)}")
        same_index(a.index, b.index, f"{path} index")
        if element(a.name) != element(b.name):
            raise Violation(f"{path}: expected name {a.name!r}, got {b.name!r}")
        same_column(a, b, path)
    elif isinstance(a, pd.Index):
        if not isinstance(b, pd.Index) or isinstance(a, pd.MultiIndex) != isinstance(b, pd.MultiIndex):
            raise Violation(f"{path}: expected {short(a)}, got {short(b)}")
        if len(a) or not isinstance(a, pd.MultiIndex):
            same_index(a, b, path)
    elif type(a) is not type(b) or a != b:
        raise Violation(f"{path}: expected {a!r}, got {short(b)}")


def check(case, ctx):
    pd_ext.register_handlers()
    try:
        run(case, ctx)
    finally:
        pd_ext.unregister_handlers()


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        made = [make(v) for v in case["values"]]
        ctx.nontrivial = any(not isinstance(v, (pd.DataFrame, pd.Series, pd.Index)) or len(v) for v in made)
        for v in case["values"]:
            ctx.label(v["kind"])
        extra = zoo.Plain.__new__(zoo.Plain)
        extra.x = 1
        seq = made + [extra] + [made[r % len(made)] for r in case["refs"]] + [extra]
        if case["at"] == "root":
            obj, seq = made[0], made[:1]
        elif case["at"] == "list":
            obj = seq
        elif case["at"] == "dict":
            obj = {f"k{n}": v for n, v in enumerate(seq)}
        else:
            obj = zoo.Plain.__new__(zoo.Plain)
            obj.members = seq
        text = lib("encode", jsonpickle.encode, obj)
        back = lib("decode", jsonpickle.decode, text)
        try:
            got = {"root": lambda: [back], "list": lambda: back, "dict": lambda: list(back.values()), "attr": lambda: back.members}[case["at"]]()
        except AttributeError as exc:
            raise Violation(f"got {short(back)}") from exc
        if len(got) != len(seq):
            raise Violation(f"{len(seq)} values became {len(got)}")
        for n, (a, b) in enumerate(zip(seq, got)):
            if a is extra:
                if type(b) is not zoo.Plain or b.__dict__ != {"x": 1}:
                    raise Violation(f"[{n}]: expected {short(a)}, got {short(b)}")
            else:
                same(a, b, f"[{n}]")
            first = next(i for i, v in enumerate(seq) if v is a)
            if isinstance(a, (pd.DataFrame, pd.Series, zoo.Plain)) and b is not got[first]:
                raise Violation(f"[{n}] and [{first}] are one object in the input and two in the output")

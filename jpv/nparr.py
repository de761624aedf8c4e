"""NumPy arrays from literal descriptions, and their exact comparison."""

import numpy as np
from hypothesis import strategies as st

from .core import Violation, short

PLAIN = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8", "g", "c8", "c16", "G", "?"]
TEXTY = ["S1", "S3", "S7", "U1", "U4", "S0", "U0", "V1", "V4", "V9"]
TIMES = [f"{k}8[{u}]" for k in "Mm" for u in ("Y", "M", "W", "D", "h", "m", "s", "ms", "us", "ns", "25s", "as")] + ["m8"]
LIMITS = {"Y": 10**5, "M": 10**6, "W": 10**7, "D": 10**7, "h": 10**9, "m": 10**11, "s": 10**11, "ms": 10**15}
STRUCTS = {
    "pair": [("a", "i4"), ("b", "f8")],
    "mixed": [("s", "S3"), ("u", "U2"), ("?", "?"), ("c", "c8")],
    "nested": [("x", "i2"), ("in", [("p", "f4"), ("q", "U2")])],
    "sub": [("v", "i2", (2,)), ("m", "f4", (2, 2)), ("k", "u1")],
    "subin": [("v", [("p", "i4", (3,)), ("q", "S2")], (2,))],
    "times": [("t", "M8[s]"), ("d", "m8[D]"), ("n", "M8[ns]")],
    "titles": [(("the title", "t"), "i4"), ("é", "f2")],
    "one": [("only", "i8")],
}
LAYOUTS = {
    "aligned": lambda bo: np.dtype([("a", "i1"), ("b", bo + "f8"), ("c", bo + "i2")], align=True),
    "offsets": lambda bo: np.dtype({"names": ["x", "y"], "formats": [bo + "i4", bo + "f4"], "offsets": [8, 0], "itemsize": 16}),
    "overlap": lambda bo: np.dtype({"names": ["w", "lo"], "formats": [bo + "i4", bo + "i2"], "offsets": [0, 2]}),
}
SHAPES = [(), (0,), (1,), (3,), (3,), (5,), (2, 3), (2, 3), (1, 1), (0, 2), (2, 0, 3), (3, 1, 2), (15,), (16,), (17,), (17,),
          (4, 4), (4, 5), (5, 4), (2, 3, 4), (40,)]


def order(d, bo):
    return np.dtype(d).newbyteorder(bo)


def make_dtype(spec):
    name, bo = spec
    if name in LAYOUTS:
        return LAYOUTS[name](bo)
    return order(STRUCTS.get(name, name), bo)


dtype_spec = st.tuples(
    st.sampled_from([PLAIN, PLAIN, PLAIN, TEXTY, TIMES, TIMES, sorted(STRUCTS), sorted(LAYOUTS), ["O"]]).flatmap(st.sampled_from),
    st.sampled_from("<<<>"))
pattern = st.one_of(
    st.binary(min_size=16, max_size=16),
    st.sampled_from([b"\0" * 16, b"\xff" * 16, b"\x01" + b"\0" * 15, b"\0" * 7 + b"\x80" + b"\0" * 8,
                     b"\0" * 6 + b"\xf0\x7f" + b"\0" * 8, b"ab\0c" + b"\0" * 12, b"\0\0\x80\x3f" * 4, b"a\0\0\0\xe9\0\0\0" + b"\0" * 8]))
objects = st.one_of(
    st.sampled_from([[1], [], [[1, 2], [3]], (1, "a"), {"a": [1]}, {}, b"x", 1 + 2j, (), ["ab"], "ab"]), st.none(), st.booleans(), st.integers(-5, 2**70), st.floats(allow_nan=False), st.text(max_size=3),
)


def array_spec():
    return st.fixed_dictionaries({
        "dtype": dtype_spec, "shape": st.sampled_from(SHAPES), "bits": st.lists(pattern, min_size=1, max_size=4),
        "objs": st.lists(objects, min_size=1, max_size=3),
        "order": st.sampled_from("CCF"), "writeable": st.sampled_from([True, True, False]),
    })


def fill(arr, bits, n=0):
    """Sets the elements of an array from bit patterns."""
    dt = arr.dtype
    if dt.names is not None:
        for i, f in enumerate(dt.names):
            fill(arr[f], bits, n + i)
        return
    flat = np.zeros(arr.size, dt.newbyteorder("N"))
    for i in range(arr.size):
        raw = bits[(i + n) % len(bits)]
        if dt.kind == "?" or dt.kind == "b":
            flat[i] = raw[0] & 1
        elif dt.kind == "U":
            # code points below the surrogates
            flat[i] = "".join(chr(raw[k] * 97 % 0xD000) for k in range(dt.itemsize // 4))
        elif dt.kind == "S":
            flat[i] = raw[:dt.itemsize]
        elif dt.kind == "V":
            flat[i] = np.void(raw[:dt.itemsize])
        elif dt.kind in "mM":
            value = int.from_bytes(raw[:8], "little", signed=True)
            if value != -2**63:  # not a time
                # NumPy itself overflows when it converts large numbers of coarse units
                value = (-1 if value < 0 else 1) * (abs(value) % min(LIMITS.get(np.datetime_data(dt)[0], 10**18), 10**(raw[9] % 18 + 1)))
            flat[i:i + 1] = np.array([value], "i8").view(flat.dtype)
        elif dt.char in "gG":
            parts = np.frombuffer(raw, "f8")
            with np.errstate(all="ignore"):
                x = np.longdouble(parts[0]) + np.longdouble(parts[1])
            flat[i] = x if dt.char == "g" else x + 1j * np.longdouble(parts[1])
        else:
            size = dt.itemsize
            flat[i:i + 1] = np.frombuffer(raw[:size], dt.newbyteorder("N"))
    arr[...] = flat.reshape(arr.shape)


def make_array(spec):
    dt = make_dtype(spec["dtype"])
    arr = np.zeros(spec["shape"], dt, order=spec["order"])
    if dt.kind == "O":
        flat = np.empty(arr.size, object)
        for i in range(arr.size):
            flat[i] = spec["objs"][i % len(spec["objs"])]
        if not arr.shape and isinstance(flat[0], (list, tuple)):
            flat[0] = None  # a sequence in an array without dimensions looks like an array
        arr[...] = flat.reshape(arr.shape)
    else:
        fill(arr, spec["bits"])
    if not spec["writeable"]:
        arr.flags.writeable = False
    return arr


def plain_values(arr):
    """The elements in a form in which equal means the same bits (all NaNs being the same)."""
    dt = arr.dtype
    if dt.names is not None:
        return {f: plain_values(arr[f]) for f in dt.names}
    if dt.kind == "O":
        return [(type(x).__name__, repr(x)) for x in arr.ravel().tolist()]
    if dt.char in "gG":
        return [repr(x).replace("-nan", "nan") for x in arr.ravel()]
    flat = np.ascontiguousarray(arr.astype(dt.newbyteorder("N"))).ravel()
    if dt.kind in "fc":
        real = flat.view(flat.real.dtype)
        nan = np.isnan(real)
        ints = real.copy().view(f"u{real.dtype.itemsize}")
        ints[nan] = 1
        return (ints.tolist(), nan.tolist())
    return flat.tobytes()


def same_array(a, b, path=""):
    if type(b) is not type(a):
        raise Violation(f"{path}: expected {type(a).__name__}, got {short(b)}")
    if a.dtype != b.dtype or a.dtype.isalignedstruct != b.dtype.isalignedstruct:
        raise Violation(f"{path}: expected dtype {a.dtype!r}, got {b.dtype!r}")
    if a.shape != b.shape:
        raise Violation(f"{path}: expected shape {a.shape}, got {b.shape}")
    if plain_values(a) != plain_values(b):
        raise Violation(f"{path}: expected {short(a)}, got {short(b)}")

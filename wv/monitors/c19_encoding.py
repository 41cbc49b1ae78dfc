"""C19: encodings of integers, dates and strings."""

from __future__ import annotations

import datetime

import numpy as np
import pandas as pd

from wv.core import Registry

ID = "C19"
RULE = (
    "integers over the whole signed 64-bit range (boundaries, high and low halves at their limits, random magnitudes), "
    "dates before and after 1970 in every representation and unit, missing dates, unicode strings; every code is "
    "decoded, compared and floored (also after conversion to JAX arrays in 32 and 64-bit mode) against the plain "
    "values; whole datasets are encoded, traced and decoded; distinct by values"
)
ASSUMPTIONS = ["dates without time zone, within the nanosecond range"]
QUICK, THOROUGH = 200, 4000
R = Registry()
DAY = 86_400_000_000_000


def an_int(c):
    k = c.int(0, 7)
    if k == 0:
        v = c.choice([0, 1, -1, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, -2**31, -2**32, -2**32 - 1,
                      2**63 - 1, -2**63, 2**62, -2**63 + 1])
    elif k == 1:  # near a multiple of 2**32
        v = c.int(-2**31, 2**31 - 1) * 2**32 + c.int(-2, 2)
    elif k == 2:
        v = c.int(-10, 10)
    else:
        v = int(c.rng.integers(-2**63, 2**63 - 1)) >> c.int(0, 62)
    return max(-2**63, min(2**63 - 1, v))


def a_date(c):
    """Nanoseconds, often at or next to a midnight."""
    lo, hi = -(2**63) // 2, 2**63 // 2
    k = c.int(0, 4)
    if k == 0:
        v = c.int(-20000, 30000) * DAY + c.choice([0, 0, 1, -1, DAY - 1])
    elif k == 1:
        v = c.int(-3 * DAY, 3 * DAY)
    elif k == 2:
        v = int(pd.Timestamp("2020-02-29").value) + c.int(-5 * DAY, 5 * DAY)
    else:
        v = int(c.rng.integers(lo, hi))
    return v


@R.kind(weight=3)
def integers(c):
    import jax.numpy as jnp

    from wax.encode import decode_int64, encode_int64, less

    vals = [an_int(c) for _ in range(8)]
    c.note(vals=vals)
    codes = []
    for v in vals:
        forms = [v, np.int64(v), np.array(v, np.int64)]
        if -2**31 <= v < 2**31:
            forms += [np.int32(v), np.array(v, np.int32)]
        if 0 <= v < 2**32:
            forms.append(np.uint32(v))
        code = encode_int64(c.choice(forms))
        c.expect(code.shape == (2,) and code.dtype == np.uint32, "code_type", f"{code.shape} {code.dtype}")
        c.exact(code, encode_int64(v), "code_depends_on_the_form")
        for k in (code, jnp.asarray(code), list(code)):
            c.expect(decode_int64(k) == v and isinstance(decode_int64(k), int), "round_trip", f"{v} {decode_int64(k)}")
        c.state(v >> 32 > 0, v < 0, v & 0xFFFFFFFF > 2**31)
        codes.append(code)
        c.count("negative", v < 0)
    c.count("integers", len(vals))
    for i in range(len(vals)):
        for j in range(len(vals)):
            a, b = codes[i], codes[j]
            if c.flip(0.2):
                a, b = jnp.asarray(a), jnp.asarray(b)
            c.expect(bool(less(a, b)) == (vals[i] < vals[j]), "order", f"{vals[i]} {vals[j]}")
            c.count("comparisons")
    c.nontrivial = True


@R.kind(weight=3)
def dates(c):
    import jax.numpy as jnp

    from wax import encode as e

    vals = [a_date(c) for _ in range(6)]
    c.note(vals=vals)
    c.nontrivial = True
    for v in vals:
        c.state(v < 0, v % DAY == 0)
        c.count("dates")
        c.count("before_1970", v < 0)
        t = pd.Timestamp(v)
        c.expect(e.decode_timestamp(e.encode_timestamp(t)) == t, "timestamp", str(t))
        c.expect(e.decode_timestamp(e.encode_timestamp(t)).value == v, "timestamp_nanoseconds", str(t))
        d = np.datetime64(v, "ns")
        c.expect(e.decode_datetime64(e.encode_datetime64(d)) == d, "datetime64", str(d))
        c.expect(e.decode_datetime64(jnp.asarray(e.encode_datetime64(d))) == d, "datetime64_from_jax", str(d))
        for unit in ("us", "ms", "s", "D"):
            u = d.astype(f"M8[{unit}]")
            c.expect(e.decode_datetime64(e.encode_datetime64(u)) == u, "datetime64_" + unit, str(u))
        p = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=v // 1000)
        got = e.decode_datetime(e.encode_datetime(p))
        c.expect(got == p and type(got) is datetime.datetime, "datetime", f"{p} {got}")
        c.exact(e.encode_timestamp(t), e.encode_datetime64(d), "representations_agree")
        day = (v // DAY) * DAY
        f = e.floor_datetime(d)
        c.expect(f.astype(np.int64) == day, "floor", f"{d} {f}")
        key = e.floor_jax_datekey(jnp.asarray(e.encode_datetime64(d)))
        c.expect(e.decode_int64(key) == day, "floor_of_code", f"{d} {e.decode_datetime64(key)}")
    a = np.array(vals, "M8[ns]")
    for arr in (a, a.reshape(2, 3), a.astype("M8[us]")):
        c.expect((e.floor_datetime(arr) == arr.astype("M8[D]").astype("M8[ns]")).all(), "floor_of_array")
        c.expect(e.floor_datetime(arr).dtype == np.dtype("M8[ns]"), "floor_dtype")
    for i in range(len(vals)):
        for j in range(len(vals)):
            c.expect(bool(e.less(e.encode_datetime64(a[i]), e.encode_datetime64(a[j]))) == (vals[i] < vals[j]),
                     "date_order", f"{a[i]} {a[j]}")
            c.count("comparisons")


def words(c, n):
    pool = c.choice([["a", "b", "c"], ["", "A", "a", "é", "zz", "日本"], ["x%d" % i for i in range(50)],
                     ["same"], ["10", "9", "1", "-1"]])
    return np.array([c.choice(pool) for _ in range(n)])


@R.kind(weight=2)
def arrays(c):
    """Encoders fitted on data: strings of any shape, dates with missing values."""
    from wax.encode import datetime64_encoder, string_encoder

    shape = c.choice([(1,), (5,), (12,), (2, 3), (2, 2, 2)])
    w = words(c, int(np.prod(shape))).reshape(shape)
    d = np.array([a_date(c) for _ in range(c.int(1, 12))], "M8[ns]")
    d[c.rng.random(len(d)) < 0.2] = np.datetime64("NaT")
    c.note(w=w.tolist(), d=d.astype(np.int64).tolist())
    c.state(shape, len(np.unique(w)), bool(np.isnat(d).any()))
    c.nontrivial = True
    enc = string_encoder(w)
    code = np.asarray(enc.encode(w))
    c.expect(code.dtype.kind in "iu", "string_codes_are_integers", str(code.dtype))
    back = enc.decode(code)
    c.expect(back.shape == w.shape and (back == w).all(), "strings", f"{back} {w}")
    fl, fc = w.ravel(), code.ravel()
    c.expect(all((fc[i] == fc[j]) == (fl[i] == fl[j]) and (fc[i] < fc[j]) == (fl[i] < fl[j])
                 for i in range(len(fl)) for j in range(len(fl))), "string_codes_keep_order")
    c.count("strings", fl.size)
    enc = datetime64_encoder(d)
    code = enc.encode(d)
    c.expect(code.shape == (len(d), 2) and code.dtype == np.uint32, "date_codes", f"{code.shape} {code.dtype}")
    back = enc.decode(code)
    c.same(back, d, "dates")
    c.expect(back.dtype == np.dtype("M8[ns]"), "date_dtype", str(back.dtype))
    c.count("missing_dates", np.isnat(d).sum())
    if len(fl) > 1 and len(shape) == 1:  # part of the fitted data
        part = w[: len(w) // 2 + 1]
        enc = string_encoder(w)
        c.expect((enc.decode(enc.encode(part)) == part).all(), "part_of_strings")


@R.kind(weight=2)
def datasets(c):
    """What a dataset holds is what a streamed and decoded dataset holds."""
    import jax
    import jax.numpy as jnp
    import xarray as xr

    from wax.accessors import register_wax_accessors
    from wax.encode import decode_dataset, encode_dataset
    from wax.stream import Stream, dataset_to_numpy
    from wax.unroll import unroll

    register_wax_accessors()
    T = c.int(1, 8)
    t = np.sort(np.array([a_date(c) for _ in range(T)], "M8[ns]"))
    w = words(c, T)
    d = np.array([a_date(c) for _ in range(T)], "M8[ns]")
    f = c.rng.normal(size=T).astype(np.float32)
    i = c.rng.integers(-9, 9, size=T).astype(np.int32)
    c.note(t=t.astype(np.int64).tolist(), w=w.tolist(), d=d.astype(np.int64).tolist())
    c.state(T, len(np.unique(w)))
    c.count("datasets")
    ds = xr.Dataset({"w": ("t", w), "d": ("t", d), "f": ("t", f), "i": ("t", i)}, coords={"t": t})
    schema = Stream.get_dataset_schema(ds, check=True)
    c.expect(set(schema.encoders) == {"w", "d", "t"}, "encoded_variables", str(set(schema.encoders)))
    npd = dataset_to_numpy(ds)
    code = encode_dataset(schema.encoders, npd)
    for k, v in code.items():
        c.expect(np.asarray(v).dtype.kind in "iuf", "codes_are_numbers", f"{k} {np.asarray(v).dtype}")
    back = decode_dataset(schema.encoders, code)
    for k in npd:
        c.same(back[k], npd[k], "decoded_" + k, rtol=0.0, atol=0.0)
    fun, xs = Stream(local_time="t", tensor_type="jax").prepare(ds, lambda x: x)
    p, s = fun.init(None, xs)
    out, _ = fun.apply(p, s, None, xs)
    got = decode_dataset(schema.encoders, {k: np.asarray(v) for k, v in out.items() if k != "t"})
    for k in ("w", "d", "f", "i"):
        c.same(got[k], npd[k], "streamed_" + k, rtol=0.0, atol=0.0)

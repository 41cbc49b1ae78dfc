"""C20: labelled containers keep values with their labels."""

from __future__ import annotations

import numpy as np
import pandas as pd
import xarray as xr

from wv.core import Registry
from wv.tools import fdtype, hk_run, key, series

ID = "C20"
RULE = (
    "random Series, DataFrames (single and multi-level index and columns, odd column labels and orders, unsorted or "
    "duplicate dates, integer and boolean data), DataArrays (1 to 3 dimensions, with or without coordinates) and "
    "Datasets x stateful programs (also lane-mixing, reducing, nested outputs): every label's output against the same "
    "program run on the raw arrays; formatting functions against the given dimensions; distinct by container and data"
)
ASSUMPTIONS = ["time is the first dimension or level, sorted for multi-level indexes",
               "formatted outputs of a skipped first element are not claimed (they raise)"]
QUICK, THOROUGH = 48, 420
R = Registry()


def tol(c):
    return dict(rtol=1e-9, atol=1e-10) if c.x64 else dict(rtol=2e-4, atol=2e-5)


def wax():
    from wax.accessors import register_wax_accessors

    register_wax_accessors()


def programs():
    import haiku as hk
    import jax.numpy as jnp

    from wax import modules as m

    def learned(v):
        w = hk.get_parameter("w", v.shape, v.dtype, init=hk.initializers.RandomNormal())
        s = hk.get_state("s", v.shape, v.dtype, init=jnp.zeros)
        s = 0.5 * s + jnp.nan_to_num(v)
        hk.set_state("s", s)
        return w * s

    same = {  # output shaped as the input
        "id": lambda v: v,
        "lag": lambda v: m.Lag(1)(v),
        "ewma": lambda v: m.EWMA(com=2.0)(v),
        "diff": lambda v: m.Diff()(v),
        "ffill": lambda v: m.Ffill()(v),
        "count": lambda v: v * 0 + m.Counter()(),
        "learned": learned,
        "flip": lambda v: v[::-1] if v.ndim else v,  # labels are positions: lanes may be permuted by the program
        "cum": lambda v: jnp.cumsum(jnp.nan_to_num(v), axis=-1) if v.ndim else v,
    }
    reduced = {
        "sum": lambda v: jnp.nansum(v),
        "maxcount": lambda v: jnp.max(jnp.nan_to_num(v)) + m.Counter()(),
        "changed": lambda v: m.HasChanged()(jnp.nansum(v)),
    }
    return same, reduced


def dates(c, T, name, sort=False):
    # at most a few distinct irregular gaps, sometimes before 1970
    start = pd.Timestamp(c.choice(["2020-02-27", "1969-12-30", "2000-01-01 23:59:58.5"]))
    gaps = np.cumsum(c.rng.integers(0 if c.flip(0.2) and not sort else 1, 5, size=T))
    unit = np.timedelta64(c.choice([1, 3600, 86400]), "s").astype("timedelta64[ns]")
    d = np.datetime64(start.to_datetime64(), "ns") + gaps * unit
    if not sort and c.flip(0.2):
        d = c.rng.permutation(d)
    return pd.DatetimeIndex(d, name=name)


def the_data(c, T, shape):
    k = c.choice(["float", "float", "float", "int", "bool", "f32"])
    if k == "int":
        return c.rng.integers(-1000, 1000, size=(T,) + shape)
    if k == "bool":
        return c.rng.random((T,) + shape) < 0.5
    x = series(c, T, shape, nan=c.choice(["none", "scatter", "lane"]), dtype=np.float64)
    return x.astype(np.float32) if k == "f32" else x


def choose(c, floats):
    same, reduced = programs()
    if not floats:
        return c.choice([("id", same["id"]), ("flip", same["flip"]), ("maxcount", reduced["maxcount"])])
    pool = {**same, **reduced} if c.flip(0.75) else reduced
    n = c.choice(list(pool))
    return n, pool[n]


def wrap(c, f):
    """Optionally return a nested structure of outputs of the same shape."""
    import jax.numpy as jnp

    k = c.choice(["plain", "plain", "dict", "tuple", "nested", "uneven"])
    if k == "uneven":
        return k, lambda v: (jnp.sum(jnp.nan_to_num(v)), {"a": f(v)}), lambda o: [o[0], o[1]["a"]]
    if k == "plain":
        return k, f, lambda o: [o]
    if k == "dict":
        return k, lambda v: {"b": f(v), "a": f(v) + 1}, lambda o: [o["b"], o["a"]]
    if k == "tuple":
        return k, lambda v: (f(v), f(v)), lambda o: list(o)
    return k, lambda v: {"u": [f(v)], "t": (f(v),)}, lambda o: [o["u"][0], o["t"][0]]


def labels(c, n, k=None):
    k = k or c.choice(["str", "int", "rev", "mixed", "dup"])
    if k == "str":
        return list(c.rng.permutation(list("azbycx")))[:n]
    if k == "int":
        return [int(v) for v in c.rng.permutation(10)[:n]]
    if k == "rev":
        return list(range(n))[::-1]
    if k == "mixed":
        return [7, "a", 3.5, "zz", 0, "b"][:n]
    return ["a"] * n


def leaves_of(c, f, unpack, raw):
    outs, _, _ = hk_run(f, raw, rng=key(3))
    return [np.asarray(v) for v in unpack(outs)]


@R.kind(weight=3)
def frame(c):
    """A frame with one level on each axis."""
    wax()
    T, n = c.int(1, 7), c.int(1, 5)
    if c.flip(0.3):
        n = T = min(T, 5)  # square: a swapped axis would fit
    x = the_data(c, T, (n,))
    idx = dates(c, T, c.choice(["day", None, "columns"]))
    cols = pd.Index(labels(c, n), name=c.choice([None, "col", "k"]))
    df = pd.DataFrame(x, index=idx, columns=cols)
    name, f = choose(c, x.dtype.kind == "f")
    shape, g, unpack = wrap(c, f)
    c.note(T=T, n=n, idx=str(idx), cols=str(cols), prog=name, shape=shape, x=x.tolist())
    c.state(name, shape, n, T, str(x.dtype), cols.name, idx.name)
    want = leaves_of(c, g, unpack, x)
    keep = df.copy(deep=True)
    stream = df.wax.stream(return_state=c.flip())
    out = stream.apply(g, rng=key(3))
    if stream.return_state:
        out = out[0]
    pd.testing.assert_frame_equal(df, keep)
    got = unpack(out)
    c.expect(len(got) == len(want), "structure")
    for o, w in zip(got, want):
        if w.ndim == 1:
            c.expect(isinstance(o, pd.Series), "type", f"{type(o)}")
        else:
            c.expect(isinstance(o, pd.DataFrame), "type", f"{type(o)}")
            c.expect(list(o.columns) == list(cols), "columns", f"{list(o.columns)} {list(cols)}")
            if cols.name is not None:
                c.expect(o.columns.name == cols.name, "columns_name", f"{o.columns.name}")
        c.expect((o.index.values == idx.values).all(), "index", f"{o.index} {idx}")
        if idx.name is not None:
            c.expect(o.index.name == idx.name, "index_name", f"{o.index.name}")
        c.same(o.values, w, "values", **tol(c))
        c.count("labels", o.size)


@R.kind(weight=2)
def a_series(c):
    wax()
    T = c.int(1, 8)
    x = the_data(c, T, ())
    idx = dates(c, T, c.choice(["day", None]))
    s = pd.Series(x, index=idx, name=c.choice(["v", None, 3]))
    same, _ = programs()
    name = c.choice(list(same)) if x.dtype.kind == "f" else c.choice(["id", "flip"] if x.dtype.kind == "i" else ["id"])
    shape, g, unpack = wrap(c, same[name])
    c.note(T=T, idx=str(idx), prog=name, shape=shape, x=x.tolist())
    c.state("series", name, shape, T, str(x.dtype), s.name)
    want = leaves_of(c, g, unpack, x)
    out = s.wax.stream(return_state=False).apply(g, rng=key(3))
    for o, w in zip(unpack(out), want):
        c.expect(isinstance(o, pd.Series), "type", f"{type(o)}")
        c.expect((o.index.values == idx.values).all(), "index", f"{o.index} {idx}")
        if idx.name is not None:
            c.expect(o.index.name == idx.name, "index_name")
        c.same(o.values, w, "values", **tol(c))
        c.count("labels", o.size)


@R.kind(weight=2)
def levels(c):
    """Frames with several levels: compared label by label."""
    wax()
    T = c.int(2, 5)
    t = dates(c, T, "t", sort=True)
    a = labels(c, c.int(1, 3), "str")
    b = [v.upper() for v in labels(c, c.int(1, 3), "str")]
    rows_too = c.flip()
    dtype = fdtype(c)
    same, _ = programs()
    name = c.choice(["id", "lag", "ewma", "diff", "ffill", "count"])  # lane by lane: the layout inside is not observable
    cube = series(c, T, (len(a), len(b)), nan=c.choice(["none", "scatter", "lane"]), dtype=dtype)
    if c.flip(0.3):
        cube[c.int(0, T - 1)] = np.nan  # a date without any value is still a step
    c.note(T=T, a=a, b=b, rows=rows_too, prog=name, x=cube.tolist(), t=str(t))
    c.state("levels", name, rows_too, len(a), len(b), T)
    want = leaves_of(c, same[name], lambda o: [o], cube)[0]
    if rows_too:
        df = pd.DataFrame(cube.reshape(T * len(a), len(b)), index=pd.MultiIndex.from_product([t, a], names=["t", "k"]),
                          columns=pd.Index(b, name="c"))
    else:
        perm = c.rng.permutation(len(a) * len(b))
        cols = pd.MultiIndex.from_product([a, b], names=["u", "v"])
        df = pd.DataFrame(cube.reshape(T, -1), index=t, columns=cols).iloc[:, perm]
    o = df.wax.stream(local_time="t", return_state=False).apply(same[name], rng=key(3))
    c.expect(isinstance(o, pd.DataFrame), "type", f"{type(o)}")
    c.expect(list(o.index.names) == list(df.index.names), "names", f"{o.index.names}")
    c.expect(list(o.columns.names) == list(df.columns.names), "names", f"{o.columns.names}")
    for i, ts in enumerate(t):
        for j, u in enumerate(a):
            for k, v in enumerate(b):
                g = o.loc[(ts, u), v] if rows_too else o.loc[ts, (u, v)]
                c.same(g, want[i, j, k], "value", **tol(c), ctx=f"{(ts, u, v)}")
                c.count("labels")
    c.expect(o.size == cube.size, "extra_labels", f"{o.shape}")


@R.kind(weight=3)
def array(c):
    wax()
    T = c.int(1, 6)
    shape = c.choice([(), (2,), (3,), (2, 3), (3, 3), (1,), (4, 2)])
    if c.flip(0.3) and shape:
        T = shape[0]
    x = the_data(c, T, shape)
    dims = ("day", "a", "b")[: 1 + len(shape)] if c.flip() else ("time", "z", "c")[: 1 + len(shape)]
    t = dates(c, T, None)
    coords = {dims[0]: t.values}
    for d, n in zip(dims[1:], shape):
        if c.flip(0.6):
            coords[d] = labels(c, n, c.choice(["str", "int", "rev"]))
    da = xr.DataArray(x, dims=dims, coords=coords, name=c.choice([None, "v"]))
    name, f = choose(c, x.dtype.kind == "f")
    wr, g, unpack = wrap(c, f)
    c.note(dims=dims, coords=str(coords), shape=x.shape, prog=name, wrap=wr, x=x.tolist())
    c.state("array", dims, x.shape, name, wr, tuple(coords))
    want = leaves_of(c, g, unpack, x)
    out = da.wax.stream(local_time=dims[0] if c.flip() else None, return_state=False)
    out = out.apply(g, rng=key(3))
    for o, w in zip(unpack(out), want):
        c.expect(isinstance(o, xr.DataArray), "type", f"{type(o)}")
        c.expect(o.dims == dims[: w.ndim], "dims", f"{o.dims} {dims}")
        for d in o.dims:
            c.expect((d in o.coords) == (d in coords), "coords", d)
            if d in coords:
                c.expect(list(o.coords[d].values) == list(da.coords[d].values), "coord_values", d)
        c.same(o.values, w, "values", **tol(c))
        c.count("labels", o.size)


@R.kind(weight=2)
def dataset(c):
    """Several variables, outputs placed on the dimensions asked for."""
    import jax.numpy as jnp

    from wax import modules as m

    wax()
    T, n, k = c.int(1, 6), c.int(1, 4), c.int(1, 4)
    if c.flip(0.3):
        n = k = T = min(T, 4)
    t = dates(c, T, None)
    x, y = series(c, T, (n, k), nan="none"), series(c, T, (k,), nan=c.choice(["none", "scatter"]))
    z = series(c, n, (), nan="none")
    ds = xr.Dataset({"y": (("day", "col"), y), "x": (("day", "row", "col"), x), "z": (("row",), z)},
                    coords={"day": t.values, "row": labels(c, n, "rev"), "col": labels(c, k, "str")})
    progs = {
        "x": (lambda d: {"x2": m.Lag(1)(d["x"]), "w": d["x"] * d["z"][:, None]}, ("day", "row", "col")),
        "y": (lambda d: {"y2": m.EWMA(com=1.0)(d["y"]), "s": jnp.nansum(d["x"], axis=0) - d["y"]}, ("day", "col")),
        "r": (lambda d: {"q": jnp.sum(d["x"], axis=1) + d["z"]}, ("day", "row")),
    }
    name = c.choice(list(progs))
    f, dims = progs[name]
    tree = None
    if c.flip(0.3):  # a tree of dimensions, one per output
        name = "tree"
        f = lambda d: {"q": jnp.sum(d["x"], axis=1), "y2": m.Diff()(d["y"]), "x2": d["x"]}  # noqa: E731
        tree = {"q": ("day", "row"), "y2": ("day", "col"), "x2": ("day", "row", "col")}
        dims = {a: np.array(b) for a, b in tree.items()}
    c.note(T=T, n=n, k=k, prog=name, x=x.tolist(), y=y.tolist(), z=z.tolist())
    c.state("dataset", T, n, k, name)
    st = []

    def by_hand(xx, yy):
        return f({"x": xx, "y": yy, "z": jnp.asarray(z)})

    want, _, _ = hk_run(by_hand, (x, y), rng=key(3))
    o = ds.wax.stream(local_time="day", return_state=False).apply(f, format_dims=dims, rng=key(3))
    del st
    c.expect(isinstance(o, xr.Dataset), "type", f"{type(o)}")
    c.expect(set(o.data_vars) == set(want), "names", f"{list(o.data_vars)}")
    for v in want:
        dv = tuple(tree[v]) if tree else dims
        c.expect(tuple(o[v].dims) == tuple(dv), "dims", f"{v}: {o[v].dims} {dv}")
        for d in dv:
            c.expect(list(o[v].coords[d].values) == list(ds.coords[d].values), "coord_values", d)
        c.same(o[v].values, want[v], "values", **tol(c), ctx=v)
        c.count("labels", o[v].size)


@R.kind(weight=2)
def formats(c):
    """The formatting functions: values stay at their position, labels are those of the dimensions named."""
    from wax.format import format_dataarray, format_dataframe, format_dataset, format_series, tree_auto_format_with_shape

    sizes = {"t": c.int(1, 4), "a": c.int(1, 4), "b": c.int(1, 3)}
    if c.flip(0.4):
        sizes = dict.fromkeys(sizes, c.int(1, 3))
    coords = {d: labels(c, n, c.choice(["int", "rev", "str"])) for d, n in sizes.items()}
    ds = xr.Dataset(coords=coords)
    kind = c.choice(["array", "frame", "series", "dataset", "shape"])
    pick = lambda: tuple(c.rng.permutation(list(sizes))[: c.int(1, 3)])  # noqa: E731

    def val(dims):
        return c.rng.normal(size=[sizes[d] for d in dims])

    tree = c.flip()
    dims = pick()
    if tree:
        spec = {"p": pick(), "q": pick()}
        data = {k: val(d) for k, d in spec.items()}
        fmt = {k: np.array(d) for k, d in spec.items()}
    else:
        spec = {"p": dims, "q": dims}
        data, fmt = {k: val(dims) for k in spec}, dims
    c.note(kind=kind, coords=coords, spec=spec)
    c.state("format", kind, str(spec), str(sizes))

    def at(values, d, pos):
        return values[pos]

    def check_da(o, k):
        c.expect(isinstance(o, xr.DataArray) and tuple(o.dims) == spec[k], "dims", f"{getattr(o, 'dims', type(o))}")
        for d in spec[k]:
            c.expect(list(o.coords[d].values) == coords[d], "coords", d)
        c.same(o.values, data[k], "values", rtol=0, atol=0)

    if kind == "array":
        o = format_dataarray(ds.coords, data, fmt)
        for k in spec:
            check_da(o[k], k)
    elif kind == "dataset":
        o = format_dataset(ds.coords, data, fmt)
        c.expect(isinstance(o, xr.Dataset), "type")
        for k in spec:
            check_da(o[k], k)
    elif kind in ("frame", "series"):
        o = format_dataframe(ds.coords, data, fmt) if kind == "frame" else format_series(ds.coords, data, fmt)
        for k, d in spec.items():
            got = o[k]
            c.expect(got.size == data[k].size, "size")
            if kind == "series" or len(d) == 1:
                c.expect(isinstance(got, pd.Series), "type", f"{type(got)}")
            else:
                c.expect(isinstance(got, pd.DataFrame), "type", f"{type(got)}")
            for pos in np.ndindex(*data[k].shape):
                lab = [coords[x][i] for x, i in zip(d, pos)]
                if isinstance(got, pd.Series):
                    v = got.loc[tuple(lab)] if len(lab) > 1 else got.loc[lab[0]]
                else:
                    # 3 dimensions: the first stays on the index, the others go to the columns
                    v = got.loc[lab[0], lab[1]] if len(lab) == 2 else got.loc[lab[0], tuple(lab[1:])]
                c.same(v, data[k][pos], "value", rtol=0, atol=0, ctx=f"{d} {lab}")
    else:
        ref = xr.Dataset({"v": (dims, val(dims)), "u": (("t", "a", "b"), val(("t", "a", "b")))}, coords=coords)
        given = {"f": val(dims), "g": val(dims[:1]), "h": np.zeros((11, 2)), "w": val(("t", "a", "b"))}
        fmt_ = c.choice(["dataarray", "dataframe"])
        o = tree_auto_format_with_shape(ref, given, output_format=fmt_)
        c.expect(isinstance(o["h"], np.ndarray), "unknown_shape", f"{type(o['h'])}")
        for k in ("f", "g", "w"):
            # the first variable with a prefix of that shape names the dimensions
            want = None
            for v in ref.data_vars.values():
                for i in range(v.ndim + 1):
                    if v.shape[:i] == given[k].shape and want is None:
                        want = v.dims[:i]
            if fmt_ == "dataarray":
                c.expect(tuple(o[k].dims) == tuple(want), "auto_dims", f"{k} {o[k].dims} {want}")
                c.same(o[k].values, given[k], "auto_values", rtol=0, atol=0)
            else:
                c.expect(isinstance(o[k], (pd.Series, pd.DataFrame)), "auto_type", f"{type(o[k])}")
                if given[k].ndim <= 2:
                    c.same(o[k].values, given[k], "auto_values", rtol=0, atol=0)
                    c.expect(list(o[k].index) == coords[want[0]], "auto_index")
    c.count("formats", len(spec))
    c.nontrivial = True

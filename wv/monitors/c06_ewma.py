"""C06: exponential moving averages are the documented weighted averages."""

from __future__ import annotations

import math

import numpy as np

from wv.core import Registry
from wv.tools import fdtype, fx_run, hk_run, int_series, lanes, long_series, series, shape_

ID = "C06"
RULE = (
    "random series (lengths 1-60, scalar to 2-d, scattered/burst/leading/whole-lane missing values) x decay x "
    "adjust x ignore_na x min_periods x initial value, run through each implementation and judged against the "
    "explicit weighted sum and against pandas; a case is distinct by its configuration and data"
)
ASSUMPTIONS = ["pandas 2.3 ewm().mean() is a correct reference for the options it has"]
QUICK, THOROUGH = 46, 420
R = Registry()


def ref_lane(x, com, adjust, ignore_na, min_periods, init):
    """Explicit weights: list of (weight, value); no recursive mean."""
    alpha = 1.0 / (1.0 + com)
    out, ceff, nob = [], [], []
    obs = []  # (weight, value) of what has been seen, adjust=True
    y = math.nan if math.isnan(init) else init
    k = 0  # decays since y
    n = 0
    w = 1.0
    if not math.isnan(init):
        obs = [[1.0, init]]
    for v in x:
        seen = not math.isnan(v)
        started = not math.isnan(y)
        if adjust == "linear":
            if started:
                f = 1.0 if seen else (max(0.0, (w - 1.0) / w) if w > 0 else 0.0)
                if ignore_na and not seen:
                    wn = min(w, com)
                else:
                    wn = min(w, com) * f
            else:
                wn = 0.0
            ce = wn
            if seen:
                y = (wn * y + v) / (wn + 1.0) if started else v
                wn += 1.0
            w = wn
        elif adjust:
            if seen or not ignore_na:
                for o in obs:
                    o[0] *= 1.0 - alpha
            ce = sum(o[0] for o in obs)
            if seen:
                obs.append([1.0, v])
                s = sum(o[0] for o in obs)
                y = sum(o[0] * o[1] for o in obs) / s
        else:
            if seen or not ignore_na:
                k += 1
            wo = (1.0 - alpha) ** k if started else 0.0
            ce = wo / alpha
            if seen:
                y = (wo * y + alpha * v) / (wo + alpha) if started else v
                k = 0
        n += seen
        out.append(y if (n >= min_periods) else math.nan)
        ceff.append(ce)
        nob.append(n)
    return out, ceff, nob


def ref(x, com, adjust, ignore_na, min_periods, init):
    l, back = lanes(x)
    cols = [ref_lane(l[:, j], com, adjust, ignore_na, min_periods, init) for j in range(l.shape[1])]
    return tuple(back(np.stack([np.array(cc[i]) for cc in cols], axis=1)) for i in range(3))


def config(c, linear=True, init=True):
    cfg = dict(
        adjust=c.choice([True, True, False, False, "linear"] if linear else [True, False]),
        ignore_na=c.flip(),
        min_periods=c.choice([0, 0, 1, 2, 3, 5, 9]),
    )
    if c.flip():
        cfg["com"] = c.choice([0.1, 0.5, 1.0, 2.0, 3.5, 10.0, 100.0, float(c.rng.uniform(0.05, 20))])
    else:
        cfg["alpha"] = c.choice([0.9, 0.5, 0.1, 0.01, float(c.rng.uniform(0.02, 0.98))])
    if init and c.flip(0.3):
        cfg["initial_value"] = c.choice([0.0, 1.0, -2.5])
    com = cfg["com"] if "com" in cfg else 1.0 / cfg["alpha"] - 1.0
    return cfg, com


def any_scale(c):
    """None lets the generator choose; tiny and huge data sometimes."""
    return c.choice([None, None, None, 1e-9, 1e9])


def at(c, x, cfg, f64=False):
    """Tolerances relative to the magnitude of the data."""
    m = max(float(np.nanmax(np.abs(x), initial=0.0)), abs(cfg.get("initial_value", 0.0)))
    return dict(rtol=1e-8, atol=1e-9 * m) if f64 or c.x64 else dict(rtol=2e-4, atol=2e-5 * m)


def observe(c, x, cfg):
    l, _ = lanes(x)
    for j in range(l.shape[1]):
        m = np.isnan(l[:, j])
        c.count("lanes")
        c.count("missing", m.sum())
        c.count("leading_missing_lanes", m[0])
        c.count("all_missing_lanes", m.all())
        c.count("gaps_between_observations", ((~m).sum() > 1) and m[np.argmax(~m) :].any())
        c.state(cfg["adjust"], cfg["ignore_na"], cfg["min_periods"], m[:8].tolist())


@R.kind(weight=4)
def haiku(c):
    from wax.modules import EWMA

    cfg, com = config(c)
    x = series(c, c.choice([1, 2, 3, 7, 20, 60]), shape_(c), scale=any_scale(c))
    mode = c.choice(["scan", "scan", "jit"])
    info = c.flip(0.4)
    c.note(cfg=cfg, x=x.tolist(), mode=mode, info=info)
    ys, st, _ = hk_run(lambda v: EWMA(**cfg, return_info=info)(v), x, mode=mode)
    e, ce, n = ref(x, com, cfg["adjust"], cfg["ignore_na"], cfg["min_periods"], cfg.get("initial_value", np.nan))
    observe(c, x, cfg)
    if info:
        ys, inf = ys
        c.same(inf["nobs"], n, "nobs")
        c.same(inf["com_eff"], ce, "com_eff")
    c.same(ys, e, "mean", ctx=str(cfg), **at(c, x, cfg))


@R.kind(weight=3)
def flax(c):
    from wax.flax.modules import EWMA

    cfg, com = config(c)
    x = series(c, c.choice([2, 3, 7, 20, 60]), shape_(c), scale=any_scale(c))
    mode = c.choice(["scan", "scan", "jit"])
    info = c.flip(0.4)
    c.note(cfg=cfg, x=x.tolist(), mode=mode, info=info)
    ys, st, _ = fx_run(EWMA(**cfg, return_info=info), x, mode=mode)
    e, ce, n = ref(x, com, cfg["adjust"], cfg["ignore_na"], cfg["min_periods"], cfg.get("initial_value", np.nan))
    observe(c, x, cfg)
    if info:
        ys, inf = ys
        c.same(inf["nobs"], n[1:], "nobs")
        c.same(inf["com_eff"], ce[1:], "com_eff")
    c.same(ys, e[1:], "mean", ctx=str(cfg), **at(c, x, cfg))


@R.kind(weight=2)
def pandas_agrees(c):
    """Haiku and Flax against pandas on the options pandas has."""
    import pandas as pd

    from wax.flax.modules import EWMA as F
    from wax.modules import EWMA as H

    cfg, com = config(c, linear=False, init=False)
    x = series(c, c.choice([5, 20, 60]), (c.int(1, 6),))
    c.note(cfg=cfg, x=x.tolist())
    e = pd.DataFrame(x.astype(np.float64)).ewm(
        com=com, adjust=cfg["adjust"], ignore_na=cfg["ignore_na"], min_periods=cfg["min_periods"]).mean().values
    observe(c, x, cfg)
    ys, _, _ = hk_run(lambda v: H(**cfg)(v), x)
    c.same(ys, e, "haiku_vs_pandas", ctx=str(cfg))
    ys, _, _ = fx_run(F(**cfg), x)
    c.same(ys, e[1:], "flax_vs_pandas", ctx=str(cfg))


@R.kind(weight=1)
def trained_decay(c):
    """The decay used is the trainable one, not the constructor's."""
    import jax
    import jax.numpy as jnp

    from wax.flax.modules import EWMA as F
    from wax.modules import EWMA as H

    cfg, com = config(c, init=False)  # the first step, taken at initialisation, must not depend on the decay
    com2 = float(c.rng.uniform(0.2, 8.0))
    x = series(c, 15, (3,))
    c.note(cfg=cfg, com2=com2, x=x.tolist())
    e, _, _ = ref(x, com2, cfg["adjust"], cfg["ignore_na"], cfg["min_periods"], cfg.get("initial_value", np.nan))

    def edit(p):
        return jax.tree_util.tree_map(lambda v: jnp.asarray(math.log(com2), v.dtype), p)

    ys, _, _ = hk_run(lambda v: H(**cfg)(v), x, edit_params=edit)
    c.same(ys, e, "haiku", ctx=str(cfg))
    ys, _, _ = fx_run(F(**cfg), x, edit_params=lambda v: {**v, "params": edit(v["params"])})
    c.same(ys, e[1:], "flax", ctx=str(cfg))
    observe(c, x, cfg)


@R.kind(weight=1)
def gradient_is_finite(c):
    """Missing data never poisons the gradient with respect to the decay."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.modules import EWMA

    cfg, com = config(c, linear=False, init=False)
    cfg["min_periods"] = 0
    x = series(c, 12, (2,))
    c.note(cfg=cfg, x=x.tolist())
    t = hk.transform_with_state(lambda v: EWMA(**cfg)(v))
    p, s = t.init(None, jnp.asarray(x[0]))

    def loss(p):
        def f(s, v):
            o, s = t.apply(p, s, None, v)
            return s, o

        ys = jax.lax.scan(f, s, jnp.asarray(x))[1]
        return jnp.where(jnp.isnan(ys), 0.0, ys).sum()

    g = jax.grad(loss)(p)
    leaves = jax.tree_util.tree_leaves(g)
    c.expect(len(leaves) == 1 and np.isfinite(np.asarray(leaves[0])).all(), "gradient", f"gradient {leaves} {cfg}")

    # against a central difference of the explicit weighted sum
    def L(lc):
        y, _, _ = ref(x, math.exp(lc), cfg["adjust"], cfg["ignore_na"], 0, np.nan)
        return np.nansum(y)

    h = 1e-5
    lc = math.log(com)
    num = (L(lc + h) - L(lc - h)) / (2 * h)
    sc = np.nansum(np.abs(x)) + 1e-6
    c.same(leaves[0], num, "gradient_value", rtol=1e-3, atol=(1e-5 if c.x64 else 1e-3) * sc, ctx=str(cfg))
    observe(c, x, cfg)


def _frame(x):
    import pandas as pd

    return pd.DataFrame(x, columns=[f"c{j}" for j in range(x.shape[1])],
                        index=pd.date_range("2020-01-01", periods=len(x)))


@R.kind(weight=2)
def numba(c):
    """numba implementation: one-shot, and chunked with carried state."""
    import pandas as pd

    from wax.numba.ewma_numba import ewma

    cfg, com = config(c)
    f = ewma(**cfg)
    for rep in range(6):
        T = c.choice([1, 2, 5, 20, 60])
        one_d = c.flip(0.3)
        x = series(c, T, () if one_d else (c.int(1, 4),), dtype=np.float64, scale=any_scale(c))
        if rep == 0:
            c.note(cfg=cfg, x=x.tolist())
        e, _, n = ref(x, com, cfg["adjust"], cfg["ignore_na"], cfg["min_periods"], cfg.get("initial_value", np.nan))
        before = x.copy()
        y, st = f(x)
        c.same(y, e, "numba", ctx=str(cfg), **at(c, x, cfg, True))
        c.exact(x, before, "numba_input_modified")
        c.same(np.asarray(st.nobs).reshape(-1), n.reshape(T, -1)[-1], "numba_nobs")
        observe(c, x, cfg)
        # chunked
        cuts = sorted(set([0, T] + [c.int(0, T) for _ in range(c.int(1, 4))]))
        parts, st = [], None
        for a, b in zip(cuts[:-1], cuts[1:]):
            y, st = f(x[a:b], st)
            parts.append(y)
        c.count("numba_chunks", len(parts))
        c.same(np.concatenate(parts), e, "numba_chunked", rtol=1e-8,
               atol=1e-8 * (1 + np.nanmax(np.abs(x), initial=0)), ctx=f"{cfg} cuts {cuts}")


@R.kind(weight=1)
def numba_accessor(c):
    """pandas accessor: values, labels, state continuation by column name."""
    import pandas as pd

    from wax.numba.ewma_numba import register_wax_numba

    register_wax_numba()
    cfg, com = config(c)
    T = c.choice([4, 12, 30])
    x = series(c, T, (c.int(1, 4),), dtype=np.float64)
    df = _frame(x)
    cut = c.int(1, T - 1)
    c.note(cfg=cfg, x=x.tolist(), cut=cut)
    e, _, _ = ref(x, com, cfg["adjust"], cfg["ignore_na"], cfg["min_periods"], cfg.get("initial_value", np.nan))
    at = 1e-8 * (1 + np.nanmax(np.abs(x), initial=0))
    y = df.wax_numba.ewm(**cfg).mean()
    c.same(y.values, e, "frame", rtol=1e-8, atol=at)
    c.expect(y.index.equals(df.index) and y.columns.equals(df.columns), "labels", "labels changed")
    y1, st = df.iloc[:cut].wax_numba.ewm(**cfg, return_state=True).mean()
    perm = list(c.rng.permutation(df.shape[1]))
    y2, _ = df.iloc[cut:, perm].wax_numba.ewm(**cfg, return_state=True).mean(state=st)
    c.same(y1.values, e[:cut], "first_part", rtol=1e-8, atol=at)
    c.same(y2.values, e[cut:][:, perm], "resumed_columns_reordered", rtol=1e-8, atol=at, ctx=str(cfg))
    s = df.iloc[:, 0]
    z = s.wax_numba.ewm(**cfg).mean()
    c.same(z.values, e[:, 0], "series", rtol=1e-8, atol=at)
    c.expect(isinstance(z, pd.Series) and z.index.equals(s.index) and z.name == s.name, "series_labels", f"{z.name}")
    z1, st = s.iloc[:cut].wax_numba.ewm(**cfg, return_state=True).mean()
    z2, _ = s.iloc[cut:].wax_numba.ewm(**cfg, return_state=True).mean(state=st)
    c.same(np.concatenate([z1.values, z2.values]), e[:, 0], "series_resumed", rtol=1e-8, atol=at)
    observe(c, x, cfg)


@R.kind(weight=2)
def labelled_accessor(c):
    """The labelled-data front ends (.wax.ewm(...).mean()) give the same values."""
    import pandas as pd
    import xarray as xr

    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    cfg, com = config(c)
    T = c.choice([3, 12, 30])
    x = series(c, T, (c.int(1, 4),))
    c.note(cfg=cfg, x=x.tolist())
    e, _, _ = ref(x, com, cfg["adjust"], cfg["ignore_na"], cfg["min_periods"], cfg.get("initial_value", np.nan))
    df = _frame(x)
    y = df.wax.ewm(**cfg).mean()
    c.same(y.values, e, "frame", ctx=str(cfg))
    c.expect(y.index.equals(df.index) and list(y.columns) == list(df.columns), "frame_labels", str(y))
    s = df.iloc[:, 0]
    z = s.wax.ewm(**cfg).mean()
    c.same(z.values, e[:, 0], "series", ctx=str(cfg))
    da = xr.DataArray(x, dims=("time", "col"), coords={"time": df.index, "col": list(df.columns)})
    d = da.wax.ewm(**cfg).mean()
    c.same(d.values, e, "dataarray", ctx=str(cfg))
    c.expect(d.dims == da.dims, "dataarray_dims", str(d.dims))
    observe(c, x, cfg)


@R.kind(weight=1)
def integers(c):
    """Averages of counts, flags and other integers are those of the same numbers as floats."""
    from wax.flax.modules import EWMA as F
    from wax.modules import EWMA as H
    from wax.numba.ewma_numba import ewma

    cfg, com = config(c)
    x = int_series(c, c.choice([2, 5, 20]), shape_(c, 1))
    c.note(cfg=cfg, dtype=str(x.dtype), x=x.tolist())
    xf = x.astype(np.float64)
    e, _, _ = ref(xf, com, cfg["adjust"], cfg["ignore_na"], cfg["min_periods"], cfg.get("initial_value", np.nan))
    observe(c, xf, cfg)
    c.count("integer_values", x.size)
    h, _, _ = hk_run(lambda v: H(**cfg)(v), x, mode=c.choice(["scan", "jit"]))
    c.same(h, e, "haiku", ctx=str(cfg), **at(c, xf, cfg))
    f, _, _ = fx_run(F(**cfg), x, mode=c.choice(["scan", "jit"]))
    c.same(f, e[1:], "flax", ctx=str(cfg), **at(c, xf, cfg))
    before = x.copy()
    y, _ = ewma(**cfg)(x)
    c.same(y, e, "numba", ctx=str(cfg), **at(c, xf, cfg, True))
    c.exact(x, before, "numba_input_modified")


@R.kind(few=True)
def long_run(c):
    """Streams far longer than any window or narrow counter."""
    import pandas as pd

    from wax.flax.modules import EWMA as F
    from wax.modules import EWMA as H
    from wax.numba.ewma_numba import ewma

    cfg, com = config(c, linear=False, init=False)
    if cfg["min_periods"] == 9:
        cfg["min_periods"] = 300
    x = long_series(c)
    c.note(cfg=cfg, T=len(x))
    c.state("long", str(cfg))
    c.count("long_steps", len(x))
    e = pd.DataFrame(x.astype(np.float64)).ewm(
        com=com, adjust=cfg["adjust"], ignore_na=cfg["ignore_na"], min_periods=cfg["min_periods"]).mean().values
    t = at(c, x, cfg)
    ys, _, _ = hk_run(lambda v: H(**cfg)(v), x)
    c.same(ys, e, "haiku_long", ctx=str(cfg), **t)
    ys, _, _ = fx_run(F(**cfg), x)
    c.same(ys, e[1:], "flax_long", ctx=str(cfg), **t)
    y, st = ewma(**cfg)(x.astype(np.float64))
    c.same(y, e, "numba_long", ctx=str(cfg), **at(c, x, cfg, True))
    c.same(np.asarray(st.nobs).reshape(-1), (~np.isnan(x)).sum(axis=0), "numba_nobs_long")

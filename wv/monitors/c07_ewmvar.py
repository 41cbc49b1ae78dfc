"""C07: exponential variances and covariances are moments under explicit weights."""

from __future__ import annotations

import warnings

import numpy as np

from wv.core import Registry
from wv.monitors.c06_ewma import ref as ewma_ref
from wv.tools import fx_run, hk_run, int_series, lanes, long_series, series, shape_

ID = "C07"
RULE = (
    "random series (pairs) x decay x adjust scheme x missing-value layout, Haiku and Flax; oracle: weighted second "
    "moment computed from an explicit list of weights, plus non-negativity / symmetry / positive-semidefiniteness; "
    "distinct by configuration and data"
)
ASSUMPTIONS = []
QUICK, THOROUGH = 50, 420
R = Registry()


def ref_var_lane(x, com, adjust):
    a = 1.0 / (1.0 + com)
    vals, gains, out = [], [], []
    for v in x:
        if not np.isnan(v):
            vals.append(v)
            n = len(vals)
            if adjust == "linear":
                g = 1.0 / min(n, 1.0 / a)
            elif adjust:
                g = a / (1.0 - (1.0 - a) ** n) if n > 1 else 1.0
            else:
                g = a if n > 1 else 1.0
            gains.append(g)
        if not vals:
            out.append(0.0)
            continue
        w = np.empty(len(vals))
        rest = 1.0
        for i in range(len(vals) - 1, -1, -1):
            w[i] = gains[i] * rest
            rest *= 1.0 - gains[i]
        xs = np.array(vals)
        m = (w * xs).sum() / w.sum()
        out.append((w * (xs - m) ** 2).sum() / w.sum())
    return out


def ref_var(x, com, adjust):
    l, back = lanes(x)
    return back(np.stack([np.array(ref_var_lane(l[:, j], com, adjust)) for j in range(l.shape[1])], axis=1))


def decay(c):
    cfg = {}
    if c.flip():
        cfg["com"] = c.choice([0.1, 0.5, 1.0, 2.0, 10.0, 1e4, float(c.rng.uniform(0.05, 20))])
    else:
        cfg["alpha"] = c.choice([0.9, 0.5, 0.25, 0.1, 0.01, float(c.rng.uniform(0.02, 0.98))])
    return cfg, cfg["com"] if "com" in cfg else 1.0 / cfg["alpha"] - 1.0


def tol(c, x, y=None):
    s = max(np.nanmax(np.abs(x), initial=0), 1e-6) * max(np.nanmax(np.abs(x if y is None else y), initial=0), 1e-6)
    return (1e-8 if c.x64 else 5e-5) * s


def obs(c, x):
    l, _ = lanes(x)
    for j in range(l.shape[1]):
        m = np.isnan(l[:, j])
        c.count("lanes")
        c.count("missing", m.sum())
        c.count("leading_missing_lanes", m[0])
        c.count("all_missing_lanes", m.all())
        c.state(m[:10].tolist())


def _com_ok(com, c):
    # float32 cannot resolve 1-(1-a)^n for tiny a
    return com if c.x64 or com < 1e3 else 50.0


@R.kind(weight=3)
def haiku_var(c):
    from wax.modules import EWMVar

    cfg, com = decay(c)
    if not c.x64 and com > 1e3:
        cfg, com = {"com": 50.0}, 50.0
    adjust = c.choice([True, False, "linear"])
    x = series(c, c.choice([1, 2, 3, 8, 20, 60]), shape_(c))
    mode = c.choice(["scan", "scan", "jit"])
    c.note(cfg=cfg, adjust=adjust, x=x.tolist(), mode=mode)
    ys, _, _ = hk_run(lambda v: EWMVar(**cfg, adjust=adjust)(v), x, mode=mode)
    obs(c, x)
    c.same(ys, ref_var(x, com, adjust), "variance", rtol=1e-6 if c.x64 else 2e-3, atol=tol(c, x), ctx=f"{cfg} {adjust}")
    c.expect((np.asarray(ys) >= -tol(c, x)).all(), "negative_variance", str(np.min(ys)))


@R.kind(weight=3)
def flax_var(c):
    from wax.flax.modules import EWMVar

    cfg, com = decay(c)
    if not c.x64 and com > 1e3:
        cfg, com = {"com": 50.0}, 50.0
    adjust = c.choice([True, False, "linear"])
    x = series(c, c.choice([2, 3, 8, 20, 60]), shape_(c))
    mode = c.choice(["scan", "scan", "jit"])
    c.note(cfg=cfg, adjust=adjust, x=x.tolist(), mode=mode)
    ys, _, _ = fx_run(EWMVar(**cfg, adjust=adjust), x, mode=mode)
    obs(c, x)
    c.same(ys, ref_var(x, com, adjust)[1:], "variance", rtol=1e-6 if c.x64 else 2e-3, atol=tol(c, x),
           ctx=f"{cfg} {adjust}")


def cov_cfg(c):
    cfg, com = decay(c)
    if com > 1e3 and not c.x64:
        cfg, com = {"com": 50.0}, 50.0
    cfg.update(adjust=c.choice([True, True, False, "linear"]), ignore_na=c.flip(), min_periods=c.choice([0, 1, 2, 4]),
               assume_centered=c.flip(0.4))
    if c.flip(0.2):
        cfg["initial_value"] = c.choice([0.0, 0.5])
    return cfg, com


def ref_cov(x, y, com, cfg):
    T = len(x)
    xy = x.reshape(T, -1)[:, :, None].astype(np.float64) * y.reshape(T, -1)[:, None, :].astype(np.float64)
    a = (com, cfg["adjust"], cfg["ignore_na"], cfg["min_periods"], cfg.get("initial_value", np.nan))
    e = ewma_ref(xy, *a)[0]
    if cfg["assume_centered"]:
        return e
    mx = ewma_ref(x.reshape(T, -1), *a)[0]
    my = ewma_ref(y.reshape(T, -1), *a)[0]
    return e - mx[:, :, None] * my[:, None, :]


@R.kind(weight=4)
def cov(c):
    from wax.flax.modules import EWMCov as F
    from wax.modules import EWMCov as H

    cfg, com = cov_cfg(c)
    T = c.choice([2, 5, 20, 40])
    sx, sy = c.choice([((3,), (3,)), ((2,), (4,)), ((1,), (3,)), ((), ()), ((), (2,))])
    x = series(c, T, sx)
    same = sx == sy and c.flip(0.4)
    y = x if same else series(c, T, sy)
    form = c.choice(["two", "tuple"])
    c.note(cfg=cfg, x=x.tolist(), y=y.tolist(), form=form)
    e = ref_cov(x, y, com, cfg)
    t = tol(c, x, y)
    obs(c, x)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if form == "two":
            h, _, _ = hk_run(lambda a, b: H(**cfg)(a, b), (x, y))
            f, _, _ = fx_run(F(**cfg), (x, y))
        else:
            h, _, _ = hk_run(lambda a: H(**cfg)(a), ((x, y),))
            f, _, _ = fx_run(F(**cfg), ((x, y),))
    c.same(h, e, "haiku", rtol=1e-6 if c.x64 else 2e-3, atol=t, ctx=str(cfg))
    c.same(f, e[1:], "flax", rtol=1e-6 if c.x64 else 2e-3, atol=t, ctx=str(cfg))


@R.kind(weight=2)
def structure(c):
    """Complete data: covariance is symmetric PSD, its diagonal is the variance."""
    from wax.flax.modules import EWMCov as F
    from wax.modules import EWMCov as H
    from wax.modules import EWMVar

    cfg, com = decay(c)
    if com > 1e3:
        cfg, com = {"com": 50.0}, 50.0
    adjust = c.choice([True, False])
    x = series(c, 25, (c.int(2, 4),), nan="none")
    c.note(cfg=cfg, adjust=adjust, x=x.tolist())
    t = tol(c, x) * 10
    obs(c, x)
    h, _, _ = hk_run(lambda a: H(**cfg, adjust=adjust)(a, a), x)
    h = np.asarray(h, np.float64)
    v, _, _ = hk_run(lambda a: EWMVar(**cfg, adjust=adjust)(a), x)
    f, _, _ = fx_run(F(**cfg, adjust=adjust), (x, x))
    c.same(h[1:], f, "haiku_flax_agree", atol=t)
    c.same(h, np.swapaxes(h, 1, 2), "symmetric", atol=t)
    c.same(np.diagonal(h, axis1=1, axis2=2), v, "diagonal_is_variance", rtol=1e-5 if c.x64 else 5e-3, atol=t)
    ev = np.linalg.eigvalsh(0.5 * (h + np.swapaxes(h, 1, 2)))
    c.expect((ev >= -t).all(), "not_psd", f"min eigenvalue {ev.min()}")


@R.kind(weight=1)
def trained_decay(c):
    import math

    import jax
    import jax.numpy as jnp

    from wax.flax.modules import EWMVar as F
    from wax.modules import EWMVar as H

    cfg, com = decay(c)
    adjust = c.choice([True, False, "linear"])
    com2 = float(c.rng.uniform(0.2, 8.0))
    x = series(c, 15, (3,))
    c.note(cfg=cfg, adjust=adjust, com2=com2, x=x.tolist())
    e = ref_var(x, com2, adjust)
    obs(c, x)

    def edit(p):
        return jax.tree_util.tree_map(lambda v: jnp.asarray(math.log(com2), v.dtype), p)

    ys, _, _ = hk_run(lambda v: H(**cfg, adjust=adjust)(v), x, edit_params=edit)
    c.same(ys, e, "haiku", rtol=1e-6 if c.x64 else 2e-3, atol=tol(c, x))
    ys, _, _ = fx_run(F(**cfg, adjust=adjust), x, edit_params=lambda v: {**v, "params": edit(v["params"])})
    c.same(ys, e[1:], "flax", rtol=1e-6 if c.x64 else 2e-3, atol=tol(c, x))


@R.kind(weight=1)
def integers(c):
    """Variances and covariances of integers are those of the same numbers as floats."""
    from wax.flax.modules import EWMCov as FC
    from wax.flax.modules import EWMVar as FV
    from wax.modules import EWMCov as HC
    from wax.modules import EWMVar as HV

    com = c.choice([0.5, 1.0, 4.0])
    adjust = c.choice([True, False])
    T, n = c.choice([2, 6, 15]), c.int(1, 3)
    x, y = int_series(c, T, (n,)), int_series(c, T, (n,))
    c.note(com=com, adjust=adjust, dtypes=(str(x.dtype), str(y.dtype)), x=x.tolist(), y=y.tolist())
    xf, yf = x.astype(np.float64), y.astype(np.float64)
    obs(c, xf)
    c.count("integer_values", x.size + y.size)
    e = ref_var(xf, com, adjust)
    t = dict(rtol=1e-6 if c.x64 else 2e-3, atol=tol(c, xf))
    h, _, _ = hk_run(lambda v: HV(com=com, adjust=adjust)(v), x)
    c.same(h, e, "haiku_var", **t)
    f, _, _ = fx_run(FV(com=com, adjust=adjust), x)
    c.same(f, e[1:], "flax_var", **t)
    cfg = dict(adjust=adjust, ignore_na=False, min_periods=0, assume_centered=c.flip())
    e = ref_cov(xf, yf, com, cfg)
    t["atol"] = tol(c, xf, yf)
    h, _, _ = hk_run(lambda a, b: HC(com=com, **cfg)(a, b), (x, y))
    c.same(h, e, "haiku_cov", **t)
    f, _, _ = fx_run(FC(com=com, **cfg), (x, y))
    c.same(f, e[1:], "flax_cov", **t)


@R.kind(few=True)
def long_run(c):
    """Streams far longer than any narrow counter."""
    import pandas as pd

    from wax.flax.modules import EWMVar as F
    from wax.modules import EWMVar as H

    com = c.choice([0.5, 1.0, 10.0, 50.0])
    adjust = c.flip()
    x = long_series(c)
    c.note(com=com, adjust=adjust, T=len(x))
    c.state("long", com, adjust)
    c.count("long_steps", len(x))
    e = pd.DataFrame(x.astype(np.float64)).ewm(com=com, adjust=adjust, ignore_na=True).var(bias=True).values
    e[np.isnan(e)] = 0.0
    t = dict(rtol=1e-6 if c.x64 else 2e-3, atol=tol(c, x))
    ys, _, _ = hk_run(lambda v: H(com=com, adjust=adjust)(v), x)
    c.same(ys, e, "haiku_long", **t)
    ys, _, _ = fx_run(F(com=com, adjust=adjust), x)
    c.same(ys, e[1:], "flax_long", **t)

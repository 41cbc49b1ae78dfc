"""C10: open/high/low/close bars."""

from __future__ import annotations

import numpy as np
import pandas as pd

from wv.core import Registry
from wv.tools import fdtype, fx_run, hk_run, int_series, lanes, long_series, series, shape_

ID = "C10"
RULE = (
    "random sequences with missing values x random bar boundaries (none, every step, periodic, bursts, first step), "
    "Haiku and Flax; oracle: a per-lane Python bar model after every step, order invariants between the four fields "
    "and pandas group-by at bar ends; distinct by configuration and data"
)
ASSUMPTIONS = ["pandas groupby first/max/min/last are correct references"]
QUICK, THOROUGH = 60, 480
R = Registry()
F4 = ("OPEN", "HIGH", "LOW", "CLOSE")


def bars(x, reset):
    l, back = lanes(x)
    T, n = l.shape
    out = np.full((4, T, n), np.nan)
    for j in range(n):
        o = h = lo = c = np.nan
        for t in range(T):
            if reset[t]:
                o = h = lo = c = np.nan
            v = l[t, j]
            if v == v:
                if c != c:
                    o = h = lo = v
                h, lo, c = max(h, v), min(lo, v), v
            out[:, t, j] = o, h, lo, c
    return [back(v).astype(x.dtype) for v in out]


def resets(c, T):
    k = c.choice(["random", "never", "always", "periodic", "first", "burst", "sparse"])
    r = np.zeros(T, bool)
    if k == "random":
        r = c.rng.random(T) < 0.4
    elif k == "sparse":
        r = c.rng.random(T) < 0.12
    elif k == "always":
        r[:] = True
    elif k == "periodic":
        r[:: c.int(2, 6)] = True
    elif k == "first":
        r[0] = True
    elif k == "burst":
        a = c.int(0, T - 1)
        r[a : a + c.int(1, 4)] = True
    return k, r


@R.kind(weight=5)
def step_by_step(c):
    from wax.flax.modules.ohlc import OHLC as F
    from wax.modules.ohlc import OHLC as H

    mode = c.choice(["scan", "scan", "jit", "eager"])
    T = c.choice([1, 2, 4, 8]) if mode == "eager" else c.choice([1, 2, 6, 25, 90])
    x = series(c, T, shape_(c))
    if c.flip(0.2):
        x = np.where(c.rng.random(x.shape) < 0.1, c.choice([np.inf, -np.inf]), x).astype(x.dtype)
    k, r = resets(c, T)
    c.note(mode=mode, resets=r.astype(int).tolist(), x=x.tolist())
    e = bars(x, r)
    c.count("steps", T)
    c.count("bars", r.sum())
    c.count("missing", np.isnan(x).sum())
    c.count("bars_opened_by_missing", (r & np.isnan(lanes(x)[0]).any(axis=1)).sum())
    c.state(k, r[:12].tolist(), np.isnan(lanes(x)[0][:6]).tolist())
    h, _, _ = hk_run(lambda v, f: H()(v, reset_on=f), (x, r), mode=mode)
    for name, want in zip(F4, e):
        c.exact(getattr(h, name), want, "haiku_" + name)
    if T > 1:
        # the Flax state is initialised by (and so contains) the first element
        f, _, _ = fx_run(F(), (x, r), mode=mode)
        for name, want in zip(F4, e):
            c.exact(getattr(f, name), want[1:], "flax_" + name)


@R.kind(weight=2)
def bar_ends(c):
    """Run on irregular timestamps: at the end of every day the bar is the one
    pandas computes for that day."""
    import jax.numpy as jnp

    from wax.flax.modules.ohlc import OHLC as F
    from wax.modules import HasChanged
    from wax.modules.ohlc import OHLC as H

    T = c.choice([20, 60, 120])
    x = series(c, T, (2,), nan=c.choice(["none", "scatter", "burst", "lane"]))
    gaps = c.rng.choice([1, 3, 7, 11, 30], size=T)
    time = pd.Timestamp("2020-02-27") + pd.to_timedelta(np.cumsum(gaps), unit="h")
    day = ((time.normalize() - pd.Timestamp("2020-01-01")).days).to_numpy().astype(np.int32)
    c.note(gaps=gaps.tolist(), x=x.tolist())
    g = pd.DataFrame(x).groupby(day)
    ends = np.r_[np.nonzero(np.diff(day))[0], T - 1]
    e = [g.first(), g.max(), g.min(), g.last()]
    c.count("days", len(ends))
    c.state(gaps[:8].tolist())
    h, _, _ = hk_run(lambda v, d: H()(v, reset_on=HasChanged()(d)), (x, day))
    changed = np.r_[True, np.diff(day) != 0]
    f, _, _ = fx_run(F(), (np.concatenate([x[:1] * 0 + 7, x]), np.r_[True, changed]))
    for name, want in zip(F4, e):
        c.same(np.asarray(getattr(h, name))[ends], want.to_numpy(), "haiku_day_" + name, rtol=0, atol=0)
        c.same(np.asarray(getattr(f, name))[ends], want.to_numpy(), "flax_day_" + name, rtol=0, atol=0)
    for lib, d in (("haiku", h), ("flax", f)):
        o, hi, lo, cl = (np.asarray(getattr(d, n)) for n in F4)
        seen = ~np.isnan(cl)
        c.expect(bool((np.isnan(o) == np.isnan(hi)).all() and (np.isnan(o) == np.isnan(lo)).all()
                      and (np.isnan(o) == ~seen).all()), lib + "_fields_missing_together")
        c.expect(bool((lo <= np.minimum(o, cl))[seen].all() and (hi >= np.maximum(o, cl))[seen].all()),
                 lib + "_order")


@R.kind(weight=2)
def lanes_independent(c):
    """Bars of a vector are the bars of its elements; values of one lane never leak."""
    from wax.flax.modules.ohlc import OHLC as F
    from wax.modules.ohlc import OHLC as H

    T, n = c.choice([8, 30]), c.choice([2, 3])
    x = series(c, T, (n,))
    _, r = resets(c, T)
    c.note(r=r.astype(int).tolist(), x=x.tolist())
    c.count("lanes", n)
    c.state(T, n, r[:10].tolist())
    h, _, _ = hk_run(lambda v, f: H()(v, reset_on=f), (x, r))
    f, _, _ = fx_run(F(), (x, r))
    j = c.int(0, n - 1)
    hj, _, _ = hk_run(lambda v, f: H()(v, reset_on=f), (x[:, j], r))
    fj, _, _ = fx_run(F(), (x[:, j], r))
    for name in F4:
        c.exact(np.asarray(getattr(h, name))[:, j], getattr(hj, name), "haiku_lane")
        c.exact(np.asarray(getattr(f, name))[:, j], getattr(fj, name), "flax_lane")


@R.kind(weight=1)
def integers(c):
    """Bars of integer prices or volumes are those of the same numbers as floats."""
    from wax.flax.modules.ohlc import OHLC as F
    from wax.modules.ohlc import OHLC as H

    T = c.choice([2, 6, 20])
    x = int_series(c, T, shape_(c, 1))
    k, r = resets(c, T)
    c.note(dtype=str(x.dtype), resets=r.astype(int).tolist(), x=x.tolist())
    c.state("int", str(x.dtype), k, r[:12].tolist())
    c.count("integer_values", x.size)
    e = bars(x.astype(np.float64), r)
    h, _, _ = hk_run(lambda v, f: H()(v, reset_on=f), (x, r))
    f, _, _ = fx_run(F(), (x, r))
    for name, want in zip(F4, e):
        c.same(getattr(h, name), want, "haiku_" + name, rtol=0, atol=0)
        c.same(getattr(f, name), want[1:], "flax_" + name, rtol=0, atol=0)


@R.kind(few=True)
def long_run(c):
    """One bar over a stream far longer than any narrow counter, with rare resets."""
    from wax.flax.modules.ohlc import OHLC as F
    from wax.modules.ohlc import OHLC as H

    x = long_series(c)
    r = c.rng.random(len(x)) < c.choice([0, 1e-4, 1e-3])
    c.note(T=len(x), resets=np.nonzero(r)[0].tolist())
    c.state("long", np.nonzero(r)[0][:5].tolist())
    c.count("long_steps", len(x))
    e = bars(x, r)
    h, _, _ = hk_run(lambda v, f: H()(v, reset_on=f), (x, r))
    f, _, _ = fx_run(F(), (x, r))
    for name, want in zip(F4, e):
        c.exact(getattr(h, name), want, "haiku_long_" + name)
        c.exact(getattr(f, name), want[1:], "flax_long_" + name)

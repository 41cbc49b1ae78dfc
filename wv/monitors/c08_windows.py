"""C08: lookback windows hold exactly the last N inputs; lag, diff, change and
rolling mean are functions of that window."""

from __future__ import annotations

from collections import deque

import numpy as np

from wv.core import Registry
from wv.tools import fx_run, hk_run, int_series, long_series, series, shape_

ID = "C08"
RULE = (
    "random sequences (length up to 8 window lengths, several dtypes and shapes, missing values) x window length x "
    "fill value x options, Haiku and Flax, scan and step by step; oracle: a Python deque; distinct by configuration "
    "and data"
)
ASSUMPTIONS = ["pandas 2.3 rolling().mean() and pct_change() are correct references"]
QUICK, THOROUGH = 56, 480
R = Registry()


def typed(c, T, shape):
    k = c.choice(["f", "f", "f", "f32", "i32", "u32", "b"])
    if k == "f":
        return series(c, T, shape), c.choice([np.nan, np.nan, 0.0, -1.5])
    if k == "f32":
        return series(c, T, shape, dtype=np.float32), np.nan
    if k == "b":
        return c.rng.random((T,) + shape) < 0.5, False
    dt = np.int32 if k == "i32" else np.uint32
    lo = -1000 if k == "i32" else 0
    return c.rng.integers(lo, 1000, size=(T,) + shape).astype(dt), c.choice([0, 7])


def deque_windows(x, n, fill):
    d = deque([np.full(x.shape[1:], fill, x.dtype)] * n, maxlen=n)
    out = []
    for v in x:
        d.append(v)
        out.append(np.stack(list(d)))
    return np.stack(out)


def mode_(c):
    return c.choice(["scan", "scan", "jit", "eager"])


def T_(c, n):
    return c.choice([1, 2, max(1, n - 1), n, n + 1, 2 * n, 2 * n + 1, 8 * n + 3])


def obs(c, n, T, x):
    c.count("steps", T)
    c.count("windows_wrapped", T > n)
    c.count("missing", np.isnan(x).sum() if x.dtype.kind == "f" else 0)
    c.state(n, T, str(x.dtype), x.shape[1:])


def eager_cap(mode, T):
    return min(T, 10) if mode == "eager" else T


@R.kind(weight=3)
def buffer(c):
    from wax.flax.modules import Buffer as F
    from wax.modules import Buffer as H

    n = c.choice([1, 2, 3, 5, 8, 16])
    mode = mode_(c)
    T = eager_cap(mode, T_(c, n))
    x, fill = typed(c, T, shape_(c))
    st = c.flip()
    c.note(n=n, mode=mode, T=T, dtype=str(x.dtype), shape=x.shape, fill=fill, st=st, x=x.tolist())
    e = deque_windows(x, n, fill)
    ln = np.minimum(np.arange(T) + 1, n)
    h, _, _ = hk_run(lambda v: H(n, fill_value=fill, return_state=st)(v), x, mode=mode)
    obs(c, n, T, x)
    if st:
        h, s = h
        c.exact(s.buffer, e, "haiku_state_buffer")
        c.same(s.len_buffer, ln, "haiku_len")
        c.same(s.i_start, n - ln, "haiku_start")
    c.exact(h, e, "haiku_window", ctx=f"n={n} fill={fill}")
    if T > 1:
        f, _, _ = fx_run(F(maxlen=n, fill_value=fill, return_state=st), x, mode=mode)
        if st:
            f, s = f
            c.exact(s.buffer, e[1:], "flax_state_buffer")
            c.same(s.len_buffer, ln[1:], "flax_len")
        c.exact(f, e[1:], "flax_window", ctx=f"n={n} fill={fill}")


@R.kind(weight=3)
def lag(c):
    from wax.flax.modules import Lag as F
    from wax.modules import Lag as H

    k = c.choice([0, 1, 1, 2, 3, 7])
    mode = mode_(c)
    T = eager_cap(mode, T_(c, k + 1))
    x, fill = typed(c, T, shape_(c))
    st = c.flip(0.3)
    c.note(k=k, mode=mode, T=T, dtype=str(x.dtype), shape=x.shape, fill=fill, st=st, x=x.tolist())
    w = deque_windows(x, k + 1, fill)
    e = w[:, 0]
    obs(c, k + 1, T, x)
    h, _, _ = hk_run(lambda v: H(k, fill_value=fill, return_state=st)(v), x, mode=mode)
    if st:
        h, s = h
        c.exact(s.buffer, w, "haiku_state")
    c.exact(h, e, "haiku", ctx=f"lag={k}")
    if T > 1:
        f, _, _ = fx_run(F(lag=k, fill_value=fill, return_state=st), x, mode=mode)
        if st:
            f, s = f
            c.exact(s.buffer, w[1:], "flax_state")
        c.exact(f, e[1:], "flax", ctx=f"lag={k}")


@R.kind(weight=1)
def chained_lags(c):
    """Lags compose additively; independent lags in one program do not interfere."""
    import flax.linen as nn

    from wax.flax.modules import Lag as F
    from wax.modules import Lag as H

    a, b = c.int(0, 3), c.int(0, 4)
    T = c.choice([3, 9, 20])
    x = series(c, T, (2,))
    y = series(c, T, (2,))
    c.note(a=a, b=b, x=x.tolist(), y=y.tolist())
    ex = deque_windows(x, a + b + 1, np.nan)[:, 0]
    ey = deque_windows(y, b + 1, np.nan)[:, 0]
    obs(c, a + b + 1, T, x)
    h, _, _ = hk_run(lambda u, v: (H(b)(H(a)(u)), H(b)(v)), (x, y))
    c.exact(h[0], ex, "haiku_chain")
    c.exact(h[1], ey, "haiku_other")

    class P(nn.Module):
        @nn.compact
        def __call__(self, u, v):
            return F(lag=b)(F(lag=a)(u)), F(lag=b)(v)

    f, _, _ = fx_run(P(), (x, y))
    # the inner lag's initialisation output feeds the outer one: aligned on the same history
    c.exact(f[0], ex[1:], "flax_chain")
    c.exact(f[1], ey[1:], "flax_other")


@R.kind(weight=1)
def tree_lag(c):
    import flax.linen as nn

    from wax.flax.modules.lag import tree_lag as ftl
    from wax.modules.lag import tree_lag as htl

    k = c.int(1, 3)
    T = c.choice([2, 6, 11])
    x, y, z = (series(c, T, s) for s in [(), (3,), (2, 2)])
    c.note(k=k, x=x.tolist(), y=y.tolist(), z=z.tolist())
    obs(c, k + 1, T, y)

    def build(tl):
        def f(a, b, d):
            return tl(k)({"a": a, "n": None, "l": [b]}, d)

        return f

    h, _, _ = hk_run(build(htl), (x, y, z))
    e = [deque_windows(v, k + 1, np.nan)[:, 0] for v in (x, y, z)]
    d = h[0]
    c.expect(isinstance(h, tuple) and set(d) == {"a", "n", "l"} and d["n"] is None, "haiku_structure", str(type(h)))
    c.exact(d["a"], e[0], "haiku_a")
    c.exact(d["l"][0], e[1], "haiku_b")
    c.exact(h[1], e[2], "haiku_c")

    class P(nn.Module):
        @nn.compact
        def __call__(self, a, b, d):
            return ftl(k)({"a": a, "n": None, "l": [b]}, d)

    f, _, _ = fx_run(P(), (x, y, z))
    c.exact(f[0]["a"], e[0][1:], "flax_a")
    c.exact(f[0]["l"][0], e[1][1:], "flax_b")
    c.exact(f[1], e[2][1:], "flax_c")


@R.kind(weight=2)
def diff(c):
    from wax.flax.modules import Diff as F
    from wax.modules import Diff as H

    mode = mode_(c)
    T = eager_cap(mode, c.choice([1, 2, 3, 12, 40]))
    x = series(c, T, shape_(c))
    c.note(mode=mode, x=x.tolist())
    e = np.full_like(x, np.nan)
    e[1:] = x[1:] - x[:-1]
    obs(c, 2, T, x)
    h, _, _ = hk_run(lambda v: H()(v), x, mode=mode)
    c.exact(h, e, "haiku")
    if T > 1:
        f, _, _ = fx_run(F(), x, mode=mode)
        c.exact(f, e[1:], "flax")


@R.kind(weight=3)
def pct_change(c):
    import pandas as pd

    from wax.flax.modules import PctChange as F
    from wax.modules import PctChange as H

    mode = mode_(c)
    T = eager_cap(mode, c.choice([1, 2, 3, 12, 40]))
    shape = c.choice([(), (1,), (3,)])
    x = series(c, T, shape)
    if c.flip():
        x = np.abs(x) + np.asarray(0.5, x.dtype)
    fm = c.choice(["pad", "ffill", "pad", None])
    fz = c.flip(0.6)
    c.note(mode=mode, fm=fm, fz=fz, x=x.tolist())
    prev = x.copy()
    if fm:
        for t in range(1, T):
            prev[t] = np.where(np.isnan(prev[t]), prev[t - 1], prev[t])
    prev = np.concatenate([np.full((1,) + x.shape[1:], np.nan, x.dtype), prev[:-1]])
    with np.errstate(all="ignore"):
        e = x / prev - 1
    if fz:
        e = np.where(np.isnan(x) & ~np.isnan(prev), 0.0, e).astype(x.dtype)
    obs(c, 2, T, x)
    h, _, _ = hk_run(lambda v: H(fill_method=fm, fillna_zero=fz)(v), x, mode=mode)
    at = 1e-12 if c.x64 else 1e-5
    c.same(h, e, "haiku", atol=at, ctx=f"{fm} {fz}")
    if T > 1:
        f, _, _ = fx_run(F(fill_method=fm, fillna_zero=fz), x, mode=mode)
        c.same(f, e[1:], "flax", atol=at, ctx=f"{fm} {fz}")
    if fm and fz and shape:
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p = pd.DataFrame(x.astype(float)).pct_change(fill_method="pad").values
        # pandas yields NaN for 0/0 after a pad of zeros; the two agree wherever the input is present
        m = ~np.isnan(x)
        c.same(np.where(m, h, 0), np.where(m, p, 0), "pandas", atol=at)
        c.count("pandas_compared", m.sum())


@R.kind(weight=3)
def rolling_mean(c):
    import pandas as pd

    from wax.flax.modules import RollingMean as F
    from wax.modules import RollingMean as H

    n = c.choice([1, 2, 3, 5, 10])
    mp = c.int(1, n)
    mode = mode_(c)
    T = eager_cap(mode, T_(c, n))
    x = series(c, T, shape_(c))
    c.note(n=n, mp=mp, mode=mode, x=x.tolist())
    flat = x.reshape(T, -1).astype(np.float64)
    e = np.full(flat.shape, np.nan)
    for t in range(T):
        w = flat[max(0, t - n + 1) : t + 1]
        for j in range(flat.shape[1]):
            v = [q for q in w[:, j] if not np.isnan(q)]
            if len(v) >= mp:
                e[t, j] = sum(v) / len(v)
    p = pd.DataFrame(flat).rolling(n, mp).mean().values
    sc = np.nanmax(np.abs(flat), initial=1e-3)
    c.same(e, p, "self_check", atol=1e-9 * sc)
    e = e.reshape(x.shape)
    obs(c, n, T, x)
    kw = dict(min_periods=mp) if not (mp == 1 and c.flip()) else {}
    h, _, _ = hk_run(lambda v: H(n, **kw)(v), x, mode=mode)
    c.same(h, e, "haiku", ctx=f"n={n} mp={mp}")
    if T > 1:
        f, _, _ = fx_run(F(horizon=n, **kw), x, mode=mode)
        c.same(f, e[1:], "flax", ctx=f"n={n} mp={mp}")


@R.kind(weight=1)
def resume(c):
    """A window carried over a cut continues as if there had been no cut."""
    from wax.flax.modules import Buffer as FB
    from wax.flax.modules import RollingMean as FR
    from wax.modules import Buffer as HB
    from wax.modules import RollingMean as HR

    n = c.int(1, 5)
    T = c.int(3, 4 * n + 4)
    cut = c.int(2, T - 1)
    x = series(c, T, (2,))
    c.note(n=n, cut=cut, x=x.tolist())
    obs(c, n, T, x)
    for nm, hk_f, fx_m in [
        ("buffer", lambda v: HB(n)(v), FB(maxlen=n)),
        ("rolling", lambda v: HR(n)(v), FR(horizon=n)),
    ]:
        whole, _, _ = hk_run(hk_f, x)
        a, s, p = hk_run(hk_f, x[:cut])
        b, _, _ = hk_run(hk_f, x[cut:], state=s)
        c.exact(np.concatenate([a, b]), np.asarray(whole), "haiku_" + nm)
        whole, _, _ = fx_run(fx_m, x)
        a, v, _ = fx_run(fx_m, x[:cut])
        b, _, _ = fx_run(fx_m, x[cut:], variables=v)
        c.exact(np.concatenate([a, b]), np.asarray(whole), "flax_" + nm)


@R.kind(weight=1)
def integers(c):
    """Rolling means and relative changes of integers are those of the same numbers as floats."""
    from wax.flax.modules import PctChange as FP
    from wax.flax.modules import RollingMean as FR
    from wax.modules import PctChange as HP
    from wax.modules import RollingMean as HR

    n = c.choice([1, 2, 4])
    mp = c.int(1, n)
    T = c.choice([2, 3, 6, 15])
    x = int_series(c, T, shape_(c, 1))
    c.note(n=n, mp=mp, dtype=str(x.dtype), x=x.tolist())
    obs(c, n, T, x)
    c.count("integer_values", x.size)
    xf = x.astype(np.float64)
    e = np.stack([xf[max(0, t - n + 1) : t + 1].mean(axis=0) if min(t + 1, n) >= mp else xf[t] * np.nan
                  for t in range(T)])
    prev = np.concatenate([np.full_like(xf[:1], np.nan), xf[:-1]])
    with np.errstate(all="ignore"):
        p = xf / prev - 1
    at = 1e-12 if c.x64 else 1e-5
    h, _, _ = hk_run(lambda v: (HR(n, min_periods=mp)(v), HP()(v)), x)
    c.same(h[0], e, "haiku_mean")
    c.same(h[1], p, "haiku_pct", atol=at)
    f, _, _ = fx_run(FR(horizon=n, min_periods=mp), x)
    c.same(f, e[1:], "flax_mean")
    f, _, _ = fx_run(FP(), x)
    c.same(f, p[1:], "flax_pct", atol=at)


@R.kind(few=True)
def long_run(c):
    """Streams far longer than any narrow position counter, every step checked."""
    from wax.flax.modules import Buffer as FB
    from wax.flax.modules import Lag as FL
    from wax.flax.modules import RollingMean as FR
    from wax.modules import Buffer as HB
    from wax.modules import Lag as HL
    from wax.modules import RollingMean as HR

    n = c.choice([2, 3, 5, 7])
    x = long_series(c)[:, 0]
    c.note(n=n, T=len(x))
    c.state("long", n)
    c.count("long_steps", len(x))
    padded = np.concatenate([np.full(n - 1, np.nan, x.dtype), x])
    w = np.lib.stride_tricks.sliding_window_view(padded, n)
    ok = ~np.isnan(w)
    with np.errstate(all="ignore"):
        mean = np.where(ok, w, 0).astype(np.float64).sum(axis=1) / ok.sum(axis=1)
    h, _, _ = hk_run(lambda v: (HB(n)(v), HL(n - 1)(v), HR(n)(v)), x)
    c.exact(h[0], w, "haiku_window_long")
    c.exact(h[1], w[:, 0], "haiku_lag_long")
    c.same(h[2], mean, "haiku_mean_long")
    for name, m, e in (("window", FB(maxlen=n), w), ("lag", FL(lag=n - 1), w[:, 0])):
        f, _, _ = fx_run(m, x)
        c.exact(f, e[1:], f"flax_{name}_long")
    f, _, _ = fx_run(FR(horizon=n), x)
    c.same(f, mean[1:], "flax_mean_long")

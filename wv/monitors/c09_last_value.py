"""C09: last-value memory: forward fill, change detection, step counting, filling."""

from __future__ import annotations

import numpy as np

from wv.core import Registry
from wv.tools import fdtype, fx_run, hk_run, lanes, long_series, series, shape_

ID = "C09"
RULE = (
    "random sequences with missing/infinite values, repeated values and several dtypes; oracle: a dictionary-free "
    "per-element last-valid model, an element-wise comparison with the previous input, a step count, an element-wise "
    "replacement; distinct by configuration and data"
)
ASSUMPTIONS = ["a missing value is never equal to anything, so it counts as a change"]
QUICK, THOROUGH = 64, 520
R = Registry()


def mode_(c):
    return c.choice(["scan", "scan", "jit", "eager"])


@R.kind(weight=3)
def ffill(c):
    from wax.flax.modules import Ffill as F
    from wax.modules import Ffill as H

    mode = mode_(c)
    T = c.choice([1, 2, 5, 9] if mode == "eager" else [1, 2, 5, 30, 80])
    x = series(c, T, shape_(c))
    if c.flip(0.3):
        x = np.where(c.rng.random(x.shape) < 0.1, np.inf, x).astype(x.dtype)
    c.note(mode=mode, x=x.tolist())
    l, back = lanes(x)
    e = np.empty_like(l)
    for j in range(l.shape[1]):
        last = np.nan
        for t in range(T):
            if l[t, j] == l[t, j]:
                last = l[t, j]
            e[t, j] = last
    e = back(e).astype(x.dtype)
    c.count("missing", np.isnan(x).sum())
    c.count("filled", (np.isnan(x) & ~np.isnan(e)).sum())
    c.count("never_seen", np.isnan(e).sum())
    c.state(x.shape, np.isnan(l[:6]).tolist())
    h, _, _ = hk_run(lambda v: H()(v), x, mode=mode)
    c.exact(h, e, "haiku")
    if T > 1:
        f, _, _ = fx_run(F(), x, mode=mode)
        c.exact(f, e[1:], "flax")


@R.kind(weight=3)
def has_changed(c):
    from wax.flax.modules import HasChanged as F
    from wax.modules import HasChanged as H

    mode = mode_(c)
    T = c.choice([1, 2, 5, 9] if mode == "eager" else [1, 2, 5, 30])
    shape = shape_(c)
    k = c.choice(["f", "f", "f32", "i32", "u32"] + (["i64", "u64"] if c.x64 else []))
    dt = {"f": fdtype(c), "f32": np.float32, "i32": np.int32, "u32": np.uint32, "i64": np.int64, "u64": np.uint64}[k]
    base = c.rng.integers(1, 5, size=(T,) + shape)
    if k == "u32" and c.flip():
        base = base + 4294967000  # beyond the signed 32-bit range
    if k in ("i64", "u64") and c.flip():
        base = base + 2**53 + 2**31  # neighbours that collide when squeezed through floats
    x = base.astype(dt)
    for t in range(1, T):  # bursts of identical rows, single-element changes
        r = c.rng.random()
        if r < 0.5:
            x[t] = x[t - 1]
        elif r < 0.8 and x[t].size:
            x[t] = x[t - 1]
            i = tuple(int(c.rng.integers(s)) for s in shape)
            x[(t,) + i] += 1
    if dt in (np.float32, np.float64):
        if c.flip(0.4):
            x = np.where(c.rng.random(x.shape) < 0.1, np.nan, x).astype(dt)
        elif c.flip(0.5):
            x = (x * 1e-6).astype(dt)
    c.note(mode=mode, dtype=str(np.dtype(dt)), x=x.tolist())
    e = np.array([True if t == 0 else bool((x[t] != x[t - 1]).any()) for t in range(T)])
    c.count("changes", e.sum())
    c.count("unchanged", (~e).sum())
    c.state(k, shape, e.tolist())
    h, _, _ = hk_run(lambda v: H()(v), x, mode=mode)
    c.exact(h, e, "haiku", ctx=k)
    if T > 1:
        f, _, _ = fx_run(F(), x, mode=mode)
        c.exact(f, e[1:], "flax", ctx=k)


@R.kind(weight=1)
def counter(c):
    import jax

    from wax.flax.modules import Counter as F
    from wax.modules import Counter as H

    T = c.choice([1, 2, 7, 60])
    start = c.choice([0, 0, 5, 2**31 - 3, 2**32 - 70])
    mode = "scan"
    c.note(T=T, start=start)
    dummy = np.zeros(T, np.float32)

    def bump(tree):
        return jax.tree_util.tree_map(lambda v: v + np.uint32(start), tree)

    import haiku as hk
    import jax.numpy as jnp

    t = hk.transform_with_state(lambda v: H()())
    p, s = t.init(None, dummy[0])
    s = bump(s)
    h, _, _ = hk_run(lambda v: H()(), dummy, state=s)
    e = (start + 1 + np.arange(T)).astype(np.uint32)
    c.exact(h, e, "haiku")
    m = F()
    v = bump(m.init(jax.random.PRNGKey(0)))
    out = []
    for _ in range(min(T, 10)):
        o, v = m.apply(v, mutable=True)
        out.append(np.asarray(o))
    c.exact(np.array(out), e[: len(out)] + np.uint32(1), "flax")
    c.count("ticks", T)
    c.state(T, start)


@R.kind(weight=2)
def fill_nan_inf(c):
    import flax.linen as nn
    import haiku as hk
    import jax

    from wax.flax.modules import FillNanInf as F
    from wax.modules import FillNanInf as H

    fv = c.choice([0.0, 0.0, 1.0, -7.5])
    tree = {}
    for i in range(c.int(1, 3)):
        a = np.asarray(c.rng.normal(size=shape_(c)) * c.choice([1.0, 1e30, 1e-30]))
        r = c.rng.random(a.shape)
        a = np.where(r < 0.15, np.nan, np.where(r < 0.3, np.inf, np.where(r < 0.45, -np.inf, a))).astype(fdtype(c))
        tree["k%d" % i] = a if c.flip() else [a, (a * 2,)]
    if c.flip(0.3):
        tree["ints"] = c.rng.integers(-5, 5, size=(3,)).astype(np.int32)
    c.note(fv=fv, tree=repr(jax.tree_util.tree_map(lambda v: v.tolist(), tree)))

    def rep(v):
        return np.where(np.isfinite(v), v, np.asarray(fv, v.dtype)).astype(v.dtype)

    e = jax.tree_util.tree_map(rep, tree)
    for v in jax.tree_util.tree_leaves(tree):
        c.count("nonfinite", (~np.isfinite(v)).sum())
    c.state(str(jax.tree_util.tree_structure(tree)), fv)
    t = hk.transform(lambda x: H(fill_value=fv)(x))
    jt = jax.tree_util.tree_map(jax.numpy.asarray, tree)
    c.tree_same(t.apply({}, None, jt), e, "haiku", exact=True)
    m = F(fill_value=fv)
    c.tree_same(m.apply({}, jt), e, "flax", exact=True)
    c.tree_same(jax.jit(lambda x: m.apply({}, x))(jt), e, "flax_jit", exact=True)


@R.kind(few=True)
def long_run(c):
    """Streams far longer than any narrow counter, every step checked."""
    import pandas as pd

    from wax.flax.modules import Counter as FC
    from wax.flax.modules import Ffill as FF
    from wax.flax.modules import HasChanged as FH
    from wax.modules import Counter as HC
    from wax.modules import Ffill as HF
    from wax.modules import HasChanged as HH

    x = long_series(c, missing=c.choice([0.1, 0.999]))[:, 0]
    k = np.cumsum(c.rng.random(len(x)) < 0.3).astype(np.int32)
    c.note(T=len(x))
    c.state("long", float(np.isnan(x).mean() > 0.5))
    c.count("long_steps", len(x))
    filled = pd.Series(x).ffill().to_numpy()
    moved = np.r_[True, np.diff(k) != 0]
    n = np.arange(1, len(x) + 1)
    h, _, _ = hk_run(lambda v, k: (HF()(v), HH()(k), HC()()), (x, k))
    c.exact(h[0], filled, "haiku_ffill_long")
    c.same(h[1], moved, "haiku_changed_long")
    c.same(h[2], n, "haiku_count_long")
    f, _, _ = fx_run(FF(), x)
    c.exact(f, filled[1:], "flax_ffill_long")
    f, _, _ = fx_run(FH(), k)
    c.same(f, moved[1:], "flax_changed_long")

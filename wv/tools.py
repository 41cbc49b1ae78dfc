"""Ways of driving the code under test, shared by the monitors."""

from __future__ import annotations

import numpy as np


def key(n=0):
    import jax

    return jax.random.PRNGKey(n)


def fdtype(c):
    return np.float64 if c.x64 else np.float32


def series(c, T, shape=(), nan=None, lead=None, scale=None, kind=None, dtype=None):
    """A random (T, *shape) array: gaussian / integers / walks / constants, with
    missing values (scattered, bursts, leading, whole lanes, none)."""
    rng = c.rng
    shape = tuple(shape)
    kind = kind or c.choice(["gauss", "gauss", "ints", "walk", "const", "step", "repeat", "mean"])
    full = (T,) + shape
    if kind == "gauss":
        x = rng.normal(size=full)
    elif kind == "ints":
        x = rng.integers(-4, 5, size=full).astype(float)
    elif kind == "walk":
        x = np.cumsum(rng.normal(size=full), axis=0)
    elif kind == "const":
        x = np.full(full, float(rng.integers(-3, 4)))
    elif kind == "step":
        x = (np.arange(T).reshape((T,) + (1,) * len(shape)) + rng.integers(0, 5, size=(1,) + shape)).astype(float)
    elif kind == "mean":
        # often exactly the running mean (of all, or with weight a half) or the previous value
        x = rng.integers(-4, 5, size=full).astype(float)
        half = rng.random() < 0.5
        for t in range(1, min(T, 20)):
            m = x[0]
            for v in x[1:t]:
                m = (m + v) / 2 if half else m
            m = m if half else x[:t].mean(axis=0)
            pick = rng.random(shape)
            x[t] = np.where(pick < 0.4, m, np.where(pick < 0.5, x[t - 1], x[t]))
    else:
        x = np.repeat(rng.normal(size=(T // 3 + 1,) + shape), 3, axis=0)[:T]
    if scale is None:
        scale = c.choice([1.0, 1.0, 100.0, 0.01, 2.0**-16, 2.0**16])
    x = x * scale
    mode = nan if nan is not None else c.choice(["none", "scatter", "burst", "lead", "mix", "lane", "dense"])
    m = np.zeros(full, bool)
    if mode in ("scatter", "mix"):
        m |= rng.random(full) < 0.25
    if mode == "dense":
        m |= rng.random(full) < 0.7
    if mode in ("burst", "mix") and T > 2:
        a = int(rng.integers(1, T))
        m[a : a + int(rng.integers(1, max(2, T // 2)))] = True
    if mode in ("lead", "mix"):
        m[: int(rng.integers(1, max(2, T // 2)))] = True
    if mode == "lane" and shape:
        m[(slice(None),) + tuple(int(rng.integers(s)) for s in shape)] = True
    x = np.where(m, np.nan, x)
    return x.astype(dtype or fdtype(c))


def shape_(c, maxdim=2):
    s = c.choice([(), (), (1,), (2,), (3,), (5,), (2, 3), (1, 1), (3, 1)])
    return s[:maxdim]


def hk_run(fn, xs, params=None, state=None, rng=None, mode="scan", edit_params=None):
    """Run a Haiku function over the leading axis of the tuple of sequences ``xs``.

    Returns outputs (stacked tree), final state, params."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    t = hk.transform_with_state(fn)
    if not isinstance(xs, tuple):
        xs = (xs,)
    xs = jax.tree_util.tree_map(jnp.asarray, xs)
    x0 = jax.tree_util.tree_map(lambda x: x[0], xs)
    p0, s0 = t.init(key(0) if rng is None else rng, *x0)
    params = p0 if params is None else params
    state = s0 if state is None else state
    if edit_params is not None:
        params = edit_params(params)
    if mode == "scan":

        def f(s, x):
            o, s = t.apply(params, s, rng, *x)
            return s, o

        state, ys = jax.lax.scan(f, state, xs)
        return ys, state, params
    ap = jax.jit(t.apply) if mode == "jit" else t.apply
    ys = []
    T = len(jax.tree_util.tree_leaves(xs)[0])
    for i in range(T):
        o, state = ap(params, state, rng, *jax.tree_util.tree_map(lambda x: x[i], xs))
        ys.append(o)
    return jax.tree_util.tree_map(lambda *a: jnp.stack(a), *ys), state, params


def fx_run(module, xs, mode="scan", variables=None, edit_params=None, rngs=None):
    """Run a Flax module over sequences, from the variables that init leaves
    behind after it has processed the first element (drop it: aligned run).

    Returns outputs for elements 1.. and final variables, initial variables."""
    import jax
    import jax.numpy as jnp

    if not isinstance(xs, tuple):
        xs = (xs,)
    xs = jax.tree_util.tree_map(jnp.asarray, xs)
    if variables is None:
        x0 = jax.tree_util.tree_map(lambda x: x[0], xs)
        variables = module.init(key(0) if rngs is None else rngs, *x0)
        xs = jax.tree_util.tree_map(lambda x: x[1:], xs)
    if edit_params is not None:
        variables = edit_params(variables)
    params = variables.get("params", {})
    st = {k: v for k, v in variables.items() if k != "params"}

    def f(s, x):
        o, ns = module.apply({"params": params, **s}, *x, mutable=True)
        return {k: v for k, v in ns.items() if k != "params"}, o

    if mode == "scan":
        st, ys = jax.lax.scan(f, st, xs)
    else:
        g = jax.jit(f) if mode == "jit" else f
        out = []
        for i in range(len(jax.tree_util.tree_leaves(xs)[0])):
            st, o = g(st, jax.tree_util.tree_map(lambda x: x[i], xs))
            out.append(o)
        ys = jax.tree_util.tree_map(lambda *a: jnp.stack(a), *out)
    return ys, {"params": params, **st}, variables


def lanes(x):
    """(T, *shape) -> (T, n) float64 view plus a function restoring the shape."""
    x = np.asarray(x, np.float64)
    T = x.shape[0]
    shp = x.shape
    return x.reshape(T, -1), (lambda y: np.asarray(y).reshape(shp))


def int_series(c, T, shape=()):
    """Integer or boolean data: small counts, signed values, flags."""
    dt = c.choice([np.int32, np.int32, np.int64, np.uint8, np.int8, np.int16, bool])
    full = (T,) + tuple(shape)
    if dt is bool:
        return c.rng.random(full) < 0.5
    i = np.iinfo(dt)
    lo, hi = max(i.min, -1000), min(i.max, 1000)
    if c.flip(0.3):
        lo, hi = max(lo, -3), 4
    x = c.rng.integers(lo, hi, size=full, endpoint=True).astype(dt)
    return x if c.flip(0.7) else np.maximum(x, 1)


LONG = 70001  # steps: beyond counters of 8 and 16 bits


def long_series(c, lanes_=1, missing=0.1):
    """A long (LONG, lanes_) array; missing values scattered."""
    x = c.rng.normal(size=(LONG, lanes_)) + c.rng.integers(-2, 3)
    x[c.rng.random(x.shape) < missing] = np.nan
    return x.astype(fdtype(c))

"""C26: streaming programs can be differentiated, compiled and batched."""

from __future__ import annotations

import contextlib

import numpy as np

from wv.core import Registry
from wv.programs import fx_programs, hk_programs, rows
from wv.tools import fdtype, key

ID = "C26"
RULE = (
    "every Haiku and Flax module (decays, windows, masks, events, bars, filters, loops, learners) unrolled over data with "
    "missing values; derivatives along random directions of parameters, data and carried state against central "
    "differences (two step sizes, compared only where they agree) and finite everywhere; forward against reverse mode; "
    "compiled and batched runs against eager runs one by one; distinct by program, configuration and data"
)
ASSUMPTIONS = ["no derivative is claimed where two step sizes of the central difference disagree (kinks, divisions by zero)"]
QUICK, THOROUGH = 16, 260
R = Registry()


def hk_grid(c):
    """label, function of one row of floats."""
    import haiku as hk
    import jax.numpy as jnp

    from wax import modules as m

    com = c.choice([0.4, 1.3, 3.7, 12.1])
    adj = c.choice([True, False, "linear"])
    ig = c.flip()
    mp = c.choice([0, 1, 3])
    iv = c.choice([np.nan, np.nan, 0.3])
    k = c.int(2, 4)
    ok = lambda x: ~jnp.isnan(x)  # noqa: E731
    f = jnp.nan_to_num

    def learner(x):
        import optax

        y, info = m.OnlineSupervisedLearner(
            lambda v: hk.Linear(1)(v), optax.sgd(0.03), lambda y, p: jnp.mean((y - p) ** 2))(f(x), jnp.sum(f(x))[None])
        return y, info.loss

    def feedback(x):
        return m.GymFeedback(lambda o: (0.5 * m.EWMA(com=com)(o), {}), lambda a, r: (jnp.sum(a * r), r - a, {}))(f(x))

    grid = {
        "ewma": (lambda x: m.EWMA(com=com, adjust=adj, ignore_na=ig, min_periods=mp, initial_value=iv)(x), 5),
        "ewma_info": (lambda x: m.EWMA(com=com, adjust=adj, ignore_na=ig, min_periods=mp, return_info=True)(x), 1),
        "ewmvar": (lambda x: m.EWMVar(com=com, adjust=adj)(x), 3),
        "ewmcov": (lambda x: m.EWMCov(com=com, adjust=adj, ignore_na=ig, assume_centered=c0)(x, x[::-1]), 3),
        "roll": (lambda x: m.RollingMean(k, min_periods=mp)(x), 1),
        "lag": (lambda x: m.Lag(k)(x), 1),
        "diff": (lambda x: m.Diff()(x), 1),
        "pct": (lambda x: m.PctChange(fill_method=fm, fillna_zero=ig)(x), 2),
        "buffer": (lambda x: m.Buffer(k)(x), 1),
        "ffill": (lambda x: m.Ffill()(x), 1),
        "fill": (lambda x: m.FillNanInf()(x) ** 2, 1),
        "mask_mean": (lambda x: m.MaskMean()(ok(x), x), 1),
        "mask_std": (lambda x: m.MaskStd(assume_centered=c0)(ok(x), x), 1),
        "mask_normalize": (lambda x: m.MaskNormalize(assume_centered=c0)(ok(x), x), 2),
        "buffer_std": (lambda x: m.MaskStd(axis=0)(ok(m.Buffer(k, name="b")(x)), m.Buffer(k, name="c")(x)), 1),
        "event": (lambda x: m.UpdateOnEvent(m.EWMA(com=com, adjust=adj))(f(x)[0] > 3.0, x), 1),
        "ohlc": (lambda x: m.OHLC()(x, reset_on=f(x)[0] > 3.5), 1),
        "arma": (lambda x: m.ARMA(jnp.array([0.3, -0.2]), jnp.array([0.2]))(f(x)), 1),
        "snarimax": (lambda x: m.SNARIMAX(2, q=1)(f(x[:1]))[0], 1),
        "learner": (learner, 1),
        "feedback": (feedback, 1),
        "chain": (lambda x: m.EWMVar(com=com, adjust=adj)(m.PctChange()(m.EWMA(com=1.3, adjust=True)(x))), 2),
        "chain2": (lambda x: f(m.EWMA(com=com, adjust=adj)(m.Diff()(x))) / (1.0 + f(m.EWMVar(com=com, adjust=adj)(m.Lag(1)(x)))), 2),
    }
    c0, fm = c.flip(), c.choice(["ffill", None])
    name = c.choice([n for n, (_, w) in grid.items() for _ in range(w)])
    return dict(prog=name, com=com, adjust=adj, ignore_na=ig, min_periods=mp, initial=iv, k=k, c0=c0, fm=fm), grid[name][0]


def fx_grid(c):
    import flax.linen as nn
    import jax.numpy as jnp

    from wax.flax import modules as m
    from wax.flax.modules.mask_mean import MaskMean
    from wax.flax.modules.mask_normalize import MaskNormalize
    from wax.flax.modules.mask_std import MaskStd

    com = c.choice([0.4, 1.3, 3.7, 12.1])
    adj = c.choice([True, False, "linear"])
    ig = c.flip()
    mp = c.choice([0, 1, 3])
    k = c.int(2, 4)
    c0, fm = c.flip(), c.choice(["ffill", None])
    ok = lambda x: ~jnp.isnan(x)  # noqa: E731
    grid = {
        "ewma": (lambda x: m.EWMA(com=com, adjust=adj, ignore_na=ig, min_periods=mp)(x), 5),
        "ewmvar": (lambda x: m.EWMVar(com=com, adjust=adj)(x), 3),
        "ewmcov": (lambda x: m.EWMCov(com=com, adjust=adj, ignore_na=ig, assume_centered=c0)(x, x[::-1]), 3),
        "roll": (lambda x: m.RollingMean(horizon=k, min_periods=mp)(x), 1),
        "lag": (lambda x: m.Lag(lag=k)(x), 1),
        "diff": (lambda x: m.Diff()(x), 1),
        "pct": (lambda x: m.PctChange(fill_method=fm, fillna_zero=ig)(x), 2),
        "buffer": (lambda x: m.Buffer(maxlen=k)(x), 1),
        "ffill": (lambda x: m.Ffill()(x), 1),
        "mask_mean": (lambda x: MaskMean()(ok(x), x), 1),
        "mask_std": (lambda x: MaskStd(assume_centered=c0)(ok(x), x), 1),
        "mask_normalize": (lambda x: MaskNormalize(assume_centered=c0)(ok(x), x), 2),
        "ohlc": (lambda x: tuple(m.ohlc.OHLC()(x, jnp.nan_to_num(x)[0] > 3.5)), 1),
        "chain": (lambda x: m.EWMVar(com=com, adjust=adj)(m.PctChange()(m.EWMA(com=1.3)(x))), 2),
    }
    name = c.choice([n for n, (_, w) in grid.items() for _ in range(w)])

    class P(nn.Module):
        @nn.compact
        def __call__(self, x):
            return grid[name][0](x)

    return dict(prog=name, com=com, adjust=adj, ignore_na=ig, min_periods=mp, k=k, c0=c0, fm=fm), P()


def data(c, T, n):
    """Values away from zero, with missing ones."""
    x = c.rng.normal(size=(T, n)) * c.choice([0.3, 1.0]) + c.choice([3.0, -4.0])
    mode = c.choice(["none", "lead", "scatter", "gap", "column", "dense"])
    if mode == "lead":
        x[: c.int(1, T // 2), c.int(0, n - 1):] = np.nan
    if mode == "scatter":
        x[c.rng.random((T, n)) < 0.3] = np.nan
    if mode == "gap":
        a = c.int(1, T - 3)
        x[a:c.int(a + 2, T), : c.int(1, n)] = np.nan
    if mode == "column":
        x[:, c.int(0, n - 1)] = np.nan
    if mode == "dense":
        x[c.rng.random((T, n)) < 0.7] = np.nan
    return mode, x.astype(fdtype(c))


def floats(tree):
    import jax
    import jax.numpy as jnp

    lv = jax.tree_util.tree_leaves(tree)
    return [v for v in lv if jnp.issubdtype(v.dtype, jnp.floating)]


def build(c, lib, x):
    import jax
    import jax.numpy as jnp

    if lib == "haiku":
        from wax.unroll import unroll_transform_with_state

        cfg, f = hk_grid(c)
        u = unroll_transform_with_state(f)
    else:
        from wax.flax.core import flax_unroll_transform

        cfg, f = fx_grid(c)
        u = flax_unroll_transform(f)
    p, s = u.init(key(c.int(0, 5)), jnp.asarray(x))
    w = [c.rng.normal(size=np.shape(v)) for v in floats(jax.eval_shape(lambda: u.apply(p, s, None, jnp.asarray(x))[0]))]

    def loss(p, s, x):
        ys = floats(u.apply(p, s, None, x)[0])
        return sum(jnp.sum(jnp.where(jnp.isfinite(y), y, 0.0) * jnp.asarray(v, y.dtype)) for y, v in zip(ys, w))

    return cfg, u, p, s, loss


@R.kind(weight=6)
def derivatives(c):
    """Reverse-mode derivatives in parameters, state and data against central differences."""
    import jax
    import jax.numpy as jnp

    lib = c.choice(["haiku", "flax"])
    T, n = c.choice([6, 12, 18]), c.int(2, 3)
    mode, x = data(c, T, n)
    cfg, u, p, s, loss = build(c, lib, x)
    c.note(lib=lib, mode=mode, x=x.tolist(), **cfg)
    if c.flip(0.4):  # resume somewhere
        _, s = u.apply(p, s, None, jnp.asarray(data(c, 5, n)[1]))
    sl, sd = jax.tree_util.tree_flatten(s)
    fl = [jnp.issubdtype(jnp.asarray(v).dtype, jnp.floating) for v in sl]

    def L(p, sf, x):
        it = iter(sf)
        return loss(p, jax.tree_util.tree_unflatten(sd, [next(it) if k else v for k, v in zip(fl, sl)]), x)

    sf = [v for k, v in zip(fl, sl) if k]
    args = (p, sf, jnp.asarray(x))
    L = jax.jit(L)
    g = jax.jit(jax.grad(L, argnums=(0, 1, 2)))(*args)
    for nm, t in zip(("params", "state", "data"), g):
        for v in jax.tree_util.tree_leaves(t):
            v = np.asarray(v)
            c.count("derivatives_of_" + nm, v.size)
            c.expect(bool(np.isfinite(v).all()), f"{lib}_{nm}_finite", f"{cfg} {mode}: {v.tolist()}"[:600])
    miss = np.isnan(x)
    c.expect(not np.asarray(g[2])[miss].any(), f"{lib}_missing", f"derivative in a missing value {cfg}")
    c.count("missing_values", miss.sum())
    c.state(lib, tuple(sorted((k, str(v)) for k, v in cfg.items())), mode, T, n)
    if not c.x64:
        return
    for which in ("params", "data", "all"):
        d = jax.tree_util.tree_map(
            lambda v: jnp.where(jnp.isfinite(v), jnp.asarray(c.rng.normal(size=v.shape), v.dtype), 0.0), args)
        if which == "params":
            if not jax.tree_util.tree_leaves(p):
                continue
            d = (d[0], [v * 0 for v in d[1]], d[2] * 0)
        if which == "data":
            d = (jax.tree_util.tree_map(lambda v: v * 0, d[0]), [v * 0 for v in d[1]], d[2])
        at = lambda h: float(L(*jax.tree_util.tree_map(lambda v, e: v + h * e, args, d)))  # noqa: E731
        fd = [(at(h) - at(-h)) / (2 * h) for h in (1e-5, 3e-6)]
        one = [(at(h) - at(0)) / h for h in (1e-6, -1e-6)]
        an = sum(float(jnp.sum(a * b)) for a, b in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(d)))
        size = sum(float(jnp.sum(jnp.abs(a * b))) for a, b in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(d)))
        tol = 1e-5 * (1.0 + size) + 1e-4 * abs(fd[1])
        if abs(fd[0] - fd[1]) > tol or abs(one[0] - one[1]) > 100 * tol or not np.isfinite(fd).all():
            c.count("not_smooth_here")
            continue
        c.count("directions")
        c.nontrivial = True
        c.expect(abs(an - fd[1]) <= 4 * tol, f"{lib}_{which}_derivative",
                 f"{cfg} {mode}: derivative {an} central difference {fd}")
    if c.flip(0.5):  # forward mode
        _, jv = jax.jvp(L, args, d)
        c.count("forward_mode")
        c.same(jv, an, f"{lib}_forward_mode", rtol=1e-6, atol=1e-7 * (1 + size))


@R.kind(weight=3)
def compiled(c):
    """Eager, compiled and step by step compiled runs give the same outputs and states."""
    import jax
    import jax.numpy as jnp

    lib = c.choice(["haiku", "flax"])
    T = c.choice([4, 9])
    x, b = rows(c, T)
    if lib == "haiku":
        from wax.unroll import unroll_transform_with_state

        det, noisy = hk_programs()
        name = c.choice([*det, *noisy])
        u = unroll_transform_with_state({**det, **noisy}[name])
        step = None
    else:
        from wax.flax.core import flax_transform_with_state, flax_unroll_transform

        W, det, noisy = fx_programs()
        name = c.choice([*det, *noisy])
        u = flax_unroll_transform(W(name))
        step = flax_transform_with_state(W(name))
    rng = key(7) if name in noisy else None
    c.note(lib=lib, prog=name, T=T, x=x.tolist(), b=b.astype(int).tolist())
    c.state("compiled", lib, name, T)
    x, b = jnp.asarray(x), jnp.asarray(b)
    p, s = u.init(key(1), x, b)
    with jax.disable_jit() if c.flip(0.15) and T == 4 else contextlib.nullcontext():
        y0, s0 = u.apply(p, s, rng, x, b)
    t = dict(rtol=1e-9, atol=1e-10) if c.x64 else dict(rtol=5e-4, atol=1e-5 * max(1.0, float(np.nanmax(np.abs(x), initial=0.0)) ** 2))
    lv = jax.tree_util.tree_leaves
    f = jax.jit(u.apply)
    y1, s1 = f(p, s, rng, x, b)
    c.tree_same(lv(y1), lv(y0), f"{lib}_outputs", **t)
    c.tree_same(lv(s1), lv(s0), f"{lib}_state", **t)
    c.count("compiled_runs")
    x2, b2 = (jnp.asarray(v) for v in rows(c, T))  # the compiled program again, on other data and another state
    y2, s2 = f(p, s1, rng, x2, b2)
    y3, s3 = u.apply(p, s1, rng, x2, b2)
    c.tree_same(lv(y2), lv(y3), f"{lib}_second_call", **t)
    c.tree_same(lv(s2), lv(s3), f"{lib}_second_state", **t)
    # buffers given away
    k = jax.tree_util.tree_map(lambda v: jnp.array(v, copy=True), s1)
    y4, s4 = jax.jit(u.apply, donate_argnums=(1,))(p, k, rng, x2, b2)
    c.tree_same(lv(y4), lv(y3), f"{lib}_donated", **t)
    if step is not None and rng is None:
        g = jax.jit(step.apply)
        st, ys = s, []
        _, st = step.apply(p, st, None, x[0], b[0])
        want, wend = u.apply(p, st, None, x, b)
        for i in range(T):
            o, st = g(p, st, None, x[i], b[i])
            ys.append(o)
        got = [np.stack([np.asarray(lv(o)[i]) for o in ys]) for i in range(len(lv(ys[0])))]
        c.tree_same(got, lv(want), "flax_steps", **t)


@R.kind(weight=3)
def batched(c):
    """A batch of sequences under vmap is each sequence on its own; so are their derivatives."""
    import jax
    import jax.numpy as jnp

    lib = c.choice(["haiku", "flax"])
    T, n, B = c.choice([4, 8]), c.int(2, 3), c.int(2, 4)
    seqs = [data(c, T, n) for _ in range(B)]
    cfg, u, p, s, loss = build(c, lib, seqs[0][1])
    c.note(lib=lib, modes=[m for m, _ in seqs], x=[v.tolist() for _, v in seqs], **cfg)
    c.state("batched", lib, tuple(sorted((k, str(v)) for k, v in cfg.items())), B, T)
    xs = jnp.stack([jnp.asarray(v) for _, v in seqs])
    t = dict(rtol=1e-8, atol=1e-9) if c.x64 else dict(rtol=2e-3, atol=1e-3)
    lv = jax.tree_util.tree_leaves
    ys, ss = jax.vmap(lambda x: u.apply(p, s, None, x))(xs)
    one = jax.jit(u.apply)
    for i in range(B):
        y, e = one(p, s, None, xs[i])
        c.tree_same([v[i] for v in lv(ys)], lv(y), f"{lib}_lane", **t)
        c.tree_same([v[i] for v in lv(ss)], lv(e), f"{lib}_lane_state", **t)
        c.count("lanes")
    # each lane resumed from its own state
    zs, _ = jax.vmap(lambda s, x: u.apply(p, s, None, x))(ss, xs[::-1])
    for i in range(B):
        z, _ = one(p, jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(ss), [v[i] for v in lv(ss)]), None, xs[B - 1 - i])
        c.tree_same([v[i] for v in lv(zs)], lv(z), f"{lib}_resumed_lane", **t)
    if not c.x64:
        return
    gs = jax.vmap(jax.grad(loss), in_axes=(None, None, 0))(p, s, xs)
    g1 = jax.jit(jax.grad(loss))
    for i in range(B):
        c.tree_same([v[i] for v in lv(gs)], lv(g1(p, s, xs[i])), f"{lib}_lane_derivative", rtol=1e-6, atol=1e-7)
        c.count("lane_derivatives")
    # parameters per lane
    q = jax.tree_util.tree_map(lambda v: jnp.stack([v + 0.1 * i for i in range(B)]), p)
    if lv(q):
        ws, _ = jax.vmap(lambda p, x: u.apply(p, s, None, x))(q, xs)
        for i in range(B):
            w, _ = one(jax.tree_util.tree_map(lambda v: v[i], q), s, None, xs[i])
            c.tree_same([v[i] for v in lv(ws)], lv(w), f"{lib}_lane_parameters", **t)

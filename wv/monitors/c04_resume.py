"""C04: the carried state is all a computation remembers."""

from __future__ import annotations

import pickle

import numpy as np

from wv.core import Registry
from wv.programs import fx_programs, hk_programs, magnitude, rows
from wv.tools import fdtype, key, series

ID = "C04"
RULE = (
    "random Haiku and Flax programs (every module, learners, feedback loops, streaming programs) and labelled-data or "
    "numba front ends x sequences x random cut points: pieces resumed from the carried state (copied, pickled, resumed "
    "twice, interleaved with another stream, out of order) against the whole run; prefixes against the whole run; "
    "arguments compared bitwise before and after; distinct by program, cuts and data"
)
ASSUMPTIONS = ["programs without random keys: an unroll derives its keys from the key it is given"]
QUICK, THOROUGH = 24, 420
R = Registry()


def tol(c):
    m = magnitude(c)
    return dict(rtol=1e-9, atol=1e-10 * m) if c.x64 else dict(rtol=2e-4, atol=2e-5 * m)


def more_haiku():
    """Programs that carry learned parameters, optimizers or several modules."""
    import haiku as hk
    import jax.numpy as jnp
    import optax

    from wax import modules as m

    f = jnp.nan_to_num

    def learner(x, b):
        model = lambda v: hk.Linear(1)(v)  # noqa: E731
        y, info = m.OnlineSupervisedLearner(model, optax.adam(0.05), lambda y, p: jnp.mean((y - p) ** 2))(
            f(x), jnp.sum(f(x))[None])
        return {"y": y, "loss": info.loss, "p": info.params}

    def newton_learner(x, b):
        from wax.optim.newton import newton

        y, info = m.OnlineSupervisedLearner(lambda v: hk.Linear(1, with_bias=False)(v), newton(0.1, eps=1.0),
                                            lambda y, p: jnp.mean((y - p) ** 2))(f(x), jnp.sum(f(x))[None])
        return y, info.params

    def arma(x, b):
        return m.ARMA(jnp.array([0.3, -0.1]), jnp.array([0.2]))(f(x))

    def forecaster(x, b):
        return m.SNARIMAX(2, q=1)(f(x[:1]), f(x[1:]))[0]

    def feedback(x, b):
        def agent(o):
            return 0.5 * m.EWMA(alpha=0.3)(o), {}

        def env(a, r):
            return jnp.sum(a * r), r - a, {}

        return m.GymFeedback(agent, env, return_obs=True, return_action=True)(f(x))

    def normal(x, b):
        mask = jnp.isfinite(x)
        return {"n": m.MaskNormalize()(mask, x), "m": m.MaskMean()(mask, x), "s": m.MaskStd()(mask, m.Lag(1)(x)),
                "a": m.ApplyMask(mask_value=-1.0)(mask, x)}

    def trees(x, b):
        d = {"p": x, "q": (x[:1] * 2, jnp.ones((2, 2)) * x[0])}
        return m.UpdateOnEvent(m.Buffer(2))(b, x), m.Lag(2)(d["q"][1]), m.HasChanged()(x), m.Ffill()(d["q"][0])

    def twice(x, b):
        """The same module instance called twice per step."""
        e = m.EWMA(alpha=0.4)
        return e(f(x)), e(f(x) * 2)

    return dict(learner=learner, newton_learner=newton_learner, arma=arma, forecaster=forecaster, feedback=feedback, normal=normal, trees=trees,
                twice=twice)


def cuts_of(c, T):
    k = c.choice([1, 1, 2, 3, T])
    return [0] + sorted({c.int(1, T - 1) for _ in range(k)} if T > 1 else set()) + [T]


def snapshot(tree):
    import jax

    return jax.tree_util.tree_map(lambda v: np.array(v, copy=True), tree)


def leaves(tree):
    """The arrays only: some modules build a new named tuple type in each trace."""
    import jax

    return [np.asarray(v) for v in jax.tree_util.tree_leaves(tree)]


def cat(parts):
    import jax

    parts = [leaves(p) for p in parts]
    return jax.tree_util.tree_map(lambda *v: np.concatenate([np.asarray(x) for x in v]), *parts)


def through(c, state):
    """What a user may do with a state between two pieces."""
    import jax

    how = c.choice(["as_is", "pickle", "numpy", "flatten"])
    c.count("state_" + how)
    if how == "pickle":
        lv, td = jax.tree_util.tree_flatten(state)
        return jax.tree_util.tree_unflatten(td, pickle.loads(pickle.dumps([np.asarray(v) for v in lv])))
    if how == "numpy":
        return jax.tree_util.tree_map(np.asarray, state)
    if how == "flatten":
        lv, td = jax.tree_util.tree_flatten(state)
        return jax.tree_util.tree_unflatten(td, lv)
    return state


@R.kind(weight=5)
def haiku(c):
    import jax
    import jax.numpy as jnp

    from wax.unroll import unroll_transform_with_state

    det, _ = hk_programs()
    prog = {**det, **more_haiku()}
    name = c.choice(list(prog))
    T = c.choice([2, 5, 12, 25])
    x, b = rows(c, T)
    x2, b2 = rows(c, T)
    cuts = cuts_of(c, T)
    dynamic = c.flip(0.75) or T > 12
    c.note(prog=name, T=T, cuts=cuts, dynamic=dynamic, x=x.tolist(), b=b.astype(int).tolist())
    c.state("haiku", name, tuple(cuts), dynamic)
    c.count("pieces", len(cuts) - 1)
    u = unroll_transform_with_state(prog[name], dynamic=dynamic)
    x, b = jnp.asarray(x), jnp.asarray(b)
    p, s0 = u.init(key(1), x, b)
    kept = snapshot((p, s0, x, b))
    whole, end = u.apply(p, s0, None, x, b)
    c.tree_same((p, s0, x, b), kept, "arguments_changed", exact=True)
    s, parts, saved = s0, [], []
    other, os = [], s0
    inter = c.flip(0.4)
    for i, j in zip(cuts[:-1], cuts[1:]):
        s = through(c, s)
        saved.append(s)
        if inter:  # another stream through the same transformed program
            o, os = u.apply(p, os, None, jnp.asarray(x2[i:j]), jnp.asarray(b2[i:j]))
            other.append(o)
        o, s = u.apply(p, s, None, x[i:j], b[i:j])
        parts.append(o)
    c.tree_same(cat(parts), leaves(whole), "pieces", **tol(c))
    c.tree_same(dict(s), dict(end), "final_state", **tol(c))
    if inter:
        c.count("interleaved_streams")
        w2, e2 = u.apply(p, s0, None, jnp.asarray(x2), jnp.asarray(b2))
        c.tree_same(cat(other), leaves(w2), "interleaved_stream", **tol(c))
    k = c.int(0, len(saved) - 1)  # go back to a saved state
    before = snapshot(saved[k])
    o1, e1 = u.apply(p, saved[k], None, x[cuts[k]:cuts[k + 1]], b[cuts[k]:cuts[k + 1]])
    o2, e2 = u.apply(p, saved[k], None, x[cuts[k]:cuts[k + 1]], b[cuts[k]:cuts[k + 1]])
    c.tree_same(leaves(o1), leaves(o2), "replay_differs", exact=True)
    c.tree_same(snapshot(dict(e1)), snapshot(dict(e2)), "replay_state_differs", exact=True)
    c.tree_same(leaves(o1), leaves(parts[k]), "replay_of_piece", **tol(c))
    c.tree_same(snapshot(saved[k]), before, "saved_state_changed", exact=True)
    c.count("replays")


@R.kind(weight=2)
def prefixes(c):
    """Outputs up to a step do not depend on anything later."""
    import jax
    import jax.numpy as jnp

    from wax.unroll import unroll_transform_with_state

    det, _ = hk_programs()
    prog = {**det, **more_haiku()}
    name = c.choice(list(prog))
    T = c.choice([3, 8, 16])
    x, b = rows(c, T)
    y, e = rows(c, T)
    k = c.int(1, T - 1)
    z, f = np.concatenate([x[:k], y[k:]]), np.concatenate([b[:k], e[k:]])
    if c.flip(0.3):
        z[k:] = c.choice([np.nan, np.inf, 1e30, 0.0])
    c.note(prog=name, T=T, k=k, x=x.tolist(), z=z.tolist())
    c.state("prefix", name, k, T)
    u = unroll_transform_with_state(prog[name])
    p, s = u.init(key(1), jnp.asarray(x), jnp.asarray(b))
    p2, s2 = u.init(key(1), jnp.asarray(z), jnp.asarray(f))
    c.tree_same(p, p2, "parameters_see_the_future", exact=True)
    c.tree_same(dict(s), dict(s2), "state_sees_the_future", exact=True)
    w, _ = u.apply(p, s, None, jnp.asarray(x), jnp.asarray(b))
    v, _ = u.apply(p, s, None, jnp.asarray(z), jnp.asarray(f))
    q, _ = u.apply(p, s, None, jnp.asarray(x[:k]), jnp.asarray(b[:k]))
    cut = lambda t: jax.tree_util.tree_map(lambda a: a[:k], leaves(t))  # noqa: E731
    c.count("perturbed_futures")
    c.tree_same(cut(v), cut(w), "future_changes_the_past", exact=True)
    c.tree_same(leaves(q), cut(w), "prefix", **tol(c))


@R.kind(weight=4)
def flax(c):
    import jax
    import jax.numpy as jnp

    from wax.flax.core import flax_unroll_transform

    W, det, _ = fx_programs()
    name = c.choice(det)
    T = c.choice([2, 5, 12, 25])
    x, b = rows(c, T)
    cuts = cuts_of(c, T)
    c.note(prog=name, T=T, cuts=cuts, x=x.tolist(), b=b.astype(int).tolist())
    c.state("flax", name, tuple(cuts))
    c.count("pieces", len(cuts) - 1)
    u = flax_unroll_transform(W(name))
    x, b = jnp.asarray(x), jnp.asarray(b)
    p, s0 = u.init(key(1), x, b)
    _, s0 = u.apply(p, s0, None, x[:1], b[:1])  # the state type apply works with
    kept = snapshot((p, s0, x, b))
    whole, end = u.apply(p, s0, None, x, b)
    c.tree_same(snapshot((p, s0, x, b)), kept, "arguments_changed", exact=True)
    s, parts, saved = s0, [], []
    for i, j in zip(cuts[:-1], cuts[1:]):
        s = through(c, s)
        saved.append(s)
        o, s = u.apply(p, s, None, x[i:j], b[i:j])
        parts.append(o)
    c.tree_same(cat(parts), leaves(whole), "pieces", **tol(c))
    c.tree_same(s, end, "final_state", **tol(c))
    k = c.int(0, len(saved) - 1)
    before = snapshot(saved[k])
    o1, _ = u.apply(p, saved[k], None, x[cuts[k]:cuts[k + 1]], b[cuts[k]:cuts[k + 1]])
    c.tree_same(leaves(o1), leaves(parts[k]), "replay_of_piece", **tol(c))
    c.tree_same(snapshot(saved[k]), before, "saved_state_changed", exact=True)
    c.count("replays")
    n = c.int(1, T)
    q, _ = u.apply(p, s0, None, x[:n], b[:n])
    c.tree_same(q, jax.tree_util.tree_map(lambda v: np.asarray(v)[:n], whole), "prefix", **tol(c))


@R.kind(weight=3)
def front_ends(c):
    """Labelled data streamed in pieces with the returned state."""
    import haiku as hk
    import jax
    import jax.numpy as jnp
    import pandas as pd
    import xarray as xr

    from wax import modules as m
    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    kind = c.choice(["frame", "series", "array", "dataset"])
    name = c.choice(["ewma", "buffer_mean", "lag", "learned", "counter", "ffill", "mix"])
    T = c.choice([3, 8, 15])
    n = c.int(2, 4)
    x = series(c, T, () if kind == "series" else (n,), nan=c.choice(["none", "scatter"]))
    cuts = cuts_of(c, T)
    c.note(kind=kind, prog=name, T=T, cuts=cuts, x=x.tolist())
    c.state(kind, name, tuple(cuts))
    c.count("pieces", len(cuts) - 1)
    t = pd.date_range("2021-03-01", periods=T, freq=c.choice(["D", "h"]), name="day")
    cols = list("abcd")[:n]
    obj = {"frame": lambda: pd.DataFrame(x, index=t, columns=cols),
           "series": lambda: pd.Series(x, index=t, name="v"),
           "array": lambda: xr.DataArray(x, dims=("day", "col"), coords={"day": t, "col": cols}, name="v"),
           "dataset": lambda: xr.Dataset({"v": (("day", "col"), x)}, coords={"day": t, "col": cols})}[kind]()

    def learned(v):
        w = hk.get_parameter("w", v.shape, v.dtype, init=jnp.ones)
        return w * m.EWMA(alpha=0.5)(v)

    f = {"ewma": lambda v: m.EWMA(com=2.0)(v), "buffer_mean": lambda v: jnp.nansum(m.Buffer(3)(v), axis=0),
         "lag": lambda v: m.Lag(2)(v), "learned": learned, "counter": lambda v: v * 0 + m.Counter()(),
         "ffill": lambda v: m.Ffill()(v), "mix": lambda v: m.Diff()(v) + m.EWMVar(com=1.0)(v)}[name]
    g = (lambda d: f(d["v"])) if kind == "dataset" else f
    kw = dict(format_dims=("day", "col")) if kind == "dataset" else {}

    def run(o, **k):
        return o.wax.stream(return_state=True).apply(g, rng=key(3), **kw, **k)

    def piece(i, j):
        return obj.isel(day=slice(i, j)) if kind in ("array", "dataset") else obj.iloc[i:j]

    whole, end = run(obj)
    state, parts = None, []
    for i, j in zip(cuts[:-1], cuts[1:]):
        given = {} if state is None else dict(state=through(c, state))
        o, state = run(piece(i, j), **given)
        parts.append(o)
    if kind in ("array", "dataset"):
        got = xr.concat(parts, dim="day")
        c.expect(got.dims == whole.dims, "dims", f"{got.dims} {whole.dims}")
        c.expect(bool((got["day"].values == whole["day"].values).all()), "labels")
        c.same(got.values, whole.values, "pieces", **tol(c))
    else:
        got = pd.concat(parts)
        c.expect(got.index.equals(whole.index) and whole.index.equals(t), "labels")
        c.same(got.values, whole.values, "pieces", **tol(c))
    c.tree_same(jax.tree_util.tree_leaves(state), jax.tree_util.tree_leaves(end), "final_state", **tol(c))
    # parameters given by the user are used in each piece
    if name == "learned":
        _, st = run(piece(0, cuts[1]))
        from wax.unroll import unroll_transform_with_state

        u = unroll_transform_with_state(g if kind != "dataset" else f)
        p, s0 = u.init(key(0), jnp.asarray(x))
        p = jax.tree_util.tree_map(lambda v: v * 2.0, p)
        o2, _ = run(obj, params=p)
        c.same(np.asarray(o2.values), 2 * np.asarray(whole.values), "given_parameters", **tol(c))


@R.kind(weight=2)
def numba(c):
    """The numba engine: pieces, replays, interleaving, arguments untouched."""
    from wax.numba.ewma_numba import ewma

    cfg = dict(adjust=c.choice([True, False, "linear"]), ignore_na=c.flip(), min_periods=c.choice([0, 2, 4]),
               com=c.choice([0.5, 3.0, 20.0]))
    f = ewma(**cfg)
    for rep in range(4):
        T = c.choice([2, 6, 20])
        n = c.int(1, 4)
        x, y = (series(c, T, (n,), dtype=np.float64) for _ in range(2))
        cuts = cuts_of(c, T)
        if rep == 0:
            c.note(cfg=cfg, cuts=cuts, x=x.tolist())
        c.state("numba", str(cfg), tuple(cuts))
        kept = x.copy()
        whole, end = f(x)
        wy, _ = f(y)
        s = sy = None
        parts, py, saved = [], [], []
        for i, j in zip(cuts[:-1], cuts[1:]):
            s = s if s is None else through(c, s)
            saved.append(s)
            o, s = f(x[i:j], s)
            parts.append(o)
            o, sy = f(y[i:j], sy)
            py.append(o)
        c.exact(x, kept, "input_changed")
        c.same(np.concatenate(parts), whole, "pieces", rtol=1e-12, atol=0.0)
        c.same(np.concatenate(py), wy, "interleaved_stream", rtol=1e-12, atol=0.0)
        c.tree_same(tuple(map(np.asarray, s)), tuple(map(np.asarray, end)), "final_state", rtol=1e-12, atol=0.0)
        k = c.int(0, len(saved) - 1)
        before = snapshot(saved[k]) if saved[k] is not None else None
        for _ in range(2):
            o, _ = f(x[cuts[k]:cuts[k + 1]], saved[k])
            c.exact(o, parts[k], "replay_of_piece")
        if before is not None:
            c.tree_same(snapshot(saved[k]), before, "saved_state_changed", exact=True)
        c.count("replays", 2)


@R.kind(weight=2)
def branches(c):
    """One transformed program, continued many times from any state met so far, with other inputs or parameters."""
    import jax
    import jax.numpy as jnp

    how = c.choice(["streaming", "streaming", "streaming_jit", "flax", "flax_unroll", "haiku_unroll", "haiku_static",
                    "vmap_lift", "unroll_lift"])
    unrolled = how in ("flax_unroll", "haiku_unroll", "haiku_static", "unroll_lift")
    if how in ("streaming", "streaming_jit", "flax", "flax_unroll"):
        from wax.flax.core import flax_transform_with_state, flax_unroll_transform, streaming_transform_with_state

        W, det, _ = fx_programs()
        name = c.choice(det)

        def build():
            if how == "flax_unroll":
                return flax_unroll_transform(W(name))
            if how == "flax":
                return flax_transform_with_state(W(name))
            return streaming_transform_with_state(lambda x, b: W(name)(x, b))
    else:
        import haiku as hk

        from wax.stateful import unroll_lift_with_state, vmap_lift_with_state
        from wax.unroll import unroll_transform_with_state

        prog, _ = hk_programs()
        name = c.choice(list(prog))

        def build():
            if how == "vmap_lift":
                return hk.transform_with_state(lambda x, b: vmap_lift_with_state(prog[name])(x, b))
            if how == "unroll_lift":
                return hk.transform_with_state(lambda x, b: unroll_lift_with_state(prog[name])(x, b))
            return unroll_transform_with_state(prog[name], dynamic=how == "haiku_unroll")

    def piece():
        T = c.choice([2, 3]) if unrolled or how == "vmap_lift" else 1
        x, b = rows(c, T)
        if how == "vmap_lift":
            x, b = rows(c, 2)
        return (jnp.asarray(x), jnp.asarray(b)) if unrolled or how == "vmap_lift" else (jnp.asarray(x[0]), jnp.asarray(b[0]))

    t = build()
    first = piece()
    p, s0 = t.init(key(1), *first)
    apply = jax.jit(t.apply) if how == "streaming_jit" else t.apply
    p2 = jax.tree_util.tree_map(lambda v: v * 2 + 0.5, p)
    _, s0 = apply(p, s0, None, *first)
    nodes = [s0]
    c.note(how=how, prog=name)
    steps = 7
    for k in range(steps):
        at = c.choice([0, len(nodes) - 1, c.int(0, len(nodes) - 1)])
        s, args = nodes[at], piece()
        pp = p2 if c.flip(0.2) else p
        before = snapshot((s, args, pp))
        out, new = apply(pp, s, None, *args)
        c.tree_same(snapshot((s, args, pp)), before, "arguments_changed", exact=True)
        fresh = build()
        cs, ca, cp = jax.tree_util.tree_map(jnp.asarray, before)[0:3]
        want, wnew = fresh.apply(cp, cs, None, *ca)
        c.count("continuations")
        c.count("continued_from_an_older_state", at != len(nodes) - 1)
        c.state("branch", how, name, k, at)
        c.tree_same(leaves(out), leaves(want), "continuation", **tol(c))
        c.tree_same(leaves(new), leaves(wnew), "continued_state", **tol(c))
        nodes.append(new)

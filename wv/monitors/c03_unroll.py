"""C03: unrolling a program over a sequence is running it step by step."""

from __future__ import annotations

import warnings

import numpy as np

from wv.core import Registry
from wv.programs import hk_programs, magnitude, rows
from wv.tools import key, series

ID = "C03"
RULE = (
    "random programs (stateful, learned, random, nested outputs) x sequences x ways of unrolling (scan, Python loop, "
    "fori loop, batch transforms, deprecated entry points, data generators) x first-element skipping x given or "
    "initialised parameters/state/keys; oracle: a hand-written loop over the transformed program; distinct by "
    "configuration and data"
)
ASSUMPTIONS = ["one step of the transformed program, applied by hand, is the reference"]
QUICK, THOROUGH = 44, 360
R = Registry()


def tol(c):
    m = magnitude(c)
    return dict(rtol=1e-10, atol=1e-10 * m) if c.x64 else dict(rtol=2e-5, atol=1e-5 * m)


def pick(c, random=True):
    det, rnd = hk_programs()
    names = ["rebased", "rebased", "acc", "learned", "mix", "buffer", "ewma", "changed", "counter", "event", "ohlc"]
    if random:
        names += ["noisy", "noisy_learned", "noisy"]
    n = c.choice(names)
    return n, {**det, **rnd}[n], n.startswith("noisy")


def by_hand(fn, x, b, rng, skip, params=None, state=None, split=True, jit=True):
    import haiku as hk
    import jax
    import jax.numpy as jnp

    t = hk.transform_with_state(fn)
    p, s = t.init(rng, x[0], b[0])
    p = p if params is None else params
    s = s if state is None else state
    ap = jax.jit(t.apply) if jit else t.apply
    out = []
    for i in range(1 if skip else 0, len(x)):
        sub = rng
        if split and rng is not None:
            rng, sub = jax.random.split(rng)
        o, s = ap(p, s, sub, x[i], b[i])
        out.append(o)
    return jax.tree_util.tree_map(lambda *v: jnp.stack(v), *out), s, p


def alt_params(p, c):
    import jax

    return jax.tree_util.tree_map(lambda v: v + 0.25, p)


@R.kind(weight=6)
def unrolls(c):
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.compile import jit_init_apply
    from wax.unroll import dynamic_unroll, static_unroll, unroll, unroll_transform_with_state

    name, fn, rnd = pick(c)
    skip = c.flip(0.35)
    T = c.choice([2, 3, 8, 15]) if skip else c.choice([1, 2, 8, 15])
    x, b = rows(c, T)
    x, b = jnp.asarray(x), jnp.asarray(b)
    seed = c.int(0, 1000)
    rng = key(seed) if rnd or name == "learned" or c.flip(0.3) else None
    how = c.choice(["transform", "transform", "unroll", "unroll", "deprecated", "static", "static_unroll", "kwargs",
                    "jit"])
    given = c.choice(["", "", "params", "state", "params state"])
    form = c.choice(["fn", "pair"])
    c.note(prog=name, how=how, skip=skip, T=T, seed=seed if rng is not None else None, given=given, form=form,
           x=np.asarray(x).tolist(), b=np.asarray(b).astype(int).tolist())
    c.count("steps", T)
    c.state(name, how, skip, T, given, rng is None)
    params = state = None
    if given:
        t = hk.transform_with_state(fn)
        p1, s1 = t.init(key(seed + 1), x[0], b[0])
        p1 = alt_params(p1, c)
        if "state" in given:
            _, state = jax.jit(t.apply)(p1, s1, rng, x[0], b[0])  # a state with a history
        if "params" in given:
            params = p1
    want, ws, wp = by_hand(fn, x, b, rng, skip, params, state)
    f = hk.transform_with_state(fn) if form == "pair" else fn
    if how in ("transform", "static", "kwargs", "jit"):
        u = unroll_transform_with_state(f, skip_first=skip, dynamic=how != "static")
        if how == "jit":
            u = jit_init_apply(u)
        a, k = ((x,), dict(b=b)) if how == "kwargs" else ((x, b), {})
        p, s = u.init(rng, *a, **k)
        c.tree_same(p, wp if params is None else p, "init_params", **tol(c))
        got, gs = u.apply(p if params is None else params, s if state is None else state, rng, *a, **k)
    elif how in ("unroll", "static_unroll"):
        ret = c.flip()
        g = unroll(f, skip_first=skip, dynamic=how == "unroll", return_final_state=True, rng=rng, params=params,
                   state=state)
        got, gs = g(x, b)
        g2 = unroll(f, skip_first=skip, dynamic=how == "unroll", rng=rng, params=params, state=state)
        if ret:
            c.tree_same(g2(x, b), got, "same_without_state", **tol(c))
        if c.flip(0.3):
            u = unroll_transform_with_state(f, skip_first=skip)
            got, gs = unroll(u, return_final_state=True, rng=rng, params=params, state=state)(x, b)
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            d = c.choice([dynamic_unroll, static_unroll])
            got, gs = d(f, params, state, rng, skip, x, b)
    c.tree_same(got, want, "outputs", **tol(c))
    c.tree_same(dict(gs), dict(ws), "final_state", **tol(c))


@R.kind(weight=2)
def fori(c):
    import haiku as hk
    import jax.numpy as jnp

    from wax.unroll import dynamic_unroll_fori_loop

    det, rnd = hk_programs()
    name = c.choice(["w", "acc", "buffer", "ewma", "lag", "ffill", "noise"])
    fn = (lambda x, b: det["learned"](x, b)["y"]) if name == "w" else det.get(name) or (lambda x, b: rnd["noisy"](x, b)[0])
    skip = c.flip(0.35)
    T = c.choice([2, 5, 12])
    x, b = rows(c, T)
    x, b = jnp.asarray(x), jnp.asarray(b)
    rng = key(c.int(0, 99)) if name in ("noise", "w") else None
    given = c.choice(["", "", "params", "state", "params state"])
    c.note(prog=name, skip=skip, T=T, given=given, x=np.asarray(x).tolist())
    c.count("steps", T)
    c.state("fori", name, skip, T)
    t = hk.transform_with_state(fn)
    p = s = None
    if given:
        p0, s0 = t.init(rng, x[0], b[0])
        if "state" in given:
            _, s = t.apply(p0, s0, rng, x[-1], b[-1])
        if "params" in given:
            p = alt_params(p0, c)
    want, ws, _ = by_hand(fn, x, b, rng, skip, p, s, split=False)
    got, gs = dynamic_unroll_fori_loop(t, p, s, rng, skip, x, b)
    c.tree_same(got, want, "outputs", **tol(c))
    c.tree_same(dict(gs), dict(ws), "final_state", **tol(c))


@R.kind(weight=3)
def batches(c):
    import haiku as hk
    import jax.numpy as jnp

    from wax.transform import transform_batch_with_state, transform_batch_with_state_static

    name, fn, rnd = pick(c)
    skip = c.flip(0.4)
    T = c.choice([2, 6, 10])
    x, b = rows(c, T)
    x, b = jnp.asarray(x), jnp.asarray(b)
    r0, r1 = key(c.int(0, 99)), key(c.int(100, 199))
    static = c.flip()
    c.note(prog=name, skip=skip, T=T, static=static, x=np.asarray(x).tolist())
    c.count("steps", T)
    c.state("batch", name, skip, static, T)
    t = hk.transform_with_state(lambda a: fn(*a))
    u = (transform_batch_with_state_static if static else transform_batch_with_state)(t, skip_first=skip)
    p, s = u.init(r0, (x, b))
    p1, s1 = hk.transform_with_state(fn).init(r0, x[0], b[0])
    c.tree_same(dict(s.fun_params), dict(p1), "init_params", **tol(c))
    got, gs = u.apply(p, s, r1, (x, b))
    want, ws, _ = by_hand(fn, x, b, r1, skip, p1, s1, split=False)
    c.tree_same(got, want, "outputs", **tol(c))
    c.tree_same(dict(gs.fun_state), dict(ws), "final_state", **tol(c))
    got2, gs2 = u.apply(p, gs, r1, (x, b))
    want2, ws2, _ = by_hand(fn, x, b, r1, skip, p1, ws, split=False)
    c.tree_same(got2, want2, "second_batch", **tol(c))


@R.kind(weight=2)
def loops(c):
    """The Python loop with carried state is the compiled loop."""
    import jax
    import jax.numpy as jnp

    from wax.unroll import iter_first_axis, static_scan

    T = c.choice([1, 2, 7])
    x = jnp.asarray(series(c, T, (2,), nan="none"))
    xs = c.choice([x, {"a": x, "b": (x[:, 0], 2 * x)}, None])
    c.note(T=T, xs=str(jax.tree_util.tree_structure(xs)), x=np.asarray(x).tolist())

    def f(s, v):
        d = s["n"] + (0.0 if v is None else jax.tree_util.tree_leaves(v)[0].sum())
        return {"n": d * 0.5 + 1, "k": s["k"] + 1}, {"d": d, "k": (s["k"], v)}

    i = {"n": jnp.asarray(1.0), "k": jnp.asarray(0)}
    want = jax.lax.scan(f, i, xs, length=T)
    got = static_scan(f, i, xs, length=T)
    c.tree_same(got, want, "static_scan", **tol(c))
    c.count("steps", T)
    c.state("scan", T, str(jax.tree_util.tree_structure(xs)))
    if xs is not None:
        el = list(iter_first_axis(xs))
        c.expect(len(el) == T, "iter_count")
        back = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *el)
        c.tree_same(back, xs, "iter_values", exact=True)


@R.kind(weight=2)
def generators(c):
    """Unrolling over a data generator: every item once, in order."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.unroll import data_unroll, gym_static_unroll

    name, fn, rnd = pick(c)
    skip = c.flip()
    T = c.choice([2, 4, 8])
    x, b = rows(c, T)
    x, b = jnp.asarray(x), jnp.asarray(b)
    seed = c.int(0, 99)
    given = c.choice(["", "", "params", "state", "params state"])
    c.note(prog=name, skip=skip, T=T, seed=seed, given=given, x=np.asarray(x).tolist())
    c.count("steps", T)
    c.state("gen", name, skip, T)
    gen = lambda: (((x[i], b[i]), {"i": i}) for i in range(T))  # noqa: E731
    xs = data_unroll(gen(), pbar=False)
    c.tree_same(xs, (x, b), "data_unroll", exact=True)
    t = hk.transform_with_state(lambda a: fn(*a))
    seq, ref = hk.PRNGSequence(seed), hk.PRNGSequence(seed)
    p0, s0 = t.init(next(ref), (x[0], b[0]))
    if given:
        if "state" in given:
            _, s0 = t.apply(p0, s0, key(5), (x[1], b[1]))
        if "params" in given:
            p0 = alt_params(p0, c)
    ap = jax.jit(t.apply)
    out, s = [], s0
    for i in range(1 if skip else 0, T):
        o, s = ap(p0, s, next(ref), (x[i], b[i]))
        out.append(o)
    want = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *out)
    got, gs = gym_static_unroll(t, p0 if "params" in given else None, s0 if "state" in given else None, seq, skip, gen())
    c.tree_same(got, want, "outputs", **tol(c))
    c.tree_same(dict(gs), dict(s), "final_state", **tol(c))


@R.kind(weight=2)
def python_steps(c):
    """The static ways of unrolling run plain Python at each step: branches on values, side effects in order."""
    import haiku as hk
    import jax.numpy as jnp

    from wax.transform import transform_batch_with_state, transform_batch_with_state_static
    from wax.unroll import static_unroll, unroll, unroll_transform_with_state

    T = c.choice([1, 3, 7])
    skip = c.flip(0.3) and T > 1
    x, b = rows(c, T)
    x = np.nan_to_num(x)
    x, b = jnp.asarray(x), jnp.asarray(b)
    seen = []

    def fn(x, b):
        s = hk.get_state("s", x.shape, x.dtype, init=jnp.zeros)
        seen.append(float(x[0]))
        if bool(b) and float(x.sum()) > 0:  # not traceable
            s = s + x
        hk.set_state("s", s)
        return s * 2, jnp.asarray(len(seen))

    how = c.choice(["transform", "unroll", "deprecated", "batch"])
    c.note(how=how, T=T, skip=skip, x=np.asarray(x).tolist(), b=np.asarray(b).astype(int).tolist())
    c.state("python", how, T, skip, np.asarray(b).astype(int).tolist())
    rng = None
    if how == "transform":
        u = unroll_transform_with_state(fn, skip_first=skip, dynamic=False)
        p, s = u.init(rng, x, b)
        del seen[:]
        (got, n), end = u.apply(p, s, rng, x, b)
    elif how == "unroll":
        (got, n), end = unroll(fn, skip_first=skip, dynamic=False, return_final_state=True)(x, b)
    elif how == "deprecated":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            (got, n), end = static_unroll(fn, None, None, rng, skip, x, b)
    else:
        u = transform_batch_with_state_static(hk.transform_with_state(lambda a: fn(*a)), **({"skip_first": True} if skip else {}))
        p, s = u.init(rng, (x, b))
        del seen[:]
        (got, n), end = u.apply(p, s, rng, (x, b))
        end = end.fun_state
    ran = seen[-(T - skip):]
    c.same(ran, np.asarray(x)[int(skip):, 0].astype(float), "order_of_steps", rtol=0, atol=0)
    c.expect(np.asarray(n).tolist() == list(range(int(n[0]), int(n[0]) + T - skip)), "steps_once", str(np.asarray(n).tolist()))
    c.count("python_steps", len(ran))
    s, want = np.zeros(x.shape[1], x.dtype), []
    for v, f in list(zip(np.asarray(x), np.asarray(b)))[int(skip):]:
        s = s + v if f and v.sum() > 0 else s
        want.append(2 * s)
    near = np.abs(np.asarray(x).sum(axis=1)) < 1e-4 * np.abs(np.asarray(x)).max()
    if not near.any():  # the sign of the sum does not depend on rounding
        c.same(got, np.stack(want), "outputs", **tol(c))
        c.same(list(dict(end).values())[0]["s"], s, "final_state", **tol(c))
    if how == "batch":  # by default nothing is skipped
        t = hk.transform_with_state(lambda a: a[0] * 2)
        for d in (transform_batch_with_state, transform_batch_with_state_static):
            u = d(t)
            o, _ = u.apply(*u.init(rng, (x, b)), rng, (x, b))
            c.same(o, x * 2, "nothing_skipped", rtol=0, atol=0)

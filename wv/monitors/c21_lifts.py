"""C21: lifted batches and lifted unrolls."""

from __future__ import annotations

import numpy as np

from wv.core import Registry
from wv.programs import hk_programs, rows
from wv.tools import hk_run, key, series

ID = "C21"
RULE = (
    "random stateful programs (every module, learned and data-initialised parameters, random keys, nested outputs and "
    "inputs) lifted over batches, unrolled inside programs, and both nested, called once or many times, eagerly, jitted "
    "or unrolled: each lane against the program run alone on it, each lifted unroll against steps by hand; averaged "
    "batches; two lifts side by side; random lanes; distinct by program, sizes and data"
)
ASSUMPTIONS = ["which random key a lane gets is not part of the claim, only that lanes and steps draw independently"]
QUICK, THOROUGH = 18, 300
R = Registry()


def tol(c, x=None):
    """Second moments of the inputs may cancel: errors are relative to the squared inputs."""
    big = 1.0 if x is None else max(1.0, float(np.nanmax(np.abs(np.append(x, 0.0)))) ** 2)
    return dict(rtol=1e-9, atol=1e-10 + 1e-14 * big) if c.x64 else dict(rtol=5e-4, atol=3e-5 + 2e-6 * big)


def lanes_programs():
    """Programs whose initialisation uses no key."""
    import haiku as hk
    import jax.numpy as jnp

    from wax import modules as m

    det, _ = hk_programs()
    det = {k: v for k, v in det.items() if k not in ("learned",)}

    def const(x, b):
        w = hk.get_parameter("w", x.shape, x.dtype, init=hk.initializers.Constant(1.5))
        s = hk.get_state("s", (), x.dtype, init=jnp.zeros)
        s = s + jnp.sum(jnp.nan_to_num(w * x))
        hk.set_state("s", s)
        return {"y": s, "n": (m.Counter()(), x)}

    def linear(x, b):
        lin = hk.Linear(2, w_init=hk.initializers.Constant(0.5))
        return lin(jnp.nan_to_num(m.EWMA(com=1.0)(x))) + jnp.where(b, 1.0, 0.0)

    det.update(const=const, linear=linear)
    return det


def batch(c, T, n):
    xs = np.stack([rows(c, T, 2)[0] for _ in range(n)], axis=1)  # (T, n, 2)
    bs = c.rng.random((T, n)) < 0.4
    return xs, bs


def stack(ts, axis=0):
    import jax

    return jax.tree_util.tree_map(lambda *a: np.stack([np.asarray(v) for v in a], axis=axis), *ts)


def drive(c, outer, xs, mode, rng=None, rng_init=None):
    """Run ``outer`` over the sequence, each step a call of apply."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.unroll import dynamic_unroll

    xs = jax.tree_util.tree_map(jnp.asarray, xs)
    if mode == "unroll":
        from wax.unroll import unroll_transform_with_state

        u = unroll_transform_with_state(outer)
        p, s = u.init(rng_init, *xs)
        out, s = u.apply(p, s, rng, *xs)
        return out, p, s
    if mode == "dynamic":
        return dynamic_unroll(outer, None, None, rng_init, False, *xs)[0], None, None
    t = hk.transform_with_state(outer)
    x0 = jax.tree_util.tree_map(lambda v: v[0], xs)
    p, s = t.init(rng_init, *x0)
    ap = jax.jit(t.apply) if mode == "jit" else t.apply
    outs = []
    for i in range(len(xs[0])):
        k = None if rng is None else jax.random.fold_in(rng, i)
        o, s = ap(p, s, k, *jax.tree_util.tree_map(lambda v: v[i], xs))
        outs.append(o)
    return stack(outs), p, s


@R.kind(weight=4)
def batches(c):
    """Each lane of a lifted batch is the program run alone on that lane."""
    from wax.modules.vmap import VMap, add_batch
    from wax.stateful import vmap_lift_with_state

    progs = lanes_programs()
    name = c.choice(list(progs))
    f = progs[name]
    T, n = c.choice([1, 2, 5, 9]), c.int(1, 4)
    xs, bs = batch(c, T, n)
    how = c.choice(["lift", "lift_noinit", "split", "VMap", "add_batch", "mean"])
    mode = c.choice(["eager", "jit", "unroll"])
    c.note(prog=name, T=T, n=n, how=how, mode=mode, x=xs.tolist(), b=bs.tolist())
    c.state("batches", name, how, mode, n, T)
    lifted = {
        "lift": lambda: vmap_lift_with_state(f), "lift_noinit": lambda: vmap_lift_with_state(f, init_rng=False),
        "split": lambda: vmap_lift_with_state(f, split_rng=True), "VMap": lambda: VMap(f),
        "add_batch": lambda: add_batch(f, take_mean=False), "mean": lambda: add_batch(f),
    }[how]
    want = stack([hk_run(f, (xs[:, i], bs[:, i]))[0] for i in range(n)], axis=1)
    c.count("lane_steps", T * n)
    needs = how in ("split", "add_batch", "mean")
    kw = c.flip(0.3)

    def outer(x, b):
        return lifted()(x=x, b=b) if kw else lifted()(x, b)

    if how == "mean":
        import jax

        want = jax.tree_util.tree_map(lambda v: v.mean(axis=1), want)
    if how == "VMap":
        kw = False
    init = key(1) if how != "lift_noinit" else None
    got, _, _ = drive(c, outer, (xs, bs), mode, rng=key(2) if needs else None, rng_init=init)
    import jax

    c.tree_same(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want), "lane", **tol(c, xs), ctx=how)
    c.expect(jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(want), "structure")


@R.kind(weight=2)
def lane_parameters(c):
    """Lanes have their own parameters and state: given ones are used, and a lane never sees another."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.stateful import vmap_lift_with_state

    T, n = c.choice([2, 5]), c.int(2, 4)
    xs = c.rng.normal(size=(T, n, 2))
    split = c.flip()
    noise = split and c.flip()
    c.note(T=T, n=n, split=split, noise=noise)
    c.state("lane_parameters", T, n, split, noise)

    def f(x):
        w = hk.get_parameter("w", x.shape, x.dtype, init=hk.initializers.RandomNormal())
        s = hk.get_state("s", x.shape, x.dtype, init=jnp.zeros)
        s = s + w * x
        if noise:
            s = s + jax.random.normal(hk.next_rng_key(), s.shape)
        hk.set_state("s", s)
        return s

    t = hk.transform_with_state(lambda x: vmap_lift_with_state(f, split_rng=split)(x))
    xs = jnp.asarray(xs)
    p, s = t.init(key(c.int(0, 99)), xs[0])
    (w,), (s0,) = jax.tree_util.tree_leaves(p), jax.tree_util.tree_leaves(s)
    c.expect(w.shape == (n, 2), "param_shape", f"{w.shape}")
    c.same(s0, np.zeros((n, 2)), "initial_state")
    for i in range(1, n):
        same = bool(np.all(np.asarray(w[i]) == np.asarray(w[0])))
        c.expect(same != split, "param_draws", f"split={split} {w}")
    w2 = c.rng.normal(size=(n, 2))
    st = c.rng.normal(size=(n, 2))
    p2 = jax.tree_util.tree_map(lambda v: jnp.asarray(w2, v.dtype), p)
    s2 = jax.tree_util.tree_map(lambda v: jnp.asarray(st, v.dtype), s)

    def run(xs, rng=key(5)):
        s, out = s2, []
        for i in range(T):
            o, s = t.apply(p2, s, jax.random.fold_in(rng, i) if split else None, xs[i])
            out.append(o)
        return np.asarray(jnp.stack(out)), np.asarray(jax.tree_util.tree_leaves(s)[0])

    got, end = run(xs)
    if not noise:
        c.same(got, st[None] + np.cumsum(w2[None] * np.asarray(xs), axis=0), "given", **tol(c, xs))
        c.same(end, got[-1], "state", rtol=0, atol=0)
    # changing one lane changes no other
    j = c.int(0, n - 1)
    other, _ = run(xs.at[:, j].add(1.0))
    keep = [i for i in range(n) if i != j]
    c.same(other[:, keep], got[:, keep], "crosstalk", rtol=0, atol=0)
    c.expect(not np.allclose(other[:, j], got[:, j]), "dead_lane")
    if noise:
        e = np.diff(np.concatenate([st[None], got]), axis=0) - w2[None] * np.asarray(xs)
        e = np.round(e.reshape(T * n, 2), 5)
        c.expect(len({tuple(v) for v in e.tolist()}) == T * n, "repeated_draws", f"{e.tolist()}")
        again, _ = run(xs)
        c.same(again, got, "reproducible", rtol=0, atol=0)
        c.count("draws", T * n)


@R.kind(weight=4)
def unrolls(c):
    """An unroll lifted into a program is stepping by hand, call after call."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.stateful import unroll_lift_with_state

    progs = lanes_programs()
    name = c.choice(list(progs))
    f = progs[name]
    calls, T = c.int(1, 3), c.choice([1, 2, 4, 7])
    skip = c.flip(0.3) and T > 1
    init_rng = c.flip()
    mode = c.choice(["eager", "jit", "unroll"])
    deco = c.flip()
    xs, bs = rows(c, calls * T, 2)
    xs, bs = xs.reshape(calls, T, 2), bs.reshape(calls, T)
    c.note(prog=name, calls=calls, T=T, skip=skip, mode=mode, x=xs.tolist(), b=bs.tolist())
    c.state("unrolls", name, calls, T, skip, mode, init_rng)
    c.count("steps", calls * T)
    around = c.flip(0.4)  # other modules of the program keep their own state

    def outer(x, b):
        from wax.modules import Counter

        n0 = Counter()() if around else 0
        y = unroll_lift_with_state(f, skip_first=skip, init_rng=init_rng)(*((x,) if False else (x, b)))
        return (y, n0, Counter()()) if around else (y,)

    init = key(1) if (init_rng or mode == "unroll") else None
    got, _, _ = drive(c, outer, (xs, bs), mode, rng_init=init)
    # by hand: initialised from the very first element, skipped elements never processed
    t = hk.transform_with_state(f)
    p, s = t.init(key(0), jnp.asarray(xs[0, 0]), jnp.asarray(bs[0, 0]))
    want = []
    for a in range(calls):
        o = []
        for i in range(1 if skip else 0, T):
            y, s = t.apply(p, s, None, jnp.asarray(xs[a, i]), jnp.asarray(bs[a, i]))
            o.append(y)
        want.append(stack(o))
    want = stack(want)
    leaves = jax.tree_util.tree_leaves
    c.tree_same(leaves(got[0]), leaves(want), "steps", **tol(c, xs), ctx=f"skip={skip}")
    if around:
        c.same(got[1], np.asarray(got[2]), "around")
        c.expect(bool(np.all(np.diff(np.asarray(got[1])) == 1)), "around_count", f"{got[1]}")
    del deco


@R.kind(weight=2)
def nested(c):
    """Batches of unrolls, unrolls of batches, and two lifts side by side."""
    import jax

    from wax.stateful import unroll_lift_with_state, vmap_lift_with_state

    progs = lanes_programs()
    names = [c.choice(list(progs)) for _ in range(2)]
    f, g = (progs[n] for n in names)
    n, T, calls = c.int(1, 3), c.choice([2, 4]), c.int(1, 2)
    shape = c.choice(["vmap_unroll", "unroll_vmap", "side"])
    mode = c.choice(["eager", "jit", "unroll"])
    xs, bs = batch(c, calls * T, n)  # time, lane
    c.note(progs=names, n=n, T=T, calls=calls, shape=shape, mode=mode, x=xs.tolist(), b=bs.tolist())
    c.state("nested", shape, mode, names[0], n, T, calls)
    c.count("lane_steps", calls * T * n)
    leaves = jax.tree_util.tree_leaves

    def lanes(fn):
        return stack([hk_run(fn, (xs[:, i], bs[:, i]))[0] for i in range(n)], axis=1)

    if shape == "side":
        def outer(x, b):
            return vmap_lift_with_state(f)(x, b), vmap_lift_with_state(g)(x, b)

        got, _, _ = drive(c, outer, (xs, bs), mode, rng_init=key(1))
        c.tree_same(leaves(got[0]), leaves(lanes(f)), "side_first", **tol(c, xs))
        c.tree_same(leaves(got[1]), leaves(lanes(g)), "side_second", **tol(c, xs))
        return
    cx = xs.reshape((calls, T) + xs.shape[1:])
    cb = bs.reshape((calls, T) + bs.shape[1:])
    if shape == "unroll_vmap":
        def outer(x, b):
            return unroll_lift_with_state(lambda u, v: vmap_lift_with_state(f, init_rng=False)(u, v))(x, b)
    else:
        cx, cb = cx.swapaxes(1, 2), cb.swapaxes(1, 2)

        def outer(x, b):
            return vmap_lift_with_state(lambda u, v: unroll_lift_with_state(f, init_rng=False)(u, v))(x, b)

    got, _, _ = drive(c, outer, (cx, cb), mode, rng_init=key(1))
    if shape == "vmap_unroll":
        got = jax.tree_util.tree_map(lambda v: np.asarray(v).swapaxes(1, 2), got)
    want = jax.tree_util.tree_map(lambda v: v.reshape((calls, T) + v.shape[1:]), lanes(f))
    c.tree_same(leaves(got), leaves(want), shape, **tol(c, xs))


@R.kind(weight=1)
def random_unrolls(c):
    """Steps of a lifted unroll that splits its key draw independently."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.stateful import unroll_lift_with_state

    T, calls = c.int(2, 6), c.int(1, 3)
    xs = series(c, T, (2,), nan="none")
    c.note(T=T, calls=calls, x=xs.tolist())
    c.state("random_unrolls", T, calls)

    def f(x):
        s = hk.get_state("s", x.shape, x.dtype, init=jnp.zeros)
        e = jax.random.normal(hk.next_rng_key(), x.shape, x.dtype)
        hk.set_state("s", s + x + e)
        return e, s + x + e

    t = hk.transform_with_state(lambda x: unroll_lift_with_state(f, split_rng=True)(x))
    p, s = t.init(key(0), jnp.asarray(xs))
    seen, acc = [], np.zeros(2)
    for a in range(calls):
        (e, y), s = t.apply(p, s, key(10 + a), jnp.asarray(xs))
        e = np.asarray(e, np.float64)
        seen += [tuple(v) for v in e.tolist()]
        want = acc + np.cumsum(np.asarray(xs, np.float64) + e, axis=0)
        scale = float(np.abs(want).max()) + 1
        c.same(y, want, "noise_added", rtol=1e-6 if c.x64 else 1e-3, atol=(1e-9 if c.x64 else 1e-4) * scale)
        acc = want[-1]
        (e2, _), _ = t.apply(p, s, key(10 + a), jnp.asarray(xs))
        c.same(e2, e, "reproducible", rtol=0, atol=0)
    c.expect(len(set(seen)) == T * calls, "repeated_draws", f"{seen}")
    c.count("draws", T * calls)


@R.kind(weight=1)
def flax_batches(c):
    """The Flax batch module maps a function over the lanes, and averages on demand."""
    import jax
    import jax.numpy as jnp

    from wax.flax.modules.vmap import VMap, create_vmap

    n, k = c.int(1, 5), c.int(1, 3)
    x, y = series(c, n, (k,), nan="none"), series(c, n, (), nan="none")
    mean = c.flip()
    c.note(n=n, k=k, mean=mean, x=x.tolist(), y=y.tolist())
    c.state("flax_batches", n, k, mean)

    def f(u, v):
        return {"a": jnp.cumsum(u) * v, "b": (v + 1.0, jnp.max(u))}

    m = (VMap if c.flip() else create_vmap)(fun=f, take_mean=mean)
    got = m.apply({}, jnp.asarray(x), jnp.asarray(y))
    x, y = x.astype(np.float64), y.astype(np.float64)
    want = {"a": np.cumsum(x, axis=1) * y[:, None], "b": (y + 1.0, x.max(axis=1))}
    if mean:
        want = jax.tree_util.tree_map(lambda v: v.mean(axis=0), want)
    c.tree_same(got, want, "mapped", rtol=1e-8 if c.x64 else 1e-3)

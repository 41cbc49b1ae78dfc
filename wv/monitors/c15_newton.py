"""C15: the online Newton optimizer."""

from __future__ import annotations

import numpy as np

from wv.core import Registry

ID = "C15"
RULE = (
    "random trees of parameters x gradient histories (repeated, collinear, zero, large, small) x regularisation x "
    "learning rates and schedules; updates and the carried inverse are compared with explicit float64 linear algebra; "
    "distinct by configuration and data"
)
ASSUMPTIONS = ["numpy float64 inverses are the reference; well conditioned problems only in 32-bit mode"]
QUICK, THOROUGH = 60, 600
R = Registry()


def tol(c):
    return dict(rtol=1e-6, atol=1e-7) if c.x64 else dict(rtol=5e-3, atol=2e-3)


def shapes_(c):
    return c.choice([(), (1,), (3,), (2, 2), {"w": (3,), "b": ()}, {"m": {"w": (2, 3), "b": (3,)}, "n": (1,)},
                     [(2,), (4,)], ((3, 1), {"z": (2, 1, 2)})])


def tmap(f, s):
    if isinstance(s, dict):
        return {k: tmap(f, v) for k, v in s.items()}
    if isinstance(s, list):
        return [tmap(f, v) for v in s]
    if isinstance(s, tuple) and s and not all(isinstance(v, int) for v in s):
        return tuple(tmap(f, v) for v in s)
    return f(s)


def grads_(c, T, shape):
    f = np.float64 if c.x64 else np.float32
    k = c.choice(["gauss", "repeat", "collinear", "zeros", "sparse"])
    g = c.rng.normal(size=(T,) + shape)
    if k == "repeat":
        g[:] = g[0]
    if k == "collinear":
        g = g[0] * c.rng.normal(size=(T,) + (1,) * len(shape))
    if k == "zeros":
        g[c.rng.random(T) < 0.5] = 0
    if k == "sparse":
        g = g * (c.rng.random(g.shape) < 0.4)
    return g.astype(f)


@R.kind(weight=4)
def steps(c):
    import jax
    import jax.numpy as jnp
    import optax

    from wax.optim import newton
    from wax.optim.newton import scale_by_newton

    s = shapes_(c)
    T = c.choice([1, 4, 12, 25])
    eps = c.choice([1e-3, 0.1, 0.5, 1.0, 10.0]) if c.x64 else c.choice([0.5, 1.0, 4.0])
    unit = c.choice([1.0, 1.0, 2.0**-12, 2.0**-20, 2.0**10])  # of the gradients; eps is in its square
    eps = eps * unit**2
    how = c.choice(["newton", "newton", "scale", "schedule"])
    lr = c.choice([0.01, 0.3, 1.0, 2.0])
    f = np.float64 if c.x64 else np.float32
    g = tmap(lambda h: grads_(c, T, h) * f(unit), s)
    p = tmap(lambda h: c.rng.normal(size=h).astype(f), s)
    c.note(shapes=str(s), T=T, eps=eps, unit=unit, how=how, lr=lr, g=str(jax.tree_util.tree_leaves(g)))
    c.count("updates", T)
    c.state(str(s), T, eps, unit, how, lr)
    rate = (lambda n: lr / (1 + n)) if how == "schedule" else lr
    opt = scale_by_newton(eps=eps) if how == "scale" else newton(rate, eps=eps)
    pj = jax.tree_util.tree_map(jnp.asarray, p)
    st = opt.init(pj)
    gj = jax.tree_util.tree_map(jnp.asarray, g)
    if c.flip():
        def body(st, g):
            u, st = opt.update(g, st)
            return st, (u, st)

        _, (us, _) = jax.lax.scan(body, st, gj)
    else:
        up = jax.jit(opt.update) if c.flip(0.7) else opt.update
        us = []
        for i in range(T):
            u, st = up(jax.tree_util.tree_map(lambda v: v[i], gj), st, pj)
            us.append(u)
        us = jax.tree_util.tree_map(lambda *a: jnp.stack(a), *us)
    c.expect(jax.tree_util.tree_structure(us) == jax.tree_util.tree_structure(pj), "tree_structure")
    for u, gl, pl in zip(*map(jax.tree_util.tree_leaves, (us, gj, pj))):
        gl = np.asarray(gl, np.float64)
        flat = gl.reshape(T, -1)
        n = flat.shape[1]
        A = np.eye(n) * eps
        want = []
        for i in range(T):
            A = A + np.outer(flat[i], flat[i])
            d = np.linalg.solve(A, flat[i])
            want.append(d if how == "scale" else -(lr / (1 + i) if how == "schedule" else lr) * d)
        c.expect(u.dtype == pl.dtype, "dtype")
        c.same(np.asarray(u, np.float64) * unit, np.stack(want).reshape(gl.shape) * unit, "direction", **tol(c))


@R.kind(weight=2)
def rank_one(c):
    import jax
    import jax.numpy as jnp

    from wax.optim.newton import sherman_morrison

    n = c.int(1, 8)
    f = np.float64 if c.x64 else np.float32
    B = c.rng.normal(size=(n, n))
    sym = c.flip()
    A = B @ B.T + np.eye(n) if sym else B * 0.2 + 2 * np.eye(n)
    u, v = c.rng.normal(size=n), c.rng.normal(size=n)
    Ai = np.linalg.inv(A)
    if abs(1 + u @ Ai @ v) < 0.2 or np.linalg.cond(A + np.outer(u, v)) > 1e3:
        v = u if sym else v * 0.01
    c.note(n=n, A=A.tolist(), u=u.tolist(), v=v.tolist())
    c.state(n, sym)
    c.count("updates")
    fn = jax.jit(sherman_morrison) if c.flip() else sherman_morrison
    got = fn(*(jnp.asarray(t.astype(f)) for t in (Ai, u, v)))
    if np.linalg.cond(A + np.outer(u, v)) < 1e4:
        c.same(got, np.linalg.inv(A + np.outer(u, v)), "inverse", **tol(c))


@R.kind(weight=2)
def descends(c):
    """A quadratic is minimised, and resuming from a saved state continues."""
    import jax
    import jax.numpy as jnp
    import optax

    from wax.optim import newton

    n = c.int(1, 4)
    f = np.float64 if c.x64 else np.float32
    t = jnp.asarray(c.rng.normal(size=n).astype(f))
    opt = newton(c.choice([0.5, 1.0]), eps=c.choice([0.5, 1.0]))
    w = jnp.zeros(n, t.dtype)
    L = lambda w: jnp.sum((w - t) ** 2)  # noqa: E731
    c.note(n=n, t=np.asarray(t).tolist())
    c.state(n)

    def body(k, _):
        w, s = k
        u, s = opt.update(jax.grad(L)(w), s)
        return (optax.apply_updates(w, u), s), L(w)

    s0 = opt.init(w)
    (w1, s1), l1 = jax.lax.scan(body, (w, s0), None, 30)
    (w2, _), l2 = jax.lax.scan(body, (w1, s1), None, 30)
    (w3, _), l3 = jax.lax.scan(body, (w, s0), None, 60)
    c.count("updates", 120)
    c.expect(bool(l3[-1] <= l3[0] + 1e-6), "descends", f"{l3[0]} -> {l3[-1]}")
    c.same(w2, w3, "resumed", **tol(c))
    c.same(jnp.concatenate([l1, l2]), l3, "resumed_losses", **tol(c))

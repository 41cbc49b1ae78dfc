"""C16: ARMA filters and adaptive forecasters."""

from __future__ import annotations

import numpy as np

from wv.core import Registry
from wv.tools import key, series

ID = "C16"
RULE = (
    "random orders and coefficients x scalar and vector inputs with missing values x engines; outputs are compared "
    "with the difference equation in float64, forecasts with a regressor applied to explicitly built features; "
    "distinct by configuration and data"
)
ASSUMPTIONS = ["coefficients are scaled to keep the filter from diverging"]
QUICK, THOROUGH = 40, 400
R = Registry()


def tol(c):
    return dict(rtol=1e-8, atol=1e-9) if c.x64 else dict(rtol=2e-3, atol=1e-3)


def arma_ref(e, alpha, beta):
    e = np.asarray(e, np.float64)
    y = np.zeros_like(e)
    p, q = len(alpha), len(beta)
    with np.errstate(invalid="ignore"):
        for t in range(len(e)):
            v = e[t].copy()
            for i in range(1, p + 1):
                v = v + alpha[i - 1] * (y[t - i] if t >= i else 0.0)
            for j in range(1, q + 1):
                v = v + beta[j - 1] * (e[t - j] if t >= j else 0.0)
            y[t] = np.where(np.isfinite(v), v, 0.0)
    return y


def coeffs(c, n, f):
    a = c.rng.normal(size=n)
    if n:
        a = a / max(1.0, np.abs(a).sum() * 1.2)
    return a.astype(f)


@R.kind(weight=3)
def haiku_arma(c):
    import haiku as hk  # noqa: F401
    import jax.numpy as jnp

    from wax.modules import ARMA
    from wv.tools import hk_run

    f = np.float64 if c.x64 else np.float32
    p, q = c.int(1, 6), c.int(1, 5)
    T = c.choice([1, 3, 12, 30])
    e = series(c, T, c.choice([(), (1,), (4,)]), nan=c.choice(["none", "none", "scatter", "lead"]), scale=1.0)
    a, b = coeffs(c, p, f), coeffs(c, q, f)
    mode = c.choice(["scan", "jit"])
    c.note(p=p, q=q, T=T, a=a.tolist(), b=b.tolist(), e=e.tolist(), mode=mode)
    c.state("hk", p, q, T, e.shape)
    c.count("steps", T)
    y, _, _ = hk_run(lambda v: ARMA(jnp.asarray(a), jnp.asarray(b))(v), e, mode=mode)
    c.same(y, arma_ref(e, a.astype(float), b.astype(float)), "recursion", **tol(c))


@R.kind(weight=3)
def flax_arma(c):
    import jax.numpy as jnp

    from wax.flax.modules.arma import ARMA, create_arma
    from wv.tools import fx_run

    f = np.float64 if c.x64 else np.float32
    p, q = c.int(0, 5), c.int(0, 5)
    T = c.choice([2, 3, 12, 30])
    e = series(c, T, c.choice([(), (1,), (4,), (2, 3)]), nan=c.choice(["none", "none", "scatter", "lead"]), scale=1.0)
    a, b = coeffs(c, p, f), coeffs(c, q, f)
    mode = c.choice(["scan", "jit"])
    c.note(p=p, q=q, T=T, a=a.tolist(), b=b.tolist(), e=e.tolist(), mode=mode)
    c.state("fx", p, q, T, e.shape)
    c.count("steps", T)
    m = c.choice([ARMA, create_arma])(alpha=jnp.asarray(a), beta=jnp.asarray(b))
    y, _, _ = fx_run(m, e, mode=mode)
    c.same(y, arma_ref(e, a.astype(float), b.astype(float))[1:], "recursion", **tol(c))


@R.kind(weight=3)
def haiku_forecaster(c):
    import haiku as hk
    import jax.numpy as jnp

    from wax.modules import SNARIMAX
    from wv.tools import hk_run

    f = np.float64 if c.x64 else np.float32
    p, q, nx = c.int(1, 5), c.int(0, 4), c.choice([0, 0, 2])
    T = c.choice([1, 4, 12])
    shape = c.choice([(), (), (1,), (3,)])
    y = series(c, T, shape, nan=c.choice(["none", "scatter", "lead"]), scale=1.0)
    X = series(c, T, (nx,), nan=c.choice(["none", "scatter"]), scale=1.0) if nx else None
    n = nx + (p + q) * int(np.prod(shape))
    k = int(np.prod(shape))
    W = (c.rng.normal(size=(n, k)) * 0.3 / max(n, 1)).astype(f)
    bias = c.rng.normal(size=k).astype(f)
    default = k == 1 and c.flip()
    c.note(p=p, q=q, nx=nx, T=T, y=y.tolist(), X=None if X is None else X.tolist(), default=default)
    c.state("snarimax", p, q, nx, T, shape)
    c.count("steps", T)
    xs = (y,) if X is None else (y, X)

    def fn(*a):
        r = None if default else (lambda v: v @ jnp.asarray(W) + jnp.asarray(bias))
        return SNARIMAX(p, 0, q, regressor=r)(*a)[0]

    edit = None
    if default:
        def edit(ps):
            out = {}
            for m, d in ps.items():
                c.expect(d["w"].shape == W.shape, "number_of_features", f"{d['w'].shape} expected {W.shape}")
                out[m] = {"w": jnp.asarray(W), "b": jnp.asarray(bias)}
            return out

    got, _, _ = hk_run(fn, xs, mode=c.choice(["scan", "jit"]), edit_params=edit, rng=key(0))
    yy = np.asarray(y, np.float64)
    err = [np.zeros(shape)] * q
    want = []
    for t in range(T):
        lags = [yy[t - i] if t >= i else np.full(shape, np.nan) for i in range(p)][::-1]
        feats = ([] if X is None else [np.asarray(X[t], np.float64)]) + [np.ravel(v) for v in err] + [
            np.ravel(v) for v in lags]
        v = np.concatenate(feats)
        v = np.where(np.isfinite(v), v, 0.0)
        pr = (v @ W.astype(float) + bias).reshape(shape)
        want.append(pr)
        if q:
            # errors before the first one are missing
            err = (err + [yy[t] - pr])[1:]
    c.same(got, np.stack(want), "forecast", **tol(c))
    # the future never matters
    if T > 2:
        cut = c.int(1, T - 1)
        y2 = np.array(y)
        y2[cut:] = 7.0
        g2, _, _ = hk_run(fn, (y2,) if X is None else (y2, X), edit_params=edit, rng=key(0))
        c.same(g2[:cut], np.stack(want)[:cut], "no_look_ahead", **tol(c))


@R.kind(weight=2)
def flax_forecaster(c):
    import jax.numpy as jnp

    from wax.flax.modules.snarimax import SNARIMAX, create_snarimax
    from wv.tools import fx_run

    f = np.float64 if c.x64 else np.float32
    lx, ly = c.int(0, 4), c.int(0, 4)
    T = c.choice([2, 4, 12])
    shape = c.choice([(), (1,), (3,)])
    x = series(c, T, shape, nan="none", scale=1.0)
    y = series(c, T, shape, nan="none", scale=1.0) if c.flip(0.7) else None
    ne = ly if y is not None else 0
    n = (lx + ne + 1) * int(np.prod(shape))
    W = c.rng.normal(size=(n, 1)).astype(f)
    c.note(lx=lx, ly=ly, T=T, x=x.tolist(), y=None if y is None else y.tolist())
    c.state("fsnarimax", lx, ly, T, shape, y is None)
    c.count("steps", T)
    m = c.choice([SNARIMAX, create_snarimax])(lags_x=lx, lags_y=ly, regressor=lambda v: v @ jnp.asarray(W))
    got, _, _ = fx_run(m, (x,) if y is None else (x, y), mode=c.choice(["scan", "jit"]))
    xx = np.asarray(x, float)
    want = []
    for t in range(T):
        win = [xx[t - i] if t >= i else np.zeros(shape) for i in range(lx)][::-1]
        e = [np.asarray(y[t - i], float) - xx[t - i] if t >= i else np.zeros(shape) for i in range(ne)][::-1]
        v = np.concatenate([np.ravel(u) for u in win + e + [xx[t]]])
        want.append(float((v @ W.astype(float))[0]))
    c.same(got, np.array(want)[1:], "forecast", **tol(c))

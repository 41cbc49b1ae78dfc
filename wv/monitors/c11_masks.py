"""C11: statistics over masked data."""

from __future__ import annotations

import numpy as np

from wv.core import Registry
from wv.tools import fdtype

ID = "C11"
RULE = (
    "random 1-D/2-D arrays and trees of arrays with missing and infinite values x masks (dense, sparse, full, empty, "
    "empty rows) x axis x centring, Haiku and Flax, eager and jitted; oracle: float64 loops over the selected entries; "
    "poisoning every unselected entry must not change the statistics; distinct by configuration and data"
)
ASSUMPTIONS = ["numpy float64 sums are the reference; a missing value inside the mask counts as zero (documented)"]
QUICK, THOROUGH = 100, 900
R = Registry()


def data(c, shape, wild=True):
    x = c.rng.normal(size=shape) * c.choice([1.0, 10.0, 1.0])
    if c.flip(0.4):
        x = x + c.choice([5.0, -20.0])
    if wild and c.flip(0.5):
        x = np.where(c.rng.random(shape) < 0.15, np.nan, x)
    return x.astype(fdtype(c))


def mask_(c, shape):
    k = c.choice(["half", "sparse", "dense", "full", "row", "col", "one"])
    m = c.rng.random(shape) < {"half": 0.5, "sparse": 0.2, "dense": 0.9}.get(k, 0.6)
    if k == "full":
        m[...] = True
    if k == "row":
        m[c.int(0, shape[0] - 1)] = False
    if k == "col" and len(shape) > 1:
        m[:, c.int(0, shape[1] - 1)] = False
    if k == "one":
        m[...] = False
        m[tuple(c.int(0, s - 1) for s in shape)] = True
    return k, m


def ref(x, m, axis, centered):
    """mean, std, count along axis, by explicit selection."""
    if axis is None:
        xs, ms, oshape = x.reshape(1, -1), m.reshape(1, -1), ()
    else:
        xs, ms = np.moveaxis(x, axis, -1), np.moveaxis(m, axis, -1)
        oshape = xs.shape[:-1]
        xs, ms = xs.reshape(-1, xs.shape[-1]), ms.reshape(-1, ms.shape[-1])
    mean, std, cnt = [], [], []
    for r, k in zip(xs, ms):
        sel = r[k].astype(np.float64)
        sel = np.where(np.isnan(sel), 0.0, sel)
        cnt.append(len(sel))
        if len(sel) == 0:
            mean.append(np.nan)
            std.append(np.nan)
            continue
        mu = sel.sum() / len(sel)
        d = sel if centered else sel - mu
        mean.append(mu)
        std.append(np.sqrt((d * d).sum() / len(sel)))
    return [np.array(v).reshape(oshape) for v in (mean, std, cnt)]


def axis_of(c, shape, most=None):
    """None, or an axis counted from either end."""
    return c.choice([None] + [a for a in range(-len(shape), len(shape)) if most is None or a <= most])


def modules(lib):
    if lib == "haiku":
        from wax.modules.apply_mask import ApplyMask
        from wax.modules.mask_mean import MaskMean
        from wax.modules.mask_normalize import MaskNormalize
        from wax.modules.mask_std import MaskStd
    else:
        from wax.flax.modules.apply_mask import ApplyMask
        from wax.flax.modules.mask_mean import MaskMean
        from wax.flax.modules.mask_normalize import MaskNormalize
        from wax.flax.modules.mask_std import MaskStd
    return ApplyMask, MaskMean, MaskStd, MaskNormalize


def call(lib, cls, kw, *args, jit=False):
    import haiku as hk
    import jax

    if lib == "haiku":
        t = hk.transform(lambda *a: cls(**kw)(*a))
        f = lambda *a: t.apply({}, None, *a)  # noqa: E731
    else:
        f = lambda *a: cls(**kw).apply({}, *a)  # noqa: E731
    return (jax.jit(f) if jit else f)(*jax.tree_util.tree_map(jax.numpy.asarray, args))


def tol(c):
    return dict(rtol=1e-6, atol=1e-7) if c.x64 else dict(rtol=2e-3, atol=2e-3)


@R.kind(weight=4)
def mean_std(c):
    shape = c.choice([(4,), (7,), (3, 4), (4, 3), (5, 1), (1, 5), (3, 3), (2, 3, 4), (3, 3, 3), (2, 2, 2)])
    axis = axis_of(c, shape)
    cen = c.flip(0.3)
    k, m = mask_(c, shape)
    x = data(c, shape)
    jit = c.flip()
    c.note(shape=shape, axis=axis, centered=cen, mask=m.astype(int).tolist(), x=x.tolist(), jit=jit)
    mean, std, cnt = ref(x, m, axis, cen)
    c.count("selected", m.sum())
    c.count("empty_groups", (np.asarray(cnt) == 0).sum())
    c.state(shape, axis, cen, m.astype(int).tolist())
    some = np.asarray(cnt) > 0
    for lib in ("haiku", "flax"):
        if lib == "flax" and axis is not None and axis > 1:
            continue  # documented: not supported
        _, MM, MS, _ = modules(lib)
        gm = np.asarray(call(lib, MM, dict(axis=axis), m, x, jit=jit))
        gs = np.asarray(call(lib, MS, dict(axis=axis, assume_centered=cen), m, x, jit=jit))
        c.expect(gm.shape == mean.shape and gs.shape == std.shape, lib + "_shape", f"{gm.shape} {gs.shape}")
        c.same(gm[some], mean[some], lib + "_mean", **tol(c))
        c.same(gs[some], std[some], lib + "_std", **tol(c))
        c.expect(bool(np.isnan(gm[~some]).all()), lib + "_mean_of_nothing")


@R.kind(weight=3)
def poison(c):
    """What the mask hides never influences the statistics."""
    shape = c.choice([(5,), (3, 4), (4, 2), (2, 3, 2)])
    axis = axis_of(c, shape, 1)
    cen = c.flip(0.3)
    _, m = mask_(c, shape)
    x = data(c, shape)
    y = x.copy()
    y[~m] = c.rng.choice([np.nan, np.inf, -np.inf, 1e30, -7.0, 0.0], size=int((~m).sum()))
    c.note(axis=axis, centered=cen, mask=m.astype(int).tolist(), x=x.tolist(), y=y.tolist())
    c.count("poisoned", (~m).sum())
    c.state(shape, axis, m.astype(int).tolist())
    for lib in ("haiku", "flax"):
        A, MM, MS, MN = modules(lib)
        for nm, cls, kw in (("apply", A, {}), ("mean", MM, dict(axis=axis)),
                            ("std", MS, dict(axis=axis, assume_centered=cen))):
            c.exact(call(lib, cls, kw, m, x), call(lib, cls, kw, m, y), f"{lib}_{nm}_poison")
        a = np.asarray(call(lib, MN, dict(axis=axis, assume_centered=cen), m, x))
        b = np.asarray(call(lib, MN, dict(axis=axis, assume_centered=cen), m, y))
        c.same(a[m], b[m], lib + "_normalize_poison", rtol=0, atol=0)


@R.kind(weight=3)
def normalize(c):
    shape = c.choice([(5,), (8,), (4, 5), (5, 4), (3, 3), (4, 4, 4), (3, 4, 5)])
    axis = axis_of(c, shape, 1)
    cen = c.flip(0.3)
    _, m = mask_(c, shape)
    x = data(c, shape)
    jit = c.flip()
    c.note(axis=axis, centered=cen, mask=m.astype(int).tolist(), x=x.tolist(), jit=jit)
    _, std, cnt = ref(x, m, axis, cen)
    if axis is not None:
        std = np.expand_dims(std, axis)
    std = np.broadcast_to(std, shape)
    good = std > 1e-3
    e = np.where(np.isnan(x), 0.0, x.astype(float) / np.where(good, std, 1.0))
    c.count("normalised", good.sum())
    c.state(shape, axis, cen, m.astype(int).tolist())
    for lib in ("haiku", "flax"):
        g = np.asarray(call(lib, modules(lib)[3], dict(axis=axis, assume_centered=cen), m, x, jit=jit))
        c.expect(g.shape == shape, lib + "_shape")
        c.expect(bool(np.isfinite(g).all()), lib + "_finite", "normalised data must be finite")
        rt = 1e-6 if c.x64 else 5e-3
        c.same(g[good], e[good], lib + "_normalize", rtol=rt, atol=rt)


@R.kind(weight=3)
def apply_mask(c):
    n, k = c.int(1, 4), c.int(1, 4)
    axis = c.choice([None, None, 0, 1])
    mv = c.choice([0.0, -1.0, np.nan, 7.5])
    shape = (n, k)
    if axis is None and c.flip():
        shape = (n,)
    m = c.rng.random(shape if axis is None else (shape[axis],)) < 0.5
    tree = {"a": data(c, shape)}
    if c.flip():
        tree["b"] = [data(c, shape), (data(c, shape),)]
    c.note(axis=axis, mv=mv, mask=m.astype(int).tolist(), tree=repr(tree))
    import jax

    mm = m if axis is None else np.broadcast_to(m[:, None] if axis == 0 else m[None, :], shape)
    e = jax.tree_util.tree_map(lambda v: np.where(mm, v, np.asarray(mv, v.dtype)), tree)
    c.count("kept", mm.sum())
    c.count("hidden", (~mm).sum())
    c.state(shape, axis, m.astype(int).tolist())
    for lib in ("haiku", "flax"):
        g = call(lib, modules(lib)[0], dict(axis=axis, mask_value=mv), m, tree, jit=c.flip())
        c.tree_same(g, e, lib, exact=True)


@R.kind(weight=1)
def trees(c):
    """A statistic of a tree is the tree of statistics of its leaves."""
    import jax

    shape = c.choice([(3, 4), (5,), (3, 3)])
    axis = axis_of(c, shape)
    _, m = mask_(c, shape)
    tree = {"a": data(c, shape), "b": [data(c, shape)]}
    c.note(axis=axis, mask=m.astype(int).tolist(), tree=repr(tree))
    c.count("leaves", 2)
    c.state(shape, axis, m.astype(int).tolist())
    for lib in ("haiku", "flax"):
        if lib == "flax" and axis is not None and axis > 1:
            continue
        _, MM, MS, MN = modules(lib)
        for nm, cls in (("mean", MM), ("std", MS), ("normalize", MN)):
            g = call(lib, cls, dict(axis=axis), m, tree)
            e = jax.tree_util.tree_map(lambda v: call(lib, cls, dict(axis=axis), m, v), tree)
            c.tree_same(g, e, f"{lib}_{nm}_tree", exact=True)


@R.kind(weight=1)
def row_masks(c):
    """Flax: a vector of flags selects whole rows of the data."""
    shape = (c.int(1, 6), c.int(1, 4)) + ((c.int(1, 3),) if c.flip(0.3) else ())
    cen = c.flip(0.3)
    _, m = mask_(c, shape[:1])
    full = np.broadcast_to(m.reshape((-1,) + (1,) * (len(shape) - 1)), shape)
    x = data(c, shape)
    c.note(shape=shape, centered=cen, mask=m.astype(int).tolist(), x=x.tolist())
    c.count("rows_selected", m.sum())
    c.state(shape, cen, m.astype(int).tolist())
    mean, std, cnt = ref(x, full, 0, cen)
    _, MM, MS, _ = modules("flax")
    jit = c.flip()
    gm = call("flax", MM, dict(axis=0), m, x, jit=jit)
    gs = call("flax", MS, dict(axis=0, assume_centered=cen), m, x, jit=jit)
    some = cnt > 0
    c.same(np.asarray(gm)[some], mean[some], "flax_mean", **tol(c))
    c.same(np.asarray(gs)[some], std[some], "flax_std", **tol(c))


@R.kind(weight=1)
def far_from_zero(c):
    """The spread of values that are large compared to it."""
    n = c.int(3, 12)
    k = c.int(1, 3)
    off = c.choice([1e3, -5e3, 2e4]) * (1e3 if c.x64 else 1.0)
    x = (off + c.rng.normal(size=(n, k)) * c.choice([1.0, 5.0])).astype(fdtype(c))
    m = c.rng.random((n, k)) < 0.7
    m[:2] = True
    if c.flip():
        x[~m] = c.choice([0.0, np.nan, -off])
    c.note(x=x.tolist(), mask=m.astype(int).tolist())
    c.count("offset_values", m.sum())
    c.state(n, k, off)
    mean, std, _ = ref(x, m, 0, False)
    eps = abs(off) * float(np.finfo(x.dtype).eps) * 20
    for lib in ("haiku", "flax"):
        _, MM, MS, _ = modules(lib)
        c.same(call(lib, MM, dict(axis=0), m, x), mean, lib + "_mean", rtol=0, atol=eps)
        c.same(call(lib, MS, dict(axis=0), m, x), std, lib + "_std", rtol=1e-3, atol=eps)

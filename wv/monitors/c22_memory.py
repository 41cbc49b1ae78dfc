"""C22: compressed and hierarchical memories summarise the stream as stated."""

from __future__ import annotations

import math

import numpy as np

from wv.core import Registry
from wv.tools import fdtype, key, series

ID = "C22"
RULE = (
    "random sequences (lengths around and far beyond the memory, missing values, scalars and vectors) through every "
    "compression strategy, parameters and hierarchy, directly and through the decorators; each step's output against "
    "the explicit history (last inputs, kept samples, pandas-style mean, quantiles at the last refresh, observed "
    "counts); sizes of the carried state; distinct by configuration and data"
)
ASSUMPTIONS = ["called step by step outside compiled code, as the strategies branch on Python counters",
               "which bucket a value is counted in is not part of the claim"]
QUICK, THOROUGH = 40, 320
R = Registry()


def tol(c):
    return dict(rtol=1e-8, atol=1e-10) if c.x64 else dict(rtol=3e-4, atol=3e-5)


def window(xs, n, fill):
    """The last n entries of the list, oldest first, padded at the front."""
    xs = np.asarray(xs, np.float64)
    pad = np.full((max(0, n - len(xs)),) + xs.shape[1:], fill)
    return np.concatenate([pad, xs[-n:]]) if len(xs) else pad


class Level:
    """Reference for one memory level, fed one input at a time."""

    def __init__(self, strategy, maxlen, params, fill):
        self.k, self.n, self.p, self.fill = strategy, maxlen, params or {}, fill
        self.seen, self.kept, self.q = [], [], None
        self.num = self.den = 0.0

    def push(self, x):
        x = np.asarray(x, np.float64)
        t = len(self.seen)
        self.seen.append(x)
        if self.k == "ewma":
            a = self.p.get("alpha", 0.1)
            ok = ~np.isnan(x)
            # pandas: adjusted, missing values keep their place
            self.num = self.num * (1 - a) + np.where(ok, x, 0.0)
            self.den = self.den * (1 - a) + ok
        elif self.k == "quantile" and t % 10 == 0:
            w = window(self.seen, min(self.n, 1000), self.fill)
            v = w[~np.isnan(w)]
            if v.size:
                self.q = np.quantile(v, self.p.get("percentiles", [0.1, 0.25, 0.5, 0.75, 0.9]))
        elif self.k == "downsample" and t % self.p.get("factor", 2) == 0:
            self.kept.append(x)

    def value(self):
        if self.k == "ewma":
            with np.errstate(all="ignore"):
                return self.num / self.den
        if self.k == "quantile":
            return self.q if self.q is not None else np.full(len(self.p.get("percentiles", range(5))), self.fill)
        if self.k == "downsample":
            return window(self.kept, max(1, self.n // self.p.get("factor", 2)), self.fill)
        return window(self.seen, self.n, self.fill)


def a_level(c, allow_sketch=False):
    k = c.choice(["ewma", "quantile", "downsample", "none"])
    maxlen = c.choice([1, 2, 3, 5, 8, 13])
    params = None
    if c.flip(0.7):
        params = {"ewma": {"alpha": float(c.rng.uniform(0.05, 0.95))},
                  "quantile": {"percentiles": sorted(float(v) for v in c.rng.random(c.int(1, 4)))},
                  "downsample": {"factor": c.int(1, 4)}, "none": {}}[k]
    return k, maxlen, params


def steps(module, xs):
    """Initialise on the first input (which counts as its step), then apply on the others."""
    import jax
    import jax.numpy as jnp

    out, v = module.init_with_output(key(0), jnp.asarray(xs[0]))
    yield out, v
    for x in xs[1:]:
        out, m = module.apply(v, jnp.asarray(x), mutable=["state"])
        v = {**v, **m}
        yield out, v
    del jax


def sizes(v):
    import jax

    return sum(int(np.size(leaf)) for leaf in jax.tree_util.tree_leaves(v))


@R.kind(weight=4)
def compressed(c):
    from wax.flax.modules.compressed_buffer import CompressedBuffer

    k, maxlen, params = a_level(c)
    T = c.choice([1, 3, 7, 15, 26, 33])
    shape = c.choice([(), (), (2,)])
    fill = c.choice([0.0, float("nan"), -1.0])
    xs = series(c, T, shape, nan=c.choice(["none", "none", "scatter", "lead"]), dtype=fdtype(c))
    c.note(k=k, maxlen=maxlen, params=params, T=T, fill=fill, x=xs.tolist())
    c.state(k, maxlen, str(params), T, shape, fill)
    m = CompressedBuffer(maxlen=maxlen, compression=k, compression_params=params, fill_value=fill)
    ref = Level(k, maxlen, params, fill)
    size = None
    for t, (out, v) in enumerate(steps(m, xs)):
        ref.push(xs[t])
        c.same(out, ref.value(), "summary", **tol(c), ctx=f"{k} step {t}")
        if t == 1 or (t > 1 and size is None):
            size = sizes(v)
        elif t > 1:
            c.expect(sizes(v) == size, "grows", f"{sizes(v)} {size}")
        c.count("steps")


@R.kind(weight=2)
def sketch(c):
    """Every input increments the same bucket of each row, and estimates never underestimate."""
    import jax

    from wax.flax.modules.compressed_buffer import CompressedBuffer

    h, b = c.int(1, 4), c.choice([3, 16, 64])
    T = c.int(2, 20)
    vals = np.round(c.rng.normal(size=c.int(1, 6)) * c.choice([1, 100]), 2)
    xs = c.rng.choice(vals, size=T).astype(fdtype(c))
    c.note(h=h, b=b, x=xs.tolist())
    c.state("sketch", h, b, T, len(vals))
    m = CompressedBuffer(maxlen=10, compression="sketching", compression_params={"num_hashes": h, "num_buckets": b})
    prev = np.zeros((h, b))
    where = {}
    for t, (out, v) in enumerate(steps(m, xs)):
        tabs = [np.asarray(x) for x in jax.tree_util.tree_leaves(v) if np.shape(x) == (h, b)]
        c.expect(len(tabs) == 1, "table", f"{len(tabs)}")
        s = tabs[0].astype(float)
        d = s - prev
        c.expect(((d == 0) | (d == 1)).all() and (d.sum(axis=1) == 1).all(), "one_bucket_per_row", f"{d.sum(axis=1)}")
        x = float(xs[t])
        pos = d.argmax(axis=1)
        c.expect(x not in where or (where[x] == pos).all(), "bucket_moved", f"{x}: {where.get(x)} {pos}")
        where[x] = pos
        for y, p in where.items():
            true = int((xs[: t + 1] == np.asarray(y, xs.dtype)).sum())
            c.expect(s[np.arange(h), p].min() >= true, "underestimate", f"{y}")
        c.expect(bool((np.asarray(out) <= s).all()) and np.shape(out) == (b,), "summary", f"{out}")
        c.same(out, s.min(axis=0), "summary")
        prev = s
        c.count("steps")


@R.kind(weight=3)
def hierarchy(c):
    """The levels of a hierarchy: always, every 5 steps, every 50 steps; kept in between."""
    from wax.flax.modules.compressed_buffer import HierarchicalBuffer

    T = c.choice([4, 12, 31, 57, 104])
    r, md, lg = c.choice([1, 3, 6]), c.choice([1, 3, 7]), c.choice([2, 5, 9])
    km, kl = (c.choice(["ewma", "quantile", "downsample", "none"]) for _ in range(2))
    fill = c.choice([0.0, -1.0])
    xs = series(c, T, (), nan=c.choice(["none", "scatter"]) if "none" not in (km, kl) else "none", dtype=fdtype(c))
    c.note(T=T, r=r, md=md, lg=lg, km=km, kl=kl, fill=fill, x=xs.tolist())
    c.state("hierarchy", T, r, km, kl, md, lg)
    m = HierarchicalBuffer(recent_maxlen=r, medium_maxlen=md, long_maxlen=lg, medium_compression=km,
                           long_compression=kl, fill_value=fill)
    recent = Level("none", r, None, fill)
    medium = Level(km, md, {"alpha": 0.1}, fill)
    long_ = Level(kl, lg, {"alpha": 0.01}, fill)
    for t, (out, v) in enumerate(steps(m, xs)):
        recent.push(xs[t])
        if t % 5 == 0:
            medium.push(xs[t])
        if t % 50 == 0:
            long_.push(xs[t])
        for n, lv in (("recent", recent), ("medium", medium), ("long", long_)):
            c.same(out[n], lv.value(), n, **tol(c), ctx=f"{lv.k} step {t}")
        c.same(out["input"], xs[t], "input", rtol=0, atol=0)
        c.count("steps")


@R.kind(weight=2)
def decorated(c):
    """The decorators hand the function the memory and the inputs, once per step."""
    import jax.numpy as jnp

    from wax.flax.modules.compressed_buffer import streaming_compressed_memory, streaming_hierarchical_memory

    T = c.choice([2, 6, 14])
    xs = series(c, T, (), nan="none", dtype=fdtype(c))
    ys = series(c, T, (), nan="none", dtype=fdtype(c))
    hier, named = c.flip(), c.flip()
    k, maxlen, params = a_level(c)
    c.note(hier=hier, named=named, k=k, maxlen=maxlen, params=params, x=xs.tolist())
    c.state("decorated", hier, named, k, maxlen, T)
    calls = []

    def fn(memory, x, y):
        calls.append(1)
        return {"m": memory, "z": x - 2 * y}

    if hier:
        t = streaming_hierarchical_memory(recent_maxlen=maxlen, medium_maxlen=4, long_maxlen=6,
                                          medium_compression=k, long_compression="ewma")(fn)
        levels = {"recent": Level("none", maxlen, None, 0.0), "medium": Level(k, 4, {"alpha": 0.1}, 0.0),
                  "long": Level("ewma", 6, {"alpha": 0.01}, 0.0)}
        every = {"recent": 1, "medium": 5, "long": 50}
    else:
        t = streaming_compressed_memory(maxlen=maxlen, compression=k, compression_params=params)(fn)
        levels, every = {"": Level(k, maxlen, params, 0.0)}, {"": 1}
    args = lambda i: ((), dict(x=jnp.asarray(xs[i]), y=jnp.asarray(ys[i]))) if named else (  # noqa: E731
        (jnp.asarray(xs[i]), jnp.asarray(ys[i])), {})
    a, kw = args(0)
    p, s = t.init(key(0), *a, **kw)
    n0 = len(calls)
    for n, lv in levels.items():
        lv.push(xs[0])
    for i in range(1, T):
        a, kw = args(i)
        out, s = t.apply(p, s, None, *a, **kw)
        for n, lv in levels.items():
            if i % every[n] == 0:
                lv.push(xs[i])
            c.same(out["m"][n] if n else out["m"], lv.value(), "memory", **tol(c), ctx=f"{n} {lv.k} step {i}")
        c.same(out["z"], xs[i] - 2 * ys[i], "inputs")
        c.count("steps")
    c.expect(len(calls) - n0 == T - 1, "calls", f"{len(calls)}")


@R.kind(weight=1)
def reports(c):
    """Reported memory: totals are the sums of their parts and hierarchies compare with no compression."""
    from wax.flax.modules.compressed_buffer import CompressedBuffer, HierarchicalBuffer

    k, maxlen, params = a_level(c)
    maxlen *= c.choice([1, 10, 1000])
    c.note(k=k, maxlen=maxlen, params=params)
    c.state("reports", k, maxlen)
    u = CompressedBuffer(maxlen=maxlen, compression=k, compression_params=params).get_memory_usage()
    c.expect(0 <= sum(v for n, v in u.items() if n != "total") <= u["total"], "total", f"{u}")
    r, m, g = c.int(1, 100), c.int(100, 1000), c.int(1000, 100000)
    kl = c.choice(["ewma", "quantile", "downsample"])
    h = HierarchicalBuffer(recent_maxlen=r, medium_maxlen=m, long_maxlen=g, medium_compression=k,
                           long_compression=kl).get_total_memory_usage()
    c.same(h["total"], h["recent"] + h["medium"] + h["long"], "sum")
    c.expect(math.isclose(h["compression_ratio"], (r + m + g) * 8 / h["total"]), "ratio", f"{h}")
    c.nontrivial = True

"""C12: event-driven computation: update on events, hold in between."""

from __future__ import annotations

import numpy as np

from wv.core import Registry
from wv.tools import hk_run, key, series

ID = "C12"
RULE = (
    "random sequences x random event schedules (never, always, sparse, dense, bursts) x wrapped programs (average, "
    "buffer, lag, counter, nested modules, tree outputs, learned layer); oracle: the unwrapped program run on the "
    "event subsequence (Haiku) or on every input (Flax), held between events; distinct by configuration and data"
)
ASSUMPTIONS = ["the wrapped programs run unwrapped are the reference (their own semantics are C06-C10)"]
QUICK, THOROUGH = 52, 420
R = Registry()


def events(c, T):
    k = c.choice(["never", "always", "sparse", "dense", "half", "late", "burst"])
    p = {"never": 0, "always": 1, "sparse": 0.15, "dense": 0.85}.get(k, 0.5)
    e = c.rng.random(T) < p
    if k == "late":
        e[: T // 2] = False
    if k == "burst":
        e[:] = False
        a = c.int(0, T - 1)
        e[a : a + c.int(1, 4)] = True
    return k, e


def hk_inner(k):
    import haiku as hk
    import jax.numpy as jnp

    from wax.modules import EWMA, OHLC, Buffer, Counter, Diff, Lag

    class Acc(hk.Module):
        def __call__(self, x):
            s = hk.get_state("s", x.shape, x.dtype, init=lambda sh, d: jnp.zeros(sh, d))
            s = jnp.where(jnp.isnan(x), s, s + x)
            hk.set_state("s", s)
            return s

    class Nested(hk.Module):
        def __call__(self, x):
            a = Acc(name="acc")(x)
            b = Lag(1, name="lag")(a)
            n = Counter(name="counter")()
            return {"a": a, "b": (b, EWMA(alpha=0.5, name="ew")(x)), "n": n.astype(jnp.float32)}

    class Layer(hk.Module):
        def __call__(self, x):
            return hk.Linear(3, name="lin")(jnp.nan_to_num(x).reshape(-1))

    return {
        "ewma": lambda nm: EWMA(com=2.0, name=nm),
        "buffer": lambda nm: Buffer(3, name=nm),
        "lag": lambda nm: Lag(2, name=nm),
        "diff": lambda nm: Diff(name=nm),
        "acc": lambda nm: Acc(name=nm),
        "nested": lambda nm: Nested(name=nm),
        "layer": lambda nm: Layer(name=nm),
    }[k]


KINDS = ["ewma", "buffer", "lag", "diff", "acc", "nested", "nested", "layer"]


def hold(sub, e, init, tree_like):
    """sub: outputs for the event subsequence (stacked tree) -> held outputs."""
    import jax

    def one(u, like):
        u = np.asarray(u)
        like = np.asarray(like)
        out = np.empty((len(e),) + like.shape, like.dtype)
        cur = np.full(like.shape, init).astype(like.dtype)
        i = 0
        for t, on in enumerate(e):
            if on:
                cur = u[i]
                i += 1
            out[t] = cur
        return out

    return jax.tree_util.tree_map(one, sub, tree_like)


@R.kind(weight=5)
def haiku_events(c):
    import jax

    from wax.modules import UpdateOnEvent

    k = c.choice(KINDS)
    mode = c.choice(["scan", "jit", "jit", "eager"])
    T = c.choice([1, 3, 7]) if mode == "eager" else c.choice([1, 5, 20])
    x = series(c, T, c.choice([(), (2,)]) if k != "layer" else (2,))
    ek, e = events(c, T)
    init = c.choice([np.nan, np.nan, 0.0, -999.0])
    c.note(inner=k, mode=mode, events=e.astype(int).tolist(), init=init, x=x.tolist())
    mk = hk_inner(k)
    c.count("events", e.sum())
    c.count("held", (~e).sum())
    c.state(k, ek, e[:10].tolist())
    kw = {} if init != init and c.flip() else dict(initial_output_value=init)
    g, gs, p = hk_run(lambda on, v: UpdateOnEvent(mk("m"), **kw)(on, v), (e, x), rng=key(3), mode=mode)
    like, s0, p0 = hk_run(lambda v: mk("m")(v), x[:1], rng=key(3), params=p)
    like = jax.tree_util.tree_map(lambda v: np.asarray(v)[0], like)
    if e.any():
        sub, ss, _ = hk_run(lambda v: mk("m")(v), x[e], rng=key(3), params=p)
    else:
        sub = jax.tree_util.tree_map(lambda v: np.zeros((0,) + v.shape, v.dtype), like)
        import haiku as hk

        ss = hk.transform_with_state(lambda v: mk("m")(v)).init(key(3), x[0])[1]
    want = hold(sub, e, init, like)
    c.tree_same(g, want, "output", rtol=1e-12 if c.x64 else 1e-6, atol=1e-12 if c.x64 else 1e-6)
    inner = {m: v for m, v in gs.items() if not m.startswith("update_on_event")}
    c.tree_same(dict(inner), dict(ss), "inner_state", rtol=1e-12 if c.x64 else 1e-6, atol=1e-12 if c.x64 else 1e-6)


@R.kind(weight=3)
def two_modules(c):
    """Two event-driven modules with their own schedules, and an always-on one,
    in a single program do not disturb each other (even with prefix-sharing names)."""
    from wax.modules import UpdateOnEvent

    ka, kb = c.choice(KINDS[:5]), c.choice(KINDS[:7])
    T = c.choice([6, 15])
    x = series(c, T, (2,))
    y = series(c, T, (2,))
    _, ea = events(c, T)
    _, eb = events(c, T)
    na, nb, nc = c.choice([("m", "m", "m"), ("m", "m_1", "mm"), ("ab", "a", "abc"), ("x", "y", "z")])
    c.note(a=ka, b=kb, names=(na, nb, nc), ea=ea.astype(int).tolist(), eb=eb.astype(int).tolist(), x=x.tolist(),
           y=y.tolist())
    ma, mb = hk_inner(ka), hk_inner(kb)
    c.count("events", ea.sum() + eb.sum())
    c.state(ka, kb, na, ea[:8].tolist(), eb[:8].tolist())

    def both(oa, ob, u, v):
        return (UpdateOnEvent(ma(na))(oa, u), UpdateOnEvent(mb(nb))(ob, v), ma(nc)(v))

    g, _, _ = hk_run(both, (ea, eb, x, y))
    a, _, _ = hk_run(lambda o, u: UpdateOnEvent(ma("q"))(o, u), (ea, x))
    b, _, _ = hk_run(lambda o, u: UpdateOnEvent(mb("q"))(o, u), (eb, y))
    always, _, _ = hk_run(lambda u: ma("q")(u), y)
    t = dict(rtol=1e-12 if c.x64 else 1e-6, atol=1e-12 if c.x64 else 1e-6)
    c.tree_same(g[0], a, "first", **t)
    c.tree_same(g[1], b, "second", **t)
    c.tree_same(g[2], always, "always_on", **t)


@R.kind(weight=2)
def daily_event(c):
    """Event computed inside the program from a change detector: the value is the
    one the module would have produced at the last change."""
    from wax.modules import EWMA, HasChanged, UpdateOnEvent

    T = c.choice([10, 30])
    x = series(c, T, (), nan=c.choice(["none", "scatter"]))
    day = np.cumsum(c.rng.random(T) < 0.3).astype(np.int32)
    c.note(day=day.tolist(), x=x.tolist())
    on = np.r_[True, np.diff(day) != 0]
    g, _, _ = hk_run(lambda d, v: UpdateOnEvent(EWMA(com=3.0))(HasChanged()(d), v), (day, x))
    sub, _, _ = hk_run(lambda v: EWMA(com=3.0)(v), x[on])
    c.count("events", on.sum())
    c.state(day[:12].tolist())
    c.same(g, np.asarray(sub)[np.cumsum(on) - 1], "last_event_value", rtol=1e-6, atol=1e-7)


def fx_inner(k):
    import jax.numpy as jnp

    from wax.flax.modules import EWMA, Buffer, Lag

    return {
        "ewma": lambda v: EWMA(alpha=0.3)(v),
        "buffer": lambda v: Buffer(maxlen=3)(v),
        "lag": lambda v: Lag(lag=2)(v),
        "tree": lambda v: {"a": EWMA(alpha=0.5)(v), "b": [v * 2, Lag(lag=1)(v)]},
        "pure": lambda v: jnp.cumsum(v.reshape(-1)),
    }[k]


@R.kind(weight=5)
def flax_events(c):
    import jax
    import jax.numpy as jnp

    from wax.flax.core import streaming_transform_with_state, update_on_event

    k = c.choice(["ewma", "buffer", "lag", "tree", "pure"])
    T = c.choice([2, 6, 20])
    x = series(c, T, c.choice([(), (2,)]), nan=c.choice(["none", "scatter"]))
    ek, e = events(c, T)
    init = c.choice([np.nan, 0.0, -5.0])
    ev = c.choice(["mask", "mask", "none", "data"])
    c.note(inner=k, event=ev, events=e.astype(int).tolist(), init=init, x=x.tolist())
    inner = fx_inner(k)
    if ev == "none":
        e = np.ones(T, bool)
        fn = update_on_event(initial_output_value=init)(lambda v, on: inner(v))
    elif ev == "data":
        e = np.asarray(jnp.sum(jnp.nan_to_num(x).reshape(T, -1), axis=1) > 0)
        fn = update_on_event(event_fn=lambda v, on: jnp.sum(jnp.nan_to_num(v)) > 0, initial_output_value=init)(
            lambda v, on: inner(v))
    else:
        fn = update_on_event(event_fn=lambda v, on: on, initial_output_value=init)(lambda v, on: inner(v))
    c.count("events", e.sum())
    c.count("held", (~e).sum())
    c.state(k, ev, ek, e[:10].tolist())
    w = streaming_transform_with_state(fn)
    raw = streaming_transform_with_state(lambda v, on: inner(v))
    xj, ej = jnp.asarray(x), jnp.asarray(e)

    def run(t):
        p, s = t.init(key(1), xj[0], ej[0])

        def body(s, a):
            o, s = t.apply(p, s, None, *a)
            return s, o

        return jax.lax.scan(body, s, (xj[1:], ej[1:]))

    _, full = run(raw)
    _, got = run(w)
    # the first element is consumed by init; recover its output for the held value
    first = None
    if e[0]:
        class M:  # noqa
            pass

        import flax.linen as nn

        class First(nn.Module):
            @nn.compact
            def __call__(self, v):
                return inner(v)

        first = First().init_with_output(key(1), xj[0])[0]

    def one(f, i0):
        f = np.asarray(f)
        cur = np.full(f.shape[1:], init).astype(f.dtype) if i0 is None else np.asarray(i0)
        out = np.empty_like(f)
        for t in range(1, T):
            if e[t]:
                cur = f[t - 1]
            out[t - 1] = cur
        return out

    if first is None:
        want = jax.tree_util.tree_map(lambda f: one(f, None), full)
    else:
        want = jax.tree_util.tree_map(one, full, first)
    c.tree_same(got, want, "output", rtol=1e-6, atol=1e-7)

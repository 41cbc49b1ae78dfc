"""C05: Flax unrolling, scanning and resetting."""

from __future__ import annotations

import numpy as np

from wv.core import Registry
from wv.programs import fx_programs, magnitude, rows
from wv.tools import key

ID = "C05"
RULE = (
    "random Flax programs (stateful, learned, random, nested, event-driven) x sequences x ways of unrolling (scan, "
    "Python loop, streaming transform, streaming scan with resets) x first-element skipping x given or initialised "
    "parameters/state/keys; oracle: module.init/module.apply by hand; distinct by configuration and data"
)
ASSUMPTIONS = ["one module.apply by hand is the reference; initialisation counts as processing the first element"]
QUICK, THOROUGH = 56, 460
R = Registry()


def tol(c):
    m = magnitude(c)
    return dict(rtol=1e-10, atol=1e-10 * m) if c.x64 else dict(rtol=2e-5, atol=1e-5 * m)


def unfreeze(t):
    from flax.core import FrozenDict

    if isinstance(t, (dict, FrozenDict)):
        return {k: unfreeze(v) for k, v in t.items()}
    return t


def init(m, rng, *a):
    v = m.init(rng, *a)
    return v.get("params", {}), {k: u for k, u in v.items() if k != "params"}


def step(m, p, s, rng, *a):
    kw = {} if rng is None else dict(rngs={"default": rng})
    o, ns = m.apply({"params": p, **s}, *a, mutable=True, **kw)
    return o, {k: v for k, v in ns.items() if k != "params"}


def by_hand(m, x, b, p, s, rng, skip=False, split=True, reset=None, s_reset=None):
    import jax
    import jax.numpy as jnp

    f = jax.jit(lambda s, r, u, v: step(m, p, s, r, u, v))
    out = []
    for i in range(1 if skip else 0, len(x)):
        sub = rng
        if split and rng is not None:
            rng, sub = jax.random.split(rng)
        o, s = f(s, sub, x[i], b[i])
        if reset is not None and reset[i]:
            s = s_reset
        out.append(o)
    return jax.tree_util.tree_map(lambda *v: jnp.stack(v), *out), s


@R.kind(weight=6)
def unrolls(c):
    import jax
    import jax.numpy as jnp
    from flax.core import freeze

    from wax.flax.core import flax_transform_with_state, flax_unroll, flax_unroll_transform

    W, det, rnd = fx_programs()
    name = c.choice(det + rnd * 4)
    skip = c.flip(0.35)
    T = c.choice([2, 3, 8, 15])
    x, b = rows(c, T)
    x, b = jnp.asarray(x), jnp.asarray(b)
    m = W(name)
    rng = key(c.int(0, 500))
    run_rng = rng if name in rnd or c.flip() else None
    how = c.choice(["transform", "unroll", "unroll_static", "unroll_twice", "static", "kwargs"])
    form = c.choice(["module", "factory", "pair"])
    given = c.choice(["", "", "params", "state", "params state"])
    c.note(prog=name, how=how, form=form, skip=skip, T=T, given=given, x=np.asarray(x).tolist(),
           b=np.asarray(b).astype(int).tolist())
    c.count("steps", T)
    c.state(name, how, form, skip, T, given)
    p, s = init(m, rng, x[0], b[0])
    f = {"module": m, "factory": lambda: W(name), "pair": flax_transform_with_state(m)}[form]
    gp = gst = None
    if "params" in given:
        p = gp = jax.tree_util.tree_map(lambda v: v + 0.5, p)
    if "state" in given:
        _, s = step(m, p, s, key(7), x[-1], b[-1])
        s = gst = freeze(s)  # the type applied states have
    if how.startswith("unroll"):
        opt = dict(skip_first=skip, dynamic=how != "unroll_static")
        if gp is None or gst is None:
            run_rng = rng
        if how == "unroll_twice":
            f = flax_unroll_transform(f, **opt)
            opt = {}
        got, gs = flax_unroll(f, return_final_state=True, rng=run_rng, params=gp, state=gst, **opt)(x, b)
        out = flax_unroll(f, rng=run_rng, params=gp, state=gst, **opt)(x, b)
        c.tree_same(out, got, "same_without_state", **tol(c))
    else:
        u = flax_unroll_transform(f, skip_first=skip, dynamic=how != "static")
        a, k = ((x,), dict(b=b)) if how == "kwargs" else ((x, b), {})
        p1, s1 = u.init(rng, *a, **k)
        if gp is None:
            c.tree_same(unfreeze(p1), unfreeze(p), "init_params", **tol(c))
        if gst is None:
            c.tree_same(unfreeze(s1), unfreeze(s), "init_state", **tol(c))
        got, gs = u.apply(p1 if gp is None else gp, s1 if gst is None else gst, run_rng, *a, **k)
    want, ws = by_hand(m, x, b, p, s, run_rng, skip)
    c.tree_same(got, want, "outputs", **tol(c))
    c.tree_same(unfreeze(gs), unfreeze(ws), "final_state", **tol(c))


def streamed(name):
    """The same programs as plain functions of a dict row."""
    import flax.linen as nn
    import jax
    import jax.numpy as jnp

    from wax.flax import modules as m

    return {
        "ewma": lambda d: m.EWMA(alpha=0.3)(d["x"]),
        "buffer": lambda d: m.Buffer(maxlen=3)(d["x"]),
        "counter": lambda d: m.Counter()(),
        "lag": lambda d: m.Lag(lag=2)(d["x"]),
        "mix": lambda d: {"a": m.EWMA(alpha=0.5)(d["x"]), "n": m.Counter()(), "o": m.Ffill()(d["x"])},
        "sum": lambda d: jnp.nansum(m.Buffer(maxlen=4)(d["x"])),
        "ohlc": lambda d: m.OHLC()(d["x"], d["b"]),
        "dense": lambda d: m.EWMA(alpha=0.5)(nn.Dense(2)(jnp.nan_to_num(d["x"]))),
    }[name]


STREAMED = ["ewma", "buffer", "counter", "lag", "mix", "sum", "ohlc", "dense"]


def hand_module(fn):
    import flax.linen as nn

    class H(nn.Module):
        @nn.compact
        def __call__(self, d):
            return fn(d)

    return H()


def hand_stream(m, d, p, s, reset=None, s_reset=None):
    import jax
    import jax.numpy as jnp

    f = jax.jit(lambda s, v: step(m, p, s, None, v))
    out = []
    T = len(d["x"])
    for i in range(T):
        o, s = f(s, {k: v[i] for k, v in d.items()})
        if reset is not None and reset[i]:
            s = s_reset
        out.append(o)
    return jax.tree_util.tree_map(lambda *v: jnp.stack(v), *out), s


@R.kind(weight=3)
def streaming_transform(c):
    import jax
    import jax.numpy as jnp

    from wax.flax.core import streaming_transform_with_state

    name = c.choice(STREAMED)
    T = c.choice([1, 3, 10])
    x, b = rows(c, T)
    d = {"x": jnp.asarray(x), "b": jnp.asarray(b)}
    c.note(prog=name, T=T, x=x.tolist(), b=b.astype(int).tolist())
    c.count("steps", T)
    c.state("stream", name, T)
    fn = streamed(name)
    t = streaming_transform_with_state(fn)
    d0 = {k: v[0] for k, v in d.items()}
    p, s = t.init(key(0), d0)
    m = hand_module(fn)
    p1, s1 = init(m, key(0), d0)
    want, ws = hand_stream(m, d, p1, s1)
    got, gs = t.scan(p, s, None, d)
    c.tree_same(got, want, "scan_outputs", **tol(c))
    c.expect(len(jax.tree_util.tree_leaves(gs)) == len(jax.tree_util.tree_leaves(ws)), "state_size")
    for u, v in zip(jax.tree_util.tree_leaves(gs), jax.tree_util.tree_leaves(ws)):
        c.same(u, v, "scan_state", **tol(c))
    out = []
    for i in range(T):
        o, s = t.apply(p, s, None, {k: v[i] for k, v in d.items()})
        out.append(o)
    c.tree_same(jax.tree_util.tree_map(lambda *v: jnp.stack(v), *out), want, "step_outputs", **tol(c))


@R.kind(weight=5)
def scan_with_resets(c):
    """A reset condition met at a step puts the state back after that step."""
    import jax
    import jax.numpy as jnp

    from wax.flax.core import streaming_scan

    name = c.choice(STREAMED)
    T = c.choice([2, 4, 9, 20])
    x, b = rows(c, T)
    k = c.choice(["random", "none", "all", "last", "first", "sparse", "no_condition"])
    r = c.rng.random(T) < {"none": 0, "all": 1.1, "sparse": 0.15}.get(k, 0.4)
    if k in ("last", "first"):
        r[:] = False
        r[-1 if k == "last" else 0] = True
    d = {"x": jnp.asarray(x), "b": jnp.asarray(b), "r": jnp.asarray(r)}
    given = c.choice(["", "", "params", "state", "params state"])
    rng = key(c.int(0, 9)) if c.flip(0.3) else None
    c.note(prog=name, T=T, resets=r.astype(int).tolist(), cond=k, given=given, rng=rng is not None, x=x.tolist())
    c.count("steps", T)
    c.count("resets", r.sum())
    c.state("reset", name, r[:10].tolist(), given)
    fn = streamed(name)
    m = hand_module(fn)
    p, s = init(m, key(0), {n: v[0] for n, v in d.items()})
    t = streaming_scan(fn) if k == "no_condition" else streaming_scan(reset_on=lambda v: v["r"])(fn)
    if given or name == "dense":
        d0 = {n: v[0] for n, v in d.items()}
        p, s = t.init(key(0) if rng is None else rng, d0)
        if "params" in given:
            p = jax.tree_util.tree_map(lambda v: v + 0.25, p)
        if "state" in given:
            _, s = t.apply(p, s, None, {n: v[-1] for n, v in d.items()})
        got, gs = t.scan_apply(d, p if "params" in given else None, s if "state" in given else None, rng=rng)
        f = jax.jit(lambda s, v: t.apply(p, s, None, v))
        out, s0 = [], s
        for i in range(T):
            o, s = f(s, {n: v[i] for n, v in d.items()})
            if k != "no_condition" and r[i]:
                s = s0
            out.append(o)
        want = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *out)
        ws = s
    else:
        got, gs = t.scan_apply(d, rng=rng)
        want, ws = hand_stream(m, d, p, s, None if k == "no_condition" else r, s)
    c.tree_same(got, want, "outputs", **tol(c))
    for u, v in zip(jax.tree_util.tree_leaves(gs), jax.tree_util.tree_leaves(ws)):
        c.same(u, v, "final_state", **tol(c))


@R.kind(weight=2)
def wrappers(c):
    """The helpers that step or wrap a module do what init and apply by hand do."""
    import jax
    import jax.numpy as jnp
    from flax.core import freeze

    from wax.flax.core.state_utils import apply_with_state, create_streaming_module_wrapper, make_streaming_compatible
    from wax.flax.core.transform import combine_variables, split_variables

    W, det, _ = fx_programs()
    name = c.choice(det)
    T = c.choice([1, 4, 9])
    x, b = rows(c, T)
    x, b = jnp.asarray(x), jnp.asarray(b)
    m = W(name)
    how = c.choice(["apply_with_state", "factory", "compatible", "split"])
    c.note(prog=name, how=how, T=T, x=np.asarray(x).tolist(), b=np.asarray(b).astype(int).tolist())
    c.state("wrap", name, how, T)
    c.count("steps", T)
    rng = key(c.int(0, 99))
    p, s = init(m, rng, x[0], b[0])
    p = jax.tree_util.tree_map(lambda v: v * 1.5, p)
    want, ws = by_hand(m, x, b, p, s, None)
    leaves = jax.tree_util.tree_leaves
    out = []
    if how == "apply_with_state":
        v = {"params": p, **s}
        for i in range(T):
            before = leaves(v)
            o, new = apply_with_state(m, v, x[i], b=b[i]) if i % 2 else apply_with_state(m, v, x[i], b[i])
            c.expect(all(q is r for q, r in zip(before, leaves(v))), "given_variables_changed")
            v = {**v, **new}
            out.append(o)
        gp, gs = split_variables(v)
    elif how == "split":
        v = combine_variables(freeze(p), freeze(s))
        for i in range(T):
            o, new = m.apply(v, x[i], b[i], mutable=[n for n in v if n != "params"])
            gp, _ = split_variables(v)
            v = combine_variables(gp, freeze(dict(new)))
            out.append(o)
        gp, gs = split_variables(v)
    else:
        t = create_streaming_module_wrapper(W)(name) if how == "factory" else make_streaming_compatible(m)
        gp, gs = t.init(rng, x[0], b[0])
        # Flax derives the keys of the parameters from the path of the module, which the wrapper lengthens:
        # the values drawn for the bare module are given instead
        c.expect([jnp.shape(v) for v in leaves(gp)] == [jnp.shape(v) for v in leaves(p)], "params_shapes")
        gp = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(gp), leaves(p))
        for i in range(T):
            o, gs = t.apply(gp, gs, None, x[i], b[i])
            out.append(o)
    c.tree_same(jax.tree_util.tree_map(lambda *v: jnp.stack(v), *out), want, "outputs", **tol(c))
    for got, ref, sig in ((gp, p, "params"), (gs, ws, "state")):
        c.expect(len(leaves(got)) == len(leaves(ref)), sig + "_size")
        for u, w in zip(leaves(got), leaves(ref)):
            c.same(u, w, sig, **tol(c))

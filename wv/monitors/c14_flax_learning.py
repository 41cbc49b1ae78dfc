"""C14: online learning in Flax is one explicit gradient step per observation."""

from __future__ import annotations

import numpy as np

from wv.core import Registry
from wv.monitors.c13_learning import data, losses, note, optimizers, tol
from wv.tools import key

ID = "C14"
RULE = (
    "random Flax models (linear, two layers, partly frozen) x losses x optimizers x sequences with missing and infinite "
    "values x projection, regularisation, predicate, and streaming optimisation of stateful models; every prediction, "
    "loss, gradient and parameter vector is compared with a hand-written loop; distinct by configuration and data"
)
ASSUMPTIONS = ["jax gradients and optax updates taken by hand are the reference",
               "initialisation counts as one step on the first observation"]
QUICK, THOROUGH = 26, 240
R = Registry()


def models(seed):
    import flax.linen as nn
    import jax.numpy as jnp

    from wv.monitors.c13_learning import const

    k = const(seed)
    init = lambda key, shape, dtype=jnp.float32: k(shape, dtype)  # noqa: E731
    kw = dict(kernel_init=init, bias_init=init, param_dtype=jnp.result_type(float))

    class Linear(nn.Module):
        @nn.compact
        def __call__(self, x):
            return nn.Dense(1, **kw)(x)[0]

    class Two(nn.Module):
        @nn.compact
        def __call__(self, x):
            h = jnp.tanh(nn.Dense(3, name="first", **kw)(x))
            return nn.Dense(2, name="second", **kw)(h).sum()

    class Raw(nn.Module):
        @nn.compact
        def __call__(self, x):
            w = self.param("w", init, x.shape, x.dtype)
            b = self.param("b", init, (1,), x.dtype)
            return w @ x + b[0]

    class Deep(nn.Module):
        @nn.compact
        def __call__(self, x):
            return Two()(x) + Raw()(x) + Linear()(x)

    return dict(linear=Linear, two=Two, raw=Raw, deep=Deep)


def with_loss(model, loss, aux):
    import flax.linen as nn

    class L(nn.Module):
        @nn.compact
        def __call__(self, x, y):
            p = model()(x)
            v = loss(y, p)
            return {"none": v, "pair": (v, p), "triple": (v, p, 2 * p)}[aux]

    return L()


def predicate(c):
    k = c.choice(["all", "no_bias", "small", "none_trained_b"])
    return k, {"all": None, "no_bias": lambda m, n, v: n != "bias", "small": lambda m, n, v: v.ndim < 2,
               "none_trained_b": lambda m, n, v: n not in ("b", "bias")}[k]


def flat(t):
    """Leaves by the last two components of their path."""
    import jax

    if t is None:
        return {}
    out = {}
    for p, v in jax.tree_util.tree_flatten_with_path(t)[0]:
        ks = [str(getattr(q, "key", getattr(q, "name", q))) for q in p]
        out["/".join(k for k in ks if k not in ("params", "model"))] = np.asarray(v)
    return out


def same_flat(c, a, b, sig):
    a, b = flat(a), flat(b)
    c.expect(sorted(a) == sorted(b), sig + "_names", f"{sorted(a)} expected {sorted(b)}")
    for k in b:
        c.same(a[k], b[k], sig, ctx=k, **tol(c))


def by_hand(m, opt, pred, xs, fill, reg=None, project=None, has_aux=True):
    """Per step: loss, aux, grads, trainable after, all after. The first
    observation is used twice: once by the initialisation."""
    import jax
    import jax.numpy as jnp
    import optax
    from flax.traverse_util import flatten_dict, unflatten_dict

    x0 = [jnp.asarray(v[0]) for v in xs]
    params = m.init(key(0), *x0)["params"]
    fl = flatten_dict(params)
    pr = pred or (lambda *a: True)
    tr = {k: v for k, v in fl.items() if pr("", k[-1], v)}
    fr = {k: v for k, v in fl.items() if k not in tr}
    os = opt.init(unflatten_dict(tr))

    @jax.jit
    def step(tr, os, *a):
        def L(tr):
            r = m.apply({"params": unflatten_dict({**fr, **flatten_dict(tr)})}, *a)
            v, aux = (r if isinstance(r, tuple) and len(r) == 2 else
                      (r[0], r[1:]) if isinstance(r, tuple) else (r, None))
            if reg is not None:
                v = reg(v, unflatten_dict({**fr, **flatten_dict(tr)}), aux)
            return v, aux

        (v, aux), g = jax.value_and_grad(L, has_aux=True)(tr)
        if fill == "zero":
            g = jax.tree_util.tree_map(lambda u: jnp.where(jnp.isfinite(u), u, 0), g)
        else:
            g = jax.tree_util.tree_map(jnp.nan_to_num, g)
        up, os2 = opt.update(g, os, tr)
        tr2 = optax.apply_updates(tr, up)
        if project is not None:
            tr2 = project(tr2)
        return v, aux, g, tr2, os2

    tr = unflatten_dict(tr)
    out = []
    for i in [0] + list(range(len(xs[0]))):
        v, aux, g, tr, os = step(tr, os, *[jnp.asarray(u[i]) for u in xs])
        out.append((v, aux, g, tr, unflatten_dict({**fr, **flatten_dict(tr)})))
    return out[1:]


def drive(m, xs, jit=None):
    """Outputs of init's step then of every element."""
    import jax
    import jax.numpy as jnp

    v = m.init(key(0), *[jnp.asarray(u[0]) for u in xs])
    ap = lambda v, *a: m.apply(v, *a, mutable=True)  # noqa: E731
    ap = jax.jit(ap) if jit else ap
    outs = []
    for i in range(len(xs[0])):
        o, u = ap(v, *[jnp.asarray(w[i]) for w in xs])
        v = {**v, **u}
        outs.append(o)
    return outs, v


@R.kind(weight=4)
def optimizer(c):
    import jax
    import jax.numpy as jnp

    from wax.flax.modules import OnlineOptimizer
    from wax.flax.modules.online_optimizer import create_online_optimizer

    seed = c.int(0, 10**6)
    mname, lname = c.choice(list(models(0))), c.choice(list(losses()))
    oname, opt = optimizers(c)
    T = c.choice([2, 4, 7])
    x, y, mode = data(c, T)
    pname, pred = predicate(c)
    aux = c.choice(["none", "pair", "triple"])
    reg = c.choice([None, "l2"])
    proj = c.choice([None, "clip"])
    note(c, model=mname, loss=lname, opt=oname, T=T, mode=mode, pred=pname, reg=reg, proj=proj, aux=aux, seed=seed,
         x=x.tolist(), y=y.tolist())
    c.count("steps", T)
    m = with_loss(models(seed)[mname], losses()[lname], aux)
    l2 = lambda v, p, a: v + 0.1 * sum(jnp.sum(u**2) for u in jax.tree_util.tree_leaves(p))  # noqa: E731
    clip = lambda p: jax.tree_util.tree_map(lambda v: jnp.clip(v, -0.4, 0.4), p)  # noqa: E731
    make = c.choice([OnlineOptimizer, create_online_optimizer])
    o = make(model=m, opt=opt, project_params=clip if proj else None, regularize_loss=l2 if reg else None,
             params_predicate=pred)
    got, _ = drive(o, (x, y))
    want = by_hand(m, opt, pred, (x, y), "num", l2 if reg else None, clip if proj else None)
    for i, (a, (v, ax, g, tr, full)) in enumerate(zip(got, want)):
        c.same(a.loss, v, "loss", ctx=f"step {i}", **tol(c))
        c.tree_same(a.aux, ax, "aux", ctx=f"step {i}", **tol(c))
        same_flat(c, a.grads, g, "grads")
        same_flat(c, a.params, full, "params")


@R.kind(weight=4)
def function(c):
    from wax.flax.modules.func_optimizer import FuncOptimizer, create_func_optimizer
    from wax.flax.modules.optax_optimizer import OptaxOptimizer

    seed = c.int(0, 10**6)
    mname, lname = c.choice(list(models(0))), c.choice(list(losses()))
    oname, opt = optimizers(c)
    T = c.choice([2, 4, 7])
    x, y, mode = data(c, T)
    pname, pred = predicate(c)
    aux = c.choice(["none", "pair", "triple"])
    note(c, model=mname, loss=lname, opt=oname, T=T, mode=mode, pred=pname, aux=aux, seed=seed, x=x.tolist(),
         y=y.tolist())
    c.count("steps", T)
    m = with_loss(models(seed)[mname], losses()[lname], aux)
    make = c.choice([FuncOptimizer, create_func_optimizer])
    o = make(fun=m, opt=OptaxOptimizer(opt=opt) if c.flip(0.3) else opt, has_aux=aux != "none",
             params_predicate=pred)
    got, v1 = drive(o, (x, y), jit=c.flip())
    want = by_hand(m, opt, pred, (x, y), "zero")
    for i, (a, (v, ax, g, tr, _)) in enumerate(zip(got, want)):
        res, grads, _ = a
        if aux != "none":
            c.same(res[0], v, "loss", ctx=f"step {i}", **tol(c))
            c.tree_same(res[1], ax, "aux", ctx=f"step {i}", **tol(c))
        else:
            c.same(res, v, "loss", ctx=f"step {i}", **tol(c))
        same_flat(c, grads, g, "grads")
    same_flat(c, v1["trainable_params"], want[-1][3], "trainable")


@R.kind(weight=3)
def supervised(c):
    from wax.flax.modules.online_supervised_learner import (
        OnlineSupervisedLearner,
        SimpleOnlineLearner,
        create_online_supervised_learner,
        create_simple_online_learner,
    )

    seed = c.int(0, 10**6)
    mname, lname = c.choice(list(models(0))), c.choice(list(losses()))
    oname, opt = optimizers(c)
    T = c.choice([2, 4, 7])
    x, y, mode = data(c, T)
    simple = c.flip(0.4)
    pname, pred = ("all", None) if simple else predicate(c)
    note(c, model=mname, loss=lname, opt=oname, T=T, mode=mode, pred=pname, simple=simple, seed=seed, x=x.tolist(),
         y=y.tolist())
    c.count("steps", T)
    loss = losses()[lname]
    m = models(seed)[mname]
    if simple:
        o = c.choice([SimpleOnlineLearner, create_simple_online_learner])(model=m(), loss_fn=lambda p, y: loss(y, p),
                                                                          opt=opt)
    else:
        o = c.choice([OnlineSupervisedLearner, create_online_supervised_learner])(
            model=m(), loss_fn=lambda p, y: loss(y, p), opt=opt, params_predicate=pred)
    got, v1 = drive(o, (x, y), jit=c.flip())
    import flax.linen as nn

    class H(nn.Module):
        model: nn.Module

        def __call__(self, x, y):
            p = self.model(x)
            return loss(y, p), p

    want = by_hand(H(m()), opt, pred, (x, y), "zero")
    for i, (a, (v, p, g, tr, _)) in enumerate(zip(got, want)):
        c.same(a[0], p, "prediction", ctx=f"step {i}", **tol(c))
        c.same(a[1] if simple else a[1]["loss"], v, "loss", ctx=f"step {i}", **tol(c))
        if not simple:
            same_flat(c, a[1]["grads"], g, "grads")


@R.kind(weight=2)
def optax_steps(c):
    import jax
    import jax.numpy as jnp
    import optax

    from wax.flax.modules.optax_optimizer import OptaxOptimizer, create_optax_optimizer

    oname, opt = optimizers(c)
    T = c.choice([2, 6, 12])
    f = np.float64 if c.x64 else np.float32
    shapes = c.choice([{"a": (3,)}, {"a": (2, 2), "b": ()}, {"m": {"w": (4,), "b": (1,)}}])
    isl = lambda v: isinstance(v, tuple)  # noqa: E731
    p = jax.tree_util.tree_map(lambda s: jnp.asarray(c.rng.normal(size=s).astype(f)), shapes, is_leaf=isl)
    g = jax.tree_util.tree_map(lambda s: jnp.asarray(c.rng.normal(size=(T,) + s).astype(f)), shapes, is_leaf=isl)
    note(c, opt=oname, T=T, shapes=str(shapes), x=str(g))
    c.count("steps", T)
    m = c.choice([OptaxOptimizer, create_optax_optimizer])(opt=opt)
    g0 = jax.tree_util.tree_map(lambda v: v[0], g)
    v = m.init(key(0), p, g0)
    ap = jax.jit(lambda v, p, g: m.apply(v, p, g, mutable=True))
    up, os = opt.update(g0, opt.init(p), p)
    q = ref = p
    for i in range(T):
        gi = jax.tree_util.tree_map(lambda u: u[i], g)
        (q, info), v = ap(v, q, gi)
        up, os = opt.update(gi, os, ref)
        ref = optax.apply_updates(ref, up)
        c.tree_same(q, ref, "params", **tol(c))
        c.tree_same(info, os, "optimizer_state", **tol(c))


@R.kind(weight=3)
def streaming(c):
    """A stateful model whose output is scaled by one learned factor."""
    import jax
    import jax.numpy as jnp
    import optax

    from wax.flax import modules as m
    from wax.flax.core.streaming_transforms import streaming_optimizer

    oname, opt = optimizers(c)
    if oname.startswith("newton"):
        import optax

        oname, opt = "sgd", optax.sgd(0.05)
    T = c.choice([2, 6, 12])
    x, y, _ = data(c, T, wild=False)
    mname = c.choice(["ewma", "buffer", "lag", "plain"])
    lname = c.choice(list(losses()))
    aux = c.flip(0.4)
    target = c.choice(["second", "self"])
    note(c, model=mname, loss=lname, opt=oname, T=T, aux=aux, target=target, x=x.tolist(), y=y.tolist())
    c.count("steps", T)
    one = {
        "ewma": lambda x: m.EWMA(alpha=0.5)(x).sum(), "buffer": lambda x: m.Buffer(maxlen=3, fill_value=0.0)(x).mean(),
        "lag": lambda x: jnp.nan_to_num(m.Lag(lag=1)(x)).sum(), "plain": lambda x: jnp.sum(x),
    }[mname]
    base = losses()[lname]
    loss = lambda p, t: base(t, p)  # noqa: E731
    if target == "self":
        loss = lambda p, t: base(jnp.sum(t), p)  # noqa: E731

    def model(x, *a):
        p = one(x)
        return (p, {"twice": 2 * p}) if aux else p

    t = streaming_optimizer(opt, loss, has_aux=aux)(model)
    xs = (jnp.asarray(x),) if target == "self" else (jnp.asarray(x), jnp.asarray(y))
    p, s = t.init(key(0), *[v[0] for v in xs])

    # reference: the outputs of the model alone
    import flax.linen as nn

    class H(nn.Module):
        @nn.compact
        def __call__(self, x):
            return one(x)

    h = H()
    v = h.init(key(0), xs[0][0])
    outs = []
    for i in range(T):
        o, u = h.apply(v, xs[0][i], mutable=True)
        v = {**v, **u}
        outs.append(float(o))
    first = float(h.apply(h.init(key(0), xs[0][0]), xs[0][0], mutable=True)[0])
    o0 = float(h.init_with_output(key(0), xs[0][0])[0])
    tg = [xs[-1][i] for i in range(T)]
    scale = jnp.asarray(1.0)
    os = opt.init(scale)
    L = jax.jit(jax.value_and_grad(lambda s, o, g: loss(o * s, g)))
    want = []
    for i, (o, g) in enumerate(zip([o0] + outs, [tg[0]] + tg)):
        w, gr = L(scale, jnp.asarray(o), g)
        up, os = opt.update(gr, os, scale)
        scale = optax.apply_updates(scale, up)
        want.append((w, o))
    want = want[1:]
    c.expect(abs(first - outs[0]) <= 1e-6 * (1 + abs(first)), "harness")
    if c.flip() and len(xs) == 1:
        res, _ = t.scan(p, s, None, xs[0])
        got = [jax.tree_util.tree_map(lambda u: u[i], res) for i in range(T)]
    else:
        ap = jax.jit(lambda s, *a: t.apply(p, s, None, *a))
        got = []
        for i in range(T):
            o, s = ap(s, *[u[i] for u in xs])
            got.append(o)
    for i, (g, (w, o)) in enumerate(zip(got, want)):
        c.same(g[0], w, "loss", ctx=f"step {i}", **tol(c))
        c.same(g[1], o, "prediction", ctx=f"step {i}", **tol(c))
        if aux:
            c.same(g[2]["twice"], 2 * o, "aux", ctx=f"step {i}", **tol(c))

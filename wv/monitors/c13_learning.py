"""C13: online learning in Haiku is one explicit gradient step per observation."""

from __future__ import annotations

import numpy as np

from wv.core import Registry
from wv.tools import key

ID = "C13"
RULE = (
    "random models (linear, two layers, stateful, with frozen parameters) x losses x optimizers x sequences with "
    "missing and infinite values x projection, regularisation, predicate; every prediction, loss and parameter vector "
    "is compared with a hand-written loop of gradients and optimizer updates; distinct by configuration and data"
)
ASSUMPTIONS = ["jax gradients and optax updates taken by hand are the reference"]
QUICK, THOROUGH = 26, 240
R = Registry()


def tol(c):
    return dict(rtol=1e-7, atol=1e-8) if c.x64 else dict(rtol=3e-3, atol=1e-3)


def const(seed):
    """A deterministic initialiser depending on the shape only."""
    import jax.numpy as jnp

    def init(shape, dtype):
        v = np.random.default_rng(seed + 7 * len(shape) + int(np.prod(shape))).normal(size=shape) * 0.5
        return jnp.asarray(v, dtype)

    return init


def models(seed):
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax import modules as m

    k = const(seed)

    def linear(x):
        return hk.Linear(1, w_init=k, b_init=k, name="lin")(x)[0]

    def two(x):
        h = jnp.tanh(hk.Linear(3, w_init=k, b_init=k, name="first")(x))
        return hk.Linear(2, w_init=k, b_init=k, name="second")(h).sum()

    def raw(x):
        w = hk.get_parameter("w", x.shape, x.dtype, init=k)
        b = hk.get_parameter("b", (), x.dtype, init=k)
        return w @ x + b

    def smooth(x):  # the state depends on the parameters
        w = hk.get_parameter("w", x.shape, x.dtype, init=k)
        return m.EWMA(alpha=0.5)(w @ x)

    def lagged(x):
        w = hk.get_parameter("w", x.shape, x.dtype, init=k)
        n = m.Counter()().astype(x.dtype)
        return w @ (x + jnp.nan_to_num(m.Lag(1)(x))) / (1 + n)

    def mean_(x):
        s = hk.get_state("s", x.shape, x.dtype, init=jnp.zeros)
        s = 0.5 * s + 0.5 * jax.lax.stop_gradient(x)
        hk.set_state("s", s)
        return hk.Linear(1, w_init=k, b_init=k, name="lin")(s)[0]

    return dict(linear=linear, two=two, raw=raw, smooth=smooth, lagged=lagged, mean_=mean_)


def losses():
    import jax.numpy as jnp

    return dict(square=lambda y, p: (y - p) ** 2, absolute=lambda y, p: jnp.abs(y - p),
                huber=lambda y, p: jnp.where(jnp.abs(y - p) < 1, 0.5 * (y - p) ** 2, jnp.abs(y - p) - 0.5))


def optimizers(c):
    import optax

    from wax.optim import newton

    lr = c.choice([0.01, 0.05, 0.1])
    o = dict(
        sgd=optax.sgd(lr), momentum=optax.sgd(lr, momentum=0.7, nesterov=c.flip()), adam=optax.adam(lr),
        adamw=optax.adamw(lr, weight_decay=0.1), rmsprop=optax.rmsprop(lr), adagrad=optax.adagrad(lr),
        clipped=optax.chain(optax.clip_by_global_norm(0.5), optax.sgd(lr)),
        decayed=optax.sgd(optax.exponential_decay(lr, 3, 0.5)),
        weights=optax.chain(optax.add_decayed_weights(0.05), optax.sgd(lr)),
    )
    if c.x64:
        o["newton"] = newton(lr, eps=1.0)
    n = c.choice(list(o))
    return f"{n}:{lr}", o[n]


def data(c, T, n=3, wild=True):
    rng = c.rng
    f = np.float64 if c.x64 else np.float32
    x = rng.normal(size=(T, n)).astype(f)
    y = (x.sum(1) + rng.normal(size=T) * 0.3).astype(f)
    mode = c.choice(["clean", "nan_y", "nan_x", "inf_y"]) if wild else "clean"
    if mode == "nan_y":
        y[rng.random(T) < 0.4] = np.nan
    if mode == "nan_x":
        x[rng.random((T, n)) < 0.2] = np.nan
    if mode == "inf_y":
        y[rng.random(T) < 0.3] = np.inf
    return x, y, mode


def predicate(c, seed):
    k = c.choice(["all", "no_b", "only_first", "hash"])
    import hashlib

    f = {
        "all": None, "no_b": lambda m, n, v: n != "b", "only_first": lambda m, n, v: n == "w" and "second" not in m,
        "hash": lambda m, n, v: hashlib.md5(f"{m.split('/')[-1]}{n}{seed}".encode()).digest()[0] % 2 == 0,
    }[k]
    return k, f


def split(pred, params):
    from haiku.data_structures import partition

    return partition(pred or (lambda *a: True), params)


def drive(c, fn, xs, seed=0):
    """Outputs of every step (scan or compiled steps) after one init."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    t = hk.transform_with_state(fn)
    p, s = t.init(key(seed), *[v[0] for v in xs])
    ap = jax.jit(t.apply)
    if c.flip():
        from jax import lax

        _, out = lax.scan(lambda s, v: t.apply(p, s, None, *v)[::-1], s, tuple(jnp.asarray(v) for v in xs))
        return p, out
    outs = []
    for i in range(len(xs[0])):
        o, s = ap(p, s, None, *[jnp.asarray(v[i]) for v in xs])
        outs.append(o)
    return p, jax.tree_util.tree_map(lambda *a: jnp.stack(a), *outs)


def by_hand(model, loss, opt, pred, xs, fill, has_loss=True, reg=None, project=None, keep=None):
    """Yield per step (loss, prediction, trainable after, all params after)."""
    import haiku as hk
    import jax
    import jax.numpy as jnp
    import optax
    from haiku.data_structures import merge, to_mutable_dict

    t = hk.transform_with_state(model)
    params, st = t.init(key(3), jnp.asarray(xs[0][0]))
    tr, fr = split(pred, params)
    tr, fr = to_mutable_dict(tr), to_mutable_dict(fr)
    os = opt.init(tr)

    @jax.jit
    def step(tr, st, os, x, y):
        def L(tr):
            p, s2 = t.apply(merge(tr, fr), st, None, x)
            v = loss(y, p)
            if reg is not None:
                v = v + reg(tr)
            return v, (p, s2)

        (v, (p, s2)), g = jax.value_and_grad(L, has_aux=True)(tr)
        if fill == "zero":
            g = jax.tree_util.tree_map(lambda u: jnp.where(jnp.isfinite(u), u, 0), g)
        elif fill == "num":
            g = jax.tree_util.tree_map(jnp.nan_to_num, g)
        up, os2 = opt.update(g, os, tr)
        tr2 = optax.apply_updates(tr, up)
        if project is not None:
            tr2 = project(tr2)
        return v, p, tr2, s2, os2

    out = []
    for i in range(len(xs[0])):
        v, p, tr, st, os = step(tr, st, os, jnp.asarray(xs[0][i]), jnp.asarray(xs[1][i]))
        out.append((v, p, dict(tr), dict(merge(tr, fr))))
    return jax.tree_util.tree_map(lambda *a: jnp.stack(a), *out)


def by_module(tree):
    """Parameters by their own module path, whatever the enclosing modules."""
    return {"/".join(m.split("/")): dict(v) for m, v in tree.items()}


def note(c, **kw):
    c.note(**kw)
    c.state(*[v for k, v in kw.items() if k not in ("x", "y")])


@R.kind(weight=4)
def supervised(c):
    import optax  # noqa: F401

    from wax.modules import OnlineSupervisedLearner
    from wax.modules.optax_optimizer import OptaxOptimizer

    seed = c.int(0, 10**6)
    mname = c.choice(list(models(0)))
    lname = c.choice(list(losses()))
    oname, opt = optimizers(c)
    T = c.choice([3, 8, 14])
    x, y, mode = data(c, T)
    fill = c.flip(0.85)
    note(c, model=mname, loss=lname, opt=oname, T=T, mode=mode, fill=fill, seed=seed, x=x.tolist(), y=y.tolist())
    c.count("steps", T)
    model, loss = models(seed)[mname], losses()[lname]
    wrap = c.flip(0.3)

    def f(x, y):
        o = OptaxOptimizer(opt) if wrap else opt
        return OnlineSupervisedLearner(model, o, loss, grads_fill_nan_inf=fill)(x, y)

    p, (pred, info) = drive(c, f, (x, y))
    c.expect(not p, "learner_has_no_fixed_parameters")
    v, q, tr, _ = by_hand(model, loss, opt, None, (x, y), "zero" if fill else None)
    c.same(pred, q, "prediction", **tol(c))
    c.same(info.loss, v, "loss", **tol(c))
    c.tree_same(by_module(info.params), by_module(tr), "params", **tol(c))
    if fill and mode == "nan_y":
        c.count("missing_targets", int(np.isnan(y).sum()))


@R.kind(weight=4)
def function(c):
    from wax.modules.func_optimizer import FuncOptimizer
    from wax.modules.optax_optimizer import OptaxOptimizer

    seed = c.int(0, 10**6)
    mname = c.choice(list(models(0)))
    lname = c.choice(list(losses()))
    oname, opt = optimizers(c)
    T = c.choice([3, 8, 14])
    x, y, mode = data(c, T)
    fill, aux = c.flip(), c.flip()
    pname, pred = predicate(c, seed)
    note(c, model=mname, loss=lname, opt=oname, T=T, mode=mode, fill=fill, aux=aux, pred=pname, seed=seed,
         x=x.tolist(), y=y.tolist())
    c.count("steps", T)
    model, loss = models(seed)[mname], losses()[lname]

    def L(x, y):
        p = model(x)
        return (loss(y, p), p) if aux else loss(y, p)

    def f(x, y):
        kw = {} if pred is None else dict(params_predicate=pred)
        return FuncOptimizer(L, OptaxOptimizer(opt), has_aux=aux, grads_fill_nan_inf=fill, **kw)(x, y)

    _, (res, params) = drive(c, f, (x, y))
    v, q, tr, _ = by_hand(model, loss, opt, pred, (x, y), "zero" if fill else None)
    if aux:
        c.same(res[0], v, "loss", **tol(c))
        c.same(res[1], q, "aux", **tol(c))
    else:
        c.same(res, v, "loss", **tol(c))
    c.tree_same(by_module(params), by_module(tr), "trainable", **tol(c))


@R.kind(weight=4)
def optimizer(c):
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.modules import OnlineOptimizer

    seed = c.int(0, 10**6)
    mname = c.choice(list(models(0)))
    lname = c.choice(list(losses()))
    oname, opt = optimizers(c)
    T = c.choice([3, 8, 14])
    x, y, mode = data(c, T)
    pname, pred = predicate(c, seed)
    reg = c.choice([None, "l2"])
    proj = c.choice([None, "clip"])
    ret = c.flip(0.7)
    form = c.choice(["fn", "pair"])
    note(c, model=mname, loss=lname, opt=oname, T=T, mode=mode, pred=pname, reg=reg, proj=proj, ret=ret, form=form,
         seed=seed, x=x.tolist(), y=y.tolist())
    c.count("steps", T)
    model, loss = models(seed)[mname], losses()[lname]
    l2 = lambda p: 0.1 * sum(jnp.sum(v**2) for v in jax.tree_util.tree_leaves(p))  # noqa: E731
    clip = lambda p: jax.tree_util.tree_map(lambda v: jnp.clip(v, -0.4, 0.4), p)  # noqa: E731

    def L(x, y):
        p = model(x)
        return loss(y, p), {"p": p}

    def f(x, y):
        kw = {} if pred is None else dict(params_predicate=pred)
        m = hk.transform_with_state(L) if form == "pair" else L
        return OnlineOptimizer(m, opt, project_params=(lambda p, o: clip(p)) if proj else None,
                               regularize_loss=l2 if reg else None, return_params=ret, **kw)(x, y)

    _, info = drive(c, f, (x, y))
    v, q, tr, full = by_hand(model, loss, opt, pred, (x, y), "num", reg=l2 if reg else None,
                             project=clip if proj else None)
    c.same(info.loss, v, "loss", **tol(c))
    c.same(info.model_info["p"], q, "prediction", **tol(c))
    c.expect(hasattr(info, "params") == ret, "params_returned_on_demand")
    if ret:
        c.tree_same(by_module(info.params), by_module(full), "params", **tol(c))


@R.kind(weight=2)
def optax_steps(c):
    """The optimizer module equals the optimizer, gradients given."""
    import jax
    import jax.numpy as jnp
    import optax

    from wax.modules.optax_optimizer import OptaxOptimizer

    oname, opt = optimizers(c)
    T = c.choice([2, 6, 12])
    f = np.float64 if c.x64 else np.float32
    shapes = c.choice([{"a": (3,)}, {"a": (2, 2), "b": ()}, {"m": {"w": (4,), "b": (1,)}}])
    isl = lambda v: isinstance(v, tuple)  # noqa: E731
    p = jax.tree_util.tree_map(lambda s: jnp.asarray(c.rng.normal(size=s).astype(f)), shapes, is_leaf=isl)
    g = jax.tree_util.tree_map(lambda s: jnp.asarray(c.rng.normal(size=(T,) + s).astype(f)), shapes, is_leaf=isl)
    note(c, opt=oname, T=T, shapes=str(shapes), x=str(g))
    c.count("steps", T)
    import haiku as hk

    def h(p, g):
        q = hk.get_state("p", [], init=lambda *_: p)
        q = OptaxOptimizer(opt)(q, g)
        hk.set_state("p", q)
        return q

    t = hk.transform_with_state(h)
    _, s = t.init(None, p, jax.tree_util.tree_map(lambda v: v[0], g))
    ap = jax.jit(t.apply)
    os, ref = opt.init(p), p
    for i in range(T):
        gi = jax.tree_util.tree_map(lambda v: v[i], g)
        got, s = ap({}, s, None, p, gi)
        up, os = opt.update(gi, os, ref)
        ref = optax.apply_updates(ref, up)
        c.tree_same(got, ref, "params", **tol(c))


@R.kind(weight=3)
def as_function_of_params(c):
    """A program seen as a function of its trainable parameters."""
    import haiku as hk
    import jax
    import jax.numpy as jnp
    from haiku.data_structures import merge

    from wax.modules import UpdateParams
    from wax.modules.update_params import get_init_params

    seed = c.int(0, 10**6)
    mname = c.choice(list(models(0)))
    pname, pred = predicate(c, seed)
    T = c.choice([2, 5, 9])
    x, _, _ = data(c, T, wild=False)
    note(c, model=mname, pred=pname, T=T, seed=seed, x=x.tolist())
    c.count("steps", T)
    model = models(seed)[mname]
    t = hk.transform_with_state(model)
    p0, st = t.init(key(0), jnp.asarray(x[0]))
    tr0, fr0 = split(pred, p0)
    pr = pred or (lambda *a: True)
    # the trainable part changes at each step
    trs = [jax.tree_util.tree_map(lambda v: v + 0.1 * i, tr0) for i in range(T)]

    def f(tr, x):
        return UpdateParams(model, params_predicate=pr)(tr, x)

    u = hk.transform_with_state(f)
    p, s = u.init(key(1), trs[0], jnp.asarray(x[0]))
    c.expect(not p, "parameters_are_state")
    ap, ref = jax.jit(u.apply), jax.jit(t.apply)
    for i in range(T):
        got, s = ap(p, s, None, trs[i], jnp.asarray(x[i]))
        want, st = ref(merge(trs[i], fr0), st, None, jnp.asarray(x[i]))
        c.same(got, want, "value", **tol(c))
    q = {}
    hk.transform_with_state(lambda x: q.update(v=get_init_params(model, x, params_predicate=pr))).init(
        key(0), jnp.asarray(x[0]))
    c.tree_same(by_module(q["v"]), by_module(tr0), "initial_trainable", **tol(c))

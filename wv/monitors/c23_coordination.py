"""C23: state machines, composed states and attention over past states keep their accounts."""

from __future__ import annotations

import numpy as np

from wv.core import Registry
from wv.tools import fdtype, key, series

ID = "C23"
RULE = (
    "random machines (members with and without state, library modules, members that fail, random dependency graphs, "
    "cycles included) under every strategy, step by step and compiled, directly and through the decorators; every "
    "member's call log, outputs and carried state against an independent replay of that member; attention against the "
    "history kept by the monitor; distinct by graph, strategy, members and data"
)
ASSUMPTIONS = ["attention is called step by step outside compiled code, as it branches on the size of its history",
               "members are constructed outside the machine; a failing member fails before updating its state"]
QUICK, THOROUGH = 40, 320
R = Registry()


def tol(c):
    return dict(rtol=1e-8, atol=1e-10) if c.x64 else dict(rtol=3e-4, atol=3e-5)


def member_types():
    import jax.numpy as jnp
    from flax import linen as nn

    class Affine(nn.Module):
        a: float
        b: float
        tag: str
        log: object

        @nn.compact
        def __call__(self, x):
            self.log(self.tag)
            return self.a * x + self.b

    class Total(nn.Module):
        a: float
        tag: str
        log: object

        @nn.compact
        def __call__(self, x):
            self.log(self.tag)
            s = self.variable("state", "total", lambda: jnp.zeros(jnp.shape(x)))
            s.value = s.value * self.a + x
            return s.value

    class Report(nn.Module):
        """A dictionary of readings."""

        a: float
        keys: tuple
        tag: str
        log: object

        @nn.compact
        def __call__(self, x):
            self.log(self.tag)
            s = self.variable("state", "total", lambda: jnp.zeros(jnp.shape(x)))
            s.value = s.value + x
            return {k: s.value * self.a + i for i, k in enumerate(self.keys)}

    class Fails(nn.Module):
        tag: str
        log: object

        @nn.compact
        def __call__(self, x):
            self.log(self.tag)
            raise ValueError(f"failure of {self.tag}")

    return Affine, Total, Report, Fails


class Log:
    """Hashable call log, so that members stay comparable."""

    def __init__(self):
        self.calls = []

    def __call__(self, tag):
        self.calls.append(tag)


class Ref:
    """Independent replay of one member."""

    def __init__(self, kind, a=1.0, b=0.0, keys=(), tag=""):
        self.kind, self.a, self.b, self.keys, self.tag, self.s = kind, a, b, keys, tag, None
        self.num = self.den = 0.0
        self.hist = []

    def __call__(self, x):
        x = np.asarray(x, np.float64)
        if self.kind == "affine":
            return self.a * x + self.b
        if self.kind == "total":
            self.s = (0.0 if self.s is None else self.s) * self.a + x
            return self.s
        if self.kind == "report":
            self.s = (0.0 if self.s is None else self.s) + x
            return {k: self.s * self.a + i for i, k in enumerate(self.keys)}
        if self.kind == "ewma":
            ok = ~np.isnan(x)
            self.num = self.num * (1 - self.a) + np.where(ok, x, 0.0)
            self.den = self.den * (1 - self.a) + ok
            with np.errstate(all="ignore"):
                return self.num / self.den
        if self.kind == "lag":
            self.hist.append(x)
            n = int(self.a)
            return self.hist[-1 - n] if len(self.hist) > n else np.full(np.shape(x), np.nan)
        if self.kind == "diff":
            self.hist.append(x)
            return x - self.hist[-2] if len(self.hist) > 1 else np.full(np.shape(x), np.nan)
        return {"error": f"failure of {self.tag}", "status": "failed"}


def a_member(c, tag, log, kinds):
    from wax.flax.modules import EWMA, Diff, Lag

    Affine, Total, Report, Fails = member_types()
    k = c.choice(kinds)
    a = float(np.round(c.rng.uniform(0.1, 0.9), 3))
    if k == "affine":
        return Affine(a, 1.5, tag, log), Ref(k, a, 1.5)
    if k == "total":
        return Total(a, tag, log), Ref(k, a)
    if k == "report":
        keys = tuple(str(v) for v in c.rng.choice(["u", "v", "w"], size=c.int(1, 3), replace=False))
        return Report(a, keys, tag, log), Ref(k, a, keys=keys)
    if k == "ewma":
        return EWMA(alpha=a, initial_value=float("nan"), adjust=True), Ref(k, a)
    if k == "lag":
        n = c.int(1, 3)
        return Lag(n), Ref(k, n)
    if k == "diff":
        return Diff(), Ref(k)
    return Fails(tag, log), Ref(k, tag=tag)


KINDS = ["affine", "total", "report", "report", "ewma", "lag", "diff"]
LOGGED = {"affine", "total", "report", "fails"}


def compare(c, got, want, sig, ctx=""):
    if isinstance(want, dict):
        c.expect(isinstance(got, dict) and set(got) == set(want), sig, f"{got} {want} {ctx}")
        for k in want:
            compare(c, got[k], want[k], sig, f"{ctx}/{k}")
    elif isinstance(want, str):
        c.expect(got == want, sig, f"{got!r} {want!r} {ctx}")
    else:
        c.same(got, want, sig, **tol(c), ctx=ctx)


def depths(names, deps):
    """Length of the longest chain of dependencies below each name (acyclic graphs)."""
    out = {}

    def depth(n):
        ds = deps.get(n, [])
        return 1 + max(depth(d) for d in ds) if ds else 0

    for n in names:
        out[n] = depth(n)
    return out


def blend(names, deps, outs):
    """Each reading takes a tenth of the same reading of every member of a higher level, in order."""
    lv = depths(names, deps)
    done = {}
    order = sorted(names, key=lambda n: lv[n])
    for n in order:
        o = outs[n]
        if isinstance(o, dict):
            for h in order:
                if lv[h] < lv[n] and isinstance(done[h], dict):
                    o = {k: 0.9 * v + 0.1 * done[h][k] if k in done[h] and not isinstance(v, str) else v
                         for k, v in o.items()}
        done[n] = o
    return done


def a_graph(c, names, cycles=False, density=0.45):
    """Random dependencies, acyclic along a random order."""
    perm = [names[i] for i in c.rng.permutation(len(names))]
    deps = {}
    for i, n in enumerate(perm):
        ds = [m for m in perm[:i] if c.flip(density)]
        ds = [ds[j] for j in c.rng.permutation(len(ds))]
        if ds:
            deps[n] = ds
    if cycles:
        a, b = perm[0], perm[-1]
        deps.setdefault(a, []).append(b)
        if a != b:
            deps.setdefault(b, []).append(a)
    return deps


def some_names(c, n):
    pool = ["market", "vol", "a", "zeta", "m2", "regime", "b_1", "Alpha"]
    return [str(v) for v in c.rng.choice(pool, size=n, replace=False)]


def runner(c, module, jit):
    import jax

    if not jit:
        return lambda v, x: module.apply(v, x, mutable=["state"])
    return jax.jit(lambda v, x: module.apply(v, x, mutable=["state"]))


def leaf_state(v):
    import jax

    return sum(int(np.size(leaf)) for leaf in jax.tree_util.tree_leaves(v))


@R.kind(weight=4)
def machine(c):
    import jax
    import jax.numpy as jnp

    from wax.flax.core.advanced_state_patterns import HierarchicalStateMachine

    names = some_names(c, c.int(1, 5))
    strategy = c.choice(["sequential", "parallel", "hierarchical", "hierarchical"])
    cyc = strategy != "hierarchical" and c.flip(0.25)
    deps = a_graph(c, names, cyc)
    if c.flip(0.2) and not deps:
        deps = None
    jit = c.flip(0.4)
    kinds = KINDS + ([] if jit else ["fails"])
    log = Log()
    made = {n: a_member(c, n, log, kinds) for n in names}
    T, shape = c.choice([1, 4, 9]), c.choice([(), (3,)])
    xs = series(c, T, shape, nan="none", scale=1.0, dtype=fdtype(c))
    c.note(strategy=strategy, deps=deps, members={n: vars(r) | {"hist": 0} for n, (_, r) in made.items()}, T=T,
           jit=jit)
    c.state("machine", strategy, len(names), str(sorted((deps or {}).items())), tuple(r.kind for _, r in made.values()))
    m = HierarchicalStateMachine({n: mod for n, (mod, _) in made.items()}, deps, strategy)
    step = runner(c, m, jit)
    v = None
    size = None
    for t in range(T):
        log.calls.clear()
        x = jnp.asarray(xs[t])
        if v is None:
            out, v = m.init_with_output(key(0), x)
        else:
            out, mut = step(v, x)
            v = {**v, **mut}
        if not jit or t == 0:
            calls = list(log.calls)
            want = sorted(n for n, (_, r) in made.items() if r.kind in LOGGED)
            c.expect(sorted(calls) == want, "each_once", f"{calls} {want}")
            if not cyc:
                for n, ds in (deps or {}).items():
                    for d in ds:
                        if n in calls and d in calls:
                            c.expect(calls.index(d) < calls.index(n), "order", f"{d} after {n}: {calls}")
        outs = {n: r(xs[t]) for n, (_, r) in made.items()}
        if strategy == "hierarchical":
            outs = blend(names, deps or {}, outs)
        c.expect(set(out) == set(names), "members", f"{sorted(out)} {sorted(names)}")
        for n in names:
            compare(c, out[n], outs[n], "output", f"{n} {made[n][1].kind} {strategy} step {t}")
        upd = [np.asarray(leaf) for leaf in jax.tree_util.tree_leaves(v["state"].get("coordination", {}))]
        c.expect(any(u.shape == (len(names),) and (u == t + 1).all() for u in upd), "updates", f"{upd}")
        if size is not None:
            c.expect(leaf_state(v) == size, "grows", f"{size}")
        size = leaf_state(v)
        c.count("steps")


@R.kind(weight=2)
def levels(c):
    """Members of every shape of acyclic graph take their share of all the members above them, and no other."""
    import jax.numpy as jnp

    from wax.flax.core.advanced_state_patterns import HierarchicalStateMachine

    Report = member_types()[2]
    for _ in range(4):
        names = some_names(c, c.int(3, 7))
        deps = a_graph(c, names, density=c.choice([0.3, 0.6, 0.9]))
        log = Log()
        made = {}
        for i, n in enumerate(names):
            a = float(1 + i + np.round(c.rng.uniform(), 3))
            made[n] = (Report(a, ("u", "v"), n, log), Ref("report", a, keys=("u", "v")))
        m = HierarchicalStateMachine({n: mod for n, (mod, _) in made.items()}, deps, "hierarchical")
        c.note(deps=deps, order=names)
        c.state("levels", tuple(names), str(sorted(deps.items())))
        v = None
        for t, x in enumerate([1.5, -0.5]):
            x = jnp.asarray(x)
            if v is None:
                out, v = m.init_with_output(key(0), x)
            else:
                out, mut = m.apply(v, x, mutable=["state"])
            want = blend(names, deps, {n: r(x) for n, (_, r) in made.items()})
            for n in names:
                compare(c, out[n], want[n], "blend", f"{n} of {deps} step {t}")
        c.count("graphs")


@R.kind(weight=1)
def orders(c):
    """The execution order of any subset of any graph is a permutation respecting dependencies."""
    from wax.flax.core.advanced_state_patterns import HierarchicalStateMachine

    Affine, *_ = member_types()
    names = some_names(c, c.int(1, 8))
    for _ in range(12):
        cyc = c.flip(0.3)
        deps = a_graph(c, names, cyc)
        m = HierarchicalStateMachine({n: Affine(1.0, 0.0, n, Log()) for n in names}, deps)
        active = [n for n in names if c.flip(0.8)]
        order = m.get_execution_order(active)
        c.expect(sorted(order) == sorted(active), "permutation", f"{order} {active}")
        if not cyc:
            for n in active:
                for d in deps.get(n, []):
                    if d in active:
                        c.expect(order.index(d) < order.index(n), "order", f"{d} {n} {order}")
        c.state("order", str(sorted(deps.items())), tuple(active))
        c.count("orders")
    c.nontrivial = True


@R.kind(weight=3)
def composed(c):
    import jax.numpy as jnp

    from wax.flax.core.advanced_state_patterns import CompositeStateManager

    names = some_names(c, c.int(1, 4))
    strategy = c.choice(["pipeline", "pipeline", "parallel", "hierarchical"])
    log = Log()
    kinds = KINDS if strategy == "parallel" else ["affine", "total", "ewma", "total", "diff"]
    made = {n: a_member(c, n, log, kinds) for n in names}
    T, shape = c.choice([2, 7]), c.choice([(), (2,)])
    xs = series(c, T, shape, nan="none", scale=1.0, dtype=fdtype(c))
    jit = c.flip(0.3)
    c.note(strategy=strategy, names=names, kinds=[r.kind for _, r in made.values()], T=T, jit=jit)
    c.state("composed", strategy, tuple(names), tuple(r.kind for _, r in made.values()), jit)
    m = CompositeStateManager({n: mod for n, (mod, _) in made.items()}, strategy)
    step = runner(c, m, jit)
    v = None
    for t in range(T):
        log.calls.clear()
        x = jnp.asarray(xs[t])
        if v is None:
            out, v = m.init_with_output(key(0), x)
        else:
            out, mut = step(v, x)
            v = {**v, **mut}
        if not jit or t == 0:
            c.expect(log.calls == [n for n in names if made[n][1].kind in LOGGED], "calls", f"{log.calls} {names}")
        data, want = xs[t], {}
        for n in names:
            want[n] = made[n][1](data)
            if strategy == "pipeline":
                data = want[n]
        compare(c, dict(out), want, "output", f"{strategy} step {t}")
        c.count("steps")
    if c.flip(0.2):
        bad = CompositeStateManager({n: mod for n, (mod, _) in made.items()}, "unknown_strategy")
        c.raises(lambda: bad.init(key(0), jnp.asarray(xs[0])), "unknown", ValueError)


@R.kind(weight=1)
def composed_dicts(c):
    """Dictionaries flow through a pipeline by merging; "influence" replaces the data of later patterns."""
    import jax.numpy as jnp
    from flax import linen as nn

    from wax.flax.core.advanced_state_patterns import CompositeStateManager

    class Step(nn.Module):
        reads: str
        writes: str
        a: float

        def __call__(self, d):
            return {self.writes: d[self.reads] * self.a + len(d)}

    strategy = c.choice(["pipeline", "parallel", "hierarchical"])
    names = some_names(c, c.int(2, 5))
    x = {"p": float(c.int(-5, 5)), "q": float(c.int(-5, 5))}
    known, specs = ["p", "q"], {}
    for n in names:
        r = c.choice(known if strategy == "pipeline" else ["p", "q"])
        w = c.choice(["p", "q", "r", "s", "influence"]) if strategy != "hierarchical" else c.choice(["r", "s"])
        specs[n] = (r, w, float(c.int(1, 4)))
        known = sorted({*known, w})
    infl = {}
    pats = {n: Step(*s) for n, s in specs.items()}
    if strategy == "hierarchical":

        class Influence(nn.Module):
            a: float

            def __call__(self, d):
                return {"influence": {k: v * self.a for k, v in d.items()}, "seen": d["p"]}

        for n in names:
            if c.flip(0.4):
                infl[n] = specs[n][2]
                pats[n] = Influence(infl[n])
    c.note(strategy=strategy, specs=specs, x=x, infl=infl)
    c.state("dicts", strategy, str(specs), str(infl))
    m = CompositeStateManager(pats, strategy)
    out, _ = m.init_with_output(key(0), {k: jnp.asarray(v) for k, v in x.items()})
    d, want = dict(x), {}
    for n in names:
        r, w, a = specs[n]
        if n in infl:
            want[n] = {"influence": {k: v * a for k, v in d.items()}, "seen": d["p"]}
            d = want[n]["influence"]
            continue
        want[n] = {w: d[r] * a + len(d)}
        if strategy == "pipeline":
            d = {**d, **want[n]}
    compare(c, dict(out), want, "output", strategy)


def find_params(params, c):
    """The encoder and the attention among the parameters, by their shapes."""
    att = [n for n, p in params.items() if hasattr(p, "keys") and {"query", "key", "value", "out"} <= set(p.keys())]
    c.expect(len(att) == 1, "attention_params", f"{list(params)}")
    return params[att[0]]


@R.kind(weight=3)
def attention(c):
    """The context is the attention of the current state over the states before it, oldest first."""
    import jax.numpy as jnp
    from flax import linen as nn

    from wax.flax.core.advanced_state_patterns import AttentionBasedStateSelector

    heads = c.choice([1, 2])
    dim = heads * c.choice([2, 4])
    cap = c.choice([2, 3, 5, 40])
    T = c.choice([3, 6, 14])
    n = c.choice([1, 2, dim, dim + 2])
    use = c.flip(0.85)
    form = c.choice(["array", "dict", "numpy"]) if n > 1 else c.choice(["array", "scalar"])
    xs = series(c, T, (n,), nan="none", scale=1.0, dtype=fdtype(c))
    c.note(heads=heads, dim=dim, cap=cap, T=T, n=n, use=use, form=form, x=xs.tolist())
    c.state("attention", heads, dim, cap, T, n, use, form)
    m = AttentionBasedStateSelector(embed_dim=dim, num_heads=heads, max_history_length=cap)

    def given(x):
        if form == "scalar":
            return jnp.asarray(x[0])
        if form == "dict":
            return {"first": jnp.asarray(x[0]), "rest": jnp.asarray(x[1:])}
        if form == "numpy":
            return {"first": x[0], "rest": x[1:]}
        return jnp.asarray(x)

    v, hist, size, seen = None, [], None, {}
    mha = nn.MultiHeadDotProductAttention(num_heads=heads, qkv_features=dim)
    for t in range(T):
        if v is None:
            out, v = m.init_with_output(key(c.int(0, 99)), given(xs[t]), use_attention=use)
            p = find_params(v["params"], c)
            dense = {k: q for k, q in v["params"].items() if set(q.keys()) == {"kernel", "bias"}}
            c.expect(len(dense) == 2, "encoders", f"{list(v['params'])}")
        else:
            out, mut = m.apply(v, given(xs[t]), use_attention=use, mutable=["state"])
            v = {**v, **mut}
        vec = np.zeros(dim)
        vec[: min(n, dim)] = xs[t][:dim]
        own = np.asarray(out["original_state"], np.float64)
        enc = {k: vec @ np.asarray(q["kernel"], np.float64) + np.asarray(q["bias"]) for k, q in dense.items()}
        ok = [k for k, e in enc.items() if np.allclose(e, own, rtol=1e-3, atol=1e-4)]
        c.expect(bool(ok), "embedding", f"{own} {enc}")
        for k in ok:
            seen[k] = seen.get(k, 0) + 1
        c.expect(max(seen.values()) == t + 1, "encoder_changed", f"{seen}")
        past = hist[-cap:]
        w = np.asarray(out["attention_weights"], np.float64)
        if use and len(past) > 1:
            c.same(out["relevant_history"], np.stack(past), "history", ctx=f"step {t}", **tol(c))
            c.same(w, np.full(len(past), 1 / len(past)), "weights", **tol(c))
            qk = [k for k in dense if k not in ok] or list(dense)
            q = own @ np.asarray(dense[qk[0]]["kernel"], np.float64) + np.asarray(dense[qk[0]]["bias"])
            kv = jnp.asarray(np.stack(past).astype(fdtype(c)))[None]
            ctx = mha.apply({"params": p}, jnp.asarray(q.astype(fdtype(c)))[None, None], kv, kv)
            c.same(out["enhanced_state"], own + 0.1 * np.asarray(ctx)[0, 0], "enhanced", rtol=2e-3, atol=2e-4)
        else:
            c.same(out["enhanced_state"], own, "enhanced", **tol(c))
            c.same(w.sum(), 0.0, "weights", **tol(c))
        cur = out["current_state"]
        want = given(xs[t])
        c.expect(isinstance(cur, dict) == isinstance(want, dict), "current", f"{type(cur)}")
        for a, b in zip(*([(d[k] for k in ("first", "rest")) if isinstance(d, dict) else [d] for d in (cur, want)])):
            c.same(a, b, "current", rtol=0, atol=0)
        hist.append(own)
        if size is not None:
            c.expect(leaf_state(v) == size, "grows", f"{size} {leaf_state(v)}")
        size = leaf_state(v)
        c.count("steps")


@R.kind(weight=2)
def decorated(c):
    """The decorators call the function once per step with the composed output and the inputs."""
    import jax
    import jax.numpy as jnp

    from wax.flax.core.advanced_state_patterns import (
        streaming_attention_state,
        streaming_compose_states,
        streaming_state_machine,
    )

    which = c.choice(["machine", "compose", "attention"])
    log = Log()
    calls = []
    T = c.choice([2, 5])
    xs = series(c, T, (), nan="none", scale=1.0, dtype=fdtype(c))
    ys = series(c, T, (), nan="none", scale=1.0, dtype=fdtype(c))
    names = some_names(c, c.int(1, 3))
    kinds = ["affine", "total", "ewma", "diff"] + (["report"] if which == "machine" else [])
    strategy = c.choice(["sequential", "parallel", "hierarchical"] if which == "machine" else ["pipeline", "parallel"])
    made = {n: a_member(c, n, log, kinds) for n in names}
    deps = a_graph(c, names)
    c.note(which=which, strategy=strategy, names=names, kinds=[r.kind for _, r in made.values()], deps=deps, T=T)
    c.state("decorated", which, strategy, tuple(r.kind for _, r in made.values()))
    two = which != "machine"

    def fn(o, *args):
        calls.append(1)
        return {"o": o, "z": args[0] - 2 * (args[1] if two else 0)}

    if which == "machine":
        t = streaming_state_machine({n: mod for n, (mod, _) in made.items()}, deps, strategy)(fn)
    elif which == "compose":
        t = streaming_compose_states(*[mod for mod, _ in made.values()], strategy=strategy)(fn)
    else:
        t = streaming_attention_state(embed_dim=4, num_heads=2, max_history=3)(fn)
    given = lambda i: (jnp.asarray(xs[i]), jnp.asarray(ys[i])) if two else (jnp.asarray(xs[i]),)  # noqa: E731
    p, s = t.init(key(0), *given(0))
    apply = jax.jit(t.apply) if which != "attention" and c.flip(0.4) else t.apply
    hist = []
    for i in range(T):
        calls.clear()
        if i == 0:
            s0 = s
            for _, r in made.values() if which != "compose" else ():
                r(xs[0])
            if which == "compose":
                d = xs[0]
                for _, r in made.values():
                    o = r(d)
                    d = o if strategy == "pipeline" else d
            continue
        out, s = apply(p, s, None, *given(i))
        c.expect(len(calls) <= 1 and (len(calls) == 1 or apply is not t.apply), "calls", f"{len(calls)}")
        c.same(out["z"], xs[i] - 2 * (ys[i] if two else 0), "inputs")
        if which == "machine":
            want = {n: r(xs[i]) for n, (_, r) in made.items()}
            if strategy == "hierarchical":
                want = blend(names, deps, want)
            compare(c, dict(out["o"]), want, "output", f"step {i}")
        elif which == "compose":
            d, got = xs[i], list(dict(out["o"]).items())
            c.expect(len(got) == len(names), "members", f"{got}")
            for k, (_, r) in enumerate(made.values()):
                o = r(d)
                compare(c, dict(out["o"])[f"pattern_{k}"], o, "output", f"{k} step {i}")
                d = o if strategy == "pipeline" else d
        else:
            if len(hist) > 1:
                c.same(out["o"]["relevant_history"][-len(hist[-3:]) :], np.stack(hist[-3:]), "history", **tol(c))
            hist.append(np.asarray(out["o"]["original_state"], np.float64))
        c.count("steps")
    del s0

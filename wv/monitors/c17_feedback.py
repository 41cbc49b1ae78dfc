"""C17: feedback loops between an agent and an environment."""

from __future__ import annotations

import numpy as np

from wv.core import Registry
from wv.tools import key, series

ID = "C17"
RULE = (
    "random stateful, learned, nested agents and environments x observation sequences x initial actions x recorded "
    "fields, run as one unrolled program and as Python objects over a data generator; the recorded trajectory is "
    "compared with agent and environment driven alternately by hand; distinct by configuration and data"
)
ASSUMPTIONS = ["agents and environments transformed alone and driven by hand are the reference"]
QUICK, THOROUGH = 26, 260
R = Registry()


def tol(c):
    return dict(rtol=1e-9, atol=1e-10) if c.x64 else dict(rtol=1e-3, atol=1e-4)


def agents():
    import haiku as hk
    import jax.numpy as jnp

    from wax import modules as m

    def half(obs):
        return 0.5 * obs, {}

    def smooth(obs):
        a = m.EWMA(alpha=0.3)(obs)
        return a, {"seen": m.Counter()()}

    def momentum(obs):
        return jnp.nan_to_num(m.Diff()(obs)), (obs,)

    def learned(obs):
        w = hk.get_parameter("w", obs.shape, obs.dtype, init=lambda s, d: 0.1 + 0.2 * jnp.arange(
            int(np.prod(s)), dtype=d).reshape(s))
        return jnp.tanh(w * obs), {"w": w}

    def nested(obs):
        a = m.Buffer(2, fill_value=0.0)(obs).mean(axis=0)
        return {"a": a, "b": (a * 2,)}, {}

    def tally(obs):
        pos = hk.get_state("pos", obs.shape, obs.dtype, init=jnp.ones)
        hk.set_state("pos", 0.5 * pos + obs)
        return pos, {"n": m.Counter()()}

    return dict(tally=tally, half=half, smooth=smooth, momentum=momentum, learned=learned, nested=nested)


def envs():
    import haiku as hk
    import jax.numpy as jnp

    from wax import modules as m

    def first(a):
        return a["a"] if isinstance(a, dict) else a

    def plain(action, raw):
        a = first(action)
        return jnp.sum(a * raw), raw + 0.1 * a, {"a": a}

    def stateful(action, raw):
        pos = hk.get_state("pos", raw.shape, raw.dtype, init=jnp.zeros)
        pos = 0.8 * pos + first(action)
        hk.set_state("pos", pos)
        return jnp.sum(pos) - jnp.sum(raw), raw - pos, {"pos": pos, "n": m.Counter()()}

    def delayed(action, raw):
        past = jnp.nan_to_num(m.Lag(1)(first(action)))
        return jnp.sum(past * raw), m.EWMA(alpha=0.5)(raw) + past, {}

    return dict(plain=plain, stateful=stateful, delayed=delayed)


def by_hand(agent, env, raws, action):
    """Alternate environment and agent, each with its own carried state."""
    import haiku as hk
    import jax

    A, E = hk.transform_with_state(agent), hk.transform_with_state(env)
    sa = se = None
    aa, ee = jax.jit(A.apply), jax.jit(E.apply)
    out = []
    for i in range(len(raws)):
        if se is None:
            pe, se = E.init(key(0), action, raws[i])
        (rw, obs, ie), se = ee(pe, se, None, action, raws[i])
        if sa is None:
            pa, sa = A.init(key(0), obs)
        (action, ia), sa = aa(pa, sa, None, obs)
        out.append((rw, obs, action, ie, ia))
    return out


@R.kind(weight=4)
def compiled(c):
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.modules import GymFeedback
    from wax.unroll import unroll_transform_with_state

    an, en = c.choice(list(agents())), c.choice(list(envs()))
    agent, env = agents()[an], envs()[en]
    shape = c.choice([(), (1,), (3,)])
    T = c.choice([1, 2, 5, 12])
    raws = jnp.asarray(series(c, T, shape, nan="none", scale=1.0))
    ro, ra = c.flip(), c.flip()
    given = c.flip(0.4)
    mode = c.choice(["unroll", "unroll", "steps"])
    c.note(agent=an, env=en, T=T, obs=ro, act=ra, given=given, mode=mode, raws=np.asarray(raws).tolist())
    c.state(an, en, T, shape, ro, ra, given, mode)
    c.count("interactions", T)
    A = hk.transform_with_state(agent)
    if given:
        a0 = jax.tree_util.tree_map(lambda v: v * 0 + 0.3, A.apply(*A.init(key(0), raws[0]), None, raws[0])[0][0])
    else:
        a0 = A.apply(*A.init(key(0), raws[0]), None, raws[0])[0][0]

    def prog(raw):
        return GymFeedback(agent, env, return_obs=ro, return_action=ra, init_action=a0 if given else None)(raw)

    if mode == "unroll":
        u = unroll_transform_with_state(prog)
        p, s = u.init(key(0), raws)
        (out, info), s = u.apply(p, s, None, raws)
        get = lambda i: jax.tree_util.tree_map(lambda v: v[i], (out, info))  # noqa: E731
        got = [get(i) for i in range(T)]
    else:
        t = hk.transform_with_state(prog)
        p, s = t.init(key(0), raws[0])
        ap, got = jax.jit(t.apply), []
        for i in range(T):
            o, s = ap(p, s, None, raws[i])
            got.append(o)
    want = by_hand(agent, env, raws, a0)
    fields = ("reward",) + (("obs",) if ro else ()) + (("action",) if ra else ())
    for i, ((o, info), (rw, obs, action, ie, ia)) in enumerate(zip(got, want)):
        c.expect(o._fields == fields, "fields", str(o._fields))
        c.same(o.reward, rw, "reward", ctx=f"step {i}", **tol(c))
        if ro:
            c.same(o.obs, obs, "obs", ctx=f"step {i}", **tol(c))
        if ra:
            c.tree_same(o.action, action, "action", ctx=f"step {i}", **tol(c))
        c.tree_same(info.env, ie, "env_info", ctx=f"step {i}", **tol(c))
        c.tree_same(info.agent, ia, "agent_info", ctx=f"step {i}", **tol(c))


@R.kind(weight=4)
def objects(c):
    """The same loop with Python objects over a data generator."""
    import haiku as hk
    import jax.numpy as jnp

    from wax.gym.callbacks.record import Record
    from wax.gym.callbacks.stop import Stop
    from wax.gym.haiku_agent import HaikuAgent
    from wax.gym.haiku_env import HaikuEnv

    an, en = c.choice(list(agents())), c.choice(list(envs()))
    agent = lambda obs: agents()[an](obs)[0]  # noqa: E731
    env = lambda a, r: envs()[en](a, r)[:2]  # noqa: E731
    T = c.choice([2, 4, 9])
    shape = c.choice([(), (2,)])
    raws = jnp.asarray(series(c, T, shape, nan="none", scale=1.0))
    stop = c.choice([None, None, 1, 2, T - 1, T + 5])
    ro, ra = c.flip(), c.flip()
    episodes = c.choice([1, 1, 2])
    c.note(agent=an, env=en, T=T, stop=stop, obs=ro, act=ra, episodes=episodes, raws=np.asarray(raws).tolist())
    c.state(an, en, T, shape, stop, episodes)
    pulled = []

    def gen():
        for _ in range(episodes):
            for i in range(T):
                pulled.append(i)
                yield raws[i], {"i": i}

    A, E = hk.transform_with_state(agent), hk.transform_with_state(env)
    g = gen()
    e = HaikuEnv(g, E)
    a = HaikuAgent(A)

    def reference(n, first):
        """n environment steps after the first observation."""
        obs = raws[first]
        pa, sa = A.init(key(0), obs)
        se, out = None, []
        for k in range(n):
            action, sa = A.apply(pa, sa, None, obs)
            r = raws[(first + 1 + k) % T]
            if se is None:
                pe, se = E.init(key(0), action, r)
            (rw, obs), se = E.apply(pe, se, None, action, r)
            out.append((rw, obs, action))
        return out, A.apply(pa, sa, None, obs)[0]

    used = 0
    for ep in range(episodes):
        if ep:
            a.reset()
        total = T * episodes
        avail = total - used - 1
        n = min(avail, stop) if stop else avail
        rec = Record(return_obs=ro, return_action=ra)
        cbs = [rec] + ([Stop(stop)] if stop else [])
        if avail < 1:
            break
        last = a.unroll(e, callbacks=cbs)
        want, after = reference(n, used % T)
        out = rec.get_outputs()
        c.count("interactions", n)
        c.expect(out._fields == ("reward",) + (("obs",) if ro else ()) + (("action",) if ra else ()), "fields")
        import jax

        st = lambda j: jax.tree_util.tree_map(lambda *v: np.stack(v), *[w[j] for w in want])  # noqa: E731
        c.same(out.reward, st(0), "reward", **tol(c))
        if ro:
            c.same(out.obs, st(1), "obs", **tol(c))
        if ra:
            c.tree_same(jax.tree_util.tree_map(np.asarray, out.action), st(2), "action", **tol(c))
        exhausted = not (stop and stop <= avail)
        c.expect(bool(last.done) == exhausted, "done_when_data_ends", f"{last.done} stop={stop} avail={avail}")
        if exhausted:
            c.expect(last.obs is None and last.rw == 0, "nothing_after_the_end")
            c.expect(last.info == {"i": T - 1}, "last_info", str(last.info))
            c.tree_same(jax.tree_util.tree_map(np.asarray, last.action),
                        jax.tree_util.tree_map(np.asarray, after), "last_action", **tol(c))
            used = total
            break
        c.expect(last.info == {"i": (used + n) % T}, "info_of_step", str(last.info))
        used += n + 1
    c.expect(pulled == [i % T for i in range(used)], "each_datum_once", f"{pulled}")


@R.kind(weight=1)
def flax_feedback(c):
    import jax
    import jax.numpy as jnp

    from wax.flax import modules as m
    from wax.flax.modules.gym_feedback import create_gym_feedback, create_gym_feedback_loop

    T = c.choice([2, 6])
    x = series(c, T, c.choice([(), (3,)]), nan="none", scale=1.0)
    r = series(c, T, (), nan="none", scale=1.0)
    k = c.choice(["half", "ewma", "two"])
    with_reward = c.flip()
    c.note(agent=k, T=T, x=x.tolist(), r=r.tolist(), with_reward=with_reward)
    c.state("flax", k, T, with_reward, x.shape)
    c.count("interactions", T)
    agent = {"half": lambda o: o * 0.5, "ewma": m.EWMA(alpha=0.4), "two": lambda o, rw=0.0: o + rw}[k]
    loop = c.flip()
    g = (create_gym_feedback_loop if loop else create_gym_feedback)(agent)
    from wv.tools import fx_run

    xs = (x, r) if with_reward else (x,)
    out, _, _ = fx_run(g, xs, mode=c.choice(["scan", "jit"]))
    action = out[1] if loop else out
    xx = jnp.asarray(x)
    if k == "half":
        want = 0.5 * xx[1:]
    elif k == "two":
        want = xx[1:] + (jnp.asarray(r[1:]).reshape((-1,) + (1,) * (x.ndim - 1)) if with_reward else 0.0)
    else:
        want = fx_run(m.EWMA(alpha=0.4), x)[0]
    c.same(action, want, "action", **tol(c))
    if loop:
        c.same(out[0], xx[1:], "obs", **tol(c))
        c.same(out[2], jnp.asarray(r[1:]) if with_reward else jnp.zeros(T - 1), "reward", **tol(c))

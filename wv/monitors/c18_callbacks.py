"""C18: the callback protocol of agent/environment loops."""

from __future__ import annotations

from collections import Counter

import numpy as np

from wv.core import Registry

ID = "C18"
RULE = (
    "random histories of registering, unregistering, entering, leaving and unrolling (also nested, raising, resumed "
    "from a given observation, with explicit callbacks as objects or tuples) over scripted environments; the event log "
    "of every call is replayed against the protocol automaton and the set of callbacks active in the model; distinct "
    "by history"
)
ASSUMPTIONS = ["the order of callbacks is checked only when they are given explicitly",
               "explicit callbacks replace the registered ones; a nested loop does not see the outer loop's callbacks"]
QUICK, THOROUGH = 400, 4000
R = Registry()
HOOKS = ("on_train_start", "on_act", "on_step", "on_train_end")


class Boom(Exception):
    pass


class World:
    """A scripted environment and agent that log every call."""

    def __init__(self, log, tag, length, boom=None, nest=None, tree=False):
        self.log, self.tag, self.length, self.boom, self.nest, self.tree = log, tag, length, boom, nest, tree
        self.t = 0

    def __len__(self):
        return self.length

    def obs(self):
        v = np.float64(100 * self.tag + self.t)
        return {"a": v, "b": (v + 0.5,)} if self.tree else v

    def reset(self):
        self.t = 0
        self.log.append(("reset", self.tag))
        return self.obs()

    def step(self, action):
        self.t += 1
        self.log.append(("step", self.tag, self.t))
        if self.boom == ("env", self.t):
            raise Boom()
        return self.obs(), np.float64(self.t * 2.0), self.t >= self.length, {"t": self.t}

    def close(self):
        self.log.append(("close", self.tag))

    def __call__(self, obs):
        self.log.append(("agent", self.tag, self.t))
        if self.boom == ("agent", self.t):
            raise Boom()
        if self.nest and self.nest[0] == "agent" and self.nest[1] == self.t:
            self.nest[2]()
        return np.float64(-self.t)


def make_callback(c, log, ident, subclass, nest=None):
    from wax.gym.callbacks import Callback

    hooks = [h for h in HOOKS if c.flip(0.7)] or ["on_step"]
    stop = c.choice([None, None, None, 1, 2, 3])
    boom = c.choice([None] * 8 + list(hooks))
    truthy = c.choice([True, 1, "yes"])
    falsy = c.choice([None, False, 0])

    def hook(name):
        def f(env, agent, *args):
            log.append(("cb", ident, name, env.tag, args))
            if name == boom:
                raise Boom()
            if name == "on_step":
                return truthy if stop and env.t >= stop else falsy
            return truthy  # only on_step may stop the loop

        return f

    if subclass:
        body = {"_" + h: (lambda g: lambda self, *a: g(*a))(hook(h)) for h in hooks}
        body["__init__"] = lambda self: None
        cb = type("CB%d" % ident, (Callback,), body)()
    else:
        cb = Callback(**{h: hook(h) for h in hooks})
    return cb, dict(id=ident, hooks=hooks, stop=stop, boom=boom)


def simulate(world_tag, length, boom, active, given_obs, ordered, nest=None):
    """Expected segments of the log: lists of (events, is_unordered)."""
    raised = False
    seg = []

    def call(h, t=None):
        """The calls of one hook; stops at the first raising one when ordered."""
        nonlocal raised
        ids = [(s["id"], s) for s in active if h in s["hooks"]]
        evs = [("cb", i, h) for i, _ in ids]
        if any(s["boom"] == h for _, s in ids):
            raised = True
        seg.append((evs, h, {i for i, s in ids if s["boom"] == h}))
        return not raised

    if not given_obs:
        seg.append(([("reset", world_tag)], None, set()))
    if not call("on_train_start"):
        return seg, True
    t = 0
    while True:
        seg.append(([("agent", world_tag, t)], None, set()))
        if boom == ("agent", t):
            return seg, True
        if nest and nest[0] == "agent" and nest[1] == t:
            seg.append((None, "nested", set()))
        if not call("on_act"):
            return seg, True
        t += 1
        seg.append(([("step", world_tag, t)], None, set()))
        if boom == ("env", t):
            return seg, True
        if not call("on_step"):
            return seg, True
        if t >= length or any(s["stop"] and "on_step" in s["hooks"] and t >= s["stop"] for s in active):
            break
    if not call("on_train_end"):
        return seg, True
    seg.append(([("close", world_tag)], None, set()))
    return seg, False


def check_log(c, log, seg, ordered, nested_log):
    pos = 0

    def name(e):
        return e[:3] if e[0] == "cb" else e

    for evs, h, booms in seg:
        if h == "nested":
            got = [name(e) for e in log[pos:pos + len(nested_log)]]
            c.expect(got == nested_log, "nested_events", f"{got} expected {nested_log}")
            pos += len(nested_log)
            continue
        if booms and not ordered:  # unordered: some of the callbacks, each at most once, the last one raising
            got = []
            while pos < len(log) and log[pos][0] == "cb" and name(log[pos]) in evs and len(got) < len(evs):
                got.append(name(log[pos]))
                pos += 1
                if got[-1][1] in booms:
                    break
            c.expect(len(set(got)) == len(got), "callback_twice", str(got))
            c.expect(bool(got) and got[-1][1] in booms, "raising_callback_reached", f"{got}")
            continue
        if booms:
            k = next(i for i, e in enumerate(evs) if e[1] in booms)
            evs = evs[:k + 1]
        got = [name(e) for e in log[pos:pos + len(evs)]]
        if ordered:
            c.expect(got == evs, "events", f"at {pos}: {got} expected {evs}")
        else:
            c.expect(Counter(got) == Counter(evs), "events", f"at {pos}: {got} expected {evs} (any order)")
        pos += len(evs)
    c.expect(pos == len(log), "extra_events", f"{log[pos:pos + 5]}")


@R.kind(weight=6)
def histories(c):
    from wax.gym.callbacks import Callback
    from wax.gym.callbacks.callbacks import add_callbacks
    from wax.gym.gym_unroll import gym_unroll

    log = []
    Callback.active = set()
    cbs = []
    for i in range(c.int(1, 4)):
        cbs.append(make_callback(c, log, i, c.flip()))
    active = {}  # id -> how many ways it is active in the model
    stack = []
    hist = []
    tag = 0
    try:
        for _ in range(c.int(2, 9)):
            free = [s["id"] for _, s in cbs if s["id"] not in active]
            reg = [i for i, w in active.items() if w == "registered"]
            ops = ["unroll", "unroll", "unroll"] + (["register", "enter", "add"] if free else []) \
                + (["unregister"] if reg else []) + (["leave"] * 2 if stack else [])
            op = c.choice(ops)
            if op == "register":
                i = c.choice(free)
                cbs[i][0].register()
                active[i] = "registered"
            elif op == "unregister":
                i = c.choice(reg)
                cbs[i][0].unregister()
                del active[i]
            elif op == "enter":
                i = c.choice(free)
                r = cbs[i][0].__enter__()
                c.expect(r is cbs[i][0], "enter_returns_self")
                stack.append((cbs[i][0], [i]))
                active[i] = "context"
            elif op == "add":
                ids = [i for i in free if c.flip(0.6)] or free[:1]
                ctx = add_callbacks(*[cbs[i][0] if c.flip() else cbs[i][0]._callback for i in ids])
                ctx.__enter__()
                stack.append((ctx, ids))
                for i in ids:
                    active[i] = "context"
            elif op == "leave":
                ctx, ids = stack.pop()
                ctx.__exit__(None, None, None)
                for i in ids:
                    del active[i]
            else:
                tag += 1
                length = c.int(1, 5)
                boom = c.choice([None] * 5 + [("agent", c.int(0, 3)), ("env", c.int(1, 3))])
                explicit = None
                if c.flip(0.35):
                    explicit = [i for i in c.rng.permutation(len(cbs)) if c.flip(0.6)]
                specs = [cbs[i][1] for i in (active if explicit is None else explicit)]
                nested, inner = None, []
                if c.flip(0.25):
                    ex2 = [int(c.rng.integers(len(cbs)))] if c.flip() else None
                    i2 = [cbs[i][1] for i in (ex2 or [])]
                    if explicit is not None and ex2 is None:
                        i2 = [cbs[i][1] for i in active]  # the registered ones are still free
                    i2 = [s for s in i2]
                    if not any(s["boom"] in s["hooks"] for s in i2) and (ex2 is not None or len(i2) <= 1):
                        w2 = World(log, 1000 + tag, 2)
                        nested = ("agent", 0, lambda: gym_unroll(
                            w2, w2, callbacks=None if ex2 is None else [cbs[i][0] for i in ex2]))
                        sg, _ = simulate(w2.tag, 2, None, i2, False, True)
                        inner = [e for evs, _, _ in sg for e in evs]
                w = World(log, tag, length, boom, nested, tree=c.flip(0.3))
                given = w.obs() if c.flip(0.3) else None
                start = len(log)
                seg, raises = simulate(tag, length, boom, specs, given is not None, explicit is not None, nested)
                kw = {}
                if given is not None:
                    kw["obs"] = given
                if explicit is not None:
                    kw["callbacks"] = [cbs[i][0] if c.flip(0.7) else cbs[i][0]._callback for i in explicit]
                before = set(Callback.active)
                res = None
                try:
                    res = gym_unroll(w, w, **kw)
                    raised = False
                except Boom:
                    raised = True
                c.expect(raised == raises, "exception", f"raised {raised} expected {raises}")
                check_log(c, log[start:], seg, explicit is not None, inner)
                c.expect(Callback.active == before, "active_set_restored", f"{len(Callback.active)} vs {len(before)}")
                check_shown(c, log[start:], w, res, given)
                c.count("unrolls")
                c.count("raising_unrolls", raised)
                c.count("nested_unrolls", nested is not None)
                c.count("events", len(log) - start)
                op = (op, length, boom, None if explicit is None else [int(i) for i in explicit], given is not None,
                      nested is not None)
                c.state(tuple(sorted((s["id"], tuple(s["hooks"]), s["stop"], s["boom"]) for s in specs)), op[1:3])
            hist.append(op if isinstance(op, tuple) else op)
        c.expect(len(Callback.active) == len(active), "active_callbacks", f"{len(Callback.active)} vs {active}")
        c.nontrivial = any(e[0] == "step" for e in log)
    finally:
        Callback.active = set()
    c.note(callbacks=[s for _, s in cbs], history=hist)


def check_shown(c, log, w, res, given):
    """Every hook is shown what happened at its step, and the last step is returned."""
    t = 0
    last_obs = None

    def obs_at(k):
        keep, w.t = w.t, k
        o = w.obs()
        w.t = keep
        return o

    for e in log:
        if e[0] == "step" and e[1] == w.tag:
            t = e[2]
        if e[0] != "cb" or e[3] != w.tag:
            continue
        h, args = e[2], e[4]
        c.count("hook_calls")
        if h == "on_train_start":
            c.expect(len(args) == 1, "start_args")
            c.tree_same(args[0], obs_at(0), "first_observation_shown")
        elif h == "on_act":
            c.tree_same(args[0], obs_at(t), "observation_shown")
            c.same(args[1], np.float64(-t), "action_shown")
        elif h == "on_step":
            g = args[0]
            c.expect(g.info == {"t": t} and bool(g.done) == (t >= w.length), "step_shown", str(g))
            c.same(g.rw, t * 2.0, "reward_shown")
            c.tree_same(g.obs, obs_at(t), "step_observation_shown")
            c.same(g.action, np.float64(-(t - 1)), "step_action_shown")
        else:
            c.expect(args == (), "end_args")
    if res is not None:
        c.expect(res.info == {"t": w.t} and bool(res.done) == (w.t >= w.length), "returned_step", str(res))
        c.tree_same(res.obs, obs_at(w.t), "returned_observation")
        c.same(res.action, np.float64(-(w.t - 1)), "returned_action")


@R.kind(weight=2)
def recording(c):
    """Recording, stopping and the progress bar, together and in any order."""
    import pandas as pd
    import tqdm.auto

    from wax.gym.callbacks import Callback
    from wax.gym.callbacks.progressbar import ProgressBar
    from wax.gym.callbacks.record import Record
    from wax.gym.callbacks.stop import Stop
    from wax.gym.gym_unroll import gym_unroll

    Callback.active = set()
    kind = c.choice(["scalar", "array", "tree", "frame", "series"])
    T = c.int(2, 8)
    stop = c.choice([None, 1, 2, 3, T, T + 3])
    ro, ra = c.flip(), c.flip()
    idle = sorted({c.int(0, T - 1) for _ in range(c.int(0, 2))})  # steps at which the agent does nothing
    ways = c.choice(["explicit", "context", "registered"])
    bar = c.flip()
    c.note(kind=kind, T=T, stop=stop, obs=ro, act=ra, idle=idle, ways=ways, bar=bar)
    c.state(kind, T, stop, ro, ra, tuple(idle), ways, bar)
    log = []
    x = c.rng.normal(size=(T + 1, 3))
    cols = ["p", "q", "r"]

    def wrap(v, i):
        if kind == "scalar":
            return np.float64(v[0])
        if kind == "array":
            return v
        if kind == "tree":
            return {"k": v[:2], "m": (v[2],)}
        idx = pd.date_range("2020-01-01", periods=T + 1)[i:i + 1]
        df = pd.DataFrame(v[None], index=idx, columns=cols)
        return df if kind == "frame" else df["p"]

    class Env(World):
        def obs(self):
            return wrap(x[self.t], self.t)

        def step(self, action):
            o, _, d, i = super().step(action)
            return (None if d else o), wrap(x[self.t] * 2, self.t), d, i

    class Ag(Env):
        def __call__(self, obs):
            k = env.t
            return None if k in idle else wrap(x[k] - 1, k)

    env = Env(log, 1, T)
    agent = Ag(log, 1, T)
    updates, totals, closes = [], [], []
    cls = tqdm.auto.tqdm
    saved = cls.__init__, cls.update, cls.close
    rec = Record(return_obs=ro, return_action=ra)
    cbs = [rec] + ([Stop(stop)] if stop else []) + ([ProgressBar()] if bar else [])
    cbs = [cbs[i] for i in c.rng.permutation(len(cbs))]

    def init(self, *a, **k):
        totals.append(k.get("total", a[0] if a else None))
        k["disable"] = True
        saved[0](self, *a, **k)

    def upd(self, n=1):
        updates.append(n)

    def clo(self):
        closes.append(1)
        saved[2](self)

    cls.__init__, cls.update, cls.close = init, upd, clo
    try:
        if ways == "explicit":
            gym_unroll(agent, env, callbacks=cbs)
        elif ways == "registered":
            for k in cbs:
                k.register()
            gym_unroll(agent, env)
            for k in cbs:
                k.unregister()
        else:
            from wax.gym.callbacks.callbacks import add_callbacks

            with add_callbacks(*cbs):
                gym_unroll(agent, env)
        n = len(updates)
        nclose = len(closes)
    finally:
        cls.__init__, cls.update, cls.close = saved
    c.expect(not Callback.active, "callbacks_left_active")
    steps = [e[2] for e in log if e[0] == "step"]
    want = min(T, stop) if stop else T
    c.expect(steps == list(range(1, want + 1)), "stops_where_asked", f"{steps} expected {want}")
    c.count("steps", want)
    if bar:
        c.expect(n == want and sum(updates) == want, "progress_counts_steps", f"{updates}")
        c.expect(totals == [T] and nclose >= 1, "progress_total_and_close", f"{totals} {nclose}")
    rows = [t for t in steps if t < T and (t - 1) not in idle]
    if not rows:
        return
    out = rec.get_outputs()
    c.expect(out._fields == ("reward",) + (("obs",) if ro else ()) + (("action",) if ra else ()), "fields")

    def stack(vals):
        import jax

        if kind in ("frame", "series"):
            return pd.concat(vals)
        return jax.tree_util.tree_map(lambda *v: np.stack(v), *vals)

    for name, vals in (("reward", [wrap(x[t] * 2, t) for t in rows]), ("obs", [wrap(x[t], t) for t in rows]),
                       ("action", [wrap(x[t - 1] - 1, t - 1) for t in rows])):
        if not hasattr(out, name):
            continue
        got, exp = getattr(out, name), stack(vals)
        if kind in ("frame", "series"):
            c.expect(type(got) is type(exp) and got.equals(exp), "recorded_" + name, f"{got} expected {exp}")
            c.nontrivial = True
        else:
            c.tree_same(got, exp, "recorded_" + name)

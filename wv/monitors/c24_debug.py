"""C24: debugging, profiling and memory tracking observe computations without changing them, and count right."""

from __future__ import annotations

import contextlib
import io
import statistics
import sys
import threading
from types import SimpleNamespace

import numpy as np

from wv.core import Registry
from wv.tools import fdtype, key, series

ID = "C24"
RULE = (
    "random stacks of the debug, profile and memory decorators over streaming programs, eager and compiled, with tools "
    "switched on and off and steps that fail, compared bit by bit with the undecorated program; random histories of "
    "steps, hooks, conditions, clears and resets against an independent replay; simulated process memory; several "
    "threads recording at once under forced preemption with conservation of the counts; distinct by stack and history"
)
ASSUMPTIONS = ["times are only compared through the values given to the tools",
               "under compilation the tools see each traced call once, not each execution"]
QUICK, THOROUGH = 60, 480
R = Registry()


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


@contextlib.contextmanager
def process_memory(values):
    """The process appears to use these megabytes, one value per reading."""
    import psutil

    real = psutil.Process.memory_info
    it = iter(values)
    last = [0.0]

    def memory_info(self):
        last[0] = next(it, last[0])
        return SimpleNamespace(rss=last[0] * 1024 * 1024, vms=0)

    psutil.Process.memory_info = memory_info
    try:
        yield
    finally:
        psutil.Process.memory_info = real


def nbytes(tree):
    import jax

    return sum(8 if isinstance(x, int | float) and not isinstance(x, np.generic) else int(np.asarray(x).nbytes)
               for x in jax.tree_util.tree_leaves(tree))


def a_program(c):
    """A streaming program over (x, y), as a plain function of modules."""
    import jax.numpy as jnp

    from wax.flax.modules import EWMA, Buffer, Diff, Lag

    which = c.choice(["ewma", "buffer", "mixed", "pure"])
    a = float(np.round(c.rng.uniform(0.1, 0.9), 2))
    n = c.int(1, 4)
    if which == "ewma":
        return which, lambda x, y: EWMA(alpha=a)(x) + y
    if which == "buffer":
        return which, lambda x, y: {"b": Buffer(maxlen=n)(x), "y": y}
    if which == "mixed":
        return which, lambda x, y: (EWMA(alpha=a)(Diff()(x)), Lag(n)(y), jnp.sin(x * y))
    return which, lambda x, y: x - y


@R.kind(weight=3)
def transparent(c):
    import jax
    import jax.numpy as jnp

    from wax.flax.core.streaming_transforms import streaming_transform_with_state
    from wax.flax.debug.debugger import StreamingDebugger, debug_streaming
    from wax.flax.debug.memory_tracker import MemoryTracker, track_memory_usage
    from wax.flax.debug.profiler import StreamingProfiler, profile_streaming

    which, fn = a_program(c)
    plain = streaming_transform_with_state(fn)
    tools = {"debug": StreamingDebugger(max_history=5), "profile": StreamingProfiler(max_history=1000),
             "memory": MemoryTracker(enable_detailed_tracking=False, snapshot_interval=1)}
    deco = {"debug": debug_streaming, "profile": profile_streaming, "memory": track_memory_usage}
    stack = [c.choice(list(tools)) for _ in range(c.int(1, 3))]
    stack = list(dict.fromkeys(stack))
    seen, now = [], [0]

    def condition(step, state, inp, out):
        seen.append(step)
        if c_raises and step % 3 == 0:
            raise RuntimeError("condition")
        return step % 2 == 0

    c_raises = c.flip(0.3)
    if "debug" in stack:
        from wax.flax.debug.debugger import DebugHook

        tools["debug"].add_hook(DebugHook("h", condition, c.choice(["log", "capture", "alert"]), max_events=3))
    wrapped = plain
    for s in stack:
        wrapped = deco[s](tools[s], f"mod_{s}")(wrapped)
    jit = c.flip(0.3)
    T = c.choice([2, 5, 9])
    xs, ys = (series(c, T, (), nan="none", dtype=fdtype(c)) for _ in range(2))
    c.note(which=which, stack=stack, jit=jit, T=T, x=xs.tolist(), y=ys.tolist())
    c.state("transparent", which, tuple(stack), jit, T)
    with quiet():
        p, s = plain.init(key(0), jnp.asarray(xs[0]), jnp.asarray(ys[0]))
        p2, s2 = wrapped.init(key(0), jnp.asarray(xs[0]), jnp.asarray(ys[0]))
        c.tree_same((p2, s2), (p, s), "init", exact=True)
        f, g = (jax.jit(t.apply) if jit else t.apply for t in (plain, wrapped))
        events = {k: 0 for k in stack}
        sizes = []
        for i in range(T):
            for k in stack:
                if c.flip(0.2) and not jit:
                    (tools[k].disable if tools[k].enabled else tools[k].enable)()
            bad = c.flip(0.15) and not jit
            args = (jnp.asarray(xs[i]), jnp.asarray(ys[i]))
            if bad:
                # the step fails: the failure comes through
                c.raises(lambda: g(p, s, None, args[0]), "failure_hidden", TypeError)
                for k in stack:
                    events[k] = {"debug": tools["debug"].current_step, "profile": tools["profile"].step_count,
                                 "memory": tools["memory"].step_count}[k]
            want = f(p, s, None, *args)
            got = g(p2, s2, None, *args)
            c.tree_same(got, want, "changed", exact=True, ctx=f"step {i} {stack}")
            s, s2 = want[1], got[1]
            c.count("steps")
            if jit:
                continue
            for k in stack:
                if tools[k].enabled:
                    events[k] += 2 if k == "memory" else 1
            if "debug" in stack:
                c.same(tools["debug"].current_step, events["debug"], "debug_steps")
                if tools["debug"].enabled:
                    last = tools["debug"].state_history[-1]
                    c.tree_same(list(jax.tree_util.tree_leaves(last)), list(jax.tree_util.tree_leaves(s)), "recorded",
                                exact=True)
            if "profile" in stack:
                c.same(tools["profile"].step_count, events["profile"], "profile_steps")
                if tools["profile"].enabled:
                    m = tools["profile"].metrics[-1]
                    c.expect(m.module_name == "mod_profile" and m.execution_time >= 0, "profile_record", f"{m}")
                    c.same([m.input_size, m.output_size], [nbytes(args[0]), nbytes(want)], "profile_sizes")
                    sizes.append(m.output_size)
            if "memory" in stack:
                c.same(tools["memory"].step_count, events["memory"], "memory_steps")
                if tools["memory"].enabled:
                    q = tools["memory"].snapshots[-1]
                    c.same(q.state_variables_mb * 2**20, nbytes(s), "memory_state", rtol=1e-9, atol=1e-6)
    if "debug" in stack:
        h = tools["debug"].hooks["h"]
        c.expect(len(h.events) <= 3 and len(tools["debug"].state_history) <= 5, "bounded", "")
        if not jit:
            # a condition that fails is not met and does not disturb the computation
            met = [t for t in seen if t % 2 == 0 and not (c_raises and t % 3 == 0)]
            c.expect(h.hit_count == len(met), "hits", f"{h.hit_count} {seen}")
            c.expect([e.step for e in h.events] == met[-3:], "events", f"{[e.step for e in h.events]} {met}")
    del now


def a_condition(c, i):
    """(condition, reference) pairs; references are fresh predicates over the same arguments."""
    from wax.flax.debug.debugger import state_change_detector, step_interval, value_threshold

    k = c.choice(["threshold", "field", "interval", "change", "change", "fails", "never", "custom"])
    if k == "threshold":
        v = float(np.round(c.rng.normal(), 2))
        return k, value_threshold(v), lambda t, s, x, o: not isinstance(x, dict) and float(x) > v
    if k == "field":
        v = float(np.round(c.rng.normal(), 2))
        return k, value_threshold(v, "px"), lambda t, s, x, o: (x.get("px", 0) if isinstance(x, dict) else x) > v
    if k == "interval":
        n = c.int(1, 4)
        return k, step_interval(n), lambda t, s, x, o: t % n == 0
    if k == "change":
        f, tol = c.choice(["level", "vec", "missing"]), c.choice([1e-4, 0.5432, 2.0123])
        last = [None]

        def ref(t, s, x, o):
            if f not in s:
                return False
            v = np.array(s[f], np.float64)
            if last[0] is None:
                last[0] = v
                return False
            d = float(np.sqrt(((v - last[0]) ** 2).sum()))
            if d > tol:
                last[0] = v
            return d > tol

        return k, state_change_detector(f, tol), ref
    if k == "fails":

        def boom(t, s, x, o):
            raise ValueError("condition")

        return k, boom, lambda t, s, x, o: False
    if k == "never":
        return k, None, lambda t, s, x, o: False
    m = c.int(2, 3)
    return k, (lambda t, s, x, o: o % m == 0), lambda t, s, x, o: o % m == 0


@R.kind(weight=4)
def debugger(c):
    """Any history of steps, hooks, switches and clears, replayed independently."""
    import jax.numpy as jnp
    from flax.core import FrozenDict

    from wax.flax.debug.debugger import DebugHook, StreamingDebugger
    from wax.flax.modules.ohlc import OHLC  # noqa: F401 (package import only)

    cap = c.choice([1, 3, 7, 1000])
    track, perf = c.flip(0.8), c.flip(0.8)
    d = StreamingDebugger(enable_state_tracking=track, enable_performance_tracking=perf, max_history=cap)
    hooks, log = {}, []  # name -> [reference, enabled, cap, hits, events]
    steps, history, times = 0, [], []
    numpy_state = c.flip(0.4)
    c.note(cap=cap, track=track, perf=perf, numpy=numpy_state)
    nm = 0
    from collections import namedtuple

    Pair = namedtuple("Pair", "a b")
    with quiet() as printed:
        for _ in range(c.int(5, 40)):
            op = c.choice(["step"] * 12 + ["hook", "hook", "remove", "toggle_hook", "toggle", "clear"])
            log.append(op)
            if op == "hook":
                name, nm = f"h{nm % 4}", nm + 1
                k, cond, ref = a_condition(c, nm)
                n = c.choice([1, 2, 5, 100])
                d.add_hook(DebugHook(name, cond, c.choice(["log", "capture", "alert"]), max_events=n))
                if name in hooks:
                    hooks[name] = [ref, True, n, 0, [], k]
                else:
                    hooks[name] = [ref, True, n, 0, [], k]
                c.count(f"hook_{k}")
            elif op == "remove" and hooks:
                name = c.choice(sorted(hooks))
                d.remove_hook(name)
                del hooks[name]
            elif op == "toggle_hook" and hooks:
                name = c.choice(sorted(hooks))
                hooks[name][1] = d.hooks[name].enabled = not hooks[name][1]
            elif op == "toggle":
                (d.disable if d.enabled else d.enable)()
            elif op == "clear":
                d.clear_history()
                history, times = [], []
                for h in hooks.values():
                    h[3], h[4] = 0, []
            elif op == "step":
                arr = np.asarray if numpy_state else jnp.asarray
                lv, vec = float(np.round(c.rng.normal(), 1)), np.round(c.rng.normal(size=2), 1)
                state = {"level": arr(lv) if c.flip() else lv, "vec": arr(vec.copy()), "in": {"q": arr(vec.copy())},
                         "pair": Pair(arr(vec.copy()), 3)}
                keep = {"level": lv, "vec": vec, "q": vec.copy(), "pair": Pair(vec.copy(), 3)}
                frozen = c.flip(0.2) and not numpy_state
                given = FrozenDict(state) if frozen else state
                x = {"px": lv * 2} if c.flip(0.3) else lv * 2
                x = Pair(x, 1) if c.flip(0.1) and not any("thr" in k for k in c.counts) else x
                o = c.int(0, 9)
                dt = float(c.rng.random()) if c.flip(0.8) else None
                d.step("mod", given, x, o, dt)
                if not d.enabled:
                    continue
                steps += 1
                history.append(keep)
                if dt is not None:
                    times.append(dt)
                for h in hooks.values():
                    met = False
                    if h[1]:
                        try:
                            met = bool(h[0](steps, keep, x, o))
                        except Exception:  # a reference that cannot be evaluated is not met
                            met = False
                    if met:
                        h[3] += 1
                        h[4] = (h[4] + [(steps, keep, x, o)])[-h[2] :]
                c.count("steps")
                if numpy_state:
                    # the program goes on and updates its arrays in place
                    for a in (state["vec"], state["in"]["q"], state["pair"].a):
                        a += 100.0
                if not frozen:
                    state["in"]["q"] = None
            # what the debugger says now
            c.same(d.current_step, steps, "steps", ctx=str(log[-5:]))
            want = history[-cap:] if track else []
            c.expect(len(d.state_history) == len(want), "history_length", f"{len(d.state_history)} {len(want)}")
            for got, w in zip(d.state_history, want):
                c.expect(hasattr(got, "keys"), "history_kind", f"{type(got)}")
                c.same(got["level"], w["level"], "history")
                c.same(got["vec"], w["vec"], "history_later_change")
                c.same(got["in"]["q"] if got["in"]["q"] is not None else np.nan, w["q"], "history_later_change")
                c.expect(isinstance(got["pair"], tuple), "history_kind", f"{got['pair']!r}")
                c.same(got["pair"][0], w["pair"][0], "history_later_change")
            for n, h in hooks.items():
                k = d.hooks[n]
                c.expect(k.hit_count == h[3], "hits", f"{n} {h[5]} {k.hit_count} {h[3]} after {log[-8:]}")
                c.expect([e.step for e in k.events] == [e[0] for e in h[4]], "events", f"{n}")
                for e, (t, w, x, o) in zip(k.events, h[4]):
                    c.expect(e.module_name == "mod" and e.output_data == o, "event", f"{e}")
                    c.expect(e.input_data == x and type(e.input_data) is type(x), "event_input", f"{e.input_data!r} {x!r}")
                    c.same(e.state_snapshot["vec"], w["vec"], "event_later_change")
                    c.same(e.state_snapshot["pair"][0], w["pair"][0], "event_later_change")
    summary = d.get_summary()
    c.same(summary["total_steps"], steps, "summary")
    c.expect(set(summary["hooks"]) == set(hooks), "summary_hooks", "")
    for n, h in hooks.items():
        st = summary["hooks"][n]
        c.expect((st["hit_count"], st["enabled"], st["events"]) == (h[3], h[1], len(h[4])), "summary_hook", f"{st} {h}")
    c.same(summary["state_history_length"], len(history[-cap:]) if track else 0, "summary_history")
    if perf and times:
        pf = summary["performance"]
        c.same([pf["total_steps"], pf["avg_time_ms"], pf["max_time_ms"], pf["min_time_ms"]],
               [len(times), np.mean(times) * 1e3, max(times) * 1e3, min(times) * 1e3], "performance", rtol=1e-9)
    ex = d.export_events()
    for n, h in hooks.items():
        c.expect([e["step"] for e in ex["hooks"][n]] == [e[0] for e in h[4]], "export", f"{n}")
    c.raises(lambda: d.export_events("unknown"), "format", ValueError)
    c.state("debugger", cap, track, perf, tuple(log))
    del printed


@R.kind(weight=1)
def breakpoints(c):
    """A breakpoint waits for "continue"; quitting stops the program and leaves the debugger usable."""
    import builtins

    from wax.flax.debug.debugger import StreamingDebugger

    d = StreamingDebugger()
    every = c.int(1, 3)
    d.add_breakpoint("b", lambda t, s, x, o: t % every == 0)
    answers, read = [], []

    def fake(prompt=""):
        read.append(1)
        a = answers.pop(0)
        if a == "EOF":
            raise EOFError
        return a

    real, builtins.input = builtins.input, fake
    try:
        with quiet() as printed:
            for t in range(1, c.int(4, 9)):
                talk = [c.choice(["s", "state", "i", "o", "h", "??", " S "]) for _ in range(c.int(0, 3))]
                end = c.choice(["c", "continue", "EOF", "q", " C "])
                answers[:] = talk + [end]
                read.clear()
                hit = t % every == 0
                stopped = False
                try:
                    d.step("m", {"v": t}, t * 10, t * 100)
                except KeyboardInterrupt:
                    stopped = True
                c.expect(stopped == (hit and end == "q"), "quit", f"{stopped} {hit} {end}")
                c.expect(len(read) == (len(talk) + 1 if hit else 0), "commands", f"{read} {talk} {end}")
                c.count("breaks", hit)
                c.state("break", every, end, tuple(talk))
                ok = []
                th = threading.Thread(target=lambda: ok.append(d.get_summary()["total_steps"]), daemon=True)
                th.start()
                th.join(20)
                c.expect(ok == [t], "locked", f"{ok} {t}")
            del printed
    finally:
        builtins.input = real
    h = next(iter(d.hooks.values()))
    c.expect(h.hit_count == len(h.events) == (t // every), "hits", f"{h.hit_count} {t} {every}")
    c.nontrivial = True


@R.kind(weight=3)
def profiler(c):
    """Metrics, per-module summaries, bottlenecks and results against the recorded calls."""
    from wax.flax.debug.profiler import StreamingProfiler, create_performance_report

    cap = c.choice([3, 12, 1000])
    thr, leak = c.choice([5.0, 50.0]), c.choice([5.0, 20.0])
    mods = ["a", "b", "c"]
    T = c.int(1, 30)
    slope = c.choice([0.0, 0.3, 1.0, 4.0])
    mem = list(100 + slope * np.arange(T + 1) + c.rng.normal(size=T + 1) * 0.1)
    p = StreamingProfiler(bottleneck_threshold_ms=thr, memory_leak_threshold_mb=leak, max_history=cap,
                          enable_cpu_tracking=False)
    rec, step, slow = [], 0, []
    c.note(cap=cap, thr=thr, leak=leak, T=T, slope=slope)
    c.state("profiler", cap, thr, leak, T, slope)
    with process_memory(mem):
        for t in range(T):
            if c.flip(0.04):
                p.reset()
                rec, step, slow = [], 0, []
            if c.flip(0.1):
                (p.disable if p.enabled else p.enable)()
            n = c.choice(mods)
            dt = float(c.rng.exponential(0.02))
            data = c.choice([None, np.zeros(3, np.float32), {"a": np.zeros((2, 2)), "b": (1.0, [2])}, "abc",
                             np.float32(1.0), [np.zeros(4, np.int8), None]])
            want = {type(None): lambda v: 0, str: lambda v: 3}.get(type(data), nbytes)(data)
            jit = c.flip(0.2)
            if c.flip(0.2) and p.enabled:
                with p.start_step(n) as ctx:
                    ctx.set_jit_compilation(jit)
                dt, want = None, 0
            else:
                p.record_metrics(n, dt, data, data, jit)
            if not p.enabled:
                continue
            step += 1
            m = p.metrics[-1]
            c.expect((m.step, m.module_name, m.jit_compilation) == (step, n, jit), "metric", f"{m} {step} {n}")
            c.same([m.input_size, m.output_size], [want, want], "sizes", ctx=repr(data))
            if dt is None:
                dt = m.execution_time
            c.same(m.execution_time, dt, "time", rtol=0, atol=0)
            rec.append((n, dt, m.memory_usage, jit, step))
            if dt * 1000 > thr:
                slow.append((step, n))
            c.count("metrics")
            if len(rec) >= 2 and step > 1:
                c.same(m.memory_delta, rec[-1][2] - rec[-2][2], "delta", rtol=1e-6, atol=1e-6)
    kept = rec[-cap:]
    c.same([m.step for m in p.metrics], [r[4] for r in kept], "kept")
    c.same([m.memory_usage for m in p.metrics], [r[2] for r in kept], "memory")
    for n in mods:
        s = p.get_module_summary(n)
        mine = [r for r in kept if r[0] == n]
        if not mine:
            c.expect("error" in s, "no_data", f"{s}")
            continue
        ts = [r[1] * 1e3 for r in mine]
        c.same([s["total_invocations"], s["total_time_ms"], s["avg_time_ms"], s["max_time_ms"], s["min_time_ms"],
                s["peak_memory_mb"], s["jit_compilations"]],
               [len(mine), sum(ts), np.mean(ts), max(ts), min(ts), max(r[2] for r in mine), sum(r[3] for r in mine)],
               "module_summary", rtol=1e-9)
    res = p.finalize()
    c.same(res.total_steps, step, "total")
    c.expect([(b["step"], b["module"]) for b in res.bottlenecks] == slow, "bottlenecks", f"{res.bottlenecks} {slow}")
    if kept:
        ts = [r[1] for r in kept]
        sd = statistics.stdev(ts) if len(ts) > 1 else 0
        e = res.execution_stats
        c.same([e["mean"], e["median"], e["std_dev"], e["min"], e["max"]],
               [np.mean(ts), np.median(ts), sd, min(ts), max(ts)], "execution_stats", rtol=1e-9)
        q = res.get_summary()
        c.same([q["execution"]["total_time"], q["execution"]["avg_time_ms"], q["memory"]["peak_usage_mb"],
                q["jit_compilations"], q["bottlenecks"]],
               [sum(ts), np.mean(ts) * 1e3, max(r[2] for r in kept), sum(r[3] for r in kept), len(slow)], "summary",
               rtol=1e-9)
        c.expect(isinstance(create_performance_report(res), str), "report", "")
    mm = [r[2] for r in kept][-10:]
    grew = mm[-1] - mm[0] if len(mm) == 10 else 0.0
    found = p.detect_memory_leaks()
    if abs(grew - leak) > 1e-6:
        c.expect(bool(found) == (grew > leak), "leak", f"grew {grew} threshold {leak}: {found}")
    if found:
        c.same(found[0]["growth_mb"], grew, "leak_growth", rtol=1e-6)


@R.kind(weight=3)
def memory(c):
    """Snapshots every interval, their contents, and leaks from the trend of the process memory."""
    import jax.numpy as jnp
    from flax.core import FrozenDict

    from wax.flax.debug.memory_tracker import MemoryTracker

    k, cap, thr = c.choice([1, 2, 5]), c.choice([4, 12, 1000]), c.choice([5.0, 20.0])
    n = c.int(1, 24)
    slope = c.choice([0.0, 0.2, 0.6, 2.0, 8.0])
    mem = list(200 + slope * np.arange(n * k + 5) + c.rng.normal(size=n * k + 5) * c.choice([0.0, 0.1, 3.0]))
    t = MemoryTracker(enable_detailed_tracking=False, enable_gc_monitoring=False, snapshot_interval=k,
                      leak_detection_threshold_mb=thr, max_snapshots=cap)
    forced = c.flip(0.2)
    c.note(k=k, cap=cap, thr=thr, n=n, slope=slope, forced=forced)
    c.state("memory", k, cap, thr, n, slope, forced)
    snaps, steps, leaks = [], 0, []
    with process_memory(mem):
        for i in range(n * k):
            if c.flip(0.02):
                t.reset()
                snaps, steps, leaks = [], 0, []
            if c.flip(0.05):
                (t.disable if t.enabled else t.enable)()
            name = c.choice(["a", "b"])
            params = {"w": jnp.zeros(c.int(1, 50))}
            inner = {"EWMA_0": {"v": jnp.zeros((c.int(1, 9), 3))}, "Buffer_0": {"x": jnp.zeros(c.int(1, 9))}}
            form = c.choice(["vars", "state", "frozen", "frozen_vars", "none"])
            st = {"vars": {"params": params, "state": inner}, "state": {"state": inner},
                  "frozen": FrozenDict({"state": inner}), "frozen_vars": FrozenDict({"params": params, "state": inner}),
                  "none": None}[form]
            force = forced and c.flip(0.3)
            before = len(t.detected_leaks)
            s = t.take_snapshot(name, st, force=force)
            if not t.enabled:
                c.expect(s is None, "disabled", "")
                continue
            steps += 1
            due = force or steps % k == 0
            c.expect((s is not None) == due, "due", f"step {steps} interval {k} force {force}")
            if not due:
                continue
            c.expect((s.step, s.module_name) == (steps, name), "snapshot", f"{s}")
            mb = lambda tree: nbytes(tree) / 2**20  # noqa: E731
            want = [mb(inner) if form != "none" else 0.0, mb(params) if "vars" in form else 0.0,
                    mb(inner["Buffer_0"]) if form != "none" else 0.0]
            c.same([s.state_variables_mb, s.parameters_mb, s.buffers_mb], want, "state_memory", rtol=1e-9, atol=1e-12,
                   ctx=form)
            c.same(s.memory_delta_mb, s.process_memory_mb - snaps[-1][1] if snaps else 0.0, "delta", rtol=1e-9, atol=1e-9)
            snaps.append((steps, s.process_memory_mb, name, s.state_variables_mb))
            c.count("snapshots")
            w = snaps[-cap:][-10:]
            new = t.detected_leaks[before:]
            if len(snaps[-cap:]) < 5:
                c.expect(not new, "early", f"{new}")
                continue
            y = np.array([v[1] for v in w])
            grew = y[-1] - y[0]
            if grew <= thr - 1e-6:
                c.expect(not new, "leak_without_growth", f"grew {grew} of {thr}: {new}")
            if forced:
                continue
            rate = np.polyfit(np.array([v[0] for v in w], float), y, 1)[0]
            if abs(rate - thr / 100) > 1e-6 and abs(grew - thr) > 1e-6:
                c.expect(bool(new) == (rate > thr / 100 and grew > thr), "leak", f"rate {rate} grew {grew} thr {thr}: {new}")
            for lk in new:
                c.same([lk.total_leaked_mb, lk.growth_rate_mb_per_step], [grew, rate], "leak_size", rtol=1e-6, atol=1e-6)
                c.expect((lk.first_detected_step, lk.last_detected_step) == (w[0][0], w[-1][0]), "leak_steps", f"{lk}")
                c.expect(set(lk.affected_modules) == {v[2] for v in w}, "leak_modules", f"{lk}")
                c.count("leaks")
    kept = snaps[-cap:]
    c.same([s.step for s in t.snapshots], [s[0] for s in kept], "kept")
    q = t.get_memory_summary()
    if not kept:
        c.expect("error" in q, "empty", "")
        return
    y = [s[1] for s in kept]
    c.same([q["session"]["total_snapshots"], q["session"]["total_steps"], q["statistics"]["peak_memory_mb"],
            q["statistics"]["min_memory_mb"], q["statistics"]["avg_memory_mb"], q["statistics"]["total_growth_mb"]],
           [len(kept), steps, max(y), min(y), np.mean(y), y[-1] - y[0]], "summary", rtol=1e-9, atol=1e-9)
    for name in ("a", "b"):
        mine = [s for s in kept if s[2] == name]
        a = t.get_module_memory_analysis(name)
        if not mine:
            c.expect("error" in a, "no_data", "")
            continue
        ys = [s[1] for s in mine]
        c.same([a["snapshots_count"], a["memory_usage"]["current_mb"], a["memory_usage"]["peak_mb"],
                a["memory_usage"]["avg_mb"], a["memory_usage"]["growth_mb"], a["state_memory"]["peak_mb"]],
               [len(mine), ys[-1], max(ys), np.mean(ys), ys[-1] - ys[0], max(s[3] for s in mine)], "module", rtol=1e-9,
               atol=1e-9)
    c.expect(isinstance(t.generate_memory_report(), str), "report", "")


@R.kind(weight=2)
def threads(c):
    """Several threads report at once: every step is counted once and numbered uniquely."""
    from wax.flax.debug.debugger import DebugHook, StreamingDebugger
    from wax.flax.debug.memory_tracker import MemoryTracker
    from wax.flax.debug.profiler import StreamingProfiler

    n, m = c.int(2, 6), c.choice([20, 60, 150])
    d = StreamingDebugger(max_history=10**6)
    hook = DebugHook("even", lambda t, s, x, o: t % 2 == 0, "capture", max_events=10**6)
    d.add_hook(hook)
    p = StreamingProfiler(max_history=10**6, enable_memory_tracking=False, enable_cpu_tracking=False)
    t = MemoryTracker(enable_detailed_tracking=False, enable_gc_monitoring=False, snapshot_interval=3,
                      max_snapshots=10**6)
    with_tracker = c.flip(0.3)
    errors, start = [], threading.Barrier(n + 1)
    c.note(n=n, m=m, tracker=with_tracker)

    def work(w):
        try:
            start.wait()
            for i in range(m):
                d.step(f"w{w}", {"who": w, "i": i}, i, w, execution_time=0.001)
                p.record_metrics(f"w{w}", 0.001)
                if with_tracker and i % 4 == 0:
                    t.take_snapshot(f"w{w}")
        except Exception as e:  # noqa: BLE001
            errors.append(e)

    def read():
        try:
            start.wait()
            for _ in range(15):
                s = d.get_summary()
                c.count("reads")
                if s["state_history_length"] > s["total_steps"]:
                    errors.append(AssertionError(f"{s}"))
                if s["performance"] and s["performance"]["total_steps"] != s["total_steps"]:
                    errors.append(AssertionError(f"torn summary {s}"))
                p.finalize()
                p.get_module_summary("w0")
                d.export_events()
        except Exception as e:  # noqa: BLE001
            errors.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ths = [threading.Thread(target=work, args=(w,), daemon=True) for w in range(n)]
        ths.append(threading.Thread(target=read, daemon=True))
        for th in ths:
            th.start()
        for th in ths:
            th.join(120)
            c.expect(not th.is_alive(), "deadlock", "")
    finally:
        sys.setswitchinterval(old)
    c.expect(not errors, "error", f"{errors[:2]}")
    total = n * m
    c.same([d.current_step, p.step_count, len(d.state_history), len(p.metrics)], [total] * 4, "conserved")
    order = [(s["who"], s["i"]) for s in d.state_history]
    c.expect(len(set(order)) == total, "exactly_once", "")
    for w in range(n):
        c.expect([i for v, i in order if v == w] == list(range(m)), "thread_order", f"{w}")
    c.expect([x.step for x in p.metrics] == list(range(1, total + 1)), "numbering", "")
    c.expect([e.step for e in hook.events] == list(range(2, total + 1, 2)), "hook_steps", "")
    c.expect(hook.hit_count == total // 2, "hits", f"{hook.hit_count}")
    for e in hook.events:
        c.expect(order[e.step - 1] == (e.state_snapshot["who"], e.state_snapshot["i"]), "hook_state", f"{e.step}")
    c.same(list(d.performance_data["step"]), np.arange(1, total + 1), "performance_steps")
    if with_tracker:
        k = n * len(range(0, m, 4))
        c.same([t.step_count, len(t.snapshots)], [k, k // 3], "snapshots")
    switches = sum(a[0] != b[0] for a, b in zip(order, order[1:]))
    c.count("switches", switches)
    c.state("threads", n, m, switches)
    c.nontrivial = True

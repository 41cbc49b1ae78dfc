"""C01: synchronised streams show the past and only the past."""

from __future__ import annotations

import contextlib
import io

import numpy as np
import pandas as pd

from wv.core import Registry
from wv.streams import DAY, World, timeline
from wv.tools import key

ID = "C01"
RULE = (
    "random worlds of one local and 1-3 secondary timelines (ties, bursts, midnights, duplicates, nanosecond gaps, "
    "before/after the local range, daily embedding, forward-fill on/off, several dtypes, variables without time); "
    "oracle: a direct 'last observation strictly before the cut-off' reference and future perturbation; distinct by "
    "world"
)
ASSUMPTIONS = ["timelines are sorted nanosecond timestamps; time is the first dimension of a variable",
               "multi-dimensional strings are probed separately (known finding)"]
QUICK, THOROUGH = 40, 320
R = Registry()


def world(c, **kw):
    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    w = World(c, **kw)
    c.note(**w.desc())
    w.observe(c)
    return w


@R.kind(weight=5)
def visible_values(c):
    w = world(c, buffers=False)
    out, _ = w.stream().apply(lambda d: d)
    w.check(c, out, "seen")
    if c.flip(0.3):  # prepared by hand, with the encoders of the data by default
        import jax

        u, xs = w.stream().prepare(w.ds, lambda d: d)
        p, s = u.init(key(0), xs)
        again, _ = u.apply(p, s, None, xs)
        c.count("prepared_by_hand")
        c.tree_same(jax.tree_util.tree_leaves(again), jax.tree_util.tree_leaves(out), "prepared", rtol=0, atol=0)


@R.kind(weight=4)
def future_never_matters(c):
    """Rewriting everything a step cannot see leaves all outputs up to that step
    bitwise unchanged, state of the processing program included."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.modules import EWMA

    w = world(c, buffers=c.flip(), kinds="ffib", max_cols=1)

    def prog(d):
        out = {}
        for n in sorted(d):
            v = jnp.asarray(d[n], jnp.float32)
            if n in w.static:
                continue
            s = hk.get_state("sum_" + n, v.shape, v.dtype, init=jnp.zeros)
            s = s + jnp.nan_to_num(v)
            hk.set_state("sum_" + n, s)
            out[n] = (v, s, EWMA(com=2.0, name="e_" + n)(v))
        return out

    T = len(w.times["t"])
    k = c.int(0, T - 1)
    tk = int(w.times["t"][k])
    base, _ = w.stream().apply(prog)
    # perturb: values of everything at or after the cut-off of step k, and how
    # many / when later observations come
    ds = w.ds.copy(deep=True)
    for n, (d, kind, x) in w.vars.items():
        cut = tk + 1 if d == "t" else (tk // DAY) * DAY if d in w.freqs else tk
        later = w.times[d] >= cut
        y = x.copy()
        if kind == "b":
            y[later] = ~y[later]
        else:
            y[later] = (np.where(np.isnan(y[later]), 5, y[later]) if kind == "f" else y[later]) * 3 + 7
        c.count("future_rows_rewritten", later.sum())
        ds[n] = (w.ds[n].dims, y)
    if c.flip():
        for s in w.secs:
            ts = w.times[s]
            cut = (tk // DAY) * DAY if s in w.freqs else tk
            later = ts >= cut
            if later.any() and c.flip(0.7):
                ts = np.sort(np.where(later, cut + c.rng.integers(0, 2 * DAY, size=len(ts)), ts))
                ds = ds.assign_coords({s: ts.astype("M8[ns]")})
    other, _ = ds.wax.stream(local_time="t", format_outputs=False, **w.kwargs()).apply(prog)
    head = lambda o: jax.tree_util.tree_map(lambda v: np.asarray(v)[: k + 1], o)  # noqa: E731
    c.note(step=k)
    c.tree_same(head(other), head(base), "future_leaked", exact=True)


@R.kind(weight=2)
def truncation(c):
    """Running on the data available at step k gives the first k+1 outputs of
    the full run (streaming equals batch)."""
    import jax

    w = world(c, buffers=c.flip(), kinds="ffibd")
    T = len(w.times["t"])
    k = c.int(0, T - 1)
    c.note(k=k)
    full, _ = w.stream().apply(lambda d: d)
    tk = w.times["t"][k]
    sel = {"t": slice(0, k + 1)}
    for s in w.secs:
        n = int(np.sum(w.times[s] < tk))
        sel[s] = slice(0, max(1, n))  # at least one row: an empty timeline is not a stream
    part, _ = w.ds.isel(sel).wax.stream(local_time="t", format_outputs=False, **w.kwargs()).apply(lambda d: d)
    c.tree_same(part, jax.tree_util.tree_map(lambda v: np.asarray(v)[: k + 1], dict(full)), "prefix", rtol=0, atol=0)


@R.kind(weight=3)
def merged_trace(c):
    """The merged event stream itself, carrying data rather than indices: one
    event per local timestamp, in order, none lost, none repeated."""
    from wax.stream import Stream, split_dataset_from_time_dims, unroll_stream

    w = world(c, buffers=False, kinds="ffiub", max_cols=0)
    talk = c.choice([False, False, True, ["t"], list(w.secs)])  # progress messages change nothing
    c.note(verbose=talk)
    st = Stream(local_time="t", trace=False, **{**w.kwargs(), "verbose": talk})
    parts = split_dataset_from_time_dims(w.ds)
    c.expect(set(parts) == {"t", *w.secs}, "timelines")
    with contextlib.redirect_stdout(io.StringIO()):
        events = list(st.merge(st.start_dataset_streams(dict(parts))))
    c.count("events", len(events))
    c.expect(len(events) == len(w.times["t"]), "event_count", f"{len(events)} events")
    exp = w.expected()
    for n, (d, k, x) in w.vars.items():
        rows = exp[n][1][:, 0]
        for t, ev in enumerate(events):
            got = ev[d].value[n]
            if rows[t] < 0:
                want = {"f": np.nan, "i": -99999, "u": 0, "b": False}[k]
            else:
                want = x[rows[t]]
            c.same(got, want, "event_value", rtol=0, atol=0, ctx=f"{n} step {t}")
            if d == "t":
                c.expect(int(np.asarray(ev[d].time).astype("M8[ns]").astype(np.int64)) == int(w.times["t"][t]),
                         "event_time")
            elif rows[t] >= 0:
                c.expect(int(np.asarray(ev[d].time).astype("M8[ns]").astype(np.int64)) == int(w.times[d][rows[t]]),
                         "secondary_time")
                c.expect(int(w.times[d][rows[t]]) < int(w.times["t"][t]), "causality")
    skip = c.flip()
    # collecting the events
    got = unroll_stream(iter([{"a": np.float64(i), "b": np.array([i, -i])} for i in range(len(events) + 1)]),
                        skip_first=skip, pbar=False)
    r = np.arange(1 if skip else 0, len(events) + 1)
    c.same(got["a"], r, "collect", rtol=0, atol=0)
    c.same(got["b"], np.stack([r, -r], 1), "collect", rtol=0, atol=0)


@R.kind(weight=2)
def one_timeline(c):
    from wax.accessors import register_wax_accessors
    from wax.modules import Lag

    register_wax_accessors()
    import xarray as xr

    n = c.choice([1, 2, 10, 40])
    t = timeline(c, n, 0, 3 * DAY)
    a = c.rng.normal(size=(n, 2)).astype(np.float64 if c.x64 else np.float32)
    ds = xr.Dataset({"a": (("t", "k"), a), "b": (("t",), np.arange(n))}, coords={"t": t.astype("M8[ns]")})
    c.note(n=n, t=t.tolist())
    c.state(n)
    out, _ = ds.wax.stream(format_outputs=False).apply(lambda d: (d["a"], d["b"], Lag(1)(d["a"])))
    c.same(out[0], a, "identity", rtol=0, atol=0)
    c.same(out[1], np.arange(n), "identity", rtol=0, atol=0)
    c.same(out[2], np.concatenate([np.full((1, 2), np.nan), a[:-1]]), "lag", rtol=0, atol=0)
    two = ds.assign(z=(("s",), np.arange(3.0))).assign_coords(s=pd.date_range("2020", periods=3))
    c.raises(lambda: two.wax.stream().apply(lambda d: d), "ambiguous_clock", ValueError)


@R.kind(once=True)
def string_table(c):
    """Known finding: a variable of strings with more than one dimension."""
    import xarray as xr

    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    x = np.array([["w%d_%d" % (i, j) for j in range(2)] for i in range(4)])
    t = (np.arange(4) * 10**9).astype("M8[ns]")
    ds = xr.Dataset({"x": (("t", "k"), x)}, coords={"t": t, "k": np.arange(2)})
    c.note(shape=x.shape)
    out, _ = ds.wax.stream(local_time="t", format_outputs=False).apply(lambda d: d)
    c.count("rows_present", 4)
    u = np.unique(x)
    codes = np.searchsorted(u, x)
    got = np.asarray(out["x"])
    c.same(got, codes.ravel()[:4] if got.shape == (4,) else codes, "other", rtol=0, atol=0)
    c.expect(got.shape == codes.shape, "columns_lost", f"shape {got.shape} expected {codes.shape}")

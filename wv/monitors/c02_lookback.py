"""C02: lookback buffers and forward fill of secondary streams."""

from __future__ import annotations

import numpy as np

from wv.core import Registry
from wv.monitors.c01_sync import world
from wv.streams import DAY

ID = "C02"
RULE = (
    "as C01 with a lookback buffer (1-5) on secondary streams, with and without forward fill and daily embedding, "
    "multi-column and encoded data; oracle: last N strictly earlier observations, oldest first, padded at the front; "
    "relations between buffer, last value and forward fill; distinct by world"
)
ASSUMPTIONS = ["timelines are sorted nanosecond timestamps; time is the first dimension of a variable"]
QUICK, THOROUGH = 40, 320
R = Registry()


@R.kind(weight=5)
def buffers(c):
    w = world(c, buffers=True)
    out, _ = w.stream().apply(lambda d: d)
    w.check(c, out, "seen")


@R.kind(weight=3)
def relations(c):
    """The newest entry of a buffer is the value seen without a buffer; a longer
    buffer extends a shorter one; forward filling keeps what was seen last."""
    w = world(c, buffers=True, kinds="ffi")
    m = dict(w.maxlen)
    ff = dict(w.ffills)
    run = lambda: {k: np.asarray(v) for k, v in w.stream().apply(lambda d: d)[0].items()}  # noqa: E731
    base = run()
    w.maxlen = {}
    plain = run()
    w.maxlen = {s: n + 2 for s, n in m.items()}
    longer = run()
    w.maxlen = m
    w.ffills = {s: True for s in w.secs}
    filled = run()
    w.ffills = {}
    raw = run()
    w.ffills = ff
    for n, (d, k, x) in w.vars.items():
        if d not in m:
            continue
        c.count("buffers", len(base[n]))
        c.same(base[n][:, -1], plain[n], "newest_is_value", rtol=0, atol=0)
        c.same(longer[n][:, 2:], base[n], "longer_extends", rtol=0, atol=0)
        ix = w.index(d)
        fresh = []
        prev = 0
        for t in w.times["t"]:
            cut = (t // DAY) * DAY if d in w.freqs else t
            cnt = int((w.times[d] < cut).sum())
            fresh.append(cnt > prev)
            prev = cnt
        cur = None
        for i, f in enumerate(fresh):
            if f:
                cur = raw[n][i]
            want = cur if cur is not None else raw[n][i]
            c.same(filled[n][i], want, "ffill_keeps", rtol=0, atol=0)
        c.expect(len(ix) == len(base[n]), "steps")


@R.kind(weight=2)
def every_observation_once(c):
    """With a buffer large enough and no forward fill, the sequence of fresh
    buffer entries replays the secondary stream exactly once, in order."""
    w = world(c, buffers=False, kinds="i", max_cols=0)
    s = w.secs[0]
    w.freqs, w.ffills = {}, {}
    w.maxlen = {s: len(w.times[s]) + 1}
    name = next(n for n, (d, k, x) in w.vars.items() if d == s)
    x = w.vars[name][2]
    out = np.asarray(w.stream().apply(lambda d: d[name])[0])
    seen, prev = [], 0
    for row in out:
        vals = [v for v in row if v != -99999]
        if vals:
            c.expect(len(vals) > prev, "fresh", f"{vals} after {prev}")
            seen += vals[prev:]
            prev = len(vals)
    n = int((w.times[s] < w.times["t"][-1]).sum())
    c.count("replayed", len(seen))
    c.same(np.array(seen, np.int64), x[:n].astype(np.int64), "replay", rtol=0, atol=0)


@R.kind(weight=2)
def stateful_on_buffer(c):
    """A windowed computation on a buffered stream equals the same computation on
    the raw secondary data."""
    import jax.numpy as jnp

    w = world(c, buffers=True, kinds="f", max_cols=0)
    names = [n for n, (d, k, x) in w.vars.items() if d in w.maxlen]
    out, _ = w.stream().apply(lambda d: {n: (jnp.nansum(d[n]), jnp.sum(~jnp.isnan(d[n]))) for n in names})
    for n in names:
        rows = w.expected()[n][1]
        x = w.vars[n][2]
        v = np.where(rows < 0, np.nan, x[np.maximum(rows, 0)].astype(float))
        c.count("windows", len(v))
        c.same(out[n][0], np.nansum(v, axis=1), "sum", rtol=1e-5, atol=1e-4)
        c.same(out[n][1], (~np.isnan(v)).sum(axis=1), "count", rtol=0, atol=0)

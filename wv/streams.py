"""Multi-timeline workloads and the reference synchroniser."""

from __future__ import annotations

import numpy as np
import pandas as pd

DAY = 86_400_000_000_000
INIT = {"f": np.nan, "i": -99999, "u": 0, "b": False}


def timeline(c, n, lo, span, kind=None):
    """n sorted nanosecond timestamps in [lo, lo+span], with ties, bursts and midnights."""
    kind = kind or c.choice(["uniform", "burst", "regular", "midnight", "ties", "fine"])
    if kind == "regular":
        t = lo + (np.arange(n) * (span // max(1, n))).astype(np.int64)
    elif kind == "fine":
        t = lo + span // 2 + c.rng.integers(0, 5, size=n)
    else:
        t = lo + c.rng.integers(0, span + 1, size=n)
        if kind == "burst":
            a = lo + int(c.rng.integers(0, span + 1))
            m = c.rng.random(n) < 0.5
            t = np.where(m, a + c.rng.integers(0, 1000, size=n), t)
        elif kind == "midnight":
            m = c.rng.random(n) < 0.6
            t = np.where(m, (t // DAY) * DAY + c.rng.integers(-1, 2, size=n), t)
        elif kind == "ties":
            g = max(1, span // 6)
            t = lo + ((t - lo) // g) * g
    return np.sort(t.astype(np.int64))


def values(c, n, cols=(), kinds="ffibd", x64=True):
    """Distinct, identifiable values: (kind, array of n rows)."""
    k = c.choice(list(kinds))
    shape = (n,) + tuple(cols)
    size = int(np.prod(shape)) if n else 0
    base = c.rng.permutation(size).reshape(shape) + 1
    if k == "f":
        x = (base + 0.5).astype(np.float64 if x64 else np.float32)
        if c.flip(0.3):
            x = np.where(c.rng.random(shape) < 0.2, np.nan, x)
    elif k == "i":
        x = (base - size // 2).astype(np.int64 if x64 else np.int32)
    elif k == "u":
        x = base.astype(np.uint32)
    elif k == "b":
        x = c.rng.random(shape) < 0.5
    elif k == "d":  # a datetime column, encoded on the way in
        x = (base.astype(np.int64) * 86_399_999_999_937 + 3 - 2**40).astype("M8[ns]")
    elif k == "s":
        x = np.array(["w%03d" % v for v in base.ravel()]).reshape(shape)
    return k, x


class World:
    """A local timeline with secondaries; each stream has a few variables."""

    def __init__(self, c, buffers, kinds="ffibds", max_cols=1):
        import xarray as xr

        self.span = span = c.choice([3 * DAY, 3 * DAY, DAY // 3, 10 * DAY, 40])
        lo = int(pd.Timestamp(c.choice(["2020-02-27", "1969-12-30", "2000-01-01 17:35:01.000000003"])).value)
        self.local = "t"
        nl = c.choice([1, 2, 5, 12, 25])
        self.times = {"t": timeline(c, nl, lo, span)}
        self.secs = ["s%d" % i for i in range(c.choice([1, 1, 2, 3]))]
        self.freqs, self.ffills, self.maxlen = {}, {}, {}
        for s in self.secs:
            n = c.choice([1, 2, 4, 9, 30])
            off = int(c.choice([0, 0, 0, span, -span, -span - 5, span // 2]))
            self.times[s] = timeline(c, n, lo + off, span)
            if c.flip(0.3) and n > 1:  # exact ties with the local clock
                m = c.rng.random(n) < 0.5
                self.times[s] = np.sort(np.where(m, c.rng.choice(self.times["t"], size=n), self.times[s]))
            if c.flip(0.4):
                self.freqs[s] = "d"
            r = c.rng.random()
            if r < 0.5:
                self.ffills[s] = True
            elif r < 0.7:
                self.ffills[s] = False
            if buffers and (c.flip(0.75) or s == "s0"):
                self.maxlen[s] = c.choice([1, 2, 3, 5])
        self.vars = {}
        order = [self.local] + self.secs
        if c.flip():
            order = order[::-1]
        for d in order:
            for j in range(c.choice([1, 1, 2])):
                cols = c.choice([(), (), (2,), (3,)]) if max_cols else ()
                k, x = values(c, len(self.times[d]), cols, kinds if not cols else kinds.replace("s", "").replace("d", ""),
                              c.x64)
                self.vars["%s_v%d" % (d, j)] = (d, k, x)
        self.static = {}
        if c.flip(0.4):
            self.static["par"] = np.float32(c.rng.normal())
        if c.flip(0.4):
            self.static["vec"] = c.rng.normal(size=c.int(1, 4)).astype(np.float32)
        if c.flip(0.3):
            self.static["mat"] = c.rng.normal(size=(c.int(1, 3), c.int(1, 3))).astype(np.float32)
        items = list(self.vars.items())
        if c.flip():
            items = [items[i] for i in c.rng.permutation(len(items))]
        dv = {n: ((d,) + tuple("%s_c%d" % (n, i) for i in range(x.ndim - 1)), x) for n, (d, k, x) in items}
        for n, v in self.static.items():
            dv[n] = (tuple("%s_d%d" % (n, i) for i in range(np.ndim(v))), v)
        self.ds = xr.Dataset(dv, coords={d: self.times[d].astype("M8[ns]") for d in order})

    def desc(self):
        return dict(times={k: v.tolist() for k, v in self.times.items()}, freqs=self.freqs, ffills=self.ffills,
                    maxlen=self.maxlen, vars={n: (d, k, x.shape) for n, (d, k, x) in self.vars.items()},
                    static={k: np.shape(v) for k, v in self.static.items()})

    def kwargs(self):
        kw = {}
        if self.freqs:
            kw["freqs"] = self.freqs
        if self.ffills:
            kw["ffills"] = self.ffills
        if self.maxlen:
            kw["buffer_maxlen"] = self.maxlen
        return kw

    def stream(self, **kw):
        return self.ds.wax.stream(local_time=self.local, format_outputs=False, **self.kwargs(), **kw)

    def index(self, sec):
        """Reference: for each local step, the list of visible indices (last
        maxlen, or last one), or None when the stream shows nothing there."""
        out, prev = [], 0
        shown = None
        ts = self.times[sec]
        for t in self.times[self.local]:
            cut = (t // DAY) * DAY if sec in self.freqs else t
            n = int(np.sum(ts < cut))
            fresh = n > prev
            prev = max(n, prev)
            if fresh:
                shown = list(range(n))
            if fresh or self.ffills.get(sec, False):
                out.append(shown)
            else:
                out.append(None)
        return out

    def expected(self):
        """name -> array the program must see at each local step (decoded domain:
        datetimes as M8, strings as text; missing rows flagged separately)."""
        T = len(self.times[self.local])
        res = {}
        idx = {s: self.index(s) for s in self.secs}
        for n, (d, k, x) in self.vars.items():
            if d == self.local:
                res[n] = (k, np.asarray([[i] for i in range(T)]), False)
                continue
            m = self.maxlen.get(d)
            rows = []
            for v in idx[d]:
                vis = [] if v is None else v[-(m or 1):]
                rows.append([-1] * ((m or 1) - len(vis)) + vis)
            res[n] = (k, np.asarray(rows), m is not None)
        return res

    def check(self, c, out, sig):
        """Compare the arrays a program saw with the reference synchroniser."""
        enc = self.stream().get_encoders(self.ds)
        for n, (k, rows, buffered) in self.expected().items():
            d, _, x = self.vars[n]
            got = np.asarray(out[n])
            miss = rows < 0
            c.count("rows_missing", miss.sum())
            c.count("rows_present", (~miss).sum())
            if k == "d":
                codes = np.asarray(enc[n].encode(x)).astype(np.int64)
                want = np.where(miss[..., None], 0, codes[np.maximum(rows, 0)])
            elif k == "s":
                codes = np.asarray(enc[n].encode(x))
                want = np.where(miss, -99999, codes[np.maximum(rows, 0)])
            else:
                ext = x[np.maximum(rows, 0)]
                mm = miss.reshape(miss.shape + (1,) * (ext.ndim - 2))
                want = np.where(mm, INIT[x.dtype.kind], ext)
            if not buffered:
                want = want[:, 0]
            c.same(got, want, sig + "_" + ("buffer" if buffered else "local" if d == self.local else "value"),
                   rtol=0, atol=0, ctx=f"var {n}")
        T = len(self.times[self.local])
        for n, v in self.static.items():
            c.same(out[n], np.broadcast_to(v, (T,) + np.shape(v)), sig + "_static", rtol=0, atol=0, ctx=n)

    def observe(self, c):
        for s in self.secs:
            ix = self.index(s)
            c.count("steps", len(ix))
            c.count("steps_with_nothing", sum(v is None for v in ix))
            c.count("ties", np.isin(self.times[s], self.times[self.local]).sum())
            c.state(s in self.freqs, self.ffills.get(s), self.maxlen.get(s),
                    tuple(-1 if v is None else len(v) for v in ix))

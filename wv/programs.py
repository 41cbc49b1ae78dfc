"""Stateful programs used as workloads by the unroll/resume monitors."""

from __future__ import annotations

import numpy as np


def hk_programs():
    """name -> (function of one input row (float vector) and a bool flag)."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax import modules as m

    def acc(x, b):
        s = hk.get_state("s", x.shape, x.dtype, init=jnp.zeros)
        s = 0.9 * s + jnp.nan_to_num(x)
        hk.set_state("s", s)
        return s

    def learned(x, b):
        w = hk.get_parameter("w", x.shape, x.dtype, init=hk.initializers.RandomNormal())
        return {"y": w * x + acc(x, b), "n": m.Counter()()}

    def noisy(x, b):
        n = jax.random.normal(hk.next_rng_key(), x.shape, x.dtype)
        s = hk.get_state("s", x.shape, x.dtype, init=jnp.zeros)
        hk.set_state("s", s + n)
        return (x + n, s)

    def noisy_learned(x, b):
        y = hk.Linear(2)(jnp.nan_to_num(x))
        u = jax.random.uniform(hk.next_rng_key(), y.shape, y.dtype)
        return {"y": y * u, "s": acc(x, b)}

    def mix(x, b):
        e = m.EWMA(com=3.0)(x)
        return {"e": e, "v": m.EWMVar(com=3.0)(x), "l": m.Lag(2)(x), "d": (m.Diff()(x), m.HasChanged()(b)),
                "ev": m.UpdateOnEvent(m.EWMA(com=2.0))(b, x)}

    def rebased(x, b):
        """State and parameters initialised from the values of the first input."""
        first = hk.get_state("first", x.shape, x.dtype, init=lambda *_: jnp.nan_to_num(x))
        w = hk.get_parameter("w", x.shape, x.dtype, init=lambda *_: 1.0 + jnp.abs(jnp.nan_to_num(x)))
        return {"d": (x - first) / w, "n": m.Counter()()}

    deterministic = {
        "rebased": rebased, "acc": acc, "learned": learned, "mix": mix,
        "ewma": lambda x, b: m.EWMA(com=5.0, adjust="linear")(x),
        "ewma_p": lambda x, b: m.EWMA(alpha=0.2, min_periods=3, ignore_na=True)(x),
        "ewmvar": lambda x, b: m.EWMVar(com=2.0)(x),
        "ewmcov": lambda x, b: m.EWMCov(com=2.0)(x, x[::-1]),
        "buffer": lambda x, b: m.Buffer(4)(x),
        "lag": lambda x, b: m.Lag(3)(x),
        "pct": lambda x, b: m.PctChange(periods=1)(x),
        "roll": lambda x, b: m.RollingMean(3, min_periods=2)(x),
        "ffill": lambda x, b: m.Ffill()(x),
        "changed": lambda x, b: m.HasChanged()(x),
        "counter": lambda x, b: m.Counter()(),
        "ohlc": lambda x, b: m.OHLC()(x, reset_on=b),
        "event": lambda x, b: m.UpdateOnEvent(m.Buffer(3))(b, x),
    }
    return deterministic, {"noisy": noisy, "noisy_learned": noisy_learned}


def fx_programs():
    """name -> Flax module called with (row, flag)."""
    import flax.linen as nn
    import jax
    import jax.numpy as jnp

    from wax.flax import modules as m
    from wax.flax.core import update_on_event

    class W(nn.Module):
        kind: str

        @nn.compact
        def __call__(self, x, b):
            k = self.kind
            if k == "ewma":
                return m.EWMA(alpha=0.3)(x)
            if k == "ewma_lin":
                return m.EWMA(com=4.0, adjust="linear", min_periods=2)(x)
            if k == "ewmvar":
                return m.EWMVar(alpha=0.3)(x)
            if k == "buffer":
                return m.Buffer(maxlen=4)(x)
            if k == "lag":
                return m.Lag(lag=2)(x)
            if k == "roll":
                return m.RollingMean(horizon=3)(x)
            if k == "ffill":
                return m.Ffill()(x)
            if k == "changed":
                return m.HasChanged()(x)
            if k == "counter":
                return m.Counter()()
            if k == "ohlc":
                return m.ohlc.OHLC()(x, b)
            if k == "event":
                return update_on_event(event_fn=lambda v, f: f)(lambda v, f: m.EWMA(alpha=0.5)(v))(x, b)
            if k == "mix":
                return {"a": m.EWMA(alpha=0.1)(x), "b": (m.Lag(lag=1)(x), m.Diff()(x)), "n": m.Counter()()}
            if k == "learned":
                w = self.param("w", nn.initializers.normal(), x.shape)
                return w * m.EWMA(alpha=0.5)(x)
            if k == "rebased":
                first = self.variable("state", "first", lambda: jnp.nan_to_num(x))
                w = self.param("w", lambda *_: 1.0 + jnp.abs(jnp.nan_to_num(x)))
                return {"d": (x - first.value) / w, "n": m.Counter()()}
            if k == "noisy":
                n = jax.random.normal(self.make_rng("default"), x.shape, x.dtype)
                s = self.variable("state", "s", lambda: jnp.zeros(x.shape, x.dtype))
                s.value = s.value + n
                return x + n, s.value
            raise KeyError(k)

    det = ["ewma", "ewma_lin", "ewmvar", "buffer", "lag", "roll", "ffill", "changed", "counter", "ohlc", "event",
           "mix", "learned", "rebased"]
    return W, det, ["noisy"]


def rows(c, T, n=3):
    from wv.tools import series

    x = series(c, T, (n,), nan=c.choice(["none", "scatter", "lead", "burst"]))
    b = c.rng.random(T) < 0.4
    c.scale = max(getattr(c, "scale", 1.0), float(np.max(np.abs(x[np.isfinite(x)]), initial=0.0)))
    return x, b


def magnitude(c):
    """What absolute errors are in proportion to: the largest value given, or its square for second moments."""
    s = getattr(c, "scale", 1.0)
    names = [str(d.get("prog", "")) for d in c.desc]
    return s * s if any(n == "mix" or "var" in n or "cov" in n for n in names) else s

"""Recorder, comparators and case scheduling shared by all monitors.

A monitor module defines ``ID``, ``RULE`` and registers *kinds* with ``@kind``.
A kind is a function ``f(c)`` that draws a workload from ``c.rng``, drives the
real code, and reports what its oracle saw through ``c`` (a ``Case``).
Every case is addressed by (kind, seed, worker, index): that tuple replays it.
"""

from __future__ import annotations

import hashlib
import traceback
from collections import Counter

import numpy as np


class Violation(Exception):
    """Raised by a monitor when an observation contradicts the property."""

    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig = sig
        self.msg = msg


class Kind:
    def __init__(self, name, fn, weight, once, x64, few=False):
        self.name, self.fn, self.weight, self.once, self.x64, self.few = name, fn, weight, once, x64, few


class Registry:
    def __init__(self):
        self.kinds = []

    def kind(self, weight=1, once=False, x64=None, few=False):
        """Register a kind. ``once``: one deterministic run (worker 0 only).
        ``few``: an expensive kind, once per worker (quick) or eight times (thorough).
        ``x64``: only run in workers with that jax_enable_x64 setting."""

        def deco(fn):
            self.kinds.append(Kind(fn.__name__, fn, weight, once, x64, few))
            return fn

        return deco

    def by_name(self, name):
        for k in self.kinds:
            if k.name == name:
                return k
        raise KeyError(name)


def case_rng(prop, kind, seed, worker, index):
    h = hashlib.sha256(f"{prop}/{kind}/{seed}/{worker}/{index}".encode()).digest()
    return np.random.default_rng(np.frombuffer(h, dtype=np.uint32))


class Case:
    """One workload: its randomness, what was observed, and the verdicts."""

    def __init__(self, rng, tier, x64):
        self.rng = rng
        self.tier = tier
        self.x64 = x64
        self.counts = Counter()
        self.states = set()
        self.desc = []
        self.nontrivial = False
        self.evals = 0
        self.failures = []  # (sig, msg)

    # -- randomness helpers
    def choice(self, seq):
        seq = list(seq)
        return seq[int(self.rng.integers(len(seq)))]

    def flip(self, p=0.5):
        return bool(self.rng.random() < p)

    def int(self, lo, hi):
        """inclusive bounds"""
        return int(self.rng.integers(lo, hi + 1))

    # -- recording
    def note(self, **kw):
        self.desc.append(kw)

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def state(self, *key):
        """A distinct abstract state / interleaving the monitor saw."""
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def fail(self, sig, msg):
        raise Violation(sig, msg)

    def soft_fail(self, sig, msg):
        self.failures.append((sig, msg))

    def expect(self, cond, sig, msg=""):
        self.evals += 1
        if not cond:
            raise Violation(sig, msg or sig)

    def same(self, actual, expected, sig, rtol=None, atol=None, ctx=""):
        """``actual`` equals ``expected`` element by element (NaN equals NaN)."""
        self.evals += 1
        a = np.asarray(actual)
        e = np.asarray(expected)
        if a.shape != e.shape:
            raise Violation(sig, f"{sig}: shape {a.shape} expected {e.shape} {ctx}")
        if a.size == 0:
            return
        self.nontrivial = True
        if e.dtype.kind in "OUSMm" or a.dtype.kind in "OUSMm":
            if a.dtype.kind in "Mm" and e.dtype.kind in "Mm":
                ok = (a == e) | (np.isnat(a) & np.isnat(e))
            else:
                ok = a == e
        else:
            if e.dtype.kind == "b" and a.dtype.kind != "b" or e.dtype.kind != "b" and a.dtype.kind == "b":
                if rtol is None and atol is None:
                    pass
            a64 = a.astype(np.complex128 if a.dtype.kind == "c" else np.float64)
            e64 = e.astype(np.complex128 if e.dtype.kind == "c" else np.float64)
            if rtol is None:
                rtol = 1e-8 if self.x64 else 2e-4
            if atol is None:
                fin = e64[np.isfinite(e64)]
                scale = float(np.max(np.abs(fin))) if fin.size else 1.0
                atol = (1e-9 if self.x64 else 2e-5) * max(scale, 1e-3)
            with np.errstate(all="ignore"):
                ok = (a64 == e64) | (np.isnan(a64) & np.isnan(e64)) | (
                    np.isfinite(a64) & np.isfinite(e64) & (np.abs(a64 - e64) <= atol + rtol * np.abs(e64))
                )
        ok = np.asarray(ok)
        if not ok.all():
            idx = tuple(int(v[0]) for v in np.nonzero(~np.atleast_1d(ok)))
            av = np.atleast_1d(a)[idx]
            ev = np.atleast_1d(e)[idx]
            raise Violation(
                sig,
                f"{sig}: at {idx} got {av!r} expected {ev!r} ({int((~ok).sum())}/{ok.size} differ) {ctx}",
            )

    def exact(self, actual, expected, sig, ctx=""):
        """Bitwise equality (NaN equals NaN), dtype included."""
        a = np.asarray(actual)
        e = np.asarray(expected)
        self.evals += 1
        if a.dtype != e.dtype:
            raise Violation(sig, f"{sig}: dtype {a.dtype} expected {e.dtype} {ctx}")
        self.same(a, e, sig, rtol=0.0, atol=0.0, ctx=ctx)

    def tree_same(self, actual, expected, sig, rtol=None, atol=None, ctx="", exact=False):
        import jax

        ta, tb = jax.tree_util.tree_structure(actual), jax.tree_util.tree_structure(expected)
        self.evals += 1
        if ta != tb:
            raise Violation(sig, f"{sig}: tree {ta} expected {tb} {ctx}")
        for i, (x, y) in enumerate(zip(jax.tree_util.tree_leaves(actual), jax.tree_util.tree_leaves(expected))):
            if exact:
                self.exact(x, y, sig, ctx=f"leaf {i} {ctx}")
            else:
                self.same(x, y, sig, rtol=rtol, atol=atol, ctx=f"leaf {i} {ctx}")

    def raises(self, fn, sig, types=Exception, msg=""):
        self.evals += 1
        try:
            fn()
        except types:
            return
        raise Violation(sig, f"{sig}: expected an exception {msg}")


def run_case(mod, kind, seed, worker, index, tier, x64):
    """Run one case. Returns (case, failures [(sig, msg, tb)], error or None)."""
    c = Case(case_rng(mod.ID, kind.name, seed, worker, index), tier, x64)
    fails, err = [], None
    try:
        kind.fn(c)
    except Violation as v:
        fails.append((f"{kind.name}:{v.sig}", v.msg, ""))
    except (MemoryError, KeyboardInterrupt) as e:
        err = repr(e)
    except Exception as e:  # the code under test raised, or returned the wrong shape of thing
        tb = traceback.format_exc()
        fails.append((f"{kind.name}:raised:{type(e).__name__}", f"{type(e).__name__}: {str(e)[:300]}", tb[-3500:]))
    for sig, msg in c.failures:
        fails.append((f"{kind.name}:{sig}", msg, ""))
    return c, fails, err

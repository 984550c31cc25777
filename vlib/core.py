"""Building blocks shared by all checks: deterministic generators, monitors' counters, violations."""
from __future__ import annotations

import hashlib
import math
import random
from collections import Counter
from typing import Any, Callable

import numpy as np


class Violation(Exception):
    """The property is broken by the execution being monitored."""


class Case:
    """One generated execution: private randomness plus what the monitors observed."""

    def __init__(self, prop: str, seed: int, family: str, index: int, tier: str):
        self.prop, self.seed, self.family, self.index, self.tier = prop, seed, family, index, tier
        h = hashlib.sha256(f"{prop}|{seed}|{family}|{index}".encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        self.np = np.random.default_rng(int.from_bytes(h[8:16], "big"))
        self.counts: Counter = Counter()
        self.facts: dict[str, Any] = {}
        self.sig: set[str] = set()

    # ---- observations
    def count(self, what: str, n: int = 1):
        self.counts[what] += n

    def situation(self, *what):
        """Records a distinct non trivial situation class that was observed"""
        self.sig.add("/".join(str(w) for w in what))

    def note(self, **kw):
        """Inputs worth seeing in a replay file"""
        for k, v in kw.items():
            self.facts[k] = repr(v)[:2000]

    # ---- oracles
    def fail(self, msg: str, **kw):
        raise Violation(msg + ("" if not kw else " | " + ", ".join(f"{k}={_short(v)}" for k, v in kw.items())))

    def true(self, cond, msg: str, **kw):
        self.counts["checks"] += 1
        if not cond:
            self.fail(msg, **kw)

    def eq(self, a, b, msg: str, **kw):
        self.counts["checks"] += 1
        if not same(a, b):
            self.fail(msg, got=a, expected=b, **kw)

    def close(self, a, b, msg: str, atol=1e-9, rtol=1e-9, **kw):
        self.counts["checks"] += 1
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if x.shape != y.shape or not np.all(
            np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=False) | ((x == y) & np.isinf(x))
        ):
            self.fail(msg, got=a, expected=b, atol=atol, rtol=rtol, **kw)

    def le(self, a, b, msg: str, **kw):
        self.counts["checks"] += 1
        if not a <= b:
            self.fail(msg, got=a, bound=b, **kw)

    def raises(self, f: Callable, msg: str, exc=Exception, **kw):
        self.counts["checks"] += 1
        try:
            r = f()
        except exc:
            return
        self.fail(msg, returned=r, **kw)

    # ---- generators
    def u(self, a: float, b: float) -> float:
        return self.rng.uniform(a, b)

    def ang(self, turns: float = 1.0) -> float:
        return self.rng.uniform(-math.pi * turns, math.pi * turns)

    def pick(self, seq):
        return self.rng.choice(list(seq))

    def chance(self, p: float) -> bool:
        return self.rng.random() < p

    def int(self, a: int, b: int) -> int:
        return self.rng.randint(a, b)

    def sign(self) -> int:
        return self.rng.choice((-1, 1))


def _short(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + "..."


def same(a, b) -> bool:
    """Exact structural equality that understands numpy arrays"""
    if a is b:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            return np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))
        except Exception:
            return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


# ---------------------------------------------------------------- plane geometry (independent of the repository)
def rot(th: float) -> np.ndarray:
    c, s = math.cos(th), math.sin(th)
    return np.array([[c, -s], [s, c]])


def se2(x: float, y: float, th: float) -> np.ndarray:
    m = np.eye(3)
    m[:2, :2] = rot(th)
    m[:2, 2] = (x, y)
    return m


def wrap(a: float) -> float:
    return (a + math.pi) % (2 * math.pi) - math.pi


def cross2(a, b) -> float:
    return float(a[0] * b[1] - a[1] * b[0])


def clone(c: Case) -> Case:
    """A case that draws exactly the same random numbers from the beginning"""
    d = Case(c.prop, c.seed, c.family, c.index, c.tier)
    d.counts, d.sig, d.facts = c.counts, c.sig, c.facts
    return d

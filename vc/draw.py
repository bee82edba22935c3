"""Boundary-directed input generation for the executable (bounded) contracts.

Inputs are plain JSON values, so a failing case can be written out and
replayed.  Numeric literals of the current source steer the generator
(``hints``): values at, just beside and between the thresholds the code
compares against.  Literals that are not in the recorded baseline of the
source are preferred.  Hints only steer the search, they decide nothing.
"""
import ast
import json
import math
import os
import random


class Skip(Exception):
    """the case is outside the precondition"""


def mine(files):
    out = set()
    for f in files:
        try:
            tree = ast.parse(open(f, encoding="utf-8").read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                v = float(n.value)
                if math.isfinite(v) and abs(v) < 1e7:
                    out.add(v)
    return sorted(out)


class Draw:
    def __init__(self, seed, hints=(), new=(), model=()):
        self.r = random.Random(seed)
        self.hints = [h for h in hints if abs(h) > 1e-12]
        self.new = list(new)
        self.model = list(model)
        self.prev = []
        # one "focus" per case: how strongly this case leans on special values
        self.focus = self.r.random()

    def _jit(self, c):
        r = self.r
        k = r.random()
        if k < 0.35:
            return c
        if k < 0.5:
            return c * (1 + r.choice([-1, 1]) * 10 ** r.uniform(-9, -2))
        if k < 0.65:
            return c + r.choice([-1, 1]) * 10 ** r.uniform(-9, 0)
        if k < 0.75:
            return math.radians(c) if r.random() < .5 else math.degrees(c)
        if k < 0.9:
            return c * r.uniform(0.3, 3)
        return -c

    def _hint(self, lo, hi):
        r = self.r
        pools = []
        if self.model and r.random() < 0.4:
            pools = self.model
        elif self.new and r.random() < 0.6:
            pools = self.new
        elif self.hints:
            pools = self.hints
        if not pools:
            return None
        for _ in range(8):
            v = self._jit(r.choice(pools))
            if lo <= v <= hi:
                return v
        return None

    def real(self, lo, hi, special=()):
        r = self.r
        k = r.random()
        v = None
        p_hint = 0.45 if (self.new or self.model) and self.focus < 0.7 else 0.12
        if k < p_hint:
            v = self._hint(lo, hi)
        elif k < p_hint + 0.08:
            v = r.choice([lo, hi])
            if r.random() < 0.5:
                v += (1 if v == lo else -1) * 10 ** r.uniform(-9, -1) * min(1, hi - lo)
        elif k < p_hint + 0.14 and special:
            v = r.choice(list(special))
        elif k < p_hint + 0.19 and lo <= 0 <= hi:
            v = r.choice([0.0, 10 ** r.uniform(-9, -1), -10 ** r.uniform(-9, -1)])
        elif k < p_hint + 0.24 and self.prev:
            v = r.choice(self.prev)
        elif k < p_hint + 0.29 and lo >= 0 and hi > 10:
            v = math.exp(r.uniform(math.log(max(lo, 1e-3)), math.log(hi)))
        if v is None or not (lo <= v <= hi):
            v = r.uniform(lo, hi)
        self.prev.append(v)
        if len(self.prev) > 12:
            self.prev.pop(0)
        return float(v)

    def plain(self, lo, hi):
        return self.r.uniform(lo, hi)

    def int(self, lo, hi):
        r = self.r
        if r.random() < 0.25:
            return r.choice([lo, hi])
        if r.random() < 0.2:
            c = [int(h) for h in (self.new or self.hints) if lo <= h <= hi]
            if c:
                return max(lo, min(hi, r.choice(c) + r.choice([-1, 0, 0, 1])))
        return r.randint(lo, hi)

    def bool(self, p=0.5):
        return self.r.random() < p

    def choice(self, xs):
        return self.r.choice(list(xs))

    def incs(self, n, lo=0.0, hi=math.pi):
        return [self.real(lo, hi, (0.0, math.pi / 2, math.pi / 4, 1e-8)) for _ in range(n)]

    def azis(self, n, lo=0.0, hi=2 * math.pi):
        return [self.real(lo, hi, (0.0, math.pi / 2, math.pi, 3 * math.pi / 2)) for _ in range(n)]


class Dyn:
    """executable contract on the real code: bounded, never counted as proof"""
    def __init__(self, name, gen, check, n=(400, 8000), directed=(), files=()):
        self.name, self.gen, self.check, self.n = name, gen, check, n
        self.directed = list(directed)


def close(a, b, rtol=1e-9, atol=1e-9):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))))

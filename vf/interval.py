"""Fast sign and range facts of terms under a path condition (sound interval reasoning)."""
from __future__ import annotations

import math

from . import expr as X

INF = math.inf
PI_LO, PI_HI = 3.1415926535897927, 3.1415926535897936


def _dn(x):
    return x if x in (0.0, INF, -INF) else math.nextafter(math.nextafter(x, -INF), -INF)


def _up(x):
    return x if x in (0.0, INF, -INF) else math.nextafter(math.nextafter(x, INF), INF)


def _f(fr):
    try:
        v = float(fr)
    except OverflowError:
        return (-INF, INF)
    return (v, v) if v == fr else (_dn(v), _up(v))


class Facts:
    """closed interval + 'non zero' flag per term"""

    def __init__(self, pc):
        self.lo, self.hi, self.nz = {}, {}, set()
        self.c = {}
        for b in pc:
            self.learn(b, True)
        for _ in range(2):  # facts between two terms
            self.c = {}
            for b in pc:
                self.learn2(b, True)
        self.c = {}

    def learn(self, b, v):
        if b.op == "not":
            return self.learn(b.args[0], not v)
        if b.op == "and" and v:
            for a in b.args:
                self.learn(a, True)
            return
        if b.op == "lt":
            x, y = b.args
            if not v:
                x, y = y, x  # y <= x
            for t, c, up in ((x, y, True), (y, x, False)):
                if c.op == "c":
                    lo, hi = _f(c.args[0])
                    self.put(t, hi if up else None, None if up else lo)
                    if v and c.args[0] == 0:
                        self.nz.add(t.id)
        if b.op == "eq":
            x, y = b.args
            for t, c in ((x, y), (y, x)):
                if c.op == "c":
                    lo, hi = _f(c.args[0])
                    if v:
                        self.put(t, hi, lo)
                    elif c.args[0] == 0:
                        self.nz.add(t.id)

    def put(self, t, hi, lo):
        if hi is not None:
            self.hi[t.id] = min(hi, self.hi.get(t.id, INF))
        if lo is not None:
            self.lo[t.id] = max(lo, self.lo.get(t.id, -INF))
        if t.op == "neg":
            self.put(t.args[0], None if lo is None else -lo, None if hi is None else -hi)
        if t.op == "sqrt" and lo is not None and lo > 0:
            self.put(t.args[0], None, _dn(lo * lo))

    def learn2(self, b, v):
        if b.op == "not":
            return self.learn2(b.args[0], not v)
        if b.op == "and" and v:
            for a in b.args:
                self.learn2(a, True)
            return
        if b.op == "lt" and b.args[0].op != "c" and b.args[1].op != "c":
            x, y = b.args if v else (b.args[1], b.args[0])
            lx, hx, _ = self.iv(x)
            ly, hy, _ = self.iv(y)
            if hy < INF:
                self.put(x, hy, None)
            if lx > -INF:
                self.put(y, None, lx)
            if v and (hy <= 0):
                self.nz.add(x.id)
            if v and lx >= 0:
                self.nz.add(y.id)

    def iv(self, e):
        todo = [e]
        while todo:
            n = todo[-1]
            if n.id in self.c:
                todo.pop()
                continue
            miss = [a for a in n.args if isinstance(a, X.E) and a.id not in self.c]
            if miss:
                todo += miss
                continue
            lo, hi, nz = self.one(n)
            lo = max(lo, self.lo.get(n.id, -INF))
            hi = min(hi, self.hi.get(n.id, INF))
            self.c[n.id] = (lo, hi, nz or n.id in self.nz or lo > 0 or hi < 0)
            todo.pop()
        return self.c[e.id]

    def one(self, n):
        a = [self.c[x.id] for x in n.args if isinstance(x, X.E)]
        op = n.op
        if op == "c":
            lo, hi = _f(n.args[0])
            return lo, hi, n.args[0] != 0
        if op == "pi":
            return PI_LO, PI_HI, True
        if op == "+":
            (l1, h1, z1), (l2, h2, z2) = a
            lo, hi = _dn(l1 + l2), _up(h1 + h2)
            if math.isnan(lo):
                lo = -INF
            if math.isnan(hi):
                hi = INF
            nz = (l1 >= 0 and l2 >= 0 and (z1 or z2)) or (h1 <= 0 and h2 <= 0 and (z1 or z2))
            if l1 >= 0 and l2 >= 0:
                lo = max(lo, 0.0)
            if h1 <= 0 and h2 <= 0:
                hi = min(hi, 0.0)
            return lo, hi, nz
        if op == "neg":
            return -a[0][1], -a[0][0], a[0][2]
        if op == "*":
            (l1, h1, z1), (l2, h2, z2) = a
            ps = [self.mul(x, y) for x in (l1, h1) for y in (l2, h2)]
            lo, hi = _dn(min(ps)), _up(max(ps))
            if n.args[0] is n.args[1] or (n.args[0].op == "neg" and n.args[0].args[0] is n.args[1]) :
                if n.args[0] is n.args[1]:
                    lo = max(lo, 0.0)
            return lo, hi, z1 and z2
        if op == "/":
            (l1, h1, z1), (l2, h2, z2) = a
            if l2 > 0 or h2 < 0:
                ps = [self.div(x, y) for x in (l1, h1) for y in (l2, h2)]
                return _dn(min(ps)), _up(max(ps)), z1
            lo, hi = -INF, INF
            if z2:
                if (l1 >= 0 and l2 >= 0) or (h1 <= 0 and h2 <= 0):
                    lo = 0.0
                if (l1 >= 0 and h2 <= 0) or (h1 <= 0 and l2 >= 0):
                    hi = 0.0
            return lo, hi, z1
        if op == "sqrt":
            l, h, z = a[0]
            return max(0.0, _dn(math.sqrt(l)) if l > 0 else 0.0), (_up(math.sqrt(h)) if 0 <= h < INF else INF), z and l >= 0
        if op == "sin":
            l, h, z = a[0]
            if l >= 0 and h <= PI_LO:
                return 0.0, 1.0, z and h < PI_LO
            if h <= 0 and l >= -PI_LO:
                return -1.0, 0.0, z and l > -PI_LO
            return -1.0, 1.0, False
        if op == "cos":
            l, h, z = a[0]
            if l >= -PI_LO / 2 and h <= PI_LO / 2:
                return 0.0, 1.0, l > -PI_LO / 2 and h < PI_LO / 2
            if l >= PI_HI / 2 and h <= PI_LO:
                return -1.0, 0.0, l > PI_HI / 2
            return -1.0, 1.0, False
        if op == "atan2":
            (ly, hy, zy), (lx, hx, zx) = a
            lo, hi, nz = -PI_HI, PI_HI, zy
            if ly >= 0:
                lo = 0.0
            if hy < 0:
                hi = 0.0
            if lx > 0 or (lx >= 0 and zx):
                lo, hi = max(lo, -PI_HI / 2), min(hi, PI_HI / 2)
                if hy <= 0:
                    hi = min(hi, 0.0)
            return lo, hi, nz
        if op == "acos":
            return 0.0, PI_HI, False
        if op == "asin":
            return -PI_HI / 2, PI_HI / 2, a[0][2]
        if op == "f:exp":
            return 0.0, INF, True
        return -INF, INF, False

    @staticmethod
    def mul(x, y):
        if x == 0 or y == 0:
            return 0.0
        return x * y

    @staticmethod
    def div(x, y):
        if x == 0 or abs(y) == INF:
            return 0.0
        if abs(x) == INF:
            return x if y > 0 else -x
        return x / y

    def sign(self, e):
        """1, -1, 0 (non-negative), None"""
        l, h, z = self.iv(e)
        if l >= 0:
            return 1 if z else 0
        if h <= 0 and z:
            return -1
        return None

    def decide(self, b):
        """truth value of an atom, or None"""
        if b.op == "not":
            r = self.decide(b.args[0])
            return None if r is None else not r
        if b.op == "lt":
            lx, hx, zx = self.iv(b.args[0])
            ly, hy, zy = self.iv(b.args[1])
            if hx < ly:
                return True
            if lx >= hy:
                return False
            if hx <= 0 and ly >= 0 and (zx or zy):
                return True
        if b.op == "eq":
            lx, hx, zx = self.iv(b.args[0])
            ly, hy, zy = self.iv(b.args[1])
            if hx < ly or hy < lx:
                return False
            if (zx and ly == hy == 0) or (zy and lx == hx == 0):
                return False
        return None

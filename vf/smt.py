"""Translation of terms to z3 (non-linear real arithmetic + axioms for atoms)."""
from __future__ import annotations

import time

import z3

from . import expr as X

STATS = {"queries": 0, "time": 0.0}
SCALE = 1.0  # of every time limit


class Tr:
    def __init__(self):
        self.m = {}
        self.axioms = []
        self.pi = None
        self.angles = {}

    def real(self, name):
        return z3.Real(name)

    def PI(self):
        if self.pi is None:
            self.pi = z3.Real("pi!")
            self.axioms += [self.pi > z3.RealVal("3.14159265358979"), self.pi < z3.RealVal("3.14159265358980")]
        return self.pi

    def sc(self, arg):
        k = arg.id
        if k not in self.angles:
            s, c = z3.Real("sin!%d" % k), z3.Real("cos!%d" % k)
            self.axioms.append(s * s + c * c == 1)
            self.axioms += [s <= 1, s >= -1, c <= 1, c >= -1]
            t, pi = self.m.get(arg.id), self.PI()
            if t is not None and arg.op not in ("atan2", "acos", "asin"):
                self.axioms += [z3.Implies(z3.And(t > -pi / 2, t < pi / 2), c > 0), z3.Implies(z3.And(t > 0, t < pi), s > 0),
                                z3.Implies(z3.And(t < 0, t > -pi), s < 0), z3.Implies(t == 0, c == 1)]
            self.angles[k] = (s, c)
        return self.angles[k]

    def tr(self, *roots):
        for n in X.topo(roots):
            if n.id not in self.m:
                self.m[n.id] = self.one(n)
        return [self.m[r.id] for r in roots]

    def one(self, n):
        a = [self.m[x.id] for x in n.args if isinstance(x, (X.E, X.B))]
        op = n.op
        if op == "c":
            f = n.args[0]
            return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
        if op == "v":
            return z3.Real(n.args[0])
        if op == "bv":
            return z3.Bool(n.args[0])
        if op == "pi":
            return self.PI()
        if op == "+":
            return a[0] + a[1]
        if op == "*":
            return a[0] * a[1]
        if op == "/":
            q = z3.Real("quot!%d" % n.id)
            self.axioms.append(z3.Implies(a[1] != 0, q * a[1] == a[0]))
            return q
        if op == "neg":
            return -a[0]
        if op == "sqrt":
            s = z3.Real("sqrt!%d" % n.id)
            self.axioms += [s >= 0, z3.Implies(a[0] >= 0, s * s == a[0])]
            return s
        if op == "sin":
            return self.sc(n.args[0])[0]
        if op == "cos":
            return self.sc(n.args[0])[1]
        if op == "atan2":
            t = z3.Real("atan2!%d" % n.id)
            pi = self.PI()
            y, x = a
            s, c = self.sc(n)
            r = z3.Real("rad!%d" % n.id)
            self.axioms += [t <= pi, t > -pi, r >= 0, r * r == x * x + y * y, r * s == y, r * c == x,
                            z3.Implies(y > 0, t > 0), z3.Implies(y < 0, t < 0),
                            z3.Implies(z3.And(y == 0, x > 0), t == 0),
                            z3.Implies(x > 0, z3.And(t < pi / 2, t > -pi / 2)),
                            z3.Implies(x < 0, z3.Or(t > pi / 2, t < -pi / 2))]
            return t
        if op == "acos":
            t = z3.Real("acos!%d" % n.id)
            s, c = self.sc(n)
            self.axioms += [t >= 0, t <= self.PI(), z3.Implies(z3.And(a[0] >= -1, a[0] <= 1), c == a[0]), s >= 0]
            return t
        if op == "asin":
            t = z3.Real("asin!%d" % n.id)
            s, c = self.sc(n)
            self.axioms += [t >= -self.PI() / 2, t <= self.PI() / 2,
                            z3.Implies(z3.And(a[0] >= -1, a[0] <= 1), s == a[0]), c >= 0]
            return t
        if op in ("nan", "inf"):
            return z3.Real(op + "!")
        if op == "lt":
            return a[0] < a[1]
        if op == "eq":
            return a[0] == a[1]
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(*a)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op.startswith("f:"):
            nm = op[2:]
            f = z3.Function(nm + "!", *([z3.RealSort()] * (len(a) + 1)))
            t = f(*a)
            if nm == "exp":
                self.axioms.append(t > 0)
            if nm == "floor":
                self.axioms += [t <= a[0], t > a[0] - 1, z3.IsInt(t)]
            return t
        raise NotImplementedError(op)


def check(conds, timeout_ms=2000, want_model=False):
    """Satisfiability of a conjunction of B terms: 'sat' | 'unsat' | 'unknown'."""
    t0 = time.time()
    tr = Tr()
    fs = tr.tr(*conds) if conds else []
    s = z3.Solver()
    s.set("timeout", int(timeout_ms * SCALE))
    for f in fs:
        s.add(f)
    for f in tr.axioms:
        s.add(f)
    r = str(s.check())
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    if want_model:
        m = None
        if r == "sat":
            m = {}
            mod = s.model()
            for v in X.variables(*conds):
                q = mod.eval(z3.Real(v), model_completion=True)
                if z3.is_algebraic_value(q):
                    q = q.approx(20)
                if z3.is_rational_value(q):
                    m[v] = float(q.as_fraction())
        return r, m
    return r


def valid(hyps, goal, timeout_ms=10000):
    """'unsat' means proved."""
    return check(list(hyps) + [X.not_(goal)], timeout_ms, want_model=True)

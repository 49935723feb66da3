"""Path exploration by re-execution: every symbolic branch is decided by decide()."""
from __future__ import annotations

import time
from fractions import Fraction

from . import alg
from . import expr as X
from . import smt
from .interval import Facts


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    pass


_cur = None


def signs_for(pc):
    cache = {}
    facts = Facts(pc)

    def sg(e):
        if e.id in cache:
            return cache[e.id]
        r = facts.sign(e)
        if r is not None:
            cache[e.id] = r = 1 if r >= 0 else -1
            return r
        if smt.check(list(pc) + [X.lt(e, X.ZERO)], 3000) == "unsat":
            r = 1
        elif smt.check(list(pc) + [X.gt(e, X.ZERO)], 3000) == "unsat":
            r = -1
        cache[e.id] = r
        return r

    return sg


def canon(b, pc, secs=3.0):
    """an equivalent comparison of polynomials (denominators are non-zero on the domain), or None"""
    if b.op == "not":
        c = canon(b.args[0], pc, secs)
        return None if c is None else X.not_(c)
    if b.op not in ("lt", "eq"):
        return None
    u, v = b.args
    if b.op == "lt":
        if u.op == "sqrt" and v.op == "c":
            if v.args[0] <= 0:
                return X.FALSE
            u, v = u.args[0], v * v
        elif v.op == "sqrt" and u.op == "c":
            if u.args[0] < 0:
                return X.TRUE
            u, v = u * u, v.args[0]
    elif u.op == "sqrt" and v is X.ZERO:
        u = u.args[0]
    elif v.op == "sqrt" and u is X.ZERO:
        v, u = v.args[0], X.ZERO
    A = alg.Alg(None, 4000, time.time() + secs * smt.SCALE, signs_for(pc))
    for _ in range(20):
        try:
            n, d = A.rat(X.sub(u, v))
            break
        except alg.Restart:
            A.reset()
        except (alg.TooBig, alg.Undecided):
            return None
    else:
        return None
    if len(n) > LARGEST:
        return None
    root, rest = A.sqf(n)
    N = None
    if root is not None and b.op == "lt" and root:
        # n = rest * square: keep the square only when it may vanish
        N = A.poly_expr(rest)
        for p, k in root:
            pe = A.poly_expr(p)
            if pe is None or N is None:
                return None
            if A.signs(pe) is None:
                N = X.mul(N, X.power(pe, 2))
    else:
        N = A.poly_expr(n)
    if N is None:
        return None
    if b.op == "eq":
        return X.eq(N, X.ZERO)
    s = 1
    for f, e in d.items():
        if f[0] != "i" and e % 2:
            sg = A.sign_of(A.factor_poly(f))
            if sg is None:
                pe = A.poly_expr(A.factor_poly(f))
                if pe is None:
                    return None
                N = X.mul(N, pe)
            else:
                s *= sg
    return X.lt(N, X.ZERO) if s > 0 else X.lt(X.ZERO, N)


LARGEST = 1500  # monomials
BRANCHED = 60
ASSUMED = {}
FORMS = {}
FORM_ALG = [None]


def form(c):
    """u < v as (monomials, constant) of u - v"""
    if c.id not in FORMS:
        if FORM_ALG[0] is None:
            FORM_ALG[0] = alg.Alg(None, 4000, None, None)
            FORMS.clear()
        r = None
        try:
            FORM_ALG[0].deadline = time.time() + 3 * smt.SCALE
            n, d = FORM_ALG[0].rat(X.sub(*c.args))
            if not d:
                r = ({m: Fraction(v) for m, v in n.items() if m}, Fraction(n.get(0, 0)))
        except (alg.Restart, alg.TooBig, alg.Undecided):
            FORM_ALG[0] = None
        FORMS[c.id] = (r, c)
    return FORMS[c.id][0]


class Run:
    def __init__(self, prefix, assumptions, feas_ms):
        self.prefix = prefix
        self.pos = 0
        self.pc = list(assumptions)
        self.assumptions = list(assumptions)
        self.canon_done = False
        self.cassumed = []
        self.known = {}
        for c in self.pc:
            self._learn(c)
        self.taken = []  # (value, other_possible)
        self.canons = {}
        self.extra = []  # original forms of canonicalised conditions
        self.feas_ms = feas_ms
        self.seq = 0
        self.facts = None
        self.nfacts = -1

    def _learn(self, c):
        self.known[c.id] = True
        self.known[X.not_(c).id] = False
        if c.op == "and":
            for a in c.args:
                self._learn(a)
        # a<b  =>  not b<a, not a==b
        if c.op == "lt":
            self.known[X.lt(c.args[1], c.args[0]).id] = False
            q = X.eq(c.args[0], c.args[1])
            self.known[q.id] = False
            self.known[X.not_(q).id] = True
        if c.op == "eq":
            for p in (X.lt(*c.args), X.lt(*reversed(c.args))):
                self.known[p.id] = False
                self.known[X.not_(p).id] = True

    def assume(self, c):
        if c is X.TRUE:
            return
        if c is X.FALSE or self.known.get(c.id) is False:
            raise Infeasible()
        self.pc.append(c)
        self._learn(c)

    def decide(self, b):
        if b is X.TRUE:
            return True
        if b is X.FALSE:
            return False
        if b.op == "not":
            return not self.decide(b.args[0])
        if b.op == "and":
            return self.decide(b.args[0]) and self.decide(b.args[1])
        k = self.known.get(b.id)
        if k is not None:
            return k
        if self.facts is None or self.nfacts != len(self.pc):
            self.facts, self.nfacts = Facts(self.pc), len(self.pc)
        k = self.facts.decide(b)
        if k is not None:
            self.known[b.id] = k
            self.known[X.not_(b).id] = not k
            return k
        if len(X.topo([b])) > 40:
            if b.id not in self.canons:
                self.canons[b.id] = canon(b, self.pc)
            c = self.canons[b.id]
            if c is not None and c is not b:
                self.canon_assumptions()
                k = self.proportional(c)
                if k is not None:
                    self.known[b.id] = k
                    self.known[X.not_(b).id] = not k
                    return k
            if c is not None and c is not b and self.short(c):
                r = self.decide1(c)
                self.known[b.id] = r
                self.known[X.not_(b).id] = not r
                self.extra.append(b if r else X.not_(b))
                return r
        return self.decide1(b)

    def short(self, c):
        c = c.args[0] if c.op == "not" else c
        N = form(c) if c.op in ("lt", "eq") else None
        return N is None or len(N[0]) <= BRANCHED

    def canon_assumptions(self):
        """the assumptions in the form the branch conditions are compared in"""
        if self.canon_done:
            return
        self.canon_done = True
        for a in self.assumptions:
            if len(X.topo([a])) > 20 and a.op in ("lt", "eq", "not"):
                if a.id not in ASSUMED:
                    ASSUMED[a.id] = (canon(a, self.assumptions), a)
                c = ASSUMED[a.id][0]
                if c is not None:
                    self.cassumed.append(c)
                if c is not None and c is not a and c.id not in self.known:
                    self.assume(c)

    def proportional(self, b):
        """decides b from an assumption about the same polynomial up to a factor and a constant"""
        c, neg = (b.args[0], True) if b.op == "not" else (b, False)
        if c.op not in ("lt", "eq"):
            return None
        N = form(c)
        for a in self.cassumed:
            p, flip = (a.args[0], True) if a.op == "not" else (a, False)
            if p.op != "lt" or N is None:
                continue
            M = form(p)  # p: M < 0
            if M is None or len(M[0]) != len(N[0]) or not M[0]:
                continue
            k = None
            for m, v in N[0].items():
                w = M[0].get(m)
                if w is None or (k is not None and v != k * w):
                    break
                k = v / w
            else:
                rest = N[1] - k * M[1]
                # N = k M + rest, and M < 0 (or M >= 0 when flip)
                up = (k > 0) != flip
                if c.op == "eq":
                    if (up and rest <= 0 or not up and rest >= 0) and (rest != 0 or not flip):
                        return neg
                    continue
                #  N < rest (<= when flip), otherwise N > rest
                if up and (rest < 0 or (rest == 0 and not flip)):
                    return not neg
                if not up and rest >= 0:
                    return neg
        return None

    def decide1(self, b):
        if b is X.TRUE:
            return True
        if b is X.FALSE:
            return False
        if b.op == "not":
            return not self.decide1(b.args[0])
        k = self.known.get(b.id)
        if k is None:
            k = self.facts.decide(b)
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.taken.append((v, False))
            self.assume(b if v else X.not_(b))
            return v
        self.pos += 1
        nb = X.not_(b)
        r1 = smt.check(self.pc + [b], self.feas_ms)
        if r1 == "unsat":
            self.known[b.id] = False
            self.known[nb.id] = True
            self.taken.append((False, False))
            return False
        r2 = smt.check(self.pc + [nb], self.feas_ms)
        if r2 == "unsat":
            self.known[b.id] = True
            self.known[nb.id] = False
            self.taken.append((True, False))
            return True
        self.taken.append((True, True))
        self.assume(b)
        return True


def decide(b):
    if b is X.TRUE:
        return True
    if b is X.FALSE:
        return False
    if _cur is None:
        raise RuntimeError("symbolic branch outside of a path exploration: %r" % (b,))
    return _cur.decide(b)


def assume(b):
    _cur.assume(X.liftb(b))


def current():
    return _cur


def current_pc():
    return list(_cur.pc) if _cur is not None else []


class Path:
    def __init__(self, pc, result, exc, extra=()):
        self.pc, self.result, self.exc, self.extra = pc, result, exc, list(extra)


def explore(fn, assumptions=(), max_paths=400, feas_ms=500, catch=(Exception,)):
    """All feasible paths of fn().  Raises PathLimit rather than dropping any."""
    global _cur
    work = [[]]
    out = []
    n = 0
    while work:
        prefix = work.pop()
        n += 1
        if n > max_paths:
            raise PathLimit("more than %d paths" % max_paths)
        run = Run(prefix, assumptions, feas_ms)
        saved, _cur = _cur, run
        res = exc = None
        dead = False
        try:
            res = fn()
        except Infeasible:
            dead = True
        except PathLimit:
            raise
        except catch as e:  # the path raises
            exc = e
        finally:
            _cur = saved
        for i in range(len(prefix), len(run.taken)):
            v, other = run.taken[i]
            if other:
                work.append([t[0] for t in run.taken[:i]] + [not v])
        if not dead:
            out.append(Path(list(run.pc), res, exc, run.extra))
    return out

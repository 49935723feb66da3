"""Search for an input on a given path that breaks a postcondition (only to find a replay: never used for proving)."""
from __future__ import annotations

import math
import random
import time

from . import expr as X

_NAN = float("nan")


def _div(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        return _NAN


def _sqrt(a):
    return math.sqrt(a) if a >= 0 else (_NAN if a < -1e-300 else 0.0)


def _f(fn):
    def g(*a):
        try:
            return fn(*a)
        except (ValueError, OverflowError, ZeroDivisionError):
            return _NAN
    return g


_ENV = dict(_div=_div, _sqrt=_sqrt, _sin=_f(math.sin), _cos=_f(math.cos), _atan2=_f(math.atan2), _acos=_f(math.acos), _asin=_f(math.asin), _exp=_f(math.exp),
            _log=_f(math.log), _pow=_f(lambda a, b: a ** b if not isinstance(a ** b, complex) else _NAN), _floor=_f(math.floor), _ceil=_f(math.ceil), _nan=_NAN, _inf=float("inf"), _pi=math.pi)


def compile_terms(terms, conds, names):
    """f(values) -> (term values, violation of each condition); None when a term is not computable"""
    idx = {n: i for i, n in enumerate(names)}
    src = ["def _fn(v):"]
    ref = {}
    roots = list(terms) + list(conds)
    topo = X.topo(roots)
    if len(topo) > 40000:
        return None
    for k, n in enumerate(topo):
        op = n.op
        a = [ref[x.id] for x in n.args if isinstance(x, (X.E, X.B))]
        if op == "c":
            try:
                e = repr(n.args[0].numerator / n.args[0].denominator)
            except OverflowError:
                return None
            ref[n.id] = "(%s)" % e
            continue
        if op == "v":
            if n.args[0] not in idx:
                return None
            ref[n.id] = "v[%d]" % idx[n.args[0]]
            continue
        if op in ("bv",):
            return None
        if op == "pi":
            ref[n.id] = "_pi"
            continue
        if op in ("nan", "inf"):
            ref[n.id] = "_" + op
            continue
        if op == "+":
            e = a[0] + "+" + a[1]
        elif op == "*":
            e = a[0] + "*" + a[1]
        elif op == "neg":
            e = "-" + a[0]
        elif op == "/":
            e = "_div(%s,%s)" % tuple(a)
        elif op in ("sqrt", "sin", "cos", "atan2", "acos", "asin"):
            e = "_%s(%s)" % (op, ",".join(a))
        elif op == "lt":
            e = a[0] + "-" + a[1]
            # violation amount kept as a pair: (v, nv) of the condition and of its negation
            src.append(" t%d=%s" % (k, e))
            src.append(" if t%d!=t%d: t%d=(1e6,1e6)" % (k, k, k))
            src.append(" else: t%d=(0. if t%d<0 else t%d/(1+abs(%s)+abs(%s))+1e-12, 0. if t%d>=0 else -t%d/(1+abs(%s)+abs(%s))+1e-12)" % (k, k, k, a[0], a[1], k, k, a[0], a[1]))
            ref[n.id] = "t%d" % k
            continue
        elif op == "eq":
            src.append(" t%d=abs(%s-%s)" % (k, a[0], a[1]))
            src.append(" t%d=(1e6,1e6) if t%d!=t%d else ((0.,1e-9) if t%d==0 else (t%d/(1+abs(%s)+abs(%s))+1e-12,0.))" % (k, k, k, k, k, a[0], a[1]))
            ref[n.id] = "t%d" % k
            continue
        elif op == "not":
            e = "(%s[1],%s[0])" % (a[0], a[0])
        elif op == "and":
            e = "(%s, min(%s))" % ("+".join(x + "[0]" for x in a), ",".join([x + "[1]" for x in a] + ["1e9"]))
        elif op == "true":
            e = "(0.,1e9)"
        elif op == "false":
            e = "(1e9,0.)"
        elif op.startswith("f:") and op[2:] in ("exp", "log", "pow", "floor", "ceil"):
            e = "_%s(%s)" % (op[2:], ",".join(a))
        else:
            return None
        src.append(" t%d=%s" % (k, e))
        ref[n.id] = "t%d" % k
    src.append(" return (%s), (%s)" % ("".join(ref[t.id] + "," for t in terms), "".join(ref[c.id] + "[0]," for c in conds)))
    env = dict(_ENV)
    exec("\n".join(src), env)
    return env["_fn"]


def constants(conds):
    """values worth trying for each variable, and in general"""
    per, gen = {}, set()
    for n in X.topo(conds):
        if n.op in ("lt", "eq"):
            for u, w in ((n.args[0], n.args[1]), (n.args[1], n.args[0])):
                if w.op == "c":
                    c = float(w.args[0]) if abs(w.args[0]) < 10 ** 300 else 0.0
                    if u.op == "v":
                        per.setdefault(u.args[0], set()).add(c)
                    gen.add(c)
                    if c >= 0:
                        gen.add(math.sqrt(c))
    return per, gen


def find(conds, bad, names, sampler, seed, secs=4.0, limit=3):
    """points of the path where bad(term values) holds; bad = (terms, predicate)"""
    terms, pred = bad
    try:
        fn = compile_terms(terms, conds, names)
    except (RecursionError, SyntaxError, MemoryError):
        return []
    if fn is None:
        return []
    rng = random.Random(seed)
    per, gen = constants(conds)
    gen = sorted(gen)[:40]

    def ev(v):
        try:
            t, c = fn(v)
        except (OverflowError, ZeroDivisionError, ValueError):
            return 1e12, None
        s = 0.0
        for x in c:
            s += x if x == x else 1e6
        return s, t

    def fresh():
        for _ in range(20):
            v = sampler(rng) if sampler else [rng.uniform(-2, 2) for _ in names]
            if v is not None:
                return [float(x) for x in v]
        return [rng.uniform(-2, 2) for _ in names]

    found = []
    t0 = time.time()

    def test(v):
        s, t = ev(v)
        if s == 0 and t is not None and pred(t):
            found.append(list(v))
        return s

    pop = []
    for _ in range(150):
        v = fresh()
        if len(v) != len(names):
            return []
        pop.append((test(v), rng.random(), v))
        if len(found) >= limit or time.time() - t0 > secs:
            return found
    n = 0
    while time.time() - t0 < secs and len(found) < limit and n < 30000:
        n += 1
        pop.sort()
        del pop[40:]
        s, _, base = pop[min(int(rng.expovariate(0.2)), len(pop) - 1)]
        v = list(base)
        for _ in range(1 if rng.random() < 0.6 else rng.randint(1, 4)):
            i = rng.randrange(len(v))
            r = rng.random()
            if r < 0.25:
                cs = sorted(per.get(names[i], ())) if rng.random() < 0.7 and per.get(names[i]) else gen
                if cs:
                    c = rng.choice(cs)
                    d = 10 ** rng.uniform(-9, 0) * (1 + abs(c)) * rng.choice((-1, 0, 1))
                    v[i] = rng.choice((-1, 1, 1)) * c + d
            elif r < 0.35:
                v[i] = -v[i]
            elif r < 0.55:
                v[i] *= math.exp(rng.gauss(0, 1.5))
            elif r < 0.7:
                v[i] += rng.gauss(0, 1) * 10 ** rng.uniform(-6, 2)
            elif r < 0.8:
                v[i] = 0.0
            elif r < 0.9:
                v[i] = fresh()[i]
            else:
                v[i] = v[rng.randrange(len(v))] * rng.choice((1, -1))
        s2 = test(v)
        if s2 <= s or rng.random() < 0.05:
            pop.append((s2, rng.random(), v))
        if s2 == 0 and len(found) == 0 and n % 50 == 0:
            pop.append((test(fresh()), rng.random(), fresh()))
    return found

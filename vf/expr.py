"""Hash-consed real/boolean terms, used by both front ends (LLVM IR and CPython).

Terms denote exact real numbers.  Floating point constants are read exactly,
except that a double which is the correctly rounded value of a small rational
multiple of pi, 1/pi is read as that multiple (assumption A-PI in the evidence).
"""
from __future__ import annotations

import math
from fractions import Fraction

_table: dict = {}
_PI_TABLE: dict = {}


def _build_pi_table():
    import mpmath

    with mpmath.workdps(60):
        for q in list(range(1, 13)) + [15, 16, 18, 20, 24, 30, 36, 45, 60, 90, 180, 360, 648000]:
            for p in (1, 2, 3, 4, 5, 6, 7, 8):
                if math.gcd(p, q) != 1:
                    continue
                _PI_TABLE[float(mpmath.pi * p / q)] = (Fraction(p, q), 1)
        for p in (1, 2, 4, 90, 180, 360):
            for q in (1, 2, 4):
                if math.gcd(p, q) != 1:
                    continue
                _PI_TABLE.setdefault(float(mpmath.mpf(p) / q / mpmath.pi), (Fraction(p, q), -1))


class E:
    """A real-valued term."""

    __slots__ = ("op", "args", "id", "__weakref__")

    def __repr__(self):
        return to_str(self)

    def __hash__(self):
        return self.id

    # equality of Python objects is *term identity*; symbolic equality is eq()
    def __eq__(self, o):
        if isinstance(o, (int, float, Fraction, E)):
            return eq(self, o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (int, float, Fraction, E)):
            return not_(eq(self, o))
        return NotImplemented

    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(self, o)

    def __radd__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, self)

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else sub(self, o)

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else sub(o, self)

    def __mul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mul(self, o)

    def __rmul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mul(o, self)

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __format__(self, spec):
        return repr(self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(lift(o), self)

    def __abs__(self):
        from . import paths

        return self if paths.decide(ge(self, ZERO)) else neg(self)

    def __lt__(self, o):
        o = lift(o)
        return NotImplemented if o is None else lt(self, o)

    def __le__(self, o):
        o = lift(o)
        return NotImplemented if o is None else le(self, o)

    def __gt__(self, o):
        o = lift(o)
        return NotImplemented if o is None else lt(o, self)

    def __ge__(self, o):
        o = lift(o)
        return NotImplemented if o is None else le(o, self)

    def __bool__(self):
        return bool(not_(eq(self, ZERO)))

    def __float__(self):
        if self.op == "c":
            return float(self.args[0])
        raise TypeError("symbolic value forced to float")

    def __int__(self):
        if self.op == "c":
            return int(self.args[0])
        raise TypeError("symbolic value forced to int")

    # numpy object-dtype ufuncs call these
    def sqrt(self):
        return sqrt(self)

    def sin(self):
        return sin(self)

    def cos(self):
        return cos(self)

    def tan(self):
        return div(sin(self), cos(self))

    def arctan2(self, o):
        return atan2(self, lift(o))

    def arctan(self):
        return atan2(self, ONE)

    def arccos(self):
        return acos(self)

    def arcsin(self):
        return asin(self)

    def exp(self):
        return fn("exp", self)

    def log(self):
        return fn("log", self)

    def conjugate(self):
        return self

    def conj(self):
        return self

    @property
    def real(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self


class B:
    """A boolean term; truth value decided by the path explorer."""

    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return to_str(self)

    def __hash__(self):
        return self.id

    def __bool__(self):
        from . import paths

        return paths.decide(self)

    def __and__(self, o):
        return and_(self, liftb(o))

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, liftb(o))

    __ror__ = __or__

    def __invert__(self):
        return not_(self)

    def __eq__(self, o):
        if isinstance(o, B) and o is self:
            return True
        if isinstance(o, bool):
            return self if o else not_(self)
        if isinstance(o, B):
            return or_(and_(self, o), and_(not_(self), not_(o)))
        return NotImplemented

    def all(self):
        return self

    def any(self):
        return self


def _mk(cls, op, args):
    key = (cls, op) + tuple(a.id if isinstance(a, (E, B)) else ("k", a) for a in args)
    n = _table.get(key)
    if n is None:
        n = cls.__new__(cls)
        n.op = op
        n.args = tuple(args)
        n.id = len(_table) + 1
        _table[key] = n
    return n


def const(x) -> E:
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        return _mk(E, "c", (Fraction(int(x)),))
    if isinstance(x, int):
        return _mk(E, "c", (Fraction(x),))
    if isinstance(x, Fraction):
        return _mk(E, "c", (x,))
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return INF if x > 0 else neg(INF)
    if not _PI_TABLE:
        _build_pi_table()
    hit = _PI_TABLE.get(abs(x))
    if hit:
        k = _mk(E, "c", (hit[0] if x > 0 else -hit[0],))
        return mul(k, PI) if hit[1] > 0 else div(k, PI)
    fx = Fraction(x)
    # decimal literal reading: 0.1 is read as its exact binary value
    return _mk(E, "c", (fx,))


def lift(x):
    if isinstance(x, E):
        return x
    if isinstance(x, (int, float, Fraction)):
        return const(x)
    try:
        import numpy as np

        if isinstance(x, (np.floating, np.integer, np.bool_)):
            return const(x.item())
        if isinstance(x, np.ndarray) and x.shape == ():
            return lift(x.item())
    except ImportError:
        pass
    return None


def liftb(x):
    if isinstance(x, B):
        return x
    return TRUE if x else FALSE


def var(name: str) -> E:
    return _mk(E, "v", (name,))


def bvar(name: str) -> B:
    return _mk(B, "bv", (name,))


ZERO = _mk(E, "c", (Fraction(0),))
ONE = _mk(E, "c", (Fraction(1),))
TWO = _mk(E, "c", (Fraction(2),))
MONE = _mk(E, "c", (Fraction(-1),))
PI = _mk(E, "pi", ())
NAN = _mk(E, "nan", ())
INF = _mk(E, "inf", ())
TRUE = _mk(B, "true", ())
FALSE = _mk(B, "false", ())


def is_c(e, v=None):
    return e.op == "c" and (v is None or e.args[0] == v)


def add(a, b):
    if a.op == "c":
        if b.op == "c":
            return const(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    elif b.op == "c" and b.args[0] == 0:
        return a
    if a is NAN or b is NAN:
        return NAN
    if a.op == "neg" and a.args[0] is b or b.op == "neg" and b.args[0] is a:
        return ZERO
    if a.id > b.id:
        a, b = b, a
    return _mk(E, "+", (a, b))


def neg(a):
    if a.op == "c":
        return const(-a.args[0])
    if a.op == "neg":
        return a.args[0]
    if a is NAN:
        return NAN
    return _mk(E, "neg", (a,))


def sub(a, b):
    if a is b and a.op not in ("inf", "nan"):
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if a.op == "c" and b.op == "c":
        return const(a.args[0] * b.args[0])
    if b.op == "c":
        a, b = b, a
    if a is NAN or b is NAN:
        return NAN
    if a.op == "c":
        k = a.args[0]
        if k == 0:
            return ZERO
        if k == 1:
            return b
        if k == -1:
            return neg(b)
    if a.op == "neg":
        return neg(mul(a.args[0], b))
    if b.op == "neg":
        return neg(mul(a, b.args[0]))
    if a.op == "sqrt" and a is b:
        return a.args[0]
    if a.id > b.id:
        a, b = b, a
    return _mk(E, "*", (a, b))


def div(a, b):
    if b.op == "c":
        if b.args[0] == 0:
            return _mk(E, "/", (a, b))
        return mul(const(1 / b.args[0]), a)
    if a is NAN or b is NAN:
        return NAN
    if is_c(a, 0):
        return ZERO
    if a is b:
        return ONE
    if a.op == "neg":
        return neg(div(a.args[0], b))
    if b.op == "neg":
        return neg(div(a, b.args[0]))
    return _mk(E, "/", (a, b))


def _isqrt_frac(f: Fraction):
    if f < 0:
        return None
    p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if p * p == f.numerator and q * q == f.denominator:
        return Fraction(p, q)
    return None


def sqrt(a):
    if a is NAN:
        return NAN
    if a.op == "c":
        r = _isqrt_frac(a.args[0])
        if r is not None:
            return const(r)
    return _mk(E, "sqrt", (a,))


_SIN_PI = {0: 0, Fraction(1, 2): 1, Fraction(1): 0, Fraction(3, 2): -1, Fraction(1, 6): Fraction(1, 2), Fraction(5, 6): Fraction(1, 2)}


def _pi_multiple(a):
    if is_c(a, 0):
        return Fraction(0)
    if a is PI:
        return Fraction(1)
    if a.op == "neg":
        r = _pi_multiple(a.args[0])
        return None if r is None else -r
    if a.op == "*" and a.args[0].op == "c" and a.args[1] is PI:
        return a.args[0].args[0]
    if a.op == "*" and a.args[1].op == "c" and a.args[0] is PI:
        return a.args[1].args[0]
    return None


def _quarter(a):
    """(k, rest) with a = k pi/2 + rest for an integer k != 0, or None"""
    if a.op != "+":
        return None
    for x, y in (a.args, a.args[::-1]):
        m = _pi_multiple(x)
        if m is not None and (2 * m).denominator == 1:
            return int(2 * m) % 4, y
        q = _quarter(x) if x.op == "+" else None
        if q:
            return q[0], add(q[1], y)
    return None


def sin(a):
    if a is NAN:
        return NAN
    m = _pi_multiple(a)
    q = _quarter(a)
    if q:
        return [sin, cos, lambda t: neg(sin(t)), lambda t: neg(cos(t))][q[0]](q[1])
    if m is not None:
        m %= 2
        if m in _SIN_PI:
            return const(_SIN_PI[m])
    if a.op == "neg":
        return neg(sin(a.args[0]))
    return _mk(E, "sin", (a,))


def cos(a):
    if a is NAN:
        return NAN
    m = _pi_multiple(a)
    q = _quarter(a)
    if q:
        return [cos, lambda t: neg(sin(t)), lambda t: neg(cos(t)), sin][q[0]](q[1])
    if m is not None:
        m = (m + Fraction(1, 2)) % 2
        if m in _SIN_PI:
            return const(_SIN_PI[m])
    if a.op == "neg":
        return cos(a.args[0])
    return _mk(E, "cos", (a,))


def atan2(y, x):
    if y is NAN or x is NAN:
        return NAN
    if y.op == "c" and x.op == "c":
        yv, xv = y.args[0], x.args[0]
        if yv == 0:
            return ZERO if xv >= 0 else PI
        if xv == 0:
            return mul(const(Fraction(1, 2) if yv > 0 else Fraction(-1, 2)), PI)
        if abs(yv) == abs(xv):
            k = Fraction(1, 4) if xv > 0 else Fraction(3, 4)
            return mul(const(k if yv > 0 else -k), PI)
    return _mk(E, "atan2", (y, x))


def acos(x):
    if x.op == "c" and x.args[0] in (1, 0, -1):
        return {1: ZERO, 0: mul(const(Fraction(1, 2)), PI), -1: PI}[int(x.args[0])]
    return _mk(E, "acos", (x,))


def asin(x):
    if x.op == "c" and x.args[0] in (1, 0, -1):
        h = mul(const(Fraction(1, 2)), PI)
        return {1: h, 0: ZERO, -1: neg(h)}[int(x.args[0])]
    return _mk(E, "asin", (x,))


def fn(name, *args):
    """Uninterpreted (for the prover) function; evaluated numerically by name."""
    if any(a is NAN for a in args):
        return NAN
    if name == "exp" and is_c(args[0], 0):
        return ONE
    if name == "log" and is_c(args[0], 1):
        return ZERO
    return _mk(E, "f:" + name, args)


def power(a, n):
    if isinstance(n, E):
        if n.op == "c":
            n = n.args[0]
        else:
            return fn("pow", a, n)
    if isinstance(n, float):
        n = Fraction(n)
    n = Fraction(n)
    if abs(n - Fraction(1, 3)) < Fraction(1, 10**16):
        return fn("cbrt", a)
    if n.denominator == 1:
        k = int(n)
        if k < 0:
            return div(ONE, power(a, -k))
        r = ONE
        base = a
        while k:
            if k & 1:
                r = mul(r, base)
            base = mul(base, base)
            k >>= 1
        return r
    if n.denominator == 2:
        return power(sqrt(a), n.numerator)
    return fn("pow", a, const(n))


# ------------------------------------------------------------------ booleans
def _has_nan(a, b):
    return a is NAN or b is NAN


def lt(a, b):
    if _has_nan(a, b):
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a is b:
        return FALSE
    if b is INF or (a.op == "neg" and a.args[0] is INF):
        return TRUE
    if a is INF or (b.op == "neg" and b.args[0] is INF):
        return FALSE
    if a.op == "pi" or b.op == "pi":
        va, vb = num_const(a), num_const(b)
        if va is not None and vb is not None:
            return TRUE if va < vb else FALSE
    return _mk(B, "lt", (a, b))


def le(a, b):
    if _has_nan(a, b):
        return FALSE
    if a is b:
        return TRUE
    return not_(lt(b, a))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    b = lift(b)
    if _has_nan(a, b):
        return FALSE
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.op in ("inf",) or b.op in ("inf",):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk(B, "eq", (a, b))


def num_const(e):
    """Float value of a variable-free term, or None."""
    if e.op == "c":
        return float(e.args[0])
    if e is PI:
        return math.pi
    if e.op == "neg":
        v = num_const(e.args[0])
        return None if v is None else -v
    if e.op in "+*/":
        v = [num_const(a) for a in e.args]
        if None in v:
            return None
        if e.op == "+":
            return v[0] + v[1]
        if e.op == "*":
            return v[0] * v[1]
        return v[0] / v[1] if v[1] else None
    return None


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    return _mk(B, "not", (b,))


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return _mk(B, "and", (a, b))


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def all_(*bs):
    r = TRUE
    for b in bs:
        r = and_(r, liftb(b))
    return r


def any_(*bs):
    r = FALSE
    for b in bs:
        r = or_(r, liftb(b))
    return r


# ------------------------------------------------------------------ utilities
def topo(roots):
    """Post-order list of all nodes reachable from roots (iterative)."""
    seen, out = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if isinstance(a, (E, B)) and a.id not in seen:
                stack.append((a, False))
    return out


def variables(*roots):
    return sorted({n.args[0] for n in topo(roots) if n.op in ("v", "bv")})


def to_str(e, depth=6):
    if not isinstance(e, (E, B)):
        return str(e)
    if e.op == "c":
        f = e.args[0]
        return str(f) if f.denominator < 10**6 else repr(float(f))
    if e.op in ("v", "bv"):
        return e.args[0]
    if e.op in ("pi", "nan", "inf", "true", "false"):
        return e.op
    if depth <= 0:
        return "#%d" % e.id
    a = [to_str(x, depth - 1) for x in e.args]
    if e.op in ("+", "*", "/"):
        return "(" + (" %s " % e.op).join(a) + ")"
    if e.op == "neg":
        return "-" + a[0]
    if e.op in ("lt", "eq", "and"):
        return "(" + {"lt": " < ", "eq": " == ", "and": " & "}[e.op].join(a) + ")"
    if e.op == "not":
        return "!" + a[0]
    return e.op + "(" + ", ".join(a) + ")"


class EvalError(Exception):
    pass


def evaluate(roots, env, mp=None):
    """Numeric value of each root; mp=None uses floats, else the mpmath context."""
    if mp is None:
        import math as M

        F = lambda fr: fr.numerator / fr.denominator
        pi = M.pi
    else:
        M = mp
        F = lambda fr: mp.mpf(fr.numerator) / fr.denominator
        pi = mp.pi + 0
    val = {}
    for n in topo(roots):
        op = n.op
        a = [val[x.id] for x in n.args if isinstance(x, (E, B))]
        try:
            if op == "c":
                v = F(n.args[0])
            elif op in ("v", "bv"):
                v = env[n.args[0]]
                if mp is not None and op == "v":
                    v = mp.mpf(v)
            elif op == "pi":
                v = pi
            elif op == "+":
                v = a[0] + a[1]
            elif op == "*":
                v = a[0] * a[1]
            elif op == "/":
                v = a[0] / a[1]
            elif op == "neg":
                v = -a[0]
            elif op == "sqrt":
                if a[0] < 0:
                    raise EvalError("sqrt of negative")
                v = M.sqrt(a[0])
            elif op in ("sin", "cos", "acos", "asin"):
                v = getattr(M, op)(a[0])
            elif op == "atan2":
                v = M.atan2(a[0], a[1])
            elif op == "nan":
                v = float("nan")
            elif op == "inf":
                v = float("inf")
            elif op == "lt":
                v = a[0] < a[1]
            elif op == "eq":
                v = a[0] == a[1]
            elif op == "not":
                v = not a[0]
            elif op == "and":
                v = a[0] and a[1]
            elif op == "true":
                v = True
            elif op == "false":
                v = False
            elif op.startswith("f:"):
                nm = op[2:]
                if nm in ("exp", "log"):
                    v = getattr(M, nm)(a[0])
                elif nm == "pow":
                    v = a[0] ** a[1]
                elif nm == "floor":
                    v = M.floor(a[0])
                elif nm == "ceil":
                    v = M.ceil(a[0])
                elif (nm,) + tuple(a) in env:
                    v = env[(nm,) + tuple(a)]
                elif "f:" + nm in env:
                    v = env["f:" + nm](*a)
                else:
                    raise EvalError("uninterpreted " + nm)
            else:
                raise EvalError("op " + op)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError) as e:
            if isinstance(e, TypeError) and mp is None:
                raise EvalError(str(e))
            raise EvalError("%s in %s" % (e, op))
        if isinstance(v, complex) or (mp is not None and isinstance(v, mp.mpc)):
            raise EvalError("complex")
        val[n.id] = v
    return [val[r.id] for r in roots]


def diff(e, x):
    """d e / d x, x a variable node."""
    memo = {}
    for n in topo([e]):
        op = n.op
        a = n.args
        d = lambda i: memo[a[i].id]
        if op == "v":
            r = ONE if n is x else ZERO
        elif op in ("c", "pi"):
            r = ZERO
        elif op == "+":
            r = add(d(0), d(1))
        elif op == "neg":
            r = neg(d(0))
        elif op == "*":
            r = add(mul(d(0), a[1]), mul(a[0], d(1)))
        elif op == "/":
            r = div(sub(mul(d(0), a[1]), mul(a[0], d(1))), mul(a[1], a[1])) if d(1) is not ZERO else div(d(0), a[1])
        elif op == "sqrt":
            r = div(d(0), mul(TWO, n))
        elif op == "sin":
            r = mul(cos(a[0]), d(0))
        elif op == "cos":
            r = neg(mul(sin(a[0]), d(0)))
        elif op == "atan2":
            y, xx = a
            r = div(sub(mul(xx, d(0)), mul(y, d(1))), add(mul(xx, xx), mul(y, y)))
        elif op == "acos":
            r = neg(div(d(0), sqrt(sub(ONE, mul(a[0], a[0])))))
        elif op == "asin":
            r = div(d(0), sqrt(sub(ONE, mul(a[0], a[0]))))
        elif op == "f:exp":
            r = mul(n, d(0))
        elif op == "f:log":
            r = div(d(0), a[0])
        else:
            if all(isinstance(q, E) and memo[q.id] is ZERO for q in a):
                r = ZERO
            else:
                raise NotImplementedError("diff of " + op)
        memo[n.id] = r
    return memo[e.id]


def subst(roots, mapping):
    """Simultaneous substitution {var node: term}."""
    m = {k.id: v for k, v in mapping.items()}
    memo = {}
    for n in topo(roots):
        if n.id in m:
            memo[n.id] = m[n.id]
            continue
        a = [memo[x.id] if isinstance(x, (E, B)) else x for x in n.args]
        memo[n.id] = rebuild(n, a)
    return [memo[r.id] for r in roots]


def rebuild(n, a):
    op = n.op
    if op in ("c", "v", "pi", "nan", "inf", "true", "false", "bv"):
        return n
    f = {"+": add, "*": mul, "/": div, "neg": neg, "sqrt": sqrt, "sin": sin, "cos": cos, "atan2": atan2,
         "acos": acos, "asin": asin, "lt": lt, "eq": eq, "not": not_, "and": and_}.get(op)
    if f:
        return f(*a)
    if op.startswith("f:"):
        return fn(op[2:], *a)
    raise NotImplementedError(op)

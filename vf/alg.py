"""Exact decision of equalities between real terms.

A term is brought to  num / (product of factors)  where num is a polynomial with
integer coefficients over generators (variables and atoms), reduced modulo the
defining relations of the atoms:

    sqrt(a)^2 = a         sin^2 = 1 - cos^2       angle addition / multiple angles
    sin(atan2(y,x)) = y/sqrt(x^2+y^2), cos likewise;  cos(acos x) = x; ...

t1 = t2 is *proved* when the reduced numerator of t1 - t2 is the zero polynomial
(every denominator factor is assumed non-zero: obligation "well-defined").
"""
from __future__ import annotations

import math
import time
from fractions import Fraction

from . import expr as X
from . import smt

SH = 24
MASK = (1 << SH) - 1


class Restart(Exception):
    pass


class TooBig(Exception):
    pass


class Undecided(Exception):
    pass


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            v = r.get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    return {m: c for m, c in r.items() if c}


def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


class Alg:
    """One normal-form context."""

    def __init__(self, squares=None, max_terms=60000, deadline=None, signs=None, opaque=False):
        self.opaque = opaque
        self.squares = squares or {}
        self.max_terms = max_terms
        self.deadline = deadline
        self.L = {}
        self.signs = signs or (lambda e: None)
        self.reset()

    no_cross = False

    def reset(self):
        self.gens = []  # description
        self.gix = {}
        self.rel = {}  # gen index -> rational r, gen^2 = r
        self.memo = {}
        self.facs = []  # denominator factor polys
        self.fix = {}
        self.funs = {}  # name -> list of (arg rats, gen)
        self.angles = {}
        self.sqrts = []
        self.atoms = {}
        self.gen_expr = {}
        self.angle_gens = {}

    # ---- generators
    def gen(self, key):
        i = self.gix.get(key)
        if i is None:
            i = len(self.gens)
            self.gens.append(key)
            self.gix[key] = i
        return i

    def gmono(self, i, k=1):
        return {k << (SH * i): 1}

    # ---- rationals: (num, {factor: exp})
    def rconst(self, f):
        f = Fraction(f)
        if f.denominator == 1:
            return ({0: f.numerator} if f else {}, {})
        return ({0: f.numerator} if f else {}, {("i", f.denominator): 1}) if f else ({}, {})

    def tick(self, p):
        if len(p) > self.max_terms:
            raise TooBig(len(p))
        if self.deadline and time.time() > self.deadline:
            raise TooBig("time")

    def factor_poly(self, f):
        if f[0] == "i":
            return {0: f[1]}
        return self.facs[f[1]]

    def norm(self, num, den):
        """integer content and shared factors"""
        if not num:
            return ({}, {})
        num, den = self.reduce(num, dict(den))
        if not num:
            return ({}, {})
        d = 1
        nd = {}
        for f, e in den.items():
            if e == 0:
                continue
            if f[0] == "i":
                d *= f[1] ** e
            else:
                nd[f] = e
        if d != 1 or True:
            g = 0
            for c in num.values():
                g = math.gcd(g, c)
                if g == 1:
                    break
            g = math.gcd(g, d)
            if g > 1:
                num = {m: c // g for m, c in num.items()}
                d //= g
        # cancel single-generator factors
        for f in list(nd):
            p = self.facs[f[1]]
            if len(p) == 1:
                (m, c), = p.items()
                i = (m.bit_length() - 1) // SH
                e = nd[f]
                k = min((mm >> (SH * i)) & MASK for mm in num)
                k = min(k, e)
                if k:
                    num = {mm - (k << (SH * i)): c for mm, c in num.items()}
                    nd[f] = e - k
                    if nd[f] == 0:
                        del nd[f]
            else:
                while nd.get(f, 0) > 0:
                    q = self.try_div(num, p)
                    if q is None:
                        break
                    num = q
                    nd[f] -= 1
                    if nd[f] == 0:
                        del nd[f]
        if d != 1:
            nd[("i", d)] = 1
        return (num, nd)

    def try_div(self, num, p):
        """exact polynomial division num / p, or None."""
        if len(num) < len(p) or len(num) > 4000 or len(p) > 200:
            return None
        lead = max(p)
        lc = p[lead]
        ng = len(self.gens)
        leads = [(lead >> (SH * i)) & MASK for i in range(ng)]
        nz = [(i, e) for i, e in enumerate(leads) if e]
        r = dict(num)
        q = {}
        steps = 0
        while r:
            m = max(r)
            c = r[m]
            if c % lc:
                return None
            for i, e in nz:
                if ((m >> (SH * i)) & MASK) < e:
                    return None
            k = c // lc
            dm = m - lead
            q[dm] = k
            for mm, cc in p.items():
                t = mm + dm
                v = r.get(t, 0) - k * cc
                if v:
                    r[t] = v
                else:
                    r.pop(t, None)
            steps += 1
            if steps > 4000:
                return None
        return q

    def reduce(self, num, den):
        """apply gen^2 = rel until every related generator has degree <= 1"""
        for i in sorted(self.rel, reverse=True):
            sh = SH * i
            mx = 0
            for m in num:
                e = (m >> sh) & MASK
                if e > mx:
                    mx = e
            if mx < 2:
                continue
            rn, rd = self.rel[i]
            K = mx // 2
            # powers
            dpoly = {0: 1}
            for f, e in rd.items():
                for _ in range(e):
                    dpoly = pmul(dpoly, self.factor_poly(f))
            npow = [{0: 1}]
            dpow = [{0: 1}]
            for _ in range(K):
                npow.append(pmul(npow[-1], rn))
                dpow.append(pmul(dpow[-1], dpoly))
            buckets = {}
            for m, c in num.items():
                e = (m >> sh) & MASK
                j = e // 2
                buckets.setdefault(j, {})[m - ((2 * j) << sh)] = c
            out = {}
            for j, p in buckets.items():
                t = p
                if j:
                    t = pmul(t, npow[j])
                if K - j and rd:
                    t = pmul(t, dpow[K - j])
                out = padd(out, t)
                self.tick(out)
            num = out
            for f, e in rd.items():
                den[f] = den.get(f, 0) + e * K
            if not num:
                return {}, {}
        # relations may reintroduce earlier generators
        for i in self.rel:
            sh = SH * i
            if any(((m >> sh) & MASK) > 1 for m in num):
                return self.reduce(num, den)
        return num, den

    def radd(self, a, b):
        if not a[0]:
            return b
        if not b[0]:
            return a
        if a[1] == b[1]:
            return self.norm(padd(a[0], b[0]), a[1])
        den = dict(a[1])
        ia = ib = 1
        dia = dib = 1
        for f, e in a[1].items():
            if f[0] == "i":
                dia *= f[1] ** e
        for f, e in b[1].items():
            if f[0] == "i":
                dib *= f[1] ** e
        l = dia * dib // math.gcd(dia, dib)
        na = pscale(a[0], l // dia)
        nb = pscale(b[0], l // dib)
        fa = {f: e for f, e in a[1].items() if f[0] != "i"}
        fb = {f: e for f, e in b[1].items() if f[0] != "i"}
        den = {}
        for f in set(fa) | set(fb):
            ea, eb = fa.get(f, 0), fb.get(f, 0)
            e = max(ea, eb)
            den[f] = e
            p = self.facs[f[1]]
            for _ in range(e - ea):
                na = pmul(na, p)
            for _ in range(e - eb):
                nb = pmul(nb, p)
            self.tick(na)
            self.tick(nb)
        if l != 1:
            den[("i", l)] = 1
        return self.norm(padd(na, nb), den)

    def rneg(self, a):
        return ({m: -c for m, c in a[0].items()}, a[1])

    def rmul(self, a, b):
        if not a[0] or not b[0]:
            return ({}, {})
        if len(a[0]) * len(b[0]) > 4 * self.max_terms * 50:
            raise TooBig("product")
        n = pmul(a[0], b[0])
        self.tick(n)
        d = dict(a[1])
        k = 1
        for f, e in b[1].items():
            d[f] = d.get(f, 0) + e
        return self.norm(n, d)

    def rinv(self, a):
        n, d = a
        if not n:
            raise Undecided("division by zero")
        num = {0: 1}
        for f, e in d.items():
            p = self.factor_poly(f)
            for _ in range(e):
                num = pmul(num, p)
        den = {}
        # content
        g = 0
        for c in n.values():
            g = math.gcd(g, c)
        sg = 1
        if n[max(n)] < 0:
            sg = -1
        n = {m: c // (g * sg) for m, c in n.items()}
        if g != 1:
            den[("i", g)] = 1
        if sg < 0:
            num = pscale(num, -1)
        # monomial content
        extra = {0: 1}
        for i in range(len(self.gens)):
            sh = SH * i
            k = min((m >> sh) & MASK for m in n)
            if k:
                n = {m - (k << sh): c for m, c in n.items()}
                if i in self.rel and k == 1 and not self.gens[i][0] in ("cos", "sin"):
                    # 1/s = s / s^2
                    r = self.rmul((self.gmono(i), {}), self.rinv(self.rel[i]))
                    self_ = self.rmul((num, den), r)
                    num, den = self_[0], dict(self_[1])
                else:
                    f = self.addfac(self.gmono(i))
                    den[f] = den.get(f, 0) + k
        if not (len(n) == 1 and 0 in n and n[0] == 1):
            f = self.addfac(n)
            den[f] = den.get(f, 0) + 1
        return self.norm(num, den)

    def addfac(self, p):
        key = tuple(sorted(p.items()))
        i = self.fix.get(key)
        if i is None:
            i = len(self.facs)
            self.facs.append(p)
            self.fix[key] = i
        return ("p", i)

    def rsub(self, a, b):
        return self.radd(a, self.rneg(b))

    def rzero(self, a):
        return not a[0]

    def requal(self, a, b):
        if a[0] == b[0] and a[1] == b[1]:
            return True
        return not self.rsub(a, b)[0]

    # ---- conversion
    def rat(self, e):
        todo = X.topo([e])
        for n in todo:
            if n.id not in self.memo:
                self.memo[n.id] = self.conv(n)
        return self.memo[e.id]

    def conv(self, n):
        op = n.op
        a = [self.memo[x.id] for x in n.args if isinstance(x, X.E)]
        if op == "c":
            return self.rconst(n.args[0])
        if op == "v":
            i = self.gen(("v", n.args[0]))
            if n.args[0] in self.squares and i not in self.rel:
                self.rel[i] = ({0: 0}, {})
                self.rel[i] = self.rat(self.squares[n.args[0]])
            return (self.gmono(i), {})
        if op == "pi":
            return (self.gmono(self.gen(("pi",))), {})
        if op == "+":
            return self.radd(*a)
        if op == "neg":
            return self.rneg(a[0])
        if op == "*":
            return self.rmul(*a)
        if op == "/":
            return self.rmul(a[0], self.rinv(a[1]))
        if op == "sqrt":
            return self.rsqrt(a[0], n)
        if op in ("sin", "cos"):
            return self.trig(op, a[0], n.args[0])
        if op in ("acos", "asin", "atan2") or op.startswith("f:"):
            g = self.atomgen(op, a)
            self.gen_expr.setdefault(g, n)
            return (self.gmono(g), {})
        raise Undecided("algebra: " + op)

    def atomgen(self, name, args):
        lst = self.funs.setdefault(name, [])
        for ar, g in lst:
            if len(ar) == len(args) and all(self.requal(p, q) for p, q in zip(ar, args)):
                return g
        g = self.gen((name, len(lst)))
        lst.append((args, g))
        self.atoms[g] = (name, args)
        return g

    def rsqrt(self, r, node=None):
        n, d = r
        if not n:
            return ({}, {})
        # canonical: sqrt(n/d) ; match known radicands up to rational squares
        for rad, g, _ in self.sqrts:
            # ratio constant?
            q = self.const_ratio(r, rad)
            if q is not None and q > 0:
                k = X._isqrt_frac(q)
                if k is not None:
                    return self.rmul(self.rconst(k), (self.gmono(g), {}))
        ex = self.sin_root(r)
        if ex is not None:
            return ex
        ex = self.perfect_square(r)
        if ex is None:
            ex = self.split_root(r)
        if ex is not None:
            return ex
        g = self.gen(("sqrt", len(self.sqrts)))
        self.sqrts.append((r, g, node))
        self.rel[g] = r
        return (self.gmono(g), {})

    def const_ratio(self, a, b):
        if not a[0] or not b[0]:
            return None
        fa = {f: e for f, e in a[1].items() if f[0] != "i"}
        fb = {f: e for f, e in b[1].items() if f[0] != "i"}
        if fa != fb or a[0].keys() != b[0].keys():
            if len(a[0]) > 400 or len(b[0]) > 400 or self.no_cross:
                return None
            # a = q b  <=>  num(a) den(b) = q num(b) den(a)   (modulo the relations)
            na, nb = a[0], b[0]
            for f, e in fb.items():
                for _ in range(e):
                    na = pmul(na, self.facs[f[1]])
            for f, e in fa.items():
                for _ in range(e):
                    nb = pmul(nb, self.facs[f[1]])
            self.tick(na)
            self.tick(nb)
            da = {f: e for f, e in a[1].items() if f[0] == "i"}
            db = {f: e for f, e in b[1].items() if f[0] == "i"}
            a = self.norm(na, da)
            b = self.norm(nb, db)
            fa = {f: e for f, e in a[1].items() if f[0] != "i"}
            fb = {f: e for f, e in b[1].items() if f[0] != "i"}
            if fa != fb or a[0].keys() != b[0].keys():
                return None
        da = db = 1
        for f, e in a[1].items():
            if f[0] == "i":
                da *= f[1] ** e
        for f, e in b[1].items():
            if f[0] == "i":
                db *= f[1] ** e
        q = None
        for m, c in a[0].items():
            k = Fraction(c, b[0][m])
            if q is None:
                q = k
            elif q != k:
                return None
        return q * Fraction(db, da)

    # expression of a polynomial, for sign queries
    def poly_expr(self, p):
        out = X.ZERO
        for m, c in p.items():
            t = X.const(c)
            for i in range(len(self.gens)):
                e = (m >> (SH * i)) & MASK
                if e:
                    ge = self.gexpr(i)
                    if ge is None:
                        return None
                    t = X.mul(t, X.power(ge, e))
            out = X.add(out, t)
        return out

    def gexpr(self, i):
        k = self.gens[i]
        if k[0] == "v":
            return X.var(k[1])
        if k[0] == "pi":
            return X.PI
        if k[0] == "sqrt":
            for _, g, node in self.sqrts:
                if g == i:
                    return node
        return self.gen_expr.get(i)

    def perfect_square(self, r):
        """sqrt of n/d when n*d is (content) * p^2 * rest with known sign of p."""
        n, d = r
        # all denominators with even exponents and perfect-square numerator
        for f, e in d.items():
            if e % 2 and f[0] != "i":
                p = self.facs[f[1]]
                # multiply num and den
                n = pmul(n, p)
                d = dict(d)
                d[f] = e + 1
        ic = 1
        for f, e in d.items():
            if f[0] == "i":
                ic *= f[1] ** e
        root, rest = self.sqf(n)
        if root is None:
            return None
        # sqrt(n/d) = |root| sqrt(rest) / sqrt(ic) / prod |p|^(e/2)
        parts = []
        s = 1
        for p, k in root:
            if k % 2:
                sg = self.sign_of(p)
                if sg is None:
                    return None
                s *= sg
        for f, e in d.items():
            if f[0] != "i" and (e // 2) % 2:
                sg = self.sign_of(self.facs[f[1]])
                if sg is None:
                    return None
                s *= sg
        k = X._isqrt_frac(Fraction(1, ic))
        num = {0: s}
        for p, kk in root:
            for _ in range(kk):
                num = pmul(num, p)
        den = {f: e // 2 for f, e in d.items() if f[0] != "i"}
        res = self.norm(num, den)
        restr = (rest, {("i", ic): 1} if ic != 1 else {})
        if len(rest) == 1 and 0 in rest:
            q = X._isqrt_frac(Fraction(rest[0], ic))
            if q is not None:
                return self.rmul(res, self.rconst(q))
        elif not root and not den:
            return self.sqrt_ext(n, ic)
        ext = self.sqrt_ext(rest, ic)
        if ext is not None:
            return self.rmul(res, ext)
        # new sqrt atom for rest
        inner = self.rsqrt_raw(self.norm(*restr))
        return self.rmul(res, inner)

    def psq(self, n):
        """p with p^2 = n, or None"""
        root, rest = self.sqf(n)
        if root is None or not (len(rest) == 1 and 0 in rest):
            return None
        q = X._isqrt_frac(Fraction(rest[0]))
        if q is None or q.denominator != 1:
            return None
        p = {0: int(q)}
        for f, k in root:
            for _ in range(k):
                p = pmul(p, f)
        return p

    def sqrt_ext(self, n, ic):
        """sqrt((a s + b)^2 / ic) for a square root s of a polynomial q"""
        kc = X._isqrt_frac(Fraction(1, ic))
        if kc is None or len(n) > 60:
            return None
        for _, g, _n in self.sqrts:
            sh = SH * g
            if not any((m >> sh) & MASK for m in n):
                continue
            q, qd = self.rel[g]
            if any(f[0] != "i" for f in qd):
                continue
            qi = 1
            for f, e in qd.items():
                qi *= f[1] ** e
            A = {m: c for m, c in n.items() if not (m >> sh) & MASK}
            B = {m - (1 << sh): c for m, c in n.items() if (m >> sh) & MASK}
            # times qi: A^2 qi - B^2 q = qi (b^2 - a^2 q/qi)^2
            disc = padd(pscale(pmul(A, A), qi), pscale(pmul(pmul(B, B), q), -1))
            d = self.psq(pscale(disc, qi)) if disc else {}
            if d is None:
                continue
            for sg in (1, -1):
                b2 = padd(pscale(A, qi), pscale(d, sg))  # 2 qi b^2
                if not b2:
                    continue
                b = self.psq(pscale(b2, 2 * qi))  # (2 qi b)
                if b is None:
                    continue
                # root = a s + b = B / (2 b) s + b
                br = self.norm(b, {("i", 2 * qi): 1})
                ar = self.rmul((B, {}), self.rinv(self.rmul(self.rconst(2), br)))
                root = self.radd(self.rmul(ar, (self.gmono(g), {})), br)
                if not self.requal(self.rmul(root, root), (n, {})):
                    continue
                sgn = self.sign_of(root[0])
                for f, e in root[1].items():
                    if f[0] != "i" and e % 2 and sgn is not None:
                        t = self.sign_of(self.facs[f[1]])
                        sgn = None if t is None else sgn * t
                if sgn is None:
                    continue
                return self.rmul(self.rconst(kc * sgn), root)
        return None

    def sin_root(self, r):
        """sqrt(k (1 - cos^2)) = sqrt(k) |sin|"""
        for key, (gc, gs) in self.angle_gens.items():
            if not any((m >> (SH * gc)) & MASK for m in r[0]):
                continue
            q = self.const_ratio(r, self.rel[gs])
            if q is not None and q > 0:
                k = X._isqrt_frac(q)
                sg = self.sign_of(self.gmono(gs))
                if k is not None and sg is not None:
                    return self.rmul(self.rconst(k * sg), (self.gmono(gs), {}))
        return None

    def split_root(self, r):
        """sqrt(a b) = sqrt(a) sqrt(b) for a known radicand a (a >= 0, and b >= 0 where a > 0)"""
        n, d = r
        if len(n) > 400 or any(f[0] != "i" for f in d):
            return None
        for rad, g, _ in self.sqrts:
            p, pd = rad
            if len(p) < 2 or any(f[0] != "i" for f in pd):
                continue
            cont = math.gcd(*p.values())
            q = self.try_div(n, {m: c // cont for m, c in p.items()})
            if q is None or len(q) == 1 and 0 in q:
                continue
            k = Fraction(1, cont)
            for f, e in pd.items():
                k *= Fraction(f[1]) ** e
            for f, e in d.items():
                k /= Fraction(f[1]) ** e
            q = self.norm({m: c * k.numerator for m, c in q.items()}, {("i", k.denominator): 1} if k.denominator != 1 else {})
            return self.rmul((self.gmono(g), {}), self.rsqrt(q))
        return None

    def rsqrt_raw(self, r):
        ex = self.sin_root(r)
        if ex is not None:
            return ex
        for rad, g, _ in self.sqrts:
            q = self.const_ratio(r, rad)
            if q is not None and q > 0:
                k = X._isqrt_frac(q)
                if k is not None:
                    return self.rmul(self.rconst(k), (self.gmono(g), {}))
        ex = self.split_root(r)
        if ex is not None:
            return ex
        g = self.gen(("sqrt", len(self.sqrts)))
        pe = self.poly_expr(r[0])
        node = None
        if pe is not None:
            ic = 1
            ok = True
            for f, e in r[1].items():
                if f[0] == "i":
                    ic *= f[1] ** e
                else:
                    ok = False
            if ok:
                node = X.sqrt(X.mul(X.const(Fraction(1, ic)), pe))
        self.sqrts.append((r, g, node))
        self.rel[g] = r
        return (self.gmono(g), {})

    def sqf(self, n):
        """([(p, k)...], rest) with n = prod p^(2k) * rest, or (None, None)."""
        if len(n) > 150:
            return None, None
        used = [i for i in range(len(self.gens)) if any((m >> (SH * i)) & MASK for m in n)]
        if not used:
            c = n.get(0, 0)
            return [], n
        key = tuple(sorted(n.items()))
        c = _sqf_cache.get((key, tuple(used)))
        if c is not None:
            return c
        import sympy

        R, *gs = sympy.ring(["g%d" % i for i in used], sympy.ZZ)
        p = R.zero
        for m, c in n.items():
            p += R({tuple((m >> (SH * i)) & MASK for i in used): c})
        cont, fl = p.sqf_list()
        root, rest = [], {0: int(cont)}

        def back(q):
            r = {}
            for mon, c in q.terms():
                m = 0
                for i, e in zip(used, mon):
                    m |= e << (SH * i)
                r[m] = int(c)
            return r

        for q, e in fl:
            b = back(q)
            if e // 2:
                root.append((b, e // 2))
            if e % 2:
                rest = pmul(rest, b)
        _sqf_cache[(key, tuple(used))] = (root, rest)
        return root, rest

    def sign_of(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            s = 1 if c > 0 else -1
            for i in range(len(self.gens)):
                if (m >> (SH * i)) & MASK & 1:
                    k = self.gens[i]
                    if k[0] == "sqrt" or k[0] == "pi":
                        continue
                    pe = self.gexpr(i)
                    sg = None if pe is None else self.signs(pe)
                    if sg is None:
                        return None
                    s *= sg
            return s
        pe = self.poly_expr(p)
        if pe is None:
            return None
        return self.signs(pe)

    # ---- trigonometry
    def trig(self, op, arg, node):
        n, d = arg
        dk = tuple(sorted((f, e) for f, e in d.items() if f[0] != "i"))
        ic = 1
        for f, e in d.items():
            if f[0] == "i":
                ic *= f[1] ** e
        terms = []
        if len(n) > 12 or (len(n) > 4 and dk):
            # one opaque angle
            g = None
            for (ar, key) in self.angles.setdefault("opaque", []):
                if self.requal(ar, arg):
                    g = (key, 1)
                elif self.requal(ar, self.rneg(arg)):
                    g = (key, -1)
            if g is None:
                key = ("oa", len(self.angles["opaque"]))
                self.angles["opaque"].append((arg, key))
                g = (key, 1)
            terms.append((g[0], Fraction(g[1]), None))
        else:
            for m, c in n.items():
                terms.append(((m, dk), Fraction(c, ic), m if not dk else None))
        cs = (self.rconst(1), self.rconst(0))
        for key, q, m in terms:
            c1, s1 = self.unit_angle(key, q, m, node if len(terms) == 1 else None)
            c0, s0 = cs
            cs = (self.rsub(self.rmul(c0, c1), self.rmul(s0, s1)), self.radd(self.rmul(s0, c1), self.rmul(c0, s1)))
        return cs[0] if op == "cos" else cs[1]

    def unit_angle(self, key, q, m, node=None):
        pig = self.gix.get(("pi",))
        if m is not None and pig is not None and m == (1 << (SH * pig)):
            t = (q % 2)
            sg = 1
            table = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
            if t in table:
                return tuple(self.rconst(v) for v in table[t])
            if (t * 4).denominator == 1:
                h = self.rmul(self.rsqrt(self.rconst(2)), self.rconst(Fraction(1, 2)))
                k = int(t * 4)
                c = h if k in (1, 7) else self.rneg(h)
                s = h if k in (1, 3) else self.rneg(h)
                return c, s
        # the unit of the angles of this kind is the gcd of those seen
        u = self.L.get(key)
        if u is None:
            u = Fraction(1)
            i = (m.bit_length() - 1) // SH if m is not None else -1
            if not (m is not None and m == (1 << (SH * i)) and i in self.atoms):
                u = abs(q)
            self.L[key] = u
        if (q / u).denominator != 1:
            r = q / u
            self.L[key] = u / r.denominator
            raise Restart()
        k = int(q / u)
        L = 1 / u
        base = self.base_angle(key, L, m)
        if node is not None and abs(k) == 1 and (key, L) in self.angle_gens:
            gc, gs = self.angle_gens[(key, L)]
            if gc not in self.gen_expr:
                self.gen_expr[gc] = X.cos(node)
                self.gen_expr[gs] = X.sin(node) if k > 0 else X.neg(X.sin(node))
        c, s = self.rconst(1), self.rconst(0)
        for _ in range(abs(k)):
            c, s = (self.rsub(self.rmul(c, base[0]), self.rmul(s, base[1])),
                    self.radd(self.rmul(s, base[0]), self.rmul(c, base[1])))
        if k < 0:
            s = self.rneg(s)
        return c, s

    def base_angle(self, key, L, m):
        b = self.angles.get((key, L))
        if b is not None:
            return b
        b = None
        if m is not None:
            i = (m.bit_length() - 1) // SH
            if m == (1 << (SH * i)) and i in self.atoms and not self.opaque:
                name, args = self.atoms[i]
                if name == "atan2":
                    y, x = args
                    rho = self.rsqrt(self.radd(self.rmul(x, x), self.rmul(y, y)))
                    inv = self.rinv(rho)
                    b = (self.rmul(x, inv), self.rmul(y, inv))
                elif name == "acos":
                    x = args[0]
                    b = (x, self.rsqrt(self.rsub(self.rconst(1), self.rmul(x, x))))
                elif name == "asin":
                    x = args[0]
                    b = (self.rsqrt(self.rsub(self.rconst(1), self.rmul(x, x))), x)
                if b is not None and L == 2:
                    # half angle in (-pi/2, pi/2]
                    h = self.rconst(Fraction(1, 2))
                    c = self.rsqrt(self.rmul(self.radd(self.rconst(1), b[0]), h))
                    s = self.rmul(self.rmul(b[1], h), self.rinv(c))
                    b = (c, s)
                elif b is not None and L != 1:
                    b = None
        if b is None:
            gc = self.gen(("cos", key, L))
            gs = self.gen(("sin", key, L))
            self.angle_gens[(key, L)] = (gc, gs)
            # sin^2 = 1 - cos^2
            self.rel[gs] = ({0: 1, 2 << (SH * gc): -1}, {})
            b = ((self.gmono(gc), {}), (self.gmono(gs), {}))
        self.angles[(key, L)] = b
        return b


_sqf_cache = {}


def equal(a, b, squares=None, signs=None, timeout=60.0, max_terms=400000, opaque=False):
    """True when a = b is proved; False when the normal form of a-b is not zero;
    raises TooBig/Undecided when no normal form was reached."""
    alg = Alg(squares, max_terms, time.time() + timeout * smt.SCALE, signs, opaque)
    while True:
        try:
            r = alg.rat(X.sub(a, b))
            return not r[0]
        except Restart:
            alg.reset()

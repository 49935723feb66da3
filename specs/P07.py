"""P07 two-view and many-view geometry: triangulation, epipolar constraints, essential matrices, relative and absolute pose"""
import math

import numpy as np

from vf import core, ir, paths, pm
from vf import expr as X
from vf.core import Approx, Cond, Eq, Reject, eqs

from .P03 import jac
from .P04 import rq

SYM = lambda *a: any(isinstance(v, X.E) for v in a)
CALLS = []  # contract calls of the path under execution: (kind, arguments, results)


class K(core.CxxKernel):
    def symbolic(self, ins):
        del CALLS[:]
        return super().symbolic(ins)


class KA(K):
    def __init__(self, u, func, n_out, cfg, contracts, active):
        super().__init__(u, func, n_out, cfg, contracts)
        self.active = active

    def symbolic(self, ins):
        ACTIVE[:] = [self.active, 1]
        return super().symbolic(ins)


def calls(kind):
    return [(a, r) for k, a, r in CALLS if k == kind]


def rd(m, p, n):
    return [m.load(ir.P(p.o, p.off + 8 * k), ir.DBL) for k in range(n)]


def wr(m, p, vs):
    for k, v in enumerate(vs):
        m.store(ir.P(p.o, p.off + 8 * k), 8, X.lift(v))


def fresh(kind, n):
    k = len(calls(kind))
    return [X.var("%s%d!%d" % (kind, k, j)) for j in range(n)]


def same(a, b):
    return all(core.prove_eq(paths.current_pc(), x, y, None, 20)[0] == "proved" for x, y in zip(a, b))


# ---------------------------------------------------------------- contracts
def h_angle(m, a, name):
    u, v = rd(m, a[0], 3), rd(m, a[1], 3)
    for (p, q), r in calls("angle"):
        if all(x is y for x, y in zip(p + q, u + v)):
            return r
    r = fresh("angle", 1)[0]
    CALLS.append(("angle", (u, v), r))
    return r


def dyn(m, p, cols=3):
    """a dynamic matrix with a fixed number of columns (pointer, rows), column-major"""
    d = m.load(ir.P(p.o, p.off), ir.PTR)
    n = m.load(ir.P(p.o, p.off + 8), ir.I64)
    return [[m.load(ir.P(d.o, d.off + 8 * (c * n + r)), ir.DBL) for c in range(cols)] for r in range(n)]


def h_solve(m, a, name):
    ret, C, B = a
    r = fresh("solve", 3)
    CALLS.append(("solve", (dyn(m, C), dyn(m, B)), r))
    wr(m, ret, r)


ACTIVE = [None, 1]  # candidates whose rays are not parallel, points per candidate


def h_two(m, a, name):
    """TriangulateTwoBearingsMidpointSolve: a pair of a flag and a point, of centers and bearings (2 x 3, column-major)"""
    ret, C, B = a
    c, b = rd(m, C, 6), rd(m, B, 6)
    r = fresh("two", 3)
    k = len(calls("two"))
    ok = ACTIVE[0] is None or k // ACTIVE[1] in ACTIVE[0]
    CALLS.append(("two", ([[c[2 * j + k] for j in range(3)] for k in range(2)], [[b[2 * j + k] for j in range(3)] for k in range(2)]), (ok, r)))
    m.store(ir.P(ret.o, ret.off), 1, 1 if ok else 0)
    wr(m, ir.P(ret.o, ret.off + 8), r)


def h_dlt(m, a, name):
    ret, B, R = a
    d = m.load(ir.P(R.o, R.off), ir.PTR)
    bs = dyn(m, B)
    Rts = [[[m.load(ir.P(d.o, d.off + 8 * (12 * k + 3 * c + r)), ir.DBL) for c in range(4)] for r in range(3)] for k in range(len(bs))]
    f = fresh("dlt", 4)  # any homogeneous point that is not at infinity
    r = [X.mul(f[3], e) for e in f[:3]] + [f[3]]
    paths.assume(X.not_(X.eq(f[3], X.ZERO)))
    CALLS.append(("dlt", (bs, Rts), f[:3] + [X.ONE]))
    wr(m, ret, r)


SVD = {}  # (rows, cols) -> function(A) giving (U, S, V)


def h_svd(m, a, name):
    pa, rows, cols, pu, ps, pv = a
    v = rd(m, pa, rows * cols)
    A = [[v[c * rows + r] for c in range(cols)] for r in range(rows)]
    if (rows, cols) == (3, 3) and "svd3" in SVD:
        U, S, V = SVD["svd3"](A)
    else:
        k = len(calls("svd"))
        S = [X.var("s%d!%d" % (k, j)) for j in range(cols)]
        V = [[X.var("V%d!%d!%d" % (k, i, j)) for j in range(cols)] for i in range(cols)]
        U = [[X.var("U%d!%d!%d" % (k, i, j)) for j in range(rows)] for i in range(rows)]
    CALLS.append(("svd", A, (U, S, V)))
    if pu is not None and getattr(pu, "o", None) is not None:
        wr(m, pu, [U[i][j] for j in range(rows) for i in range(rows)])
    wr(m, ps, S)
    wr(m, pv, [V[i][j] for j in range(cols) for i in range(cols)])


ANG = "_ZN8geometry19AngleBetweenVectorsERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES4_"
SOL = "_ZN8geometry32TriangulateBearingsMidpointSolveIdEEN5Eigen6MatrixIT_Li3ELi1ELi0ELi3ELi1EEERKNS2_IS3_Lin1ELi3ELi0ELin1ELi3EEES7_"
TWO = "_ZN8geometry35TriangulateTwoBearingsMidpointSolveIdEESt4pairIbN5Eigen6MatrixIT_Li3ELi1ELi0ELi3ELi1EEEERKNS3_IS4_Li2ELi3ELi0ELi2ELi3EEES9_"
VRM = "_ZN8geometry22VectorToRotationMatrixERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEE"
RMV = "_ZN8geometry22RotationMatrixToVectorERKN5Eigen6MatrixIdLi3ELi3ELi0ELi3ELi3EEE"
DLT = "_ZN8geometry27TriangulateBearingsDLTSolveERKN5Eigen6MatrixIdLin1ELi3ELi0ELin1ELi3EEERKSt6vectorINS1_IdLi3ELi4ELi0ELi3ELi4EEESaIS6_EE"


def g(o, k, n=3):
    return list(o[k:k + n])


def rowsof(i, k, n):
    return [list(i[k + 3 * j:k + 3 * j + 3]) for j in range(n)]


def n3(*names):
    return [n + c for n in names for c in "xyz"]


def unit(r, z=None):
    v = [r.gauss(0, 1), r.gauss(0, 1), z if z is not None else r.gauss(0, 1)]
    n = math.sqrt(sum(e * e for e in v))
    return [e / n for e in v]


def nang(u, v):
    c = pm.dot(u, v) / math.sqrt(pm.dot(u, u) * pm.dot(v, v))
    return math.acos(max(-1.0, min(1.0, c)))


# ---------------------------------------------------------------- angles
def post_angle(i, o):
    u, v = i[:3], i[3:6]
    if not SYM(*i):
        return [Eq("angle", o[0], nang(u, v), 1e-7)]
    c = pm.dot(u, v) / pm.sqrt(pm.dot(u, u) * pm.dot(v, v))
    if c >= 1:
        return [Eq("angle-same-direction", o[0], 0.0)]
    if c <= -1:
        return [Eq("angle-opposite", o[0], X.PI)]
    return [Eq("cosine-of-angle", pm.cos(o[0]), c), Cond("angle-in-range", X.and_(X.ge(X.lift(o[0]), X.ZERO), X.ge(X.PI, X.lift(o[0]))))]


def s_angle(r):
    u = unit(r)
    k = r.random()
    if k < 0.2:
        v = [-e * 2 for e in u]
    elif k < 0.4:
        v = [e * 3 for e in u]
    else:
        v = unit(r)
    return u + v


# ---------------------------------------------------------------- midpoint
def normal_eq(C, B, P):
    """sum of (I - b b^T)(P - c)"""
    r = [0.0] * 3
    for c, b in zip(C, B):
        d = pm.vsub(P, c)
        k = pm.dot(b, d)
        r = [x + e - k * f for x, e, f in zip(r, d, b)]
    return r


def post_mid(n):
    def post(i, o):
        C, B = rowsof(i, 0, n), rowsof(i, 3 * n, n)
        return eqs("closest-point-to-the-rays", normal_eq(C, B, list(o)), [0.0] * 3, 1e-6)

    return post


def s_rays(n, rand=1.0):
    def s(r):
        P = [r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(3, 6)]
        C = [[r.uniform(-1, 1) for _ in range(3)] for _ in range(n)]
        B = []
        for c in C:
            d = [p - e + rand * r.uniform(-0.01, 0.01) for p, e in zip(P, c)]
            k = math.sqrt(sum(e * e for e in d))
            B.append([e / k for e in d])
        return [e for c in C for e in c] + [e for b in B for e in b]

    return s


def two_expected(C, B):
    a, b, c = pm.dot(B[0], B[0]), pm.dot(B[0], B[1]), pm.dot(B[1], B[1])
    t = pm.vsub(C[1], C[0])
    d, e = pm.dot(B[0], t), pm.dot(B[1], t)
    det = a * c - b * b
    l0, l1 = (d * c - e * b) / det, (d * b - e * a) / det
    x1 = pm.vadd(C[0], pm.vscale(l0, B[0]))
    x2 = pm.vadd(C[1], pm.vscale(l1, B[1]))
    return det, [(p + q) * 0.5 for p, q in zip(x1, x2)]


def post_two(C, B, o, label=""):
    det, Xp = None, None
    a, b, c = pm.dot(B[0], B[0]), pm.dot(B[0], B[1]), pm.dot(B[1], B[1])
    det = b * b - a * c
    if isinstance(det, float) and abs(abs(det) - 1e-10) < 1e-13:
        raise Reject()
    ok = not (det < 1e-10 and det > -1e-10)
    if not ok:
        return [Cond(label + "parallel-rays-rejected", eqv(o[0], 0))]
    if not SYM(*(C[1] + B[0] + B[1])) and o[0] == 1.0 and abs(det) < 1e-4:
        raise Reject()  # badly conditioned
    _, Xp = two_expected(C, B)
    return [Cond(label + "accepted", eqv(o[0], 1))] + eqs(label + "midpoint", o[1:4], Xp, 1e-6)


def eqv(a, b):
    if isinstance(a, X.E):
        return X.eq(a, X.lift(b))
    return a == b


def post_many(n):
    def post(i, o):
        R, t = pm.mat(i[6 * n:6 * n + 9], 3, 3), g(i, 6 * n + 9)
        r = [Cond("one-result-per-pair", eqv(o[0], n))]
        tw = list(calls("two"))
        for k in range(n):
            b1, b2 = g(i, 3 * k), g(i, 3 * n + 3 * k)
            C, B = [[0.0] * 3, t], [b1, pm.mv(R, b2)]
            if not SYM(*i):
                r += post_two(C, B, o[1 + 4 * k:5 + 4 * k], "pair%d-" % k)
                continue
            for (c, b), (ok, p) in tw:
                if same(fl_(c) + fl_(b), fl_(C) + fl_(B)):
                    r.append(Cond("pair%d-accepted" % k, eqv(o[1 + 4 * k], int(ok))))
                    if ok:
                        r += eqs("pair%d-point" % k, o[2 + 4 * k:5 + 4 * k], p)
                    break
            else:
                r.append(Cond("pair%d-triangulated-from-its-rays" % k, X.FALSE))
        return r

    return post


def s_rot(r):
    return [e for q in rq([r.uniform(-1, 1) for _ in range(4)]) for e in q]


def s_many(n):
    def s(r):
        R = s_rot(r)
        t = [r.uniform(-1, 1) for _ in range(3)]
        b1, b2 = [], []
        for _ in range(n):
            P = [r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(2, 5)]
            b1 += [e / pm.norm(P) for e in P]
            d = pm.mv(pm.tr(pm.mat(R, 3, 3)), pm.vsub(P, t))
            b2 += [e / pm.norm(d) + r.uniform(-.01, .01) for e in d]
        return b1 + b2 + R + t

    return s


# ---------------------------------------------------------------- gates
def find_angle(u, v):
    """the value of the angle between u and v: the result of a call of the path, or an arbitrary one"""
    if not SYM(*(u + v)):
        return nang(u, v)
    for (p, q), r in calls("angle"):
        if same(p + q, u + v) or same(q + p, u + v):
            return r
    return X.var("noangle%d" % len(CALLS))


def le(a, b):
    if isinstance(a, X.E) or isinstance(b, X.E):
        return X.le(X.lift(a), X.lift(b))
    if abs(a - b) < 1e-9:
        raise Reject()  # on the threshold
    return a <= b


def conj(cs):
    return X.all_(*cs) if any(isinstance(c, X.B) for c in cs) else all(cs)


def disj(cs):
    return X.any_(*cs) if any(isinstance(c, X.B) for c in cs) else any(cs)


def iff(flag, cond):
    """flag is 1 when the condition holds and 0 otherwise"""
    if isinstance(cond, X.B):
        f = X.eq(X.lift(flag), X.ONE)
        return X.or_(X.and_(f, cond), X.and_(X.eq(X.lift(flag), X.ZERO), X.not_(cond)))
    return flag == (1.0 if cond else 0.0)


def half_turn(s):
    return X.PI if s else math.pi


def gate(rays, pts, meas, thr, amin, dmin):
    s = SYM(amin)
    ang = []
    for a in range(len(rays)):
        for b in range(a):
            t = find_angle(rays[a], rays[b])
            ang.append(conj([le(amin, t), le(t, half_turn(s) - amin)]))
    ok = [disj(ang)]
    for p, q, h in zip(pts, meas, thr):
        ok.append(le(find_angle(p, q), h))
        ok.append(le(dmin, pm.dot(p, q)))
    return ok


def num_mid(C, B):
    n = len(C)
    A = n * np.eye(3) - sum(np.outer(b, b) for b in B)
    return list(np.linalg.solve(A, sum(np.array(c) - np.outer(b, b) @ np.array(c) for c, b in zip(C, B))))


def post_tri(n, nthr):
    def post(i, o):
        C, B, T = rowsof(i, 0, n), rowsof(i, 3 * n, n), list(i[6 * n:7 * n])
        amin, dmin = i[7 * n], i[7 * n + 1]
        if nthr < n:
            return [Cond("too-few-thresholds-rejected", eqv(o[0], 0))]
        r = []
        if SYM(amin):
            cs = calls("solve")
            if cs:
                for (c, b), _ in cs:
                    r += eqs("triangulates-these-centers", c, C) + eqs("triangulates-these-bearings", b, B)
                P = cs[-1][1]
            else:
                P = [X.var("unsolved%d" % k) for k in range(3)]
        else:
            P = num_mid(C, B)
        r.append(Cond("accepted-exactly-when-the-gates-hold", iff(o[0], conj(gate(B, [pm.vsub(P, c) for c in C], B, T, amin, dmin)))))
        if isinstance(o[1], (X.E, float)) and o[1] == o[1] if not isinstance(o[1], X.E) else True:
            if (o[0] is X.ONE) or o[0] == 1.0:
                r += eqs("point", o[1:4], P, 1e-6)
        return r

    return post


def s_tri(n, nthr):
    def s(r):
        rays = s_rays(n)(r)
        k = r.random()
        if k < 0.3:  # behind one of the cameras
            j = 3 * n + 3 * r.randrange(n)
            rays[j:j + 3] = [-e for e in rays[j:j + 3]]
        elif k < 0.5:
            j = 3 * n + 3 * r.randrange(n)
            rays[j:j + 3] = unit(r)
        thr = [r.choice([0.001, 0.01, 0.1, 3.0]) for _ in range(n)]
        return rays + thr + [r.choice([0.001, 0.1, 0.3]), r.choice([0.001, -5.0, 3.0])]

    return s


def rts_of(i, n):
    return [pm.mat(i[12 * k:12 * k + 12], 3, 4) for k in range(n)]


def post_tri_dlt(n):
    def post(i, o):
        RT, B = rts_of(i, n), rowsof(i, 12 * n, n)
        thr, amin, dmin = i[15 * n:15 * n + 3]
        rays = [pm.mv(pm.tr([q[:3] for q in m]), b) for m, b in zip(RT, B)]
        r = []
        if SYM(amin):
            cs = calls("dlt")
            if cs:
                for (b, R), _ in cs:
                    r += eqs("triangulates-these-bearings", b, B) + eqs("triangulates-these-cameras", R, RT)
                h = cs[-1][1]
            else:
                h = [X.var("unsolved%d" % k) for k in range(4)]
        else:
            h = num_dlt(RT, B)
        P = [e / h[3] for e in h[:3]]
        proj = [pm.mv(m, P + [1.0]) for m in RT]
        r.append(Cond("accepted-exactly-when-the-gates-hold", iff(o[0], conj(gate(rays, proj, B, [thr] * n, amin, dmin)))))
        if (o[0] is X.ONE) or o[0] == 1.0:
            r += eqs("point", o[1:4], P, 1e-6)
        return r

    return post


def num_dlt(RT, B):
    A = []
    for m, b in zip(RT, B):
        m = np.array(m)
        A += [b[0] * m[2] - b[2] * m[0], b[1] * m[2] - b[2] * m[1]]
    return list(np.linalg.svd(np.array(A))[2][3])


def s_dlt(n, extra=True):
    def s(r):
        P = [r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)]
        v, B = [], []
        for _ in range(n):
            R = pm.mat(s_rot(r), 3, 3)
            t = [r.uniform(-3, 3) for _ in range(3)]
            for q, e in zip(R, t):
                v += q + [e]
            p = pm.vadd(pm.mv(R, P), t)
            B += [e / pm.norm(p) + (r.uniform(-.003, .003) if extra else 0) for e in p]
        if extra and r.random() < 0.3:
            B[:3] = [-e for e in B[:3]]
        return v + B + ([r.choice([0.001, 0.01, 0.1, 3.0]), r.choice([0.001, 0.1, 0.3]), r.choice([0.001, -5.0, 3.0])] if extra else [])

    return s


def match_rows(A, want, label):
    """every row of A is one of the wanted ones up to sign, and each wanted one is there"""
    left = list(range(len(want)))
    r = [Cond(label + "-count", len(A) == len(want) and X.TRUE or X.FALSE)]
    for a in A:
        for k in left:
            if same(a, want[k]) or same(a, [-e for e in want[k]]):
                left.remove(k)
                break
        else:
            r.append(Cond(label, X.FALSE))
            return r
        r.append(Cond(label, X.TRUE))
    return r


def post_dlt(n):
    def post(i, o):
        RT, B = rts_of(i, n), rowsof(i, 12 * n, n)
        if SYM(*i):
            cs = calls("svd")
            if len(cs) != 1:
                return [Cond("one-decomposition", X.FALSE)]
            A, (U, S, V) = cs[0]
            want = []
            for m, b in zip(RT, B):  # b x (M w) = 0: two of the three equations (the third follows when b[2] != 0)
                want.append([b[1] * m[2][j] - b[2] * m[1][j] for j in range(4)])
                want.append([b[2] * m[0][j] - b[0] * m[2][j] for j in range(4)])
            return match_rows(A, want, "equations-of-the-view") + eqs("last-singular-vector", list(o[:4]), [V[j][3] for j in range(4)])
        r = []
        for m, b in zip(RT, B):  # exact data
            p = pm.mv(m, list(o[:4]))
            r += eqs("projects-on-the-bearing", pm.cross(b, p), [0.0] * 3, 1e-7)
        return r + [Eq("unit", pm.norm(list(o[:4])), 1.0)]

    return post


# ---------------------------------------------------------------- epipolar angle
def post_epi(n, mm):
    def post(i, o):
        B1, B2 = rowsof(i, 0, n), rowsof(i, 3 * n, mm)
        k = 3 * (n + mm)
        R, t = pm.mat(i[k:k + 9], 3, 3), g(i, k + 9)
        r = []
        u = lambda v: [e / pm.norm(v) for e in v]
        tn = u(t)
        ab = lambda v: X.fabs(v) if isinstance(v, X.E) else abs(v)
        for a in range(n):
            for b in range(mm):
                w = pm.mv(R, B2[b])
                e1, e2 = u(pm.cross(tn, B1[a])), u(pm.cross(tn, w))
                if SYM(*t):
                    s1, s2 = pm.dot(e1, w), pm.dot(B1[a], e2)
                    s1 = s1 if s1 >= 0 else -s1
                    s2 = s2 if s2 >= 0 else -s2
                    r.append(Eq("epipolar-angle[%d][%d]" % (a, b), pm.sin(o[a * mm + b]), (s1 + s2) * 0.5))
                else:
                    v = (abs(pm.dot(e1, w)) + abs(pm.dot(B1[a], e2))) / 2
                    if v > 1:
                        raise Reject()
                    r.append(Eq("epipolar-angle[%d][%d]" % (a, b), o[a * mm + b], math.asin(v), 1e-6))
        return r

    return post


def s_epi(n, mm):
    def s(r):
        t = [r.uniform(-1, 1) for _ in range(3)]
        return [e for _ in range(n + mm) for e in unit(r)] + s_rot(r) + t

    return s


# ---------------------------------------------------------------- refinement of a point
def post_cost(n):
    names = ["cx", "cy", "cz", "bx", "by", "bz", "px", "py", "pz"]

    def res(v):
        d = pm.vsub(v[6:9], v[:3])
        k = pm.norm(d)
        return [e / k - b for e, b in zip(d, v[3:6])]

    def post(i, o):
        r = []
        for k in range(n):
            at = g(i, 3 * k) + g(i, 3 * n + 3 * k) + g(i, 6 * n)
            v, J = jac("P07:bearing", res, names, at)
            r += eqs("residual%d" % k, o[3 * k:3 * k + 3], v, 1e-9) + eqs("residual-without-jacobian%d" % k, o[12 * n + 3 * k:12 * n + 3 * k + 3], v, 1e-9)
            for a in range(3):
                for b in range(3):
                    r.append(Eq("d[%d][%d]/d%s" % (k, a, "xyz"[b]), o[3 * n + 9 * k + 3 * a + b], J[a][6 + b], 1e-7))
        return r

    return post


def bearing_energy(C, B, P):
    e = 0.0
    for c, b in zip(C, B):
        d = pm.vsub(P, c)
        k = pm.norm(d)
        e += sum((x / k - y) ** 2 for x, y in zip(d, b))
    return e


def post_refine(n, it):
    def post(i, o):
        C, B, P = rowsof(i, 0, n), rowsof(i, 3 * n, n), g(i, 6 * n)
        e0, e1 = bearing_energy(C, B, P), bearing_energy(C, B, list(o[:3]))
        r = [Cond("does-not-get-worse", e1 <= e0 * (1 + 1e-9) + 1e-15, "%r -> %r" % (e0, e1))]
        if it >= 30:
            for k in range(3):
                for s in (-1e-3, 1e-3):
                    q = list(o[:3])
                    q[k] += s
                    r.append(Cond("local-minimum", bearing_energy(C, B, q) >= e1 - 1e-9))
        return r

    return post


def s_refine(n):
    def s(r):
        v = s_rays(n)(r)
        return v + [r.uniform(-1.2, 1.2), r.uniform(-1.2, 1.2), r.uniform(2.5, 7)]

    return s


# ---------------------------------------------------------------- essential matrices
MONO = [(3, 0, 0), (2, 1, 0), (1, 2, 0), (0, 3, 0), (2, 0, 1), (1, 1, 1), (0, 2, 1), (1, 0, 2), (0, 1, 2), (0, 0, 3), (2, 0, 0), (1, 1, 0), (0, 2, 0), (1, 0, 1), (0, 1, 1), (0, 0, 2), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 0)]


def mono(x, y, z):
    r = []
    for a, b, c in MONO:
        v = 1.0
        for e, k in ((x, a), (y, b), (z, c)):
            for _ in range(k):
                v = v * e
        r.append(v)
    return r


def ddot(a, b):
    r = 0.0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def pairs_of(i, n):
    return [(g(i, 6 * k), g(i, 6 * k + 3)) for k in range(n)]


def post_rows(n):
    def post(i, o):
        E = pm.mat(i[6 * n:6 * n + 9], 3, 3)
        r = []
        for k, (a, b) in enumerate(pairs_of(i, n)):
            r.append(Eq("epipolar-equation%d" % k, ddot(o[9 * k:9 * k + 9], [e for q in E for e in q]), pm.dot(b, pm.mv(E, a)), 1e-9))
        return r

    return post


LIN = [k for k, m in enumerate(MONO) if sum(m) <= 1]
QUAD = [k for k, m in enumerate(MONO) if sum(m) <= 2]


def post_poly(i, o):
    x = mono(*i[40:43])
    return [Eq("product-of-polynomials", ddot(o[:20], x), ddot(i[:20], x) * ddot(i[20:40], x), 1e-9)]


def sub_poly(kind):
    A = LIN if kind == 1 else QUAD

    def sub(V):
        return [V[k] if k in A else X.ZERO for k in range(20)] + [V[20 + k] if k in LIN else X.ZERO for k in range(20)] + V[40:]

    def s(r):
        return [r.uniform(-1, 1) if k in A else 0.0 for k in range(20)] + [r.uniform(-1, 1) if k in LIN else 0.0 for k in range(20)] + [r.uniform(-1, 1) for _ in range(3)]

    return sub, s


def post_five_poly(i, o):
    w = list(i[36:39]) + [1.0]
    E = [[ddot(i[4 * (3 * a + b):4 * (3 * a + b) + 4], w) for b in range(3)] for a in range(3)]
    x = mono(*i[36:39])
    M = [ddot(o[20 * r:20 * r + 20], x) for r in range(10)]
    EEt = pm.mm(E, pm.tr(E))
    t = (EEt[0][0] + EEt[1][1] + EEt[2][2]) * 0.5
    L = [[EEt[a][b] - (t if a == b else 0.0) for b in range(3)] for a in range(3)]
    LE = pm.mm(L, E)
    return [Eq("determinant-constraint", M[0], pm.det3(E), 1e-9)] + eqs("trace-constraint", pm.mat(M[1:], 3, 3), LE, 1e-9)


def post_gj(i, o):
    M = np.array(i[:200]).reshape(10, 20)
    if o[0] == 0.0:
        return [Cond("fails-only-on-a-zero-pivot", abs(np.linalg.det(M[:, :10])) < 1e-6)]
    W = np.array(o[1:201]).reshape(10, 20)
    want = np.linalg.solve(M[:, :10], M)
    if np.linalg.cond(M[:, :10]) > 1e4:
        raise Reject()
    return eqs("row-reduced", [float(e) for e in W.reshape(-1)], [float(e) for e in want.reshape(-1)], 1e-5)


def s_gj(r):
    M = np.array([[r.uniform(-1, 1) for _ in range(20)] for _ in range(10)])
    if r.random() < 0.5:
        for _ in range(8):
            a, b = r.randrange(10), r.randrange(10)
            if a != b:
                M[a, b] = 0
    for k in range(10):
        M[k, k] += 3
    return list(M.reshape(-1))


def post_null(i, o):
    if SYM(*i):
        cs = calls("svd")
        if len(cs) != 1:
            return [Cond("one-decomposition", X.FALSE)]
        A, (U, S, V) = cs[0]
        want = []
        for a, b in pairs_of(i, 5):
            want.append([b[p] * a[q] for p in range(3) for q in range(3)])
        r = match_rows(A[:5], want, "epipolar-equations") + eqs("square-matrix-padded-with-zeros", A[5:], [[0.0] * 9] * (len(A) - 5))
        return r + eqs("null-space", pm.mat(o[:36], 9, 4), [q[5:] for q in V])
    N = np.array(o[:36]).reshape(9, 4)
    r = eqs("orthonormal", [float(e) for e in (N.T @ N).reshape(-1)], [float(e) for e in np.eye(4).reshape(-1)], 1e-9)
    for a, b in pairs_of(i, 5):
        v = [b[p] * a[q] for p in range(3) for q in range(3)]
        r += eqs("null-space", [float(e) for e in np.array(v) @ N], [0.0] * 4, 1e-9)
    return r


def s_pairs(n):
    return lambda r: [e for _ in range(2 * n) for e in unit(r)]


def scene(r, n, noise=0.0, front=True):
    """bearings of n points in two cameras: (R, t) world(camera 1) to camera 2"""
    while True:
        R = pm.mat(pm_rot(r, 0.4), 3, 3)
        t = unit(r)
        b1, b2 = [], []
        for _ in range(60):
            if len(b1) == n:
                break
            P = [r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(2, 6)]
            q = pm.vadd(pm.mv(R, P), t)
            if q[2] < 0.5:
                continue
            u = lambda v: [e / pm.norm(v) for e in v]
            b1.append(u([e + r.uniform(-noise, noise) for e in u(P)]))
            b2.append(u([e + r.uniform(-noise, noise) for e in u(q)]))
        if len(b1) == n:
            return R, t, b1, b2


def pm_rot(r, s):
    w = [r.uniform(-s, s) for _ in range(3)]
    return [e for q in pm.rot_aa(w) for e in q]


def fl(vs):
    return [float(e) for v in vs for e in v]


def s_scene(n, extra=(), noise=0.0):
    def s(r):
        R, t, b1, b2 = scene(r, n, noise)
        return fl(b1) + fl(b2) + fl(R) + list(t)

    return s


def post_essentials(n, five):
    """x1, x2, then R and t of the scene (not handed to the code): E = [t]x R"""
    def post(i, o):
        b1, b2 = rowsof(i, 0, n), rowsof(i, 3 * n, n)
        R, t = np.array(i[6 * n:6 * n + 9]).reshape(3, 3), np.array(i[6 * n + 9:6 * n + 12])
        E = np.cross(np.eye(3), t) @ R * -1
        E = np.array([[0, -t[2], t[1]], [t[2], 0, -t[0]], [-t[1], t[0], 0]]) @ R
        E /= np.linalg.norm(E)
        k = int(o[0])
        r = []
        best = 9.0
        for j in range(k):
            F = np.array(o[1 + 9 * j:10 + 9 * j]).reshape(3, 3)
            nf = np.linalg.norm(F)
            if not np.isfinite(nf):
                continue
            F = F / nf
            best = min(best, np.linalg.norm(F - E), np.linalg.norm(F + E))
            for a, b in zip(b1, b2):
                r.append(Eq("epipolar-constraint", float(np.array(b) @ F @ np.array(a)), 0.0, 1e-6))
            s = np.linalg.svd(F)[1]
            r.append(Eq("essential-constraint", float(s[2]), 0.0, 1e-4))
            r.append(Eq("essential-constraint-equal", float(s[0]), float(s[1]), 1e-3))
        r.append(Cond("true-essential-matrix-found", best < 1e-3, "distance %r of %d solutions" % (best, k)))
        return r

    return post


def post_n_points(n):
    def post(i, o):
        if not SYM(*i):
            return post_essentials(n, False)(i, o)
        cs = calls("svd")
        b1, b2 = rowsof(i, 0, n), rowsof(i, 3 * n, n)
        if not cs:
            return [Cond("too-few-points-rejected", X.liftb(n < 9 and o[0] is X.ZERO))]
        A, (U, S, V) = cs[0]
        want = [[b[p] * a[q] for p in range(3) for q in range(3)] for a, b in zip(b1, b2)]
        r = match_rows(A, want, "epipolar-equations")
        r.append(Cond("accepted-exactly-with-a-single-null-vector", iff(o[0], X.gt(S[7] / S[8], X.const(4)))))
        if o[0] is X.ZERO:
            return r
        E = [[V[3 * a + b][8] for b in range(3)] for a in range(3)]
        if len(cs) != 2:
            return r + [Cond("projected-on-the-essential-matrices", X.FALSE)]
        A3, (U3, S3, V3) = cs[1]
        d = (S3[0] + S3[1]) / 2
        return r + eqs("decomposes-the-solution", A3, E) + eqs("closest-essential-matrix", pm.mat(o[1:10], 3, 3), [[d * (U3[a][0] * V3[b][0] + U3[a][1] * V3[b][1]) for b in range(3)] for a in range(3)])

    return post


def post_ax0(n, c):
    def post(i, o):
        if n < c:
            return [Cond("under-constrained-rejected", eqv(o[0], 0))]
        cs = calls("svd")
        if len(cs) != 1:
            return [Cond("one-decomposition", X.FALSE)]
        A, (U, S, V) = cs[0]
        return eqs("decomposes-the-system", A, pm.mat(i[:n * c], n, c)) + [Cond("unique-null-vector", iff(o[0], X.gt(S[c - 2] / S[c - 1], X.const(4))))] + eqs("last-singular-vector", list(o[1:1 + c]), [q[c - 1] for q in V])

    return post


def post_ax0_num(n, c):
    def post(i, o):
        A = np.array(i[:n * c]).reshape(n, c)
        u, s, v = np.linalg.svd(A)
        ratio = s[c - 2] / s[c - 1] if s[c - 1] else math.inf
        if abs(ratio - 4) < 1e-6:
            raise Reject()
        x = np.array(o[1:1 + c])
        return [Cond("unique-null-vector", (o[0] == 1.0) == (ratio > 4)), Eq("unit", float(np.linalg.norm(x)), 1.0), Eq("least-residual", float(np.linalg.norm(A @ x)), float(s[c - 1]), 1e-7)]

    return post


# the eigenvectors of the action matrix
EIG = {}
B2 = ["xx", "xy", "yy", "xz", "yz", "zz", "x", "y", "z", "1"]


def h_poly(m, a, name):
    """FivePointsPolynomialConstraints: proved separately; here a matrix of unknowns"""
    ret, E = a
    d = m.load(ir.P(E.o, E.off), ir.PTR)
    r, c = m.load(ir.P(E.o, E.off + 8), ir.I64), m.load(ir.P(E.o, E.off + 16), ir.I64)
    basis = [[m.load(ir.P(d.o, d.off + 8 * (j * r + k)), ir.DBL) for j in range(c)] for k in range(r)]
    CALLS.append(("poly", basis, None))
    mat_out(m, ret, [[X.var("M!%d!%d" % (p, q)) for q in range(20)] for p in range(10)])


def mat_out(m, ret, M):
    r, c = len(M), len(M[0])
    o = m.alloc("matrix", 8 * r * c)
    wr(m, o, [M[p][q] for q in range(c) for p in range(r)])
    m.store(ir.P(ret.o, ret.off), 8, o)
    m.store(ir.P(ret.o, ret.off + 8), 8, r)
    m.store(ir.P(ret.o, ret.off + 16), 8, c)


def h_gj(m, a, name):
    """FivePointsGaussJordan: [I | B] with the same null space (bounded evaluation), or failure"""
    p = a[0]
    d = m.load(ir.P(p.o, p.off), ir.PTR)
    old = rd(m, d, 200)
    CALLS.append(("gj", old, None))
    if EIG.get("fail"):
        return 0
    wr(m, d, [X.lift(1.0 if q == r else 0.0) if q < 10 else X.var("B!%d!%d" % (r, q - 10)) for q in range(20) for r in range(10)])
    return 1


def h_eigen(m, a, name):
    pa, n, pre_, pim = a
    v = rd(m, pa, n * n)
    At = [[v[c * n + r] for c in range(n)] for r in range(n)]
    xyz = [X.var("sol!" + c) for c in "xyz"]
    k = X.var("sol!k")
    V = [X.mul(k, X.lift(e)) for e in mono(*xyz)[10:]]
    CALLS.append(("eigen", At, None))
    # column 0: a real solution; column 1: another with a complex part; the others repeat column 0
    re = [V[r] for c in range(n) for r in range(n)]
    im = [X.ZERO] * (n * n)
    wr(m, pre_, re)
    wr(m, pim, im)


def post_five(i, o):
    r = []
    pc, gc, ec, sv = calls("poly"), calls("gj"), calls("eigen"), calls("svd")
    if EIG.get("fail"):
        return [Cond("no-solution-when-elimination-fails", eqv(o[0], 0))]
    if not (len(pc) == len(gc) == len(ec) == len(sv) == 1):
        return [Cond("constraints-eliminated-and-solved", X.FALSE)]
    A, (U, S, V) = sv[0]
    basis = [q[5:] for q in V]
    want = [[b[p] * a[q] for p in range(3) for q in range(3)] for a, b in zip(rowsof(i, 0, 5), rowsof(i, 15, 5))]
    r += match_rows(A[:5], want, "epipolar-equations")
    r += eqs("constraints-of-the-null-space", pc[0][0], basis)
    r += eqs("eliminates-the-constraints", gc[0][0], [X.var("M!%d!%d" % (p, q)) for q in range(20) for p in range(10)])
    # with M w = 0 for w = mono(x, y, z):  cubic monomial k = - B_k . (lower monomials)
    At = ec[0][0]
    xyz = [X.var("w!" + c) for c in "xyz"]
    low = [X.var("w!" + n) for n in B2]
    cub = [X.neg(ddot([X.var("B!%d!%d" % (k, q)) for q in range(10)], low)) for k in range(10)]
    # x times the lower monomials
    want = [cub[0], cub[1], cub[2], cub[4], cub[5], cub[7], low[0], low[1], low[3], low[6]]
    r += eqs("action-matrix-multiplies-by-x", [ddot(At[p], low) for p in range(10)], want)
    sx = [X.var("sol!" + c) for c in "xyz"]
    E = [ddot(basis[k], sx + [X.ONE]) for k in range(9)]
    nE = pm.sqrt(ddot([e * e for e in E], [1.0] * 9))
    r.append(Cond("one-matrix-per-real-eigenvector", eqv(o[0], 10)))
    for k in range(9):
        r.append(Eq("essential-matrix-of-the-eigenvector[%d]" % k, o[1 + k], E[k] / nE))
    return r


# ---------------------------------------------------------------- rotations, translations
def post_axis(i, o):
    c, s, v = i[0], i[1], g(i, 2)
    if not SYM(*i):
        n = math.hypot(c, s)
    return eqs("rotation-around-the-axis", pm.mat(o[:9], 3, 3), [[(c if a == b else 0.0) + (1 - c) * v[a] * v[b] - s * [[0.0, -v[2], v[1]], [v[2], 0.0, -v[0]], [-v[1], v[0], 0.0]][a][b] for b in range(3)] for a in range(3)], 1e-9)


def post_skew(i, o):
    return eqs("cross-product", pm.mv(pm.mat(o[:9], 3, 3), g(i, 3)), pm.cross(g(i, 0), g(i, 3)), 1e-9)


def svd3(su, sv):
    """contract of the SVD of a 3x3 matrix: U and V orthogonal (any of the two orientations)"""
    def f(A):
        k = len(calls("svd"))
        qu = [X.var("qu%d!%d" % (k, j)) for j in range(4)]
        qv = [X.var("qv%d!%d" % (k, j)) for j in range(4)]
        for q in (qu, qv):
            paths.assume(X.gt(X.lift(ddot(q, q)), X.ZERO))
        U = [[su * e for e in r] for r in rq(qu)]
        V = [[sv * e for e in r] for r in rq(qv)]
        return U, [X.var("sv%d!%d" % (k, j)) for j in range(3)], V

    return f


class KS(K):
    """kernel with a stated orientation of the factors of the SVD"""

    def __init__(self, u, func, n_out, cfg, su, sv, active=None):
        super().__init__(u, func, n_out, cfg)
        self.s = su, sv
        self.active = active

    def symbolic(self, ins):
        ACTIVE[:] = [self.active, self.cfg[0] if self.cfg else 1]
        SVD["svd3"] = svd3(*self.s)
        return super().symbolic(ins)


def proper(s, U, V):
    """U diag(1, 1, det(U V^T)) V^T"""
    d = [1.0, 1.0, float(s[0] * s[1])]
    return [[ddot([U[a][k] * d[k] for k in range(3)], [V[b][k] for k in range(3)]) for b in range(3)] for a in range(3)]


def num_rot(M):
    u, s, vt = np.linalg.svd(np.array(M))
    d = np.diag([1, 1, np.linalg.det(u @ vt)])
    if s[1] + np.linalg.det(u @ vt) * s[2] < 1e-6 * s[0]:
        raise Reject()  # not unique
    return [[float(e) for e in r] for r in u @ d @ vt]


def post_rotation(s, M_of, transpose=False):
    def post(i, o):
        M = M_of(i)
        R = pm.mat(o[:9], 3, 3)
        R = pm.tr(R) if transpose else R
        if not SYM(*i):
            return eqs("best-rotation", R, num_rot(M), 1e-5)
        cs = calls("svd")
        if len(cs) != 1:
            return [Cond("one-decomposition", X.FALSE)]
        A, (U, S, V) = cs[0]
        return eqs("decomposes-the-correlation", A, M) + eqs("best-rotation", R, proper(s, U, V))

    return post


def corr(pairs):
    n = float(len(pairs))
    qa = [sum((p[0][k] for p in pairs[1:]), pairs[0][0][k]) / n for k in range(3)]
    pa = [sum((p[1][k] for p in pairs[1:]), pairs[0][1][k]) / n for k in range(3)]
    M = [[0.0] * 3 for _ in range(3)]
    for q, p in pairs:
        for a in range(3):
            for b in range(3):
                M[a][b] = M[a][b] + (q[a] - qa[a]) * (p[b] - pa[b])
    return M


def zipped(i, n):
    return list(zip(rowsof(i, 0, n), rowsof(i, 3 * n, n)))


def s_rotpairs(n, interleaved, planar):
    def s(r):
        R = pm.mat(s_rot(r), 3, 3)
        P = [[r.uniform(-1, 1) for _ in range(3)] for _ in range(n)]
        if planar:
            for p in P:
                p[2] = 0.3 * p[0] - 0.2 * p[1] + 1
        Q = [[e + r.uniform(-1e-3, 1e-3) for e in pm.mv(R, p)] for p in P]
        return [e for q, p in zip(Q, P) for e in q + p] if interleaved else fl(Q) + fl(P)

    return s


def post_trans(n, interleaved):
    def post(i, o):
        if interleaved:
            prs, R = pairs_of(i, n), pm.mat(i[6 * n:6 * n + 9], 3, 3)
        else:
            prs, R = zipped(i, n), pm.eye(3)
        t = list(o[:3])
        r = [0.0] * 3
        for v, p in prs:
            x = pm.vadd(pm.mv(R, p), t)
            k = pm.dot(v, x) / pm.dot(v, v)
            r = [a + b - k * c for a, b, c in zip(r, x, v)]
        return eqs("closest-to-the-rays", r, [0.0] * 3, 1e-6)

    return post


def s_trans(n, interleaved):
    def s(r):
        R = pm.mat(s_rot(r), 3, 3) if interleaved else pm.eye(3)
        t = [r.uniform(-1, 1) for _ in range(3)]
        v = []
        for _ in range(n):
            p = [r.uniform(-2, 2) for _ in range(3)]
            b = pm.vadd(pm.mv(R, p), t)
            b = [e / pm.norm(b) * (r.uniform(0.5, 2) if interleaved else 1) + r.uniform(-.01, .01) for e in b]
            v.append((b, p))
        if interleaved:
            return [e for b, p in v for e in b + p] + fl(R)
        return [e for b, p in v for e in b] + [e for b, p in v for e in p]

    return s


# ---------------------------------------------------------------- poses
def s_abs(n):
    def s(r):
        R = pm.mat(pm_rot(r, 1.0), 3, 3)
        P, B = [], []
        t = [r.uniform(-.5, .5), r.uniform(-.5, .5), r.uniform(3, 5)]
        for _ in range(n):
            p = [r.uniform(-1.5, 1.5) for _ in range(3)]
            q = pm.vadd(pm.mv(R, p), t)
            B.append([e / pm.norm(q) for e in q])
            P.append(p)
        return fl(B) + fl(P) + fl(R) + t

    return s


def post_abs(n, many):
    def post(i, o):
        R, t = np.array(i[6 * n:6 * n + 9]).reshape(3, 3), np.array(i[6 * n + 9:6 * n + 12])
        T = np.hstack([R, t[:, None]])
        if many:
            sols = [np.array(o[1 + 12 * k:13 + 12 * k]).reshape(3, 4) for k in range(int(o[0]))]
        else:
            sols = [np.array(o[:12]).reshape(3, 4)]
        d = [np.abs(s - T).max() for s in sols if np.isfinite(s).all()]
        return [Cond("true-pose-found", bool(d) and min(d) < (1e-3 if many else 0.03), "distances %r" % (d,))]

    return post


def noncollinear(r_in):
    return True


def s_relpose(n, noise=0.0):
    def s(r):
        R, t, b1, b2 = scene(r, n, noise)
        E = np.array([[0, -t[2], t[1]], [t[2], 0, -t[0]], [-t[1], t[0], 0]]) @ np.array(R)
        E = E * r.choice([-1, 1]) * r.uniform(0.3, 3)
        return [float(e) for e in E.reshape(-1)] + fl(b1) + fl(b2) + fl(R) + list(t)

    return s


def post_relpose_num(n):
    def post(i, o):
        R, t = pm.mat(i[9 + 6 * n:18 + 6 * n], 3, 3), g(i, 18 + 6 * n)
        return eqs("relative-pose", pm.mat(o[:12], 3, 4), [R[k] + [t[k]] for k in range(3)], 1e-4)

    return post


W = [[0.0, -1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]]


def candidates(s, U, V):
    """the four poses of an essential matrix U diag(a, a, 0) V^T, in order"""
    su, sv = s
    U = [[U[a][b] * (su if b == 2 else 1.0) for b in range(3)] for a in range(3)]
    V = [[V[a][b] * (sv if b == 2 else 1.0) for b in range(3)] for a in range(3)]
    out = []
    for k in (1.0, -1.0):
        t = [k * U[a][2] for a in range(3)]
        t = [e / pm.norm(t) for e in t]
        for w in (W, pm.tr(W)):
            out.append((pm.mm(pm.mm(U, w), pm.tr(V)), t))
    return out


def post_relpose(n, s):
    """the pose handed back is the candidate of the largest score; scores are those of the triangulated points"""
    def post(i, o):
        cs, tw = calls("svd"), calls("two")
        b1, b2 = rowsof(i, 9, n), rowsof(i, 9 + 3 * n, n)
        if len(cs) != 1 or len(tw) != 4 * n:
            return [Cond("four-decompositions-scored", X.FALSE)]
        A, (U, S, V) = cs[0]
        r = eqs("decomposes-the-essential-matrix", A, pm.mat(i[:9], 3, 3))
        cand = candidates(s, U, V)
        scores = []
        used = []
        for k in range(4):
            C, B = tw[k * n][0]
            # which candidate is this?
            hit = None
            for q, (R, t) in enumerate(cand):
                if q not in used and same(C[1], [-e for e in pm.mv(pm.tr(R), t)]) and same(B[1], pm.mv(pm.tr(R), b2[0])):
                    hit = q
                    break
            if hit is None:
                return r + [Cond("scores-the-four-decompositions", X.FALSE)]
            used.append(hit)
            R, t = cand[hit]
            sc = 0.0
            for j in range(n):
                (C, B), (ok, P) = tw[k * n + j]
                r += eqs("triangulates", C + B, [[0.0] * 3, [-e for e in pm.mv(pm.tr(R), t)], b1[j], pm.mv(pm.tr(R), b2[j])])
                if not ok:
                    continue
                q = pm.vadd(pm.mv(R, P), t)
                sc = sc + (pm.dot(P, b1[j]) / pm.norm(P) + pm.dot(q, b2[j]) / pm.norm(q)) * 0.5
            scores.append((hit, sc))
        best, win = X.ZERO, None
        for hit, sc in scores:
            if sc > best:
                best, win = sc, hit
        if win is None:
            return r
        R, t = cand[win]
        return r + eqs("candidate-with-the-largest-score", pm.mat(o[:12], 3, 4), [list(R[k]) + [t[k]] for k in range(3)])

    return post


def two_proj(R, t, a, b):
    """score of a correspondence under a relative pose, as the code defines it"""
    c = [-e for e in pm.mv(pm.tr(R), t)]
    w = pm.mv(pm.tr(R), b)
    det = pm.dot(a, a) * pm.dot(w, w) - pm.dot(a, w) ** 2
    if abs(abs(det) - 1e-10) < 1e-12:
        raise Reject()
    if abs(det) < 1e-10:
        return 0.0
    P = two_expected([[0.0] * 3, c], [a, w])[1]
    q = pm.vadd(pm.mv(R, P), t)
    return (pm.dot(P, a) / pm.norm(P) + pm.dot(q, b) / pm.norm(q)) * 0.5


def post_relpose_best(n):
    """on any correspondences: no other candidate has a larger score"""
    def post(i, o):
        b1, b2 = rowsof(i, 9, n), rowsof(i, 9 + 3 * n, n)
        E = np.array(i[:9]).reshape(3, 3)
        u, s, vt = np.linalg.svd(E)
        u[:, 2] *= np.sign(np.linalg.det(u))
        vt[2] *= np.sign(np.linalg.det(vt))
        cand = candidates((1.0, 1.0), u.tolist(), vt.T.tolist())
        score = lambda R, t: sum(two_proj(R, t, a, b) for a, b in zip(b1, b2))
        best = max(score(R, t) for R, t in cand)
        if best < 1e-3:
            raise Reject()  # no candidate sees the points
        M = pm.mat(o[:12], 3, 4)
        got = score([q[:3] for q in M], [q[3] for q in M])
        return [Cond("candidate-with-the-largest-score", got > best - 1e-6, "score %r, best %r" % (got, best))]

    return post


def s_relpose_any(n):
    def s(r):
        R, t, b1, b2 = scene(r, n, 0.0)
        E = np.array([[0, -t[2], t[1]], [t[2], 0, -t[0]], [-t[1], t[0], 0]]) @ np.array(R)
        b1 = [unit(r) if r.random() < 0.5 else b for b in b1]
        if n > 2 and r.random() < 0.4:  # points at infinity
            for k in range(r.randrange(1, n - 1)):
                b2[k] = pm.mv(R, b1[k])
        return [float(e) for e in E.reshape(-1)] + fl(b1) + fl(b2)

    return s


def rel_energy(R, t, b1, b2):
    return sum((1 - two_proj(R, t, a, b)) ** 2 for a, b in zip(b1, b2))


def post_relrefine(n):
    def post(i, o):
        b1, b2 = rowsof(i, 12, n), rowsof(i, 12 + 3 * n, n)
        k = 12 + 6 * n
        Rt, tt = pm.mat(i[k:k + 9], 3, 3), g(i, k + 9)
        M = pm.mat(o[:12], 3, 4)
        R, t = [q[:3] for q in M], [q[3] for q in M]
        r = eqs("rotation", pm.mm(R, pm.tr(R)), pm.eye(3), 1e-9) + [Eq("orientation", pm.det3(R), 1.0)]
        M0 = pm.mat(i[:12], 3, 4)
        e0, e1 = rel_energy([q[:3] for q in M0], [q[3] for q in M0], b1, b2), rel_energy(R, t, b1, b2)
        r.append(Cond("closer-to-the-observations", e1 <= 0.3 * e0 + 1e-8, "%r -> %r" % (e0, e1)))
        return r

    return post


def s_relrefine(n):
    def s(r):
        R, t, b1, b2 = scene(r, n, 0.0)
        D = pm.mat(pm_rot(r, 0.08), 3, 3)
        R0 = pm.mm(D, R)
        t0 = [e + r.uniform(-.05, .05) for e in t]
        return [e for a in range(3) for e in R0[a] + [t0[a]]] + fl(b1) + fl(b2) + fl(R) + list(t)

    return s


def post_quartic(i, o):
    c = list(i[:5])
    roots = list(i[5:9])
    r = []
    for x in roots:
        d = min(abs(x - y) for y in o[5:9])
        r.append(Cond("real-root-found", d < 1e-5, "root %r, nearest %r" % (x, d)))
    return r


def s_quartic(r):
    while True:
        x = sorted(r.uniform(-1, 1) for _ in range(4))
        if min(b - a for a, b in zip(x, x[1:])) > 0.08:
            break
    a = r.uniform(0.5, 2)
    p = np.poly(x) * a
    return [float(e) for e in p[::-1]] + x


# ---------------------------------------------------------------- covariance of a point
VEC = []


def h_vrm(m, a, name):
    ret, v = a
    r = rd(m, v, 3)
    for q, M in VEC:
        if all(x is y for x, y in zip(q, r)):
            R = M
            break
        if all(X.neg(x) is y for x, y in zip(q, r)):
            R = pm.tr(M)
            break
    else:
        q = [X.var("q%d!%d" % (len(VEC), k)) for k in range(4)]
        paths.assume(X.gt(X.lift(pm.dot(q, q)), X.ZERO))
        R = rq(q)
        VEC.append((r, R))
    wr(m, ret, [R[p][c] for c in range(3) for p in range(3)])


def h_rmv(m, a, name):
    ret, M = a
    v = rd(m, M, 9)
    R = [[v[3 * c + r] for c in range(3)] for r in range(3)]
    for q, P in VEC:
        if same(fl_(R), fl_(P)):
            return wr(m, ret, q)
        if same(fl_(R), fl_(pm.tr(P))):
            return wr(m, ret, [X.neg(e) for e in q])
    if same(fl_(R), fl_(pm.eye(3))):
        return wr(m, ret, [X.ZERO] * 3)
    raise ir.Unsupported("the rotation vector of a rotation that is not the pose's")


def fl_(M):
    return [X.lift(e) for r in M for e in r]


def h_ppd(m, a, name):
    """Dispatch<ProjectPosePointDerivatives>: proved in P03; here unknown values of its arguments"""
    ty, pt, par, out, jc = a
    deref = lambda p: m.load(ir.P(p.o, p.off), ir.PTR)
    t = m.load(ir.P(ty.o, ty.off), ir.I32)
    x = rd(m, deref(pt), 3)
    n = (deref(par).o.size - deref(par).off) // 8
    q = rd(m, deref(par), n)
    for (t2, x2, q2), w in calls("ppd"):
        if t2 == t and same(x2 + q2, x + q):
            r = w
            break
    else:
        r = fresh("ppd", 8)
        CALLS.append(("ppd", (t, x, q), r))
    wr(m, deref(out), r[:2])
    wr(m, deref(jc), r[2:])


class KC(K):
    def symbolic(self, ins):
        del VEC[:]
        return super().symbolic(ins)


def post_cov(t, n):
    from .cams import FACTORY, STORAGE
    np_ = len(FACTORY[t])

    def post(i, o):
        k = np_ + 8
        P = g(i, n * k)
        if SYM(*i):
            cs = calls("ppd")
            if len(cs) < n:
                return [Cond("projection-per-view", X.FALSE)]
            H = [[0.0] * 3 for _ in range(3)]
            s2 = 0.0
            r = []
            for v in range(n):
                (ty, x, q), w = cs[v]
                cam, pose, ob = i[v * k:v * k + np_], i[v * k + np_:v * k + np_ + 6], i[v * k + np_ + 6:v * k + np_ + 8]
                R, tt = next((M for q_, M in VEC if same(q_, pose[:3])), pm.eye(3)), list(pose[3:6])
                r += [Cond("camera-type", X.liftb(ty == t))] + eqs("point", x, P) + eqs("rotation-camera-to-world", q[:3], [-e for e in pose[:3]]) + eqs("origin", q[3:6], [-e for e in pm.mv(pm.tr(R), tt)])
                named = dict(zip(FACTORY[t], cam))
                r += eqs("camera-parameters", q[6:6 + len(STORAGE[t])], [named.get(s, 0.0) for s in STORAGE[t]])
                J = pm.mat(w[2:8], 2, 3)
                res = pm.vsub(list(ob), w[:2])
                s2 = s2 + pm.dot(res, res)
                for a in range(3):
                    for b in range(3):
                        H[a][b] = H[a][b] + J[0][a] * J[0][b] + J[1][a] * J[1][b]
                if n == 1:
                    r += eqs("jacobian", o[10:16], w[2:8]) + eqs("observed-minus-projected", o[16:18], res)
            return r + eqs("inverse-covariance", pm.mat(o[:9], 3, 3), H) + [Eq("variance", o[9], s2 / float(n))]
        H = np.zeros((3, 3))
        s2 = 0.0
        from . import cams
        for v in range(n):
            cam, pose, ob = list(i[v * k:v * k + np_]), i[v * k + np_:v * k + np_ + 6], i[v * k + np_ + 6:v * k + np_ + 8]
            f = lambda p: np.array(cams.project(t, pm.vadd(pm.mv(pm.rot_aa(pose[:3]), p), list(pose[3:6])), dict(zip(FACTORY[t], cam))))
            J = np.zeros((2, 3))
            for c in range(3):
                d = [0.0] * 3
                d[c] = 1e-5
                J[:, c] = (f(pm.vadd(P, d)) - f(pm.vsub(P, d))) / 2e-5
            H += J.T @ J
            s2 += float(((np.array(ob) - f(P)) ** 2).sum())
        return eqs("inverse-covariance", [float(e) for e in o[:9]], [float(e) for e in H.reshape(-1)], 1e-4) + [Eq("variance", o[9], s2 / n, 1e-6)]

    return post


def s_cov(t, n):
    from . import cams

    def s(r):
        v = []
        for _ in range(n):
            v += cams.sample_params(r, cams.FACTORY[t])
            v += [r.uniform(-.4, .4) for _ in range(3)] + [r.uniform(-.5, .5), r.uniform(-.5, .5), r.uniform(3, 5)]
            v += [r.uniform(-.4, .4) for _ in range(2)]
        return v + [r.uniform(-1, 1) for _ in range(3)]

    return s


# ---------------------------------------------------------------- the property
def build(ctx):
    ctx.assume("A-REAL: floating point numbers are read as exact reals", "A-LIBM: sqrt, acos, asin satisfy their real definitions",
               "A-SVD: Eigen's JacobiSVD returns orthogonal factors with decreasing singular values, EigenSolver the eigenvectors (contracts of Eigen, not proved)",
               "A-SIZE: loops over rays, views and correspondences are executed for the numbers of elements named in the obligation (1 to 3; 5 and 9 for essential matrices)")
    cs = [(r"19AngleBetweenVectors", h_angle), (r"32TriangulateBearingsMidpointSolveIdE", h_solve), (r"27TriangulateBearingsDLTSolve", h_dlt), (r"^@vf_svd$", h_svd)]
    tri = core.CxxUnit(ctx, "geo_tri.cc", keep=[ANG, SOL, DLT, VRM, RMV, TWO], contracts=cs, extra_native=["-lceres", "-lglog"])
    plain = [(r"^@vf_svd$", h_svd), (r"22VectorToRotationMatrix", h_vrm), (r"22RotationMatrixToVector", h_rmv), (r"8DispatchINS_27ProjectPosePointDerivatives", h_ppd)]
    one = [n + k for n in ("u", "v") for k in "xyz"]
    ctx.prove("angle", core.CxxKernel(tri, "angle", 1, [], plain), one, post_angle, pre=lambda i: [pm.dot(i[:3], i[:3]) > 1e-6, pm.dot(i[3:6], i[3:6]) > 1e-6], sampler=s_angle)
    for n in (2, 3):
        ctx.prove("midpoint/%d-rays" % n, core.CxxKernel(tri, "mid_solve", 3, [n], plain), n3(*["c%d" % k for k in range(n)]) + n3(*["b%d" % k for k in range(n)]), post_mid(n), sampler=s_rays(n), timeout=300)
    ctx.runtime("midpoint/8-rays", core.CxxKernel(tri, "mid_solve", 3, [8], plain), n3(*["c%d" % k for k in range(8)]) + n3(*["b%d" % k for k in range(8)]), post_mid(8), sampler=s_rays(8))
    ctx.prove("midpoint-two", core.CxxKernel(tri, "mid_two", 4, [], plain), n3("c0", "c1", "b0", "b1"), lambda i, o: post_two(rowsof(i, 0, 2), rowsof(i, 6, 2), o), sampler=lambda r: (lambda v: v[:9] + v[6:9] if r.random() < 0.2 else v)(s_rays(2)(r)))
    for n, act in ((1, None), (2, None), (3, None), (3, [1]), (2, [0])):
        names = n3(*["b%d" % k for k in range(n)]) + n3(*["w%d" % k for k in range(n)]) + ["R%d" % k for k in range(9)] + n3("t")
        ctx.prove("midpoint-many/%d%s" % (n, "" if act is None else "-pair-%d-accepted" % act[0]), KA(tri, "mid_many", 1 + 4 * n, [n], [(r"35TriangulateTwoBearingsMidpointSolveIdE", h_two)], act), names, post_many(n), sampler=s_many(n), timeout=300)
    for n, h in ((2, 2), (3, 3), (2, 3), (2, 1), (3, 0)):
        names = n3(*["c%d" % k for k in range(n)]) + n3(*["b%d" % k for k in range(n)]) + ["thr%d" % k for k in range(n)] + ["min_angle", "min_depth"]
        ctx.prove("triangulate-midpoint/%d-views-%d-thresholds" % (n, h), K(tri, "tri_mid", 4, [n, h]), names, post_tri(n, h), sampler=s_tri(n, h), max_paths=400)
    for n in (2, 3):
        names = ["P%d%d" % (k, j) for k in range(n) for j in range(12)] + n3(*["b%d" % k for k in range(n)]) + ["threshold", "min_angle", "min_depth"]
        ctx.prove("triangulate-dlt/%d-views" % n, K(tri, "tri_dlt", 4, [n]), names, post_tri_dlt(n), sampler=s_dlt(n), max_paths=400)
        ctx.prove("dlt-equations/%d-views" % n, K(tri, "dlt_solve", 4, [n], plain), names[:15 * n], post_dlt(n), sampler=s_dlt(n, False))
    for n, k, tag, sub in ((1, 1, "rotated", (None, [0.0, 0.0, 1.0])), (1, 1, "rotated-x", (None, [1.0, 0.0, 0.0])), (2, 1, "pairs", (3, [0.0, 1.0, 0.0])), (1, 2, "pairs", (3, [0.0, 0.0, 1.0]))):
        names = n3(*["b%d" % j for j in range(n)]) + n3(*["w%d" % j for j in range(k)]) + ["R%d" % j for j in range(9)] + n3("t")

        def fix(V, sub=sub):
            V = list(V)
            if sub[0]:
                V[-12:-3] = [X.const(float(e)) for r_ in pm.eye(3) for e in r_]
            if sub[1]:
                V[-3:] = [X.const(e) for e in sub[1]]
            return V

        def pre(i, n=n, k=k):
            t, R = i[-3:], pm.mat(i[-12:-3], 3, 3)
            sq = lambda v: pm.dot(v, v)
            return [sq(t) > 1e-6] + [sq(pm.cross(t, g(i, 3 * j))) > 1e-6 for j in range(n)] + [sq(pm.cross(t, pm.mv(R, g(i, 3 * n + 3 * j)))) > 1e-6 for j in range(k)]
        ctx.prove("epipolar-angle/%dx%d/%s" % (n, k, tag), core.CxxKernel(tri, "epi_angle", n * k, [n, k], plain), names, post_epi(n, k), pre=pre, sampler=s_epi(n, k), subst=fix, timeout=300)
    ctx.runtime("epipolar-angle/4x5", core.CxxKernel(tri, "epi_angle", 20, [4, 5], plain), ["i%d" % j for j in range(27 + 12)], post_epi(4, 5), sampler=s_epi(4, 5))
    for n in (1, 2):
        names = n3(*["c%d" % k for k in range(n)]) + n3(*["b%d" % k for k in range(n)]) + n3("p")
        ctx.prove("point-refinement-cost/%d" % n, core.CxxKernel(tri, "bearing_cost", 15 * n, [n], plain), names, post_cost(n), pre=lambda i, n=n: [sum((i[6 * n + j] - i[3 * k + j]) * (i[6 * n + j] - i[3 * k + j]) for j in range(3)) > 1e-3 for k in range(n)], sampler=s_refine(n))
    for it in (5, 50):
        names = ["i%d" % k for k in range(27)]
        ctx.runtime("point-refinement/%d-iterations" % it, core.CxxKernel(tri, "refine_point", 3, [4, it], plain), names, post_refine(4, it), sampler=s_refine(4))
    from . import cams
    for t in (0, 2, 1, 9):
        n0 = len(cams.FACTORY[t])
        for n in (1, 2):
            names = ["%s_%d" % (c, v) for v in range(n) for c in list(cams.FACTORY[t]) + ["rx", "ry", "rz", "tx", "ty", "tz", "u", "v"]] + n3("p")
            ctx.prove("point-covariance/%s/%d" % (cams.TYPES[t], n), KC(tri, "point_cov", 18, [t, n0, n], plain), names, post_cov(t, n), sampler=s_cov(t, n),
                      pre=lambda i, n0=n0, n=n: [sum(i[v * (n0 + 8) + n0 + j] * i[v * (n0 + 8) + n0 + j] for j in range(3)) > 1e-6 for v in range(n)])
    essential(ctx)
    absolute(ctx)
    relative(ctx)


def essential(ctx):
    PC, GJ = "_Z31FivePointsPolynomialConstraintsRKN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEE", "_Z21FivePointsGaussJordanPN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEE"
    u = core.CxxUnit(ctx, "geo_ess.cc", keep=[PC, GJ], contracts=[(r"^@vf_svd$", h_svd)])
    for n in (1, 2):
        ctx.prove("epipolar-equations/%d" % n, K(u, "epi_rows", 9 * n, [n]), n3(*[c + str(k) for k in range(n) for c in "ab"]) + ["E%d" % k for k in range(9)], post_rows(n))
    for kind in (1, 2):
        sub, s = sub_poly(kind)
        ctx.prove("polynomial-product/degree-%dx1" % kind, K(u, "poly", 20, [kind]), ["a%d" % k for k in range(20)] + ["b%d" % k for k in range(20)] + ["x", "y", "z"], post_poly, subst=sub, sampler=s)
    ctx.prove("five-point-constraints", K(u, "five_poly", 200, []), ["N%d%d" % (k, j) for k in range(9) for j in range(4)] + ["x", "y", "z"], post_five_poly, timeout=300)
    ctx.runtime("gauss-jordan", K(u, "gauss_jordan", 201, []), ["M%d" % k for k in range(200)], post_gj, sampler=s_gj)
    ctx.prove("null-space", K(u, "nullspace", 36, [5]), n3(*[c + str(k) for k in range(5) for c in "ab"]), post_null, sampler=s_pairs(5))
    ctx.prove("essential-n-points/9", K(u, "n_points", 91, [9, 9]), n3(*["a%d" % k for k in range(9)]) + n3(*["b%d" % k for k in range(9)]) + ["R%d" % k for k in range(9)] + n3("t"), post_n_points(9), sampler=s_scene(9))
    ctx.runtime("essential-n-points/20", K(u, "n_points", 91, [20, 20]), ["i%d" % k for k in range(132)], post_n_points(20), sampler=s_scene(20))
    for n in (5,):
        ctx.runtime("essential-five-points/%d" % n, K(u, "five_points", 91, [n, n]), ["i%d" % k for k in range(6 * n + 12)], post_essentials(n, True), sampler=s_scene(n))
    def caches(m, a, name):
        for p in a:
            m.store(ir.P(p.o, p.off), 4, 1 << 20)

    five = [(r"15queryCacheSizesERi", caches), (r"^@vf_svd$", h_svd), (r"31FivePointsPolynomialConstraints", h_poly), (r"21FivePointsGaussJordan", h_gj), (r"^@vf_eigen$", h_eigen)]

    class KF(K):
        def __init__(self, fail):
            super().__init__(u, "five_points", 91, [5, 5], five)
            self.fail = fail

        def symbolic(self, ins):
            EIG["fail"] = self.fail
            return super().symbolic(ins)

        def concrete(self, ins):
            EIG["fail"] = self.fail
            return super().concrete(ins)

    names = n3(*["a%d" % k for k in range(5)]) + n3(*["b%d" % k for k in range(5)])
    post5 = lambda i, o: post_five(i, o) if SYM(*i) else []
    for fail in (0, 1):
        ctx.prove("essential-five-points/%s" % ("elimination-fails" if fail else "action-matrix"), KF(fail), names, post5, sampler=lambda r: s_scene(5)(r)[:30], timeout=300)
    for n, c in ((2, 3), (3, 3), (4, 3)):
        ctx.prove("solve-ax0/%dx%d" % (n, c), K(u, "solve_ax0", 1 + c, [n, c]), ["A%d" % k for k in range(n * c)], lambda i, o, n=n, c=c: (post_ax0(n, c) if SYM(*i) or n < c else post_ax0_num(n, c))(i, o))
    for a, b in ((5, 6), (5, 4)):
        for f in ("five_points", "n_points"):
            ctx.prove("size-mismatch-throws/%s/%d-%d" % (f, a, b), core.Throws(K(u, f, 91, [a, b], five)), ["i%d" % k for k in range(3 * (a + b))], lambda i, o: [Cond("throws", eqv(o[0], 1))])


def absolute(ctx):
    u = core.CxxUnit(ctx, "geo_abs.cc", contracts=[(r"^@vf_svd$", h_svd)])
    ctx.prove("rotation-around-axis", K(u, "rot_axis", 9, []), ["c", "s"] + n3("v"), post_axis)
    ctx.prove("skew-matrix", K(u, "skew", 9, []), n3("v", "w"), post_skew)
    for su in (1, -1):
        for sv in (1, -1):
            tag = "%s%s" % ("+-"[su < 0], "+-"[sv < 0])
            ctx.prove("closest-rotation/%s" % tag, KS(u, "closest_rot", 9, [], su, sv), ["m%d" % k for k in range(9)], post_rotation((su, sv), lambda i: pm.mat(i[:9], 3, 3)))
    for n in (2, 3):
        ctx.prove("translation-between-points/%d" % n, K(u, "trans_between", 3, [n]), n3(*[c + str(k) for k in range(n) for c in "bp"]) + ["R%d" % k for k in range(9)], post_trans(n, True), sampler=s_trans(n, True), pre=lambda i, n=n: [pm.dot(g(i, 6 * k), g(i, 6 * k)) > 1e-3 for k in range(n)], timeout=300)
    ctx.prove("pose-known-rotation/2", K(u, "known_rot", 3, [2]), n3("b0", "b1", "p0", "p1"), post_trans(2, False), sampler=s_trans(2, False), pre=lambda i: [pm.dot(g(i, 3 * k), g(i, 3 * k)) > 1e-3 for k in range(2)], timeout=300)
    for n in (4, 7):
        ctx.runtime("translation-between-points/%d" % n, K(u, "trans_between", 3, [n]), ["i%d" % k for k in range(6 * n + 9)], post_trans(n, True), sampler=s_trans(n, True))
        ctx.runtime("pose-known-rotation/%d" % n, K(u, "known_rot", 3, [n]), ["i%d" % k for k in range(6 * n)], post_trans(n, False), sampler=s_trans(n, False))
    ctx.runtime("quartic", K(u, "quartic", 9, []), ["c%d" % k for k in range(5)] + ["root%d" % k for k in range(4)], post_quartic, sampler=s_quartic)
    ctx.runtime("pose-three-points", K(u, "abs_three", 49, [3]), ["i%d" % k for k in range(30)], post_abs(3, True), sampler=s_abs(3))
    for n in (6, 15):
        ctx.runtime("pose-n-points/%d" % n, K(u, "abs_n", 12, [n]), ["i%d" % k for k in range(6 * n + 12)], post_abs(n, False), sampler=s_abs(n))


def relative(ctx):
    u = core.CxxUnit(ctx, "geo_rel.cc", keep=[TWO], extra_native=["-lceres", "-lglog"], contracts=[(r"^@vf_svd$", h_svd), (r"35TriangulateTwoBearingsMidpointSolveIdE", h_two)])
    for n in (3, 4):
        for su in (1, -1):
            for sv in (1, -1):
                tag = "%s%s" % ("+-"[su < 0], "+-"[sv < 0])
                ctx.prove("rotation-between-points/%d/%s" % (n, tag), KS(u, "rot_between", 9, [n], su, sv), n3(*[c + str(k) for k in range(n) for c in "qp"]), post_rotation((su, sv), lambda i, n=n: corr(pairs_of(i, n))), sampler=s_rotpairs(n, True, False))
                if n == 3:
                    ctx.prove("relative-rotation/%d/%s" % (n, tag), KS(u, "rel_rot", 9, [n, n], su, sv), n3(*["q%d" % k for k in range(n)]) + n3(*["p%d" % k for k in range(n)]), post_rotation((su, sv), lambda i, n=n: corr(zipped(i, n)), True), sampler=s_rotpairs(n, False, False))
    for planar in (0, 1):
        ctx.runtime("relative-rotation/8%s" % ("/coplanar" if planar else ""), K(u, "rel_rot", 9, [8, 8]), ["i%d" % k for k in range(48)], post_rotation(None, lambda i: corr(zipped(i, 8)), True), sampler=s_rotpairs(8, False, planar))
    for a, b in ((2, 3), (3, 2)):
        for f, k in (("rel_rot", 0), ("rel_pose", 9), ("rel_refine", 12)):
            ctx.prove("size-mismatch-throws/%s/%d-%d" % (f, a, b), core.Throws(K(u, f, 12, [a, b, 1])), ["i%d" % j for j in range(k + 3 * (a + b))], lambda i, o: [Cond("throws", eqv(o[0], 1))])
    for su in (1, -1):
        for sv in (1, -1):
            tag = "%s%s" % ("+-"[su < 0], "+-"[sv < 0])
            for n in (1, 2):
                names = ["E%d" % k for k in range(9)] + n3(*["a%d" % k for k in range(n)]) + n3(*["b%d" % k for k in range(n)])
                num = post_relpose_best(n)
                ctx.prove("relative-pose-candidates/%d/%s" % (n, tag), KS(u, "rel_pose", 12, [n, n], su, sv, []), names, lambda i, o, n=n, s=(su, sv), num=num: post_relpose(n, s)(i, o) if SYM(*i) else num(i, o), sampler=s_relpose_any(n), timeout=120)
    for n in (1, 6):
        ctx.runtime("relative-pose-from-essential/%d" % n, K(u, "rel_pose", 12, [n, n]), ["i%d" % k for k in range(21 + 6 * n)], post_relpose_num(n), sampler=s_relpose(n))
    ctx.runtime("relative-pose-from-essential/best-of-4", K(u, "rel_pose", 12, [4, 4]), ["i%d" % k for k in range(9 + 24)], post_relpose_best(4), sampler=s_relpose_any(4))
    ctx.runtime("relative-pose-refinement/12", K(u, "rel_refine", 12, [12, 12, 50]), ["i%d" % k for k in range(24 + 72)], post_relrefine(12), sampler=s_relrefine(12))

"""P08 robust estimation: scoring, sampling, the estimation loop, the models and their wrappers"""
import math
from fractions import Fraction

from vf import core, ir, paths, pm
from vf import expr as X
from vf.core import Cond, Eq, Reject, eqs

from .P07 import K, CALLS, SYM, calls, disj, eqv, fl_, fresh, g, h_svd, h_two, iff, n3, rd, rowsof, s_rot, same, two_expected, unit, wr, TWO

MIN = 2  # minimal number of samples of the generic model
OPS = []  # what the estimation asked for, in order
PLAN = {}


def vec(m, p):
    """a std::vector<double>"""
    b, e = m.load(ir.P(p.o, p.off), ir.PTR), m.load(ir.P(p.o, p.off + 8), ir.PTR)
    if b is None or getattr(b, "o", None) is None:
        return []
    return rd(m, b, (e.off - b.off) // 8)


def h_samples(m, a, name):
    """GetRandomSamples: some of the samples, once each (any: the models that come of them are arbitrary)"""
    ret, this, s, size = a
    v = vec(m, s)
    n = int(size)
    OPS.append(("sample", v, n))
    n = min(n, len(v))
    sel = v[len(v) - n:]
    d = m.alloc("sel", 8 * max(n, 1))
    wr(m, d, sel)
    for k, q in enumerate((d, ir.P(d.o, d.off + 8 * n), ir.P(d.o, d.off + 8 * n))):
        m.store(ir.P(ret.o, ret.off + 8 * k), 8, q)


def h_models(m, a, name):
    kind, s, n, out = a
    tags = []
    for j in range(PLAN["models"][int(kind)]):
        tags.append(1000.0 + sum(o[0] == "models" for o in OPS) * 10 + j)
    OPS.append(("models", int(kind), rd(m, s, int(n)), tags))
    wr(m, out, [X.const(t) for t in tags])
    return len(tags)


def h_error(m, a, name):
    model, s, j = a
    e = X.fn("err", model, s)
    paths.assume(X.ge(e, X.ZERO))
    return e


def h_score(m, a, name):
    """any score that is not negative and any number of inliers (the first ones)"""
    errs, n, score, idx = a
    e = rd(m, errs, int(n))
    k = sum(o[0] == "score" for o in OPS)
    s, c = X.var("score!%d" % k), X.var("count!%d" % k)
    paths.assume(X.ge(s, X.ZERO))
    cnt = int(n)
    for q in range(int(n)):
        if paths.decide(X.le(c, X.const(q))):
            cnt = q
            break
    OPS.append(("score", e, s, cnt))
    m.store(ir.P(score.o, score.off), 8, s)
    for q in range(cnt):
        m.store(ir.P(idx.o, idx.off + 4 * q), 4, q)
    return cnt


def h_stop(m, a, name):
    p, best, n, it = a
    b, e = m.load(ir.P(best.o, best.off + 8), ir.PTR), m.load(ir.P(best.o, best.off + 16), ir.PTR)
    cnt = 0 if getattr(b, "o", None) is None else (e.off - b.off) // 4
    k = sum(o[0] == "stop" for o in OPS)
    r = paths.decide(X.lt(X.var("stop!%d" % k), X.ZERO))
    OPS.append(("stop", cnt, int(n), int(it), r))
    return 1 if r else 0


def h_adapt(m, a, name):
    return X.fn("adapt", a[0])


class KE(core.CxxKernel):
    def __init__(self, u, func, n_out, cfg, models, contracts=None):
        super().__init__(u, func, n_out, cfg, contracts)
        self.models = models

    def symbolic(self, ins):
        del OPS[:]
        del CALLS[:]
        PLAN["models"] = self.models
        return super().symbolic(ins)


def post_estimate(cfg, models):
    iters, lo, red, n = cfg

    def post(i, o):
        if not SYM(*i):
            return []
        S = list(i[:n])
        if n < MIN:
            return [Cond("no-model-without-enough-samples", X.liftb(not OPS)), Eq("score", o[0], X.ZERO), Cond("no-inliers", eqv(o[3], 0))]
        r = []
        best = None  # (score, inliers, model, best refinement)
        cur = None
        want = []  # models that wait for their score
        scored = []
        last = None
        stopped = False
        minimal = 0
        for op in OPS:
            if op[0] == "sample":
                _, v, size = op
                r.append(Cond("not-more-samples-than-there-are", X.liftb(MIN <= size <= len(v))))
                last = v
            elif op[0] == "models":
                _, kind, s, tags = op
                if kind == 0:
                    minimal += 1
                    r.append(Cond("goes-on-only-when-not-stopped", X.liftb(not stopped)))
                    r.append(Cond("minimal-models-of-all-samples", X.liftb(len(last) == n and same(last, S) and len(s) == MIN)))
                else:
                    r.append(Cond("refines-on-the-inliers-of-the-best-model", X.liftb(best is not None and len(last) == best[1] and same(last, S[:best[1]]))))
                for t in tags:
                    want.append((t, kind))
            elif op[0] == "score":
                _, e, s, cnt = op
                tag = next((t for t, k in want if same(e, [X.fn("err", X.const(t), v) for v in S])), None)
                if tag is None:
                    r.append(Cond("scores-the-errors-of-all-samples", X.FALSE))
                    return r
                kind = dict(want)[tag]
                want = [w for w in want if w[0] != tag]
                if kind == 0:
                    cur = tag
                scored.append((s, cnt, tag))
                if best is None and paths.decide(X.ge(s, X.ZERO)) or best is not None and paths.decide(X.ge(s, best[0])):
                    best = (s, cnt, tag if kind == 0 else best[2], tag)
            else:
                _, cnt, ns, it, res = op
                r.append(Cond("stops-for-the-inliers-of-the-best-model", X.liftb(cnt == (best[1] if best else 0) and ns == n and it == minimal - 1)))
                stopped = stopped or res
        if not stopped:
            r.append(Cond("every-iteration-is-made", X.liftb(minimal == iters)))
            r.append(Cond("every-model-is-scored", X.liftb(not want)))
        r.append(Eq("best-score", o[0], best[0] if best else X.ZERO))
        for s, _, _ in scored:
            r.append(Cond("no-better-score", X.ge(X.lift(o[0]), s)))
        if best is not None:
            r += [Cond("number-of-inliers", eqv(o[3], best[1])), Eq("model", o[1], best[2]), Eq("refined-model", o[2], best[3])]
            r += [Cond("inliers", eqv(o[4 + k], k)) for k in range(best[1])]
        return r

    return post


# ---------------------------------------------------------------- scoring
def np_(v):
    return abs(v) if not isinstance(v, X.E) else X.fabs(v)


def decide(c):
    return paths.decide(c) if isinstance(c, X.B) else c


def score_of(kind, thr, e, got=None):
    """score and inliers of a set of (non-negative) errors"""
    lt = lambda a, b: decide(a < b)
    le = lambda a, b: decide(a <= b)
    if kind == 0:
        inl = [k for k, v in enumerate(e) if lt(v, thr)]
        return float(len(inl)), inl
    if kind == 1:
        inl = [k for k, v in enumerate(e) if le(v, thr)]
        c = sum((e[k] * e[k] if k in inl else thr * thr) for k in range(len(e)))
        return 1.0 / (c + 1e-8), inl
    # the element that has half of the others below it
    m = len(e) // 2
    meds = [v for v in e if sum(lt(w, v) for w in e) <= m < sum(not lt(v, w) for w in e)]  # equal values
    med = next((v for v in meds[1:] if SYM(got) and same([got], [1.0 / (v + 1e-8)])), meds[0])
    inl = [k for k, v in enumerate(e) if le(v, thr * (1.4826 * med))]
    return 1.0 / (med + 1e-8), inl


def near(a, b):
    return abs(a - b) < 1e-9 * (1 + abs(b))


def post_score(kind, n):
    def post(i, o):
        e = list(i[1:1 + n])
        if not SYM(*i) and kind != 2 and any(near(v, i[0]) for v in e):
            raise Reject()
        s, inl = score_of(kind, i[0], e, o[0])
        return [Eq("score", o[0], s, 1e-9), Cond("number-of-inliers", eqv(o[1], len(inl)))] + [Cond("inlier-indices", eqv(o[2 + k], inl[k])) for k in range(len(inl))]

    return post


def s_score(n):
    def s(r):
        return [r.choice([0.01, 0.5, 1.0, 3.0])] + [abs(r.gauss(0, 1)) for _ in range(n)]

    return s


def post_stop(red, inl, n, it):
    def post(i, o):
        if not red:
            return [Cond("never", eqv(o[0], 0))]
        p = i[0]
        q = min(1 - Fraction(1, 2 ** 52), 1 - Fraction(inl, n) ** MIN)
        if SYM(p):
            l = X.div(X.fn("log", X.sub(X.ONE, p)), X.fn("log", X.const(q)))
            return [Cond("stops-once-the-probability-is-reached", iff(o[0], X.lt(l, X.const(it))))]
        l = math.log(1 - p) / math.log(q) if q > 0 else -math.inf
        if q <= 0:
            l = 0.0
        if q > 0 and abs(l - it) < 1e-6:
            raise Reject()
        return [Cond("stops-once-the-probability-is-reached", eqv(o[0], 1.0 if l < it else 0.0))]

    return post


# ---------------------------------------------------------------- sampling
def h_draw(m, a, name):
    """a uniform draw: any number of the range (a number may be drawn again twice at most)"""
    p = a[2]
    lo, hi = int(m.load(ir.P(p.o, p.off), ir.I64)), int(m.load(ir.P(p.o, p.off + 8), ir.I64))
    k = sum(o[0] == "draw" for o in OPS)
    if k > PLAN["draws"]:
        raise paths.Infeasible()
    v = hi
    if hi - lo > 16:
        raise ir.Unsupported("draw from a large range")
    for q in range(lo, hi):
        if paths.decide(X.eq(X.var("draw!%d" % k), X.const(q))):
            v = q
            break
    OPS.append(("draw", v))
    return v


def post_sample(size, n):
    def post(i, o):
        S = list(i[:n])
        r = [Cond("size", eqv(o[0], size))]
        if SYM(*S):
            idx = []
            for k in range(size):
                hit = [q for q in range(n) if o[1 + k] is S[q]]
                idx += hit or [None]
        else:
            idx = [S.index(v) if v in S else None for v in o[1:1 + size]]
        ok = None not in idx and len(set(idx)) == size
        return r + [Cond("distinct-samples", X.liftb(ok) if SYM(*S) else ok)]

    return post


class KS(core.CxxKernel):
    def symbolic(self, ins):
        del OPS[:]
        PLAN["draws"] = self.cfg[0] + 1
        return super().symbolic(ins)


# ---------------------------------------------------------------- the whole estimation, at run time
def post_run(n, kind, ty):
    def post(i, o):
        thr, p = i[0], i[1]
        e, score, cnt = list(o[:n]), o[n], int(o[n + 3])
        if cnt == 0 and score == 0:
            return []
        inl = [int(v) for v in o[n + 4:n + 4 + cnt]]
        t = thr * thr
        if any(near(v, t) for v in e):
            raise Reject()
        s, want = score_of(kind, t, e)
        return [Eq("score-of-the-returned-model", score, s, 1e-9), Cond("inliers-of-the-returned-model", inl == want, "%r, expected %r" % (inl, want))]

    return post


def post_run_sym(n, kind):
    """one iteration, one model: the scoring of the type asked for, with the model's threshold"""
    def post(i, o):
        if not SYM(*i):
            return []
        e = [X.fn("err", X.const(1000.0), v) for v in i[2:2 + n]]
        s, inl = score_of(kind, X.fn("adapt", i[0]), e, o[0])
        r = [Eq("score", o[0], s), Cond("number-of-inliers", eqv(o[3], len(inl)))] + [Cond("inlier-indices", eqv(o[4 + k], inl[k])) for k in range(len(inl))]
        return r + [Eq("model", o[1], X.const(1000.0)), Eq("refined-model", o[2], X.const(1000.0))]

    return post


# ---------------------------------------------------------------- the models

def flat(rows):
    return [e for r in rows for e in r]


NAMES = ("line", "essential-geodesic", "essential-symmetric", "relative-pose", "relative-rotation", "absolute-pose", "absolute-pose-known-rotation", "similarity")
SHAPE = ((2, 1), (3, 3), (3, 3), (3, 4), (3, 3), (3, 4), (3, 1), (4, 4))
MINS = (2, 5, 5, 5, 3, 3, 2, 3)
DIM = (2, 6, 6, 6, 6, 6, 6, 6)
ANGULAR = (3, 4, 5, 6)


def nrm(v):
    q = pm.dot(v, v)
    return pm.vscale(1 / pm.sqrt(q), v) if decide(q > 0) else v


def error_of(kind, M, d, two=None):
    """error of a correspondence (or point) under a model"""
    x, y = d[:3], d[3:]
    if kind == 0:
        return d[1] - (M[0][0] * d[0] + M[1][0])
    if kind == 1:
        return pm.asin(pm.dot(y, pm.mv(M, x)))
    if kind == 2:
        a, b = pm.mv(M, x), pm.mv(pm.tr(M), y)
        e = pm.dot(y, a)
        return e * e * (1 / (a[0] * a[0] + a[1] * a[1]) + 1 / (b[0] * b[0] + b[1] * b[1])) / 4
    if kind == 4:
        return 1 - pm.dot(pm.mv(M, x), y)
    if kind == 6:
        return 1 - pm.dot(nrm(x), nrm(pm.vadd(y, [r[0] for r in M])))
    R, t = [r[:3] for r in M[:3]], [r[3] for r in M[:3]]
    if kind == 5:
        return 1 - pm.dot(nrm(x), nrm(pm.vadd(pm.mv(R, y), t)))
    if kind == 7:
        return pm.norm(pm.vsub(y, pm.vadd(pm.mv(R, x), t)))
    x, y = nrm(x), nrm(y)  # relative pose
    C, B = [[0.0] * 3, [-e for e in pm.mv(pm.tr(R), t)]], [x, pm.mv(pm.tr(R), y)]
    if two is None:
        det = pm.dot(B[0], B[0]) * pm.dot(B[1], B[1]) - pm.dot(*B) ** 2
        if abs(det) < 1e-6:
            raise Reject()
        ok, P = True, two_expected(C, B)[1]
    else:
        ok, P = two(C, B)
    if not ok:
        return 1.0
    return 1 - (pm.dot(nrm(P), x) + pm.dot(nrm(pm.vadd(pm.mv(R, P), t)), y)) * 0.5


def post_eval(kind, n):
    a, b = SHAPE[kind]

    def post(i, o):
        M, r = pm.mat(i[:a * b], a, b), []
        for k in range(n):
            d = list(i[a * b + DIM[kind] * k:a * b + DIM[kind] * (k + 1)])

            def two(C, B, k=k):
                cs = calls("two")
                if len(cs) != n:
                    r.append(Cond("one-triangulation-each", X.FALSE))
                    return False, None
                (c, w), (ok, P) = cs[k]
                r.extend(eqs("triangulated-centers", c, C) + eqs("triangulated-bearings", w, B))
                return ok, P

            e = error_of(kind, M, d, two if SYM(*i) else None)
            if not SYM(*i):
                r.append(Eq("error", o[k], abs(e), 1e-6))
            else:
                r += [Cond("not-negative", X.ge(X.lift(o[k]), X.ZERO)), Eq("error", X.lift(o[k]) * o[k], e * e)]
        return r

    return post


def s_eval(kind, n):
    def s(r):
        R, t = pm.mat(s_rot(r), 3, 3), [r.gauss(0, 1) for _ in range(3)]
        m = {0: t[:2], 6: t, 1: flat([[0, -t[2], t[1]], [t[2], 0, -t[0]], [-t[1], t[0], 0]]), 4: flat(R), 7: flat([R[k] + [t[k]] for k in range(3)] + [[0.0, 0.0, 0.0, 1.0]])}
        m[2], m[3] = m[1], flat([R[k] + [t[k]] for k in range(3)])
        m[5] = m[3]
        v = [float(e) for e in m[kind]]
        if kind == 1:
            v = [e * 0.3 for e in v]
        for _ in range(n):
            v += [r.gauss(0, 1), r.gauss(0, 1)] if kind == 0 else unit(r) + unit(r) if kind < 5 else [e * r.uniform(0.5, 3) for e in unit(r)] + [r.gauss(0, 2) for _ in range(3)]
        return v

    return s


def post_adapt(kind):
    def post(i, o):
        want = 1 - pm.cos(i[0]) if kind in ANGULAR else i[0]
        return [Eq("threshold", o[0], want, 1e-12), Cond("minimal-samples", eqv(o[1], MINS[kind]))]

    return post


def post_line(i, o):
    x1, y1, x2, y2 = i
    if not SYM(*i) and abs(x1 - x2) < 1e-6:
        raise Reject()
    if decide(X.eq(X.lift(o[0]), X.ZERO) if SYM(o[0]) else o[0] == 0):
        return [Cond("only-degenerate-lines-rejected", X.or_(X.eq(x1, X.ZERO), X.eq(x1, x2)) if SYM(*i) else x1 == 0)]
    return [Cond("one-line", eqv(o[0], 1)), Eq("through-the-first-point", o[1] * x1 + o[2], y1, 1e-6), Eq("through-the-second-point", o[1] * x2 + o[2], y2, 1e-6)]


def h_run(m, a, name):
    ret, s, thr, p, t = a
    v = vec(m, s)
    params = [m.load(ir.P(p.o, p.off), ir.I32), m.load(ir.P(p.o, p.off + 8), ir.DBL), m.load(ir.P(p.o, p.off + 16), ir.I8), m.load(ir.P(p.o, p.off + 17), ir.I8), m.load(ir.P(p.o, p.off + 20), ir.I32)]
    CALLS.append(("run", (name, v, thr, params, m.load(ir.P(t.o, t.off), ir.I32)), None))
    m.store(ir.P(ret.o, ret.off), 8, X.var("run-score"))
    for k in range(3):
        m.store(ir.P(ret.o, ret.off + 8 + 8 * k), 8, 0)


RUN = ("RunEstimationI4LineE", "RunEstimationI15EssentialMatrixI16EpipolarGeodesicEE", None, "RunEstimationI12RelativePoseE", "RunEstimationI16RelativeRotationE",
       "RunEstimationI12AbsolutePoseE", "RunEstimationI25AbsolutePoseKnownRotationE", "RunEstimationI10SimilarityE")


def samples_of(kind, i, n):
    if kind == 0:
        return [list(i[2 + 2 * k:4 + 2 * k]) for k in range(n)]
    a, b = rowsof(i, 2, n), rowsof(i, 2 + 3 * n, n)
    return [(nrm(x) if kind in (5, 6) else x) + y for x, y in zip(a, b)]


def post_wrap(kind, n, cfg):
    def post(i, o):
        if not SYM(*i):
            return []
        cs = calls("run")
        if len(cs) != 1:
            return [Cond("one-estimation", X.FALSE)]
        name, v, thr, params, t = cs[0][0]
        want = sum(samples_of(kind, i, n), [])
        r = [Cond("model", X.liftb(RUN[kind] in name)), Cond("type", X.liftb(t == cfg[0])), Cond("parameters", X.liftb([int(params[0]), int(params[2]), int(params[3]), int(params[4])] == [cfg[1], int(cfg[2] > 0), cfg[3], cfg[2]])),
             Eq("probability", params[1], i[1]), Eq("threshold", thr, i[0]), Cond("number-of-samples", X.liftb(len(v) == len(want)))]
        return r + (eqs("samples", v, want) if len(v) == len(want) else []) + [Eq("returns-the-estimate", o[0], X.var("run-score"))]

    return post


def truth(kind, r, n, outliers):
    """a scene of the kind: the two sets of rows, of which some do not fit"""
    R, t = pm.mat(s_rot(r), 3, 3), [e * r.uniform(0.5, 2) for e in unit(r)]
    a, b = [], []
    for k in range(n):
        if kind in (1, 3):
            P = [r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(3, 8)]
            x, y = P, pm.vadd(pm.mv(R, P), t)
            x, y = nrm(x), nrm(y)
        elif kind == 4:
            x = unit(r)
            y = pm.mv(R, x)
        elif kind in (5, 6):
            y = [r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(3, 8)]
            x = pm.vadd(pm.mv(R, y) if kind == 5 else y, t)
            x = [e * 0.2 for e in x]
        else:
            x = [r.uniform(-2, 2) for _ in range(3)]
            y = pm.vadd(pm.vscale(1.7, pm.mv(R, x)), t)
        if k < outliers:
            y = unit(r) if kind < 5 else [r.uniform(-9, 9) for _ in range(3)]
        a.append(x)
        b.append(y)
    return flat(a) + flat(b)


THR = (0.05, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.05)


def s_wrap(kind, n, outliers):
    def s(r):
        if kind == 0:
            a, b = r.gauss(0, 1), r.gauss(0, 1)
            pts = [[x, a * x + b if k >= outliers else r.uniform(-9, 9)] for k, x in enumerate(r.uniform(1, 5) for _ in range(n))]
            return [THR[0], 0.999] + flat(pts)
        return [THR[kind], 0.999] + truth(kind, r, n, outliers)

    return s


def post_ransac(kind, n, outliers, ty):
    """the returned inliers are those of the returned model, and the true correspondences are among them"""
    def post(i, o):
        a, b = SHAPE[kind]
        M = pm.mat(o[2:2 + a * b], a, b)
        flags = list(o[18:18 + n])
        thr = 1 - math.cos(i[0]) if kind in ANGULAR else i[0]
        e = [abs(error_of(kind, M, d)) for d in samples_of(kind, i, n)]
        if ty < 2 and any(abs(v - thr) < 1e-9 for v in e):
            raise Reject()
        r = []
        if ty < 2:
            r.append(Cond("inliers-of-the-returned-model", [bool(f) for f in flags] == [v < thr for v in e], "errors %r, threshold %r, inliers %r" % (e, thr, flags)))
            if kind not in (1, 3):  # those are refined and may end elsewhere
                r.append(Cond("finds-the-true-correspondences", all(flags[outliers:]), "errors %r" % e))
        s = score_of(ty, thr, e)[0]
        return r + [Cond("score", abs(s - o[0]) <= 1e-3 * abs(s) + 1e-9 if ty == 0 or o[0] < 1e5 else True, "score %r, expected %r" % (o[0], s))]

    return post


def model_checks(ctx):
    u = core.CxxUnit(ctx, "rob_eval.cc", extra_native=["-lceres", "-lglog"], keep=[TWO], contracts=[(r"35TriangulateTwoBearingsMidpointSolveIdE", h_two)])
    for kind, nm in enumerate(NAMES):
        a, b = SHAPE[kind]
        for n in (1,) if kind == 3 else (1, 2):
            ctx.prove("error/%s/%d" % (nm, n), K(u, "evaluate", n, [kind, n]), ["m%d" % k for k in range(a * b)] + ["d%d" % k for k in range(DIM[kind] * n)], post_eval(kind, n), sampler=s_eval(kind, n), max_paths=400)
        ctx.prove("threshold/%s" % nm, K(u, "adapter", 2, [kind]), ["threshold"], post_adapt(kind), sampler=lambda r: [r.uniform(0, 1)])
    for nm in (0, 1):
        ctx.prove("line/%s" % ("non-minimal" if nm else "minimal"), K(u, "line", 3, [nm]), ["x1", "y1", "x2", "y2"], post_line, pre=lambda i: [X.not_(X.eq(i[0], i[2]))] if SYM(*i) else [i[0] != i[2]])
    w = core.CxxUnit(ctx, "rob_models.cc", extra_native=["-lceres", "-lglog"], contracts=[(r"^@_Z13RunEstimation", h_run)])
    for kind, nm in enumerate(NAMES):
        if RUN[kind] is None:
            continue
        for n, cfg in ((2, [1, 30, 5, 1]), (3, [2, 7, 0, 0]), (1, [0, 100, 10, 1])):
            ins = ["threshold", "probability"] + (["p%d" % k for k in range(2 * n)] if kind == 0 else n3(*["a%d" % k for k in range(n)]) + n3(*["b%d" % k for k in range(n)]))
            ctx.prove("runs/%s/%d" % (nm, n), K(w, "ransac", 18 + n, [kind, n, n] + cfg), ins, post_wrap(kind, n, cfg), samples=2, max_paths=200)
        if kind:
            for n, m in ((2, 3), (3, 2)):
                ctx.prove("size-mismatch-throws/%s/%d-%d" % (nm, n, m), core.Throws(K(w, "ransac", 18 + n, [kind, n, m, 0, 10, 0, 0])), ["i%d" % k for k in range(2 + 3 * (n + m))], lambda i, o: [Cond("throws", eqv(o[0], 1))], samples=3)
        for ty, tn in enumerate(("ransac", "msac", "lmeds")):
            n, out = 20, 4
            ctx.runtime("ransac/%s/%s" % (nm, tn), K(w, "ransac", 18 + n, [kind, n, n, ty, 300, 5, 1]), ["i%d" % k for k in range(2 + (2 if kind == 0 else 6) * n)], post_ransac(kind, n, out, ty), sampler=s_wrap(kind, n, out), samples=20)


GEN = "_ZN22RandomSamplesGeneratorISt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EEE16GetRandomSamplesI3DblEESt6vectorINT_4DataESaIS7_EERKS9_i"
STOP = "_Z10ShouldStopI3DblEbRK21RobustEstimatorParamsRK9ScoreInfoINT_4TypeES6_Eii"
DRAW = "_ZNSt24uniform_int_distributionImEclISt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EEEEmRT_RKNS0_10param_typeE"


def build(ctx):
    ctx.assume("A-REAL: floating point numbers are read as exact reals", "A-LIBM: log and cos are named functions of their argument",
               "A-PARAM: Estimate and RunEstimation are instantiated with a model and a scoring of which nothing is known but their interface; what holds for these holds for all",
               "A-RANDOM: the random generator may draw any number of its range; a rejected draw is repeated at most twice",
               "A-SIZE: 0 to 3 samples, 1 or 2 iterations (the state after one iteration is arbitrary, so that the second is the induction step), 0 to 2 refinements and models per iteration")
    base = [(r"^@vf_models$", h_models), (r"^@vf_error$", h_error), (r"^@vf_score$", h_score), (r"^@vf_adapt$", h_adapt)]
    est = base + [(r"16GetRandomSamplesI3Dbl", h_samples), (r"^@_Z10ShouldStopI3Dbl", h_stop)]
    u = core.CxxUnit(ctx, "rob_est.cc", keep=[GEN, STOP, DRAW], contracts=est)
    for cfg, models in (((2, 1, 0, 2), (1, 1)), ((1, 2, 0, 2), (1, 1)), ((1, 0, 0, 2), (2, 0)), ((1, 1, 0, 2), (2, 1)), ((2, 0, 1, 2), (1, 0)), ((1, 0, 1, 2), (2, 0)), ((3, 0, 1, 3), (1, 0)), ((2, 1, 0, 2), (0, 0)), ((2, 1, 0, 3), (1, 0)), ((1, 1, 0, 1), (1, 1)), ((1, 1, 0, 0), (1, 1)), ((0, 1, 0, 2), (1, 1))):
        ctx.prove("estimate/%d-iterations-%d-refinements%s-%d-samples-%d+%d-models" % (cfg[0], cfg[1], "-early-stop" if cfg[2] else "", cfg[3], *models), KE(u, "estimate", 4 + cfg[3], list(cfg), models), ["s%d" % k for k in range(cfg[3])],
                  post_estimate(cfg, models), max_paths=3000, samples=2)
    for kind, nm in enumerate(("ransac", "msac", "lmeds")):
        for n in (1, 2, 3):
            ctx.prove("score/%s/%d" % (nm, n), KE(u, "score", 2 + n, [kind, n], (1, 1), base), ["threshold"] + ["e%d" % k for k in range(n)], post_score(kind, n), pre=lambda i: [v >= 0 for v in i], sampler=s_score(n), max_paths=400)
        for n in (7, 20):
            ctx.runtime("score/%s/%d" % (nm, n), KE(u, "score", 2 + n, [kind, n], (1, 1), base), ["i%d" % k for k in range(n + 1)], post_score(kind, n), sampler=s_score(n))
        ctx.prove("run/%s" % nm, KE(u, "run", 6, [1, 0, 0, 2, kind], (1, 1), est[:-2] + est[-2:]), ["threshold", "probability", "s0", "s1"], post_run_sym(2, kind), max_paths=400, samples=2)
        for lo in (0, 10):
            n = 12
            ctx.runtime("run/%s/%d-refinements" % (nm, lo), KE(u, "run_errors", 2 * n + 4, [30, lo, 1, n, kind], (1, 1)), ["threshold", "probability"] + ["s%d" % k for k in range(n)], post_run(n, kind, nm), sampler=lambda r: [r.uniform(0.2, 0.95), r.uniform(0.5, 0.99)] + [r.uniform(-1, 1) for _ in range(12)])
    ctx.prove("run/unknown-type", core.Throws(KE(u, "run", 6, [1, 0, 0, 2, 3], (1, 1))), ["threshold", "probability", "s0", "s1"], lambda i, o: [Cond("throws", eqv(o[0], 1))], samples=2)
    for red, inl, n, it in ((0, 2, 2, 5), (1, 0, 3, 0), (1, 0, 3, 7), (1, 1, 4, 3), (1, 2, 4, 3), (1, 3, 3, 0), (1, 3, 3, 1), (1, 5, 10, 16), (1, 9, 10, 2)):
        ctx.prove("should-stop/%d-%d-%d-%d" % (red, inl, n, it), KE(u, "should_stop", 1, [red, inl, n, it], (1, 1), base), ["probability"], post_stop(red, inl, n, it), pre=lambda i: [i[0] > 0, i[0] < 1], sampler=lambda r: [r.choice([r.uniform(0.01, 0.99), r.uniform(0.99, 0.9999)])])
    for size, n in ((1, 1), (1, 3), (2, 2), (2, 3), (2, 4), (3, 3)):
        ctx.prove("sampling/%d-of-%d" % (size, n), KS(u, "sample", 1 + size, [size, n, 42], base + [(r"uniform_int_distribution.*param_type", h_draw)]), ["s%d" % k for k in range(n)], post_sample(size, n), max_paths=3000)
    for size, n in ((5, 5), (5, 6), (5, 100)):
        for seed in (42, 1):
            ctx.runtime("sampling/%d-of-%d/seed-%d" % (size, n, seed), KS(u, "sample", 1 + size, [size, n, seed], base), ["s%d" % k for k in range(n)], post_sample(size, n), samples=20)
    model_checks(ctx)

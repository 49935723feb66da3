"""P02 camera models: projection, back-projection, parameters, pixel coordinates"""
from vf import alg, core, ir, pm
from vf import expr as X
from vf.core import Cond, Eq, eqs

from specs import cams
from specs.cams import FACTORY, STORAGE, TYPES

ROOT = {}


def newton(m, args, name):
    """Contract of NewtonRaphson(f, x0, ...): the value returned is a root of f.

    The root is named by the lemma under proof (ROOT) and that it is one is an
    obligation: f(root) = 0 is evaluated on the code of the functor itself."""
    two = "Li2ELi2E" in name
    cls = name.split("NewtonRaphsonIN8geometry")[1].split("Li")[0]
    op = next(f for f in m.m.funcs if f.startswith("@_ZNK8geometry" + cls.rstrip("E")) and "clERK" in f)
    if "ThetaEval" in name:
        root = ROOT["theta"]
    else:
        root = ROOT["xy"] if two else ROOT["r"]
    if two:
        sret, fun = args[0], args[1]
        x = m.alloc("x", 16)
        m.store(x, 8, root[0])
        m.store(ir.P(x.o, 8), 8, root[1])
        res = m.alloc("f", 16)
        m.call(op, [res, fun, x])
        f = [m.load(ir.P(res.o, 8 * k), ir.DBL) for k in range(2)]
    else:
        fun = args[0]
        x = m.alloc("x", 8)
        m.store(x, 8, root)
        f = [m.call(op, [fun, x])]
    for v in f:
        st, det = core.prove_eq(core.paths.current_pc(), v, X.ZERO, None, 60)
        if st != "proved":
            if core.degenerate(core.paths.current_pc(), ROOT.get("zones", ())):
                raise core.Reject()
            raise ir.Unsupported("the undistorted point is not a root of the system handed to NewtonRaphson: %s" % det)
    if two:
        m.store(ir.P(sret.o, sret.off), 8, root[0])
        m.store(ir.P(sret.o, sret.off + 8), 8, root[1])
        return None
    return root


def undistort(m, args, name):
    """Contract of Disto24::Backward (proved as inverse/Disto24): it undoes the distortion of the point handed to it."""
    pt, k, out = args
    q = ROOT["xy"]
    kk = [m.load(ir.P(k.o, k.off + 8 * j), ir.DBL) for j in range(2)]
    d = cams.distort(q, dict(zip(["k1", "k2"], kk)))
    for j in range(2):
        st, det = core.prove_eq(core.paths.current_pc(), m.load(ir.P(pt.o, pt.off + 8 * j), ir.DBL), d[j], None, 60)
        if st != "proved":
            raise ir.Unsupported("the point handed to Disto24::Backward is not the distorted point: %s" % det)
        m.store(ir.P(out.o, out.off + 8 * j), 8, q[j])


def rnorm(q):
    return pm.sqrt(q[0] * q[0] + q[1] * q[1])


# ---------------------------------------------------------------- helpers
def named(t, v):
    return dict(zip(FACTORY[t], v))


def post_project(t, small=False):
    def post(i, o):
        return eqs("model-equations", o, cams.project(t, i[:3], named(t, i[3:]), small), 1e-9)

    return post


def pre_point(t, small=False):
    def pre(i):
        x, y, z = i[:3]
        r2 = x * x + y * y
        c = []
        if t == 6:
            return [x * x + z * z > 0]
        if t in cams.PERSP or t == 7 or small:
            c.append(z > 1e-3)
        if t not in cams.PERSP:
            c.append(r2 < 1e-16 if small else r2 >= 1e-12)
        return c

    return pre


def s_cam(t, strong=0.05, wide=0.6, back=True):
    def s(r):
        P = cams.sample_point(r, wide)
        if t == 6:
            P = [r.uniform(-2, 2) for _ in range(3)]
        if back and t in cams.FISH and r.random() < 0.3:
            P = [r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-1, 1)]
        return P + cams.sample_params(r, FACTORY[t], strong)

    return s


def s_small(t):
    def s(r):
        z = r.uniform(0.5, 2)
        return [r.uniform(-5e-9, 5e-9), r.uniform(-5e-9, 5e-9), z] + cams.sample_params(r, FACTORY[t])

    return s


def monotone(t, p, r, n=60):
    """the radial distortion has no fold before radius r (run time domain)"""
    last = 0.0
    for i in range(1, n + 1):
        x = r * 1.3 * i / n
        d = x * (1 + sum(p.get("k%d" % k, 0.0) * x ** (2 * k) for k in range(1, 7)))
        if d - last < 0.35 * r * 1.3 / n:
            return False
        last = d
    return True


def post_inverse(t):
    def post(i, o):
        n = pm.norm(i[:3])
        tol = 2e-5 if t != 6 else 1e-9
        if isinstance(i[0], float):
            p = named(t, i[3:])
            if t != 6 and not monotone(t, p, rnorm(cams.projection(t, i[:3], p)) + 1e-9):
                raise core.Reject()
            if t == 7 and rnorm(i[:3]) > 1.2 * i[2]:
                raise core.Reject()
        z = []
        if t != 6:
            d = cams.distort(cams.projection(t, i[:3], named(t, i[3:])), named(t, i[3:]))
            z = [(d[0] * d[0] + d[1] * d[1], 1e-12)]
            if t in cams.FISH:
                th = image_radius(t, i[:3], {})
                z.append((th * th, 1e-7))
        return eqs("bearing-of-projection", o, [v / n for v in i[:3]], tol, z)

    return post


def post_inverse2(t):
    def post(i, o):
        z = []
        if t == "fisheye":
            s = pm.sin(rnorm(i[:2]))
            z = [(s * s, 2e-8)]
        return eqs("projection-of-bearing", o[:2], i[:2], 2e-5, z) + [Eq("unit-bearing", o[2], 1.0, 1e-9)]

    return post


def inside(t):
    """run-time domain: pixels inside of the image of the model"""
    def s(r):
        P = cams.sample_point(r, 0.5)
        v = cams.sample_params(r, FACTORY[t], 0.05)
        if t == 6:
            return [r.uniform(-0.5, 0.5), r.uniform(-0.25, 0.25)]
        p = named(t, v)
        if not monotone(t, p, rnorm(cams.projection(t, P, p)) + 1e-9):
            return None
        return list(cams.project(t, P, p)) + v

    return s


def build(ctx):
    ctx.assume("A-REAL: floating point numbers are read as exact reals", "A-LIBM: sqrt, sin, cos, tan, atan2 satisfy their real definitions",
               "A-NEWTON: foundation::NewtonRaphson converges to the root (its step, the systems it solves and their derivatives are proved; convergence and accuracy are checked at run time only)",
               "well-defined: denominators of the code are non-zero on the stated domain")
    u = core.CxxUnit(ctx, "camera.cc")
    un = core.CxxUnit(ctx, "camera.cc", noinline=True, contracts=[(r"13NewtonRaphsonIN8geometry", newton)])
    un.start_native = u.start_native
    un.native = u.native
    for t in range(10):
        F = FACTORY[t]
        nm = TYPES[t]
        ins = ["x", "y", "z"] + F
        for many in (0, 1):
            ctx.prove("Project%s/%s" % ("Many" * many, nm), u.kernel("project", 2, [t, many]), ins, post_project(t), pre=pre_point(t), sampler=s_cam(t))
        if t not in cams.PERSP and t != 6:
            ctx.prove("Project/%s/on-axis" % nm, u.kernel("project", 2, [t, 0]), ins, post_project(t, True), pre=pre_point(t, True), sampler=s_small(t))
        ctx.prove("Bearing(Project)/%s" % nm, Inv(un, "roundtrip", 3, t), ins, post_inverse(t), pre=pre_inv(t), sampler=s_cam(t, back=False), timeout=300)
        ctx.runtime("Project(Bearing)/%s" % nm, u.kernel("roundtrip2", 3, [t]), ["u", "v"] + F, post_inverse2(t), sampler=inside(t))
        ctx.runtime("Bearing-strong-distortion/%s" % nm, u.kernel("roundtrip", 3, [t]), ins, post_inverse(t), pre=pre_inv(t), sampler=s_cam(t, 0.2, 0.8, False))
        for a in range(max(1, len(F))):
            ctx.prove("parameters/%s/%d" % (nm, a), u.kernel("params", 2 + 4 * max(1, len(F)), [t, a]), F + ["new"], post_params(t, a))
        for w, h in ((640, 480), (480, 640), (5, 5)):
            ctx.prove("GetProjectionMatrix/%s/%dx%d" % (nm, w, h), u.kernel("kmatrix", 18, [t, w, h]), F or ["unused"], post_kmat(t, w, h))
    for k, (nm, n, two) in enumerate(NEWTON):
        ins = (["x1", "x2", "t1", "t2"] if two else ["x", "target", "unused"]) + ["k%d" % j for j in range(n)]
        ctx.prove("Newton-system/%s" % nm, u.kernel("newton_fn", 6 if two else 2, [k]), ins, post_newton_fn(k, two), pre=(lambda i: [pm.cos(i[0]) > 0.1]) if k == 6 else None)
    ctx.prove("NewtonRaphson.step/1d", u.kernel("newton_step", 1, [0]), ["x", "f", "d"], lambda i, o: [Eq("newton-step", (i[0] - o[0]) * i[2], i[1])], pre=lambda i: [i[2] * i[2] > 1e-2])
    ctx.prove("NewtonRaphson.step/2d", u.kernel("newton_step", 2, [1]), ["x1", "x2", "f1", "f2", "a", "b", "c", "d"], post_step2,
              pre=lambda i: [(i[4] * i[7] - i[5] * i[6]) * (i[4] * i[7] - i[5] * i[6]) > 1e-2])
    for which, nm in enumerate(["perspective", "fisheye", "dual", "spherical"]):
        t = [0, 2, 7, 6][which]
        ctx.prove("inverse/%s-projection" % nm, ProjInv(un, which), ["x", "y", "z"] + (["transition"] if which == 2 else []), post_unit(which), pre=(lambda i: pre_point(7)(i) + [i[3] > 0, i[3] < 1]) if which == 2 else pre_point(t) if which != 3 else (lambda i: [i[0] * i[0] + i[2] * i[2] > 1e-6]),
                  sampler=lambda r, w=which: cams.sample_point(r) + ([r.uniform(0.05, 0.95)] if w == 2 else []))
    for which, nm in enumerate(["perspective", "fisheye", "spherical"]):
        ctx.prove("inverse2/%s-projection" % nm, u.kernel("proj_inv2", 3, [which]), ["u", "v"], post_inverse2(nm), pre=PRE2[which], sampler=S2[which])
    for which, (nm, names) in enumerate(DISTO):
        ctx.prove("inverse/%s" % nm, DistoInv(un, which), ["x", "y"] + names, post_same(which, names), pre=lambda i, w=which: [i[0] * i[0] + i[1] * i[1] > 1e-10] + ([i[2] > 0.01, i[3] > 0.01] if w == 6 else [i[2] > 0.01] if w == 7 else [cams.radial(i[:2], dict(zip(DISTO[w][1], i[2:]))) > 0.01] if w < 3 else []),
                  sampler=lambda r, n=names: [r.uniform(-0.6, 0.6), r.uniform(-0.6, 0.6)] + cams.sample_params(r, n))
    for w, h in ((640, 480), (480, 640), (1, 1), (3, 7)):
        for c in range(4):
            ctx.prove("pixel-coordinates/%dx%d/%d" % (w, h, c), u.kernel("pixels", 4, [c, w, h]), ["px", "py"], post_pixels(w, h), sampler=lambda r: [r.uniform(-1000, 1000), r.uniform(-1000, 1000)])
    for a, b in ((0, 6), (1, 0), (3, 2), (6, 7)):
        ctx.runtime("ComputeCameraMapping/%s-%s" % (TYPES[a], TYPES[b]), u.kernel("mapping", 48, [a, b]), FACTORY[a] + [n + "'" for n in FACTORY[b]],
                    lambda i, o: eqs("maps-to-projection-of-bearing", o[0::2], o[1::2], 1e-4), sampler=lambda r, a=a, b=b: cams.sample_params(r, FACTORY[a], 0.02) + cams.sample_params(r, FACTORY[b], 0.02))


NEWTON = [("Disto2", 1, False), ("Disto24", 2, False), ("Disto2468", 4, False), ("Disto62", 8, True), ("Disto624", 12, True), ("DistoBrown", 5, True), ("DualProjection", 1, False)]
KN = [["k1"], ["k1", "k2"], cams.K(4), cams.K(6) + ["p1", "p2"], cams.K(6) + ["p1", "p2", "s0", "s1", "s2", "s3"], cams.K(3) + ["p1", "p2"]]
DISTO = list(zip(["Disto2", "Disto24", "Disto2468", "Disto62", "Disto624", "DistoBrown"], KN)) + [("Affine", cams.AFF), ("UniformScale", ["f"]), ("Identity", [])]
PRE2 = [None, lambda i: [i[0] * i[0] + i[1] * i[1] > 1e-12, i[0] * i[0] + i[1] * i[1] < 9.6], lambda i: [i[0] < 0.4999999, i[0] > -0.4999999, i[1] > -0.2499999, i[1] < 0.2499999]]
S2 = [lambda r: [r.uniform(-2, 2), r.uniform(-2, 2)], lambda r: [r.uniform(-2, 2), r.uniform(-2, 2)], lambda r: [r.uniform(-0.5, 0.5), r.uniform(-0.25, 0.25)]]


def pre_inv(t):
    def pre(i):
        c = list(pre_point(t)(i))
        if isinstance(i[0], X.E) and t in (0, 2, 3, 7, 8, 9):
            p = named(t, i[3:])
            c.append(cams.radial([image_radius(t, i[:3], p), 0.0], p) > 0.01)
        for k, n in enumerate(FACTORY[t]):
            if n in ("f", "ar"):
                c.append(i[3 + k] > 0.01)
            if n == "transition" and isinstance(i[0], X.E):
                c += [i[3 + k] > 0, i[3 + k] < 1]
        if t == 6:
            c.append(i[0] * i[0] + i[2] * i[2] > 1e-6)
        return c

    return pre


def image_radius(t, P, p):
    r = rnorm(P)
    if t in cams.PERSP:
        return r / P[2]
    th = pm.atan2(r, P[2])
    return th if t in cams.FISH else p["transition"] * r / P[2] + (1 - p["transition"]) * th


class Inv(core.CxxKernel):
    def __init__(self, unit, func, n_out, t):
        super().__init__(unit, func, n_out, [t], [(r"N8geometry7Disto248BackwardId", undistort)] + unit.contracts if t == 7 else None)
        self.t = t

    def symbolic(self, ins):
        P = ins[:3]
        if self.t != 6:
            q = cams.projection(self.t, P, named(self.t, ins[3:]))
            d = cams.distort(q, named(self.t, ins[3:]))
            ROOT.update(zones=[(d[0] * d[0] + d[1] * d[1], 1e-12)], xy=q, r=image_radius(self.t, P, named(self.t, ins[3:])), theta=pm.atan2(rnorm(P), P[2]))
        return super().symbolic(ins)


class ProjInv(core.CxxKernel):
    def __init__(self, unit, which):
        super().__init__(unit, "proj_inv", 3, [which])

    def symbolic(self, ins):
        ROOT.update(theta=pm.atan2(rnorm(ins[:3]), ins[2]))
        return super().symbolic(ins)


class DistoInv(core.CxxKernel):
    def __init__(self, unit, which):
        super().__init__(unit, "disto_inv", 2, [which])

    def symbolic(self, ins):
        ROOT.update(xy=ins[:2], r=rnorm(ins[:2]))
        return super().symbolic(ins)


def post_unit(which):
    def post(i, o):
        n = pm.norm(i[:3])
        th = pm.atan2(rnorm(i[:3]), i[2])
        return eqs("unit-bearing-of-the-point", o, [v / n for v in i[:3]], 1e-5 if which == 2 else 1e-9, [(th * th, 1e-7)] if which == 1 else ())

    return post


def post_same(which, names):
    def post(i, o):
        if isinstance(i[0], float) and which < 6 and not monotone(None, dict(zip(names, i[2:])), rnorm(i[:2])):
            raise core.Reject()
        d = cams.distort(i[:2], dict(zip(names, i[2:])))
        return eqs("undistort-inverts-distort", o, i[:2], 2e-5 if which < 6 else 1e-9, [(d[0] * d[0] + d[1] * d[1], 1e-12)] if which < 6 else ())

    return post


_D = {}


def post_newton_fn(k, two):
    """value: distort(x) - target; derivative: its true derivative"""
    def post(i, o):
        if k == 6:
            t = i[3]
            c = pm.cos(i[0])
            return [Eq("value", o[0], t * pm.tan(i[0]) + (1 - t) * i[0] - i[1]), Eq("derivative", o[1], t / (c * c) + 1 - t)]
        names = KN[k]
        if two:
            p = dict(zip(names, i[4:]))
            d = cams.distort(i[:2], p)
            J = jac(("d", k), lambda v: cams.distort(v[:2], dict(zip(names, v[2:]))), ["x1", "x2"] + names, 2, list(i[:2]) + list(i[4:]))
            return eqs("value", o[:2], [d[0] - i[2], d[1] - i[3]]) + eqs("derivative", o[2:], J[0] + J[1])
        p = dict(zip(names, i[3:]))
        rad = lambda v: [cams.distort([v[0], 0.0], dict(zip(names, v[1:])))[0]]
        J = jac(("d", k), rad, ["x"] + names, 1, [i[0]] + list(i[3:]))
        return [Eq("value", o[0], rad([i[0]] + list(i[3:]))[0] - i[1]), Eq("derivative", o[1], J[0][0])]

    return post


def jac(key, fn, names, nder, at, conds=None):
    """true derivatives of fn with respect to its first nder inputs, at `at` (terms or floats)"""
    if key not in _D:
        V = [X.var("d!" + n) for n in names]
        out = fn(V)
        _D[key] = [[X.diff(X.lift(o), v) for v in V[:nder]] for o in out]
    D = _D[key]
    flat = [e for r in D for e in r]
    if isinstance(at[0], X.E):
        vals = X.subst(flat, {X.var("d!" + n): X.lift(a) for n, a in zip(names, at)})
    else:
        vals = X.evaluate(flat, {"d!" + n: float(a) for n, a in zip(names, at)})
    return [vals[r * nder:(r + 1) * nder] for r in range(len(D))]


def post_step2(i, o):
    d1, d2 = i[0] - o[0], i[1] - o[1]
    return [Eq("newton-step[0]", i[4] * d1 + i[5] * d2, i[2]), Eq("newton-step[1]", i[6] * d1 + i[7] * d2, i[3])]


def post_params(t, a):
    def post(i, o):
        F, S = FACTORY[t], STORAGE[t]
        p = dict(zip(F, i))
        r = [Eq("type", o[0], float(t)), Eq("count", o[1], float(max(1, len(F))))]
        if not F:
            return r + [Eq("none", o[2], float(cams.ENUM["none"]))]
        n = 2
        for k, s in enumerate(S):
            r += [Eq("parameter-type[%d]" % k, o[n], float(cams.ENUM[s])), Eq("value[%s]" % s, o[n + 1], p[s]), Eq("get[%s]" % s, o[n + 2], p[s])]
            n += 3
        for k, s in enumerate(S):
            r.append(Eq("set-only[%s]" % s, o[n + k], i[len(F)] if k == a else p[s]))
        return r

    return post


def post_kmat(t, w, h):
    def post(i, o):
        p = named(t, i)
        f, ar, cx, cy = p.get("f", 1.0), p.get("ar", 1.0), p.get("cx", 0.0), p.get("cy", 0.0)
        m = float(max(w, h))
        return eqs("K", o[:9], [f, 0.0, cx, 0.0, f * ar, cy, 0.0, 0.0, 1.0]) + eqs("K-scaled", o[9:], [m * f, 0.0, cx * m + 0.5 * w, 0.0, m * f * ar, cy * m + 0.5 * h, 0.0, 0.0, 1.0])

    return post


def post_pixels(w, h):
    def post(i, o):
        m = float(max(w, h))
        return [Eq("normalized[%d]" % k, o[k] * m, i[k] - (d - 1) / 2) for k, d in enumerate((w, h))] + [Eq("pixel[%d]" % k, o[2 + k], i[k] * m + (d - 1) / 2) for k, d in enumerate((w, h))]

    return post

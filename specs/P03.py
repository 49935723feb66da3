"""P03 analytic derivatives are the derivatives of the functions they accompany"""
from vf import core, ir, pm
from vf import expr as X
from vf.core import Cond, Eq, eqs

from specs import cams
from specs.cams import FACTORY, STORAGE, TYPES

_D = {}


def jac(key, fn, names, at):
    """value and true Jacobian of fn (terms -> terms) at `at` (terms or floats)"""
    if key not in _D:
        V = [X.var("d!" + n) for n in names]
        out = [X.lift(o) for o in fn(V)]
        _D[key] = (out, [[X.diff(o, v) for v in V] for o in out])
    val, D = _D[key]
    flat = val + [e for r in D for e in r]
    if isinstance(at[0], X.E):
        vals = X.subst(flat, {X.var("d!" + n): X.lift(a) for n, a in zip(names, at)})
    else:
        vals = X.evaluate(flat, {"d!" + n: float(a) for n, a in zip(names, at)})
    k, n = len(val), len(names)
    return vals[:k], [vals[k + r * n:k + (r + 1) * n] for r in range(k)]


def post(key, fn, names, nout, cols, tol=1e-6):
    """cols: indices of the inputs the Jacobian is taken for (row-major output)"""
    def p(i, o):
        v, J = jac(key, fn, names, i)
        r = eqs("value", o[:nout], v, 1e-9)
        n = len(cols)
        for a in range(nout):
            for b, c in enumerate(cols):
                r.append(Eq("d[%d]/d(%s)" % (a, names[c]), o[nout + a * n + b], J[a][c], tol))
        return r

    return p


RAD = lambda i: i[0] * i[0] + i[1] * i[1]
PT = ["x", "y", "z"]


def pose(P, rt):
    """R(-r) (P - t), as in the bundle adjustment"""
    R = pm.rot_aa([-v for v in rt[:3]])
    return pm.mv(R, pm.vsub(P, rt[3:6]))


def pose_small(P, rt):
    d = pm.vsub(P, rt[3:6])
    return pm.vadd(d, pm.cross([-v for v in rt[:3]], d))


def normalize(P):
    n = pm.norm(P)
    return [v / n for v in P]


def small_rot(o):
    return lambda i: [i[o] * i[o] + i[o + 1] * i[o + 1] + i[o + 2] * i[o + 2] < 1e-16]


def big_rot(*offs):
    return lambda i: [i[o] * i[o] + i[o + 1] * i[o + 1] + i[o + 2] * i[o + 2] > 1e-12 for o in offs]


def s_pose(r, big=True):
    s = r.choice([0.01, 0.5, 1.5]) if big else 1e-9
    return [r.uniform(-s, s) for _ in range(3)] + [r.uniform(-1, 1) for _ in range(3)]


RT = ["rx", "ry", "rz", "tx", "ty", "tz"]
RT2 = ["qx", "qy", "qz", "sx", "sy", "sz"]


def fns():
    K2, K4, K6 = cams.K(2), cams.K(4), cams.K(6)
    P62 = K6 + ["p1", "p2"]
    P624 = P62 + ["s0", "s1", "s2", "s3"]
    PB = cams.K(3) + ["p1", "p2"]
    d = lambda names: (lambda v: cams.distort(v[:2], dict(zip(names, v[2:]))))
    a = lambda names: (lambda v: cams.affine(v[:2], dict(zip(names, v[2:]))))
    zpos = lambda i: [i[2] > 1e-3]
    rpos = lambda i: [RAD(i) >= 1e-12]
    yield 0, "PerspectiveProjection", PT, [], 2, lambda v: cams.persp(v), zpos
    yield 1, "FisheyeProjection", PT, [], 2, lambda v: cams.fisheye(v), rpos
    yield 2, "DualProjection", PT, ["transition"], 2, lambda v: cams.dual(v[:3], v[3]), lambda i: zpos(i) + rpos(i)
    yield 3, "SphericalProjection", PT, [], 2, lambda v: cams.spherical(v), lambda i: [i[0] * i[0] + i[2] * i[2] > 1e-6]
    for k, nm, names in ((4, "Disto2", ["k1"]), (5, "Disto24", K2), (6, "Disto2468", K4), (7, "Disto62", P62), (8, "Disto624", P624), (9, "DistoBrown", PB)):
        yield k, nm, ["x", "y"], names, 2, d(names), None
    yield 10, "Affine", ["x", "y"], cams.AFF, 2, a(cams.AFF), None
    yield 11, "UniformScale", ["x", "y"], ["f"], 2, a(["f"]), None
    yield 12, "Identity", ["x", "y"], [], 2, lambda v: list(v), None
    yield 13, "PoseFunctor", PT, RT, 3, lambda v: pose(v[:3], v[3:]), big_rot(3)
    yield 14, "Normalize", PT, [], 3, normalize, lambda i: [i[0] * i[0] + i[1] * i[1] + i[2] * i[2] > 1e-6]


def s_for(nm, point, params):
    def s(r):
        P = cams.sample_point(r)
        if nm in ("FisheyeProjection", "SphericalProjection", "Normalize", "PoseFunctor"):
            P = [r.uniform(-2, 2) for _ in range(3)]
        if nm == "PoseFunctor":
            return P + s_pose(r)
        if nm.startswith("Disto"):
            return [r.uniform(-1, 1), r.uniform(-1, 1)] + [r.uniform(-1, 1) for _ in params]
        return P[:len(point)] + cams.sample_params(r, params)

    return s


def cam_fn(t, small=False):
    n = STORAGE[t]

    def f(v):
        p = dict(zip(n, v[3:]))
        return cams.project(t, v[:3], p, small)

    return f


def cam_pre(t, small=False):
    from specs.P02 import pre_point

    return pre_point(t, small)


def cam_sampler(t, small=False):
    def s(r):
        P = cams.sample_point(r)
        if t == 6:
            P = [r.uniform(-2, 2) for _ in range(3)]
        if small:
            P = [r.uniform(-5e-9, 5e-9), r.uniform(-5e-9, 5e-9), r.uniform(0.5, 2)]
        return P + cams.sample_params(r, STORAGE[t], 0.2)

    return s


def comp(t, kind):
    """functions and Jacobian columns of the composed functors"""
    n = STORAGE[t]
    if kind in (0, 1):  # camera o pose ; parameters: pose, camera
        f = lambda v: cams.project(t, pose(v[:3], v[3:9]), dict(zip(n, v[9:])))
        names = PT + RT + n
        cols = list(range(len(names))) if kind == 0 else [0, 1, 2]
        return f, names, cols, 2
    if kind == 2:  # camera o rig camera pose o rig instance pose
        f = lambda v: cams.project(t, pose(pose(v[:3], v[3:9]), v[9:15]), dict(zip(n, v[15:])))
        names = PT + RT + RT2 + n
        return f, names, list(range(len(names))), 2
    if kind == 3:
        return (lambda v: normalize(pose(v[:3], v[3:9]))), PT + RT, list(range(9)), 3
    return (lambda v: normalize(pose(pose(v[:3], v[3:9]), v[9:15]))), PT + RT + RT2, list(range(15)), 3


def deep_pre(t, kind):
    """camera-frame point inside of the domain of the projection"""
    def pre(i):
        c = big_rot(3)(i) + (big_rot(9)(i) if kind in (2, 4) else [])
        if isinstance(i[0], X.E):
            return c
        P = pose(i[:3], i[3:9])
        if kind in (2, 4):
            P = pose(P, i[9:15])
        if kind in (3, 4):
            return c + [pm.norm(P) > 0.1]
        return c + [P[2] > 0.2 if t in cams.PERSP or t == 7 else True, P[0] * P[0] + P[1] * P[1] > 1e-4, P[0] * P[0] + P[2] * P[2] > 1e-2]

    return pre


def deep_sampler(t, kind):
    n = STORAGE[t]

    def s(r):
        v = [r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(2, 6)]
        for _ in range(2 if kind in (2, 4) else 1):
            v += [r.uniform(-0.6, 0.6) for _ in range(3)] + [r.uniform(-0.5, 0.5) for _ in range(3)]
        return v + (cams.sample_params(r, n, 0.1) if kind < 3 else [])

    return s


# ---- chain rule of the compositions: the callees are replaced by their contracts (values and
# Jacobians are arbitrary), the composed Jacobian must be the product rule of those Jacobians
CALLS = []


def callee(kind, nin, npar, nout, dp):
    def h(m, a, name):
        pin, par, out, jac = a
        k = len(CALLS)
        ins = [m.load(ir.P(pin.o, pin.off + 8 * j), ir.DBL) for j in range(nin)]
        ps = [m.load(ir.P(par.o, par.off + 8 * j), ir.DBL) for j in range(npar)]
        n = nin + npar * dp
        ov = [X.var("%s%d!o%d" % (kind, k, j)) for j in range(nout)]
        J = [[X.var("%s%d!j%d_%d" % (kind, k, r, c)) for c in range(n)] for r in range(nout)]
        for j in range(nout):
            m.store(ir.P(out.o, out.off + 8 * j), 8, ov[j])
            for c in range(n):
                m.store(ir.P(jac.o, jac.off + 8 * (j * n + c)), 8, J[j][c])
        CALLS.append((kind, ins, ps, ov, J))

    return h


class Comp(core.CxxKernel):
    def symbolic(self, ins):
        del CALLS[:]
        return super().symbolic(ins)


def chain_post(run_post, nout, stages, npt=3):
    """stages: (callee, number of parameters), innermost first"""
    def p(i, o):
        if not isinstance(i[0], X.E):
            return run_post(i, o)
        c = [Cond("calls-in-order", X.TRUE if len(CALLS) == len(stages) and all(a[0] == b[0] for a, b in zip(CALLS, stages)) else X.FALSE)]
        if len(CALLS) != len(stages):
            return c
        at, off, blocks, J = list(i[:npt]), npt, [], None
        for (kind, n), (_, ins, ps, ov, Jc) in zip(stages, CALLS):
            c += eqs(kind + "-input", ins, at) + eqs(kind + "-parameters", ps, i[off:off + n])
            d = len(ins)
            D, P = [r[:d] for r in Jc], [r[d:] for r in Jc]
            J = D if J is None else pm.mm(D, J)
            J = [a + b for a, b in zip(J, P)]
            at, off = ov, off + n
        return c + eqs("value", o[:nout], at) + eqs("jacobian", o[nout:], [e for r in J for e in r])

    return p


def build(ctx):
    ctx.assume("A-REAL: floating point numbers are read as exact reals", "A-LIBM: sqrt, sin, cos, atan2 satisfy their real definitions",
               "well-defined: denominators of the code are non-zero on the stated domain", "derivatives are those of the mathematical function on the open domain (the branch taken is locally constant)")
    u = core.CxxUnit(ctx, "camera.cc")
    un = core.CxxUnit(ctx, "camera.cc", noinline=True)
    un.start_native, un.native = u.start_native, u.native
    for k, nm, point, params, nout, fn, pre in fns():
        names = point + params
        for dp in (0, 1):
            cols = list(range(len(names) if dp else len(point)))
            ctx.prove("%s/%s" % (nm, "all" if dp else "point"), u.kernel("fn_deriv", nout + nout * len(cols), [k, dp]), names, post(("f", k), fn, names, nout, cols), pre=pre, sampler=s_for(nm, point, params))
    names = PT + RT
    for dp in (0, 1):
        ctx.prove("PoseFunctor/%s/small-angle" % ("all" if dp else "point"), u.kernel("fn_deriv", 3 + 3 * (9 if dp else 3), [13, dp]), names,
                  post(("ps",), lambda v: pose_small(v[:3], v[3:]), names, 3, list(range(9 if dp else 3))), pre=small_rot(3), sampler=lambda r: [r.uniform(-2, 2) for _ in range(3)] + s_pose(r, False))
    for t in range(10):
        names = PT + STORAGE[t]
        for dp in (0, 1):
            cols = list(range(len(names) if dp else 3))
            ctx.prove("camera/%s/%s" % (TYPES[t], "all" if dp else "point"), u.kernel("cam_deriv", 2 + 2 * len(cols), [t, dp]), names, post(("c", t), cam_fn(t), names, 2, cols), pre=cam_pre(t), sampler=cam_sampler(t))
            if t in cams.FISH:
                ctx.prove("camera/%s/%s/on-axis" % (TYPES[t], "all" if dp else "point"), u.kernel("cam_deriv", 2 + 2 * len(cols), [t, dp]), names, post(("cs", t), cam_fn(t, True), names, 2, cols),
                          pre=cam_pre(t, True), sampler=cam_sampler(t, True))
        for kind in (0, 1, 2):
            if t == 6 and kind != 1:
                continue  # never instantiated by the library for spherical cameras (see normalized-pose)
            f, names, cols, nout = comp(t, kind)
            dp = kind != 1
            np_ = len(STORAGE[t])
            cs = [(r"11PoseFunctor18ForwardDerivativesIdLb%d" % dp, callee("pose", 3, 6, 3, dp)), (r"14ProjectGeneric.*18ForwardDerivativesIdLb%d" % dp, callee("camera", 3, np_, 2, dp))]
            rp = post(("cp", t, kind // 2), f, names, nout, cols, 1e-5)
            st = [("pose", 6)] * (2 if kind == 2 else 1) + [("camera", np_)]
            ctx.prove("camera-pose-chain/%s/%s" % (TYPES[t], ["pose", "pose-point", "rig-pose"][kind]), Comp(un, "cam_pose_deriv", nout + nout * len(cols), [t, kind], cs), names, chain_post(rp, nout, st), pre=deep_pre(t, kind), sampler=deep_sampler(t, kind))
    for kind in (3, 4):
        f, names, cols, nout = comp(0, kind)
        cs = [(r"11PoseFunctor18ForwardDerivativesIdLb1", callee("pose", 3, 6, 3, 1)), (r"9Normalize18ForwardDerivativesIdLb1", callee("normalize", 3, 0, 3, 1))]
        rp = post(("np", kind), f, names, nout, cols, 1e-5)
        ctx.prove("normalized-pose-chain/%d" % kind, Comp(un, "cam_pose_deriv", nout + nout * len(cols), [0, kind], cs), names, chain_post(rp, nout, [("pose", 6)] * (kind - 2) + [("normalize", 0)]), pre=deep_pre(0, kind), sampler=deep_sampler(0, kind))

"""P04 poses and similarities: one rigid transformation, consistent in all of its forms"""
from vf import core, ir, pm
from vf import expr as X
from vf.core import Eq, eqs

NAMES = ["w", "x", "y", "z", "tx", "ty", "tz"]
ARG = ["aw", "ax", "ay", "az", "ux", "uy", "uz"]


def rq(q):
    w, x, y, z = q
    n = w * w + x * x + y * y + z * z
    M = [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
         [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]
    return [[e / n for e in r] for r in M]


def m4(R, t):
    return [list(R[i]) + [t[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]


def inv(R, t):
    Rt = pm.tr(R)
    return Rt, [-v for v in pm.mv(Rt, t)]


def expected(op, i):
    """(R, t) world to camera after the operation"""
    R, t = rq(i[:4]), i[4:7]
    q, r, u = i[7:11], i[7:10], i[11:14]
    zero = [0.0, 0.0, 0.0]
    A = lambda: rq(q)
    V = lambda: pm.rot_aa(r)
    return {
        0: lambda: (A(), u), 1: lambda: (V(), u), 2: lambda: (pm.eye(3), zero), 3: lambda: (A(), u), 4: lambda: inv(A(), u), 5: lambda: (A(), u), 6: lambda: inv(A(), u),
        7: lambda: (V(), u), 8: lambda: inv(V(), u), 9: lambda: (V(), t), 10: lambda: (A(), t), 11: lambda: (R, u), 12: lambda: (R, [-v for v in pm.mv(R, u)]),
        13: lambda: (pm.mm(R, A()), pm.vadd(pm.mv(R, u), t)),
        14: lambda: (pm.mm(R, pm.tr(A())), pm.vadd(pm.mv(R, inv(A(), u)[1]), t)),
        15: lambda: inv(R, t), 16: lambda: (A(), zero), 17: lambda: (V(), zero)}[op]()


OPS = ["Pose(R,t)", "Pose(r,t)", "Pose()", "SetFromWorldToCamera(T)", "SetFromCameraToWorld(T)", "SetFromWorldToCamera(R,t)", "SetFromCameraToWorld(R,t)", "SetFromWorldToCamera(r,t)", "SetFromCameraToWorld(r,t)",
       "SetWorldToCamRotation", "SetWorldToCamRotationMatrix", "SetWorldToCamTranslation", "SetOrigin", "Compose", "RelativeTo", "Inverse", "Pose(R)", "Pose(r)"]
USES_VEC = (1, 7, 8, 9, 17)

# contract of RotationMatrixToVector inside of the pose operations: an unspecified function of the matrix (proved separately)
RMV = []


def rmv(m, a, name):
    ret, M = (a[0], a[1]) if len(a) == 2 else (None, a[0])
    v = [[m.load(ir.P(M.o, M.off + 8 * (3 * c + r)), ir.DBL) for c in range(3)] for r in range(3)]
    if all(e.op == "c" for r in v for e in r):  # the rotation vector of the identity
        assert [[float(e.args[0]) for e in r] for r in v] == pm.eye(3)
        for k in range(3):
            m.store(ir.P(ret.o, ret.off + 8 * k), 8, X.ZERO)
        RMV.append((v, [X.ZERO] * 3))
        return
    out = [X.var("rmv%d!%d" % (len(RMV), k)) for k in range(3)]
    RMV.append((v, out))
    for k in range(3):
        m.store(ir.P(ret.o, ret.off + 8 * k), 8, out[k])


def vrm(m, a, name):
    """contract of VectorToRotationMatrix on the rotation vectors of the representation invariant: the rotation they stand for"""
    ret, v = a
    r = [m.load(ir.P(v.o, v.off + 8 * k), ir.DBL) for k in range(3)]
    R = rq([X.var(n) for n in NAMES[:4]])
    if all(e.op == "c" for e in r):
        k = [float(e.args[0]) for e in r]
        M = {(1e3, 2e3, 3e3): pm.tr(R), (4e3, 5e3, 6e3): R, (-1e3, -2e3, -3e3): R, (-4e3, -5e3, -6e3): pm.tr(R)}[tuple(k)]
    else:
        for A, q in RMV:
            if all(x is y for x, y in zip(q, r)):
                M = A
                break
            if all(X.neg(x) is y for x, y in zip(q, r)):
                M = pm.tr(A)
                break
        else:
            M = pm.rot_aa(r)
    for p in range(3):
        for c in range(3):
            m.store(ir.P(ret.o, ret.off + 8 * (3 * c + p)), 8, X.lift(M[p][c]))


def post_sim_inv(i, o):
    return eqs("inverse-after-transform", o[:3], i[8:11], 1e-7) + eqs("transform-after-inverse", o[3:6], i[8:11], 1e-7)


class K(core.CxxKernel):
    def symbolic(self, ins):
        del RMV[:]
        return super().symbolic(ins)


def rmin_post(Rcw, rmin, rmin_inv):
    """the rotation vectors are those of the rotation"""
    Rwc = pm.tr(Rcw)
    if isinstance(rmin[0], float):
        return eqs("rotation-vector", pm.rot_aa(rmin) if pm.norm(rmin) > 1e-9 else pm.eye(3), Rcw, 1e-6) + eqs("rotation-vector-inverse", rmin_inv, [-v for v in rmin], 1e-9)
    if not RMV:
        return [core.Cond("rotation-vector-updated", X.FALSE)]
    return eqs("rotation-vector-of", RMV[-1][0], Rwc) + eqs("rotation-vector-inverse", rmin_inv, RMV[-1][1]) + eqs("rotation-vector", rmin, [-v for v in RMV[-1][1]])


def state_post(R, t, o):
    W, C = pm.mat(o[:16], 4, 4), pm.mat(o[16:32], 4, 4)
    Ri, ti = inv(R, t)
    return eqs("world-to-camera", W, m4(R, t), 1e-8) + eqs("camera-to-world", C, m4(Ri, ti), 1e-8)


def post_op(op):
    def p(i, o):
        R, t = expected(op, i)
        return state_post(R, t, o) + ([] if op in (11, 12) and not isinstance(i[0], float) else rmin_post(R, o[32:35], o[35:38]))

    return p


def post_frame(i, o):
    """operations that do not change the rotation leave the rotation vectors"""
    return eqs("rotation-vectors-unchanged", o[32:38], [4e3, 5e3, 6e3, 1e3, 2e3, 3e3]) if not isinstance(i[0], float) else []


def pre_op(op):
    def p(i):
        c = [pm.dot(i[:4], i[:4]) > 0.01, pm.dot(i[7:11], i[7:11]) > 0.01]
        if op in USES_VEC:
            c.append(pm.dot(i[7:10], i[7:10]) > 0)
        return c

    return p


def s_op(r):
    while True:
        v = [r.uniform(-1, 1) for _ in range(14)]
        if r.random() < 0.2:
            v[7 + r.randrange(4)] = 0.0
        if pm.dot(v[7:10], v[7:10]) > 0.05:
            return v


def post_get(i, o):
    W, C, x = pm.mat(i[:16], 4, 4), pm.mat(i[16:32], 4, 4), i[38:41]
    fl = lambda M: [e for r in M for e in r]
    R = lambda M: [r[:3] for r in M[:3]]
    T = lambda M: [r[3] for r in M[:3]]
    tw, tc = pm.vadd(pm.mv(R(W), x), T(W)), pm.vadd(pm.mv(R(C), x), T(C))
    x2 = [2 * v for v in x]
    tw2, tc2 = pm.vadd(pm.mv(R(W), x2), T(W)), pm.vadd(pm.mv(R(C), x2), T(C))
    e = i[:32] + fl(W[:3]) + fl(C[:3]) + fl(R(W)) + fl(R(C)) + i[32:38] + T(W) + T(C) + T(C) + tw + tc
    lab = ["WorldToCamera"] * 16 + ["CameraToWorld"] * 16 + ["WorldToCameraRt"] * 12 + ["CameraToWorldRt"] * 12 + ["RotationWorldToCamera"] * 9 + ["RotationCameraToWorld"] * 9 + ["RotationWorldToCameraMin"] * 3 + ["RotationCameraToWorldMin"] * 3 \
        + ["TranslationWorldToCamera"] * 3 + ["TranslationCameraToWorld"] * 3 + ["GetOrigin"] * 3 + ["TransformWorldToCamera"] * 3 + ["TransformCameraToWorld"] * 3
    assert len(e) == len(lab)
    n = len(e)
    e = e + tw + tw2 + tc + tc2
    lab = lab + ["TransformWorldToCameraMany"] * 6 + ["TransformCameraToWorldMany"] * 6
    o = o[:n] + o[101:113] if n != 101 else o
    return [Eq("%s[%d]" % (lab[k], k), o[k], e[k], 1e-9) for k in range(len(e))]


SIM = NAMES + ["s", "px", "py", "pz"] + ARG + ["us"]


def post_sim(op):
    def p(i, o):
        R, t, s, x = rq(i[:4]), i[4:7], i[7], i[8:11]
        if op in (1, 5):
            R = pm.rot_aa(i[11:14])
        if op == 4:
            R = rq(i[11:15])
        if op in (2, 4, 5):
            t = i[15:18]
        if op in (3, 4, 5):
            s = i[18]
        y = pm.vadd([s * v for v in pm.mv(R, x)], t)
        return eqs("rotation", pm.mat(o[:9], 3, 3), R, 1e-8) + eqs("translation", o[9:12], t, 1e-9) + [Eq("scale", o[12], s, 1e-9)] + eqs("transform", o[13:16], y, 1e-8) + state_post(R, t, o[16:])

    return p


def pre_sim(op):
    def p(i):
        c = [pm.dot(i[:4], i[:4]) > 0.01, pm.dot(i[11:15], i[11:15]) > 0.01, i[7] > 0.01, i[18] > 0.01]
        if op in (1, 5):
            c.append(pm.dot(i[11:14], i[11:14]) > 0)
        return c

    return p


def s_sim(r):
    v = [r.uniform(-1, 1) for _ in range(19)]
    v[7], v[18] = r.uniform(0.1, 3), r.uniform(0.1, 3)
    return v


def post_rotvec(i, o):
    R = rq(i)
    return eqs("matrix-of-vector", pm.mat(o[12:21], 3, 3), R, 1e-7)


def suffix(names, s):
    return [n + s for n in names]


RIG = suffix(NAMES, "i") + suffix(NAMES, "1") + suffix(NAMES, "2") + suffix(NAMES, "a") + ["px", "py", "pz"]


def comp(A, B):
    return pm.mm(A[0], B[0]), pm.vadd(pm.mv(A[0], B[1]), A[1])


def no_rmv(o, k):
    return o[38 * k:38 * k + 32]


def post_rig(op, n=2):
    def p(i, o):
        P = lambda k: (rq(i[7 * k:7 * k + 4]), i[7 * k + 4:7 * k + 7])
        inst, c1, c2, arg = P(0), P(1), P(2), P(3)
        x = i[28:31]
        if op == 1:
            inst = comp(inv(*c2), arg)
        if op == 3:
            inst = comp(inv(*c1), arg)
        if op == 2:
            c2 = arg
        s1, s2 = comp(c1, inst), comp(c2, inst)
        r = []
        for nm, k, S in (("first-shot", 0, s1), ("second-shot", 1, s2), ("second-shot-const", 2, s2), ("instance", 3, inst), ("rig-camera", 4, c2)):
            if k or n > 1:
                r += [Eq(nm + "/" + q.label, q.lhs, q.rhs, q.tol) for q in state_post(S[0], S[1], o[38 * k:])]
        q = o[190:]
        r += eqs("GetWorldToCam", pm.mat(q[:16], 4, 4), m4(*s2), 1e-8) + eqs("GetCamToWorld", pm.mat(q[16:32], 4, 4), m4(*inv(*s2)), 1e-8)
        c = pm.vadd(pm.mv(s2[0], x), s2[1])
        if isinstance(i[0], float) and abs(c[2]) < 0.05:
            raise core.Reject()
        r += eqs("Project", q[32:34], [c[0] / c[2], c[1] / c[2]], 1e-6)
        b = [x[0], x[1], 1.0]
        nb = pm.norm(b)
        return r + eqs("Bearing", q[34:37], pm.mv(pm.tr(s2[0]), [v / nb for v in b]), 1e-6)

    return p


def pre_rig(i):
    c = [pm.dot(i[7 * k:7 * k + 4], i[7 * k:7 * k + 4]) > 0.01 for k in range(4)]
    return c + [pm.dot(i[7 * k + 4:7 * k + 7], i[7 * k + 4:7 * k + 7]) > 1e-6 for k in range(4)]


def s_rig(r):
    return [r.uniform(-1, 1) for _ in range(31)]


def post_shot(cfg):
    def p(i, o):
        a, b = (rq(i[:4]), i[4:7]), (rq(i[21:25]), i[25:28])
        r = []
        for nm, k, S in (("pose-of-new-shot", 0, a), ("SetPose", 1, b), ("SetPose-instance", 2, b), ("mutable-pose", 3, b)):
            r += [Eq(nm + "/" + q.label, q.lhs, q.rhs, q.tol) for q in state_post(S[0], S[1], o[38 * k:])]
        return r

    return p


THROWS = ["SetPose-in-rig", "immutable-pose", "unknown-shot", "unknown-rig-camera", "duplicate-rig-camera", "remove-unknown-shot", "immutable-origin", "immutable-rotation", "SetPose-in-rig-identity"]


def build(ctx):
    ctx.assume("A-REAL: floating point numbers are read as exact reals", "A-LIBM: sqrt, sin, cos, atan2 satisfy their real definitions",
               "rotation matrices given to the operations are proper rotations (parametrised by all non-zero quaternions)")
    u = core.CxxUnit(ctx, "pose.cc")
    un = core.CxxUnit(ctx, "pose.cc", noinline=True, contracts=[(r"22RotationMatrixToVector", rmv)])
    un.start_native, un.native = u.start_native, u.native
    for op, nm in enumerate(OPS):
        ctx.prove(nm, K(un, "pose_op", 38, [op]), NAMES + ARG, post_op(op), pre=pre_op(op), sampler=s_op)
        if op in (11, 12):
            ctx.prove(nm + "/frame", K(un, "pose_op", 38, [op]), NAMES + ARG, post_frame, pre=pre_op(op), sampler=s_op)
    g = ["W%d" % k for k in range(16)] + ["C%d" % k for k in range(16)] + ["rw%d" % k for k in range(3)] + ["rc%d" % k for k in range(3)] + ["x", "y", "z"]
    ctx.prove("getters", u.kernel("pose_get", 113), g, post_get)
    ur = core.CxxUnit(ctx, "rig.cc", keep=["_ZN8geometry22RotationMatrixToVectorERKN5Eigen6MatrixIdLi3ELi3ELi0ELi3ELi3EEE"], contracts=[(r"22RotationMatrixToVector", rmv)])
    for op, nm in enumerate(["poses", "UpdateInstancePoseWithShot", "UpdateRigCameraPose", "UpdateInstancePoseWithShot-first"]):
        ctx.prove("rig/" + nm, K(ur, "rig_op", 227, [op, 2]), RIG, post_rig(op), pre=pre_rig, sampler=s_rig)
    for op, n, nm in ((0, 1, "poses/single-shot"), (1, 1, "UpdateInstancePoseWithShot/single-shot"), (2, 1, "UpdateRigCameraPose/single-shot"), (1, 3, "UpdateInstancePoseWithShot/three-shots"), (2, 3, "UpdateRigCameraPose/three-shots")):
        ctx.prove("rig/" + nm, K(ur, "rig_op", 227, [op, n]), RIG, post_rig(op, n), pre=pre_rig, sampler=s_rig)
    for c in (0, 1):
        ctx.prove("shot/%s" % ["own-rig", "given-rig"][c], K(ur, "shot_op", 152, [c]), RIG, post_shot(c), pre=pre_rig, sampler=s_rig)
    for c, nm in enumerate(THROWS):
        ctx.prove("rig/rejects-" + nm, core.Throws(K(ur, "rig_throw", 2, [c])), RIG, lambda i, o: [Eq("throws", o[0], 1.0)], pre=pre_rig, sampler=s_rig, samples=5)
    for op, nm in enumerate(["Transform", "SetRotation", "SetTranslation", "SetScale", "Similarity(R,t,s)", "Similarity(r,t,s)"]):
        ctx.prove("Similarity/" + nm, K(un, "sim_op", 54, [op]), SIM, post_sim(op), pre=pre_sim(op), sampler=s_sim)
    ui = core.CxxUnit(ctx, "pose.cc", noinline=True, contracts=[(r"22RotationMatrixToVector", rmv), (r"22VectorToRotationMatrix", vrm)])
    ui.start_native, ui.native = u.start_native, u.native
    ctx.prove("Similarity/Inverse", K(ui, "sim_inv", 6, []), SIM[:11], post_sim_inv, pre=lambda i: [pm.dot(i[:4], i[:4]) > 0.01, i[7] > 0.01], sampler=lambda r: s_sim(r)[:11])
    ctx.prove("VectorToRotationMatrix", u.kernel("vecrot", 9), ["x", "y", "z"], lambda i, o: eqs("rodrigues", pm.mat(o, 3, 3), pm.rot_aa(i), 1e-9), pre=lambda i: [pm.dot(i, i) > 0])
    ctx.prove("RotationMatrixToVector", u.kernel("rotvec", 21), ["w", "x", "y", "z"], post_rotvec, pre=lambda i: [pm.dot(i, i) > 0.01, pm.dot(i[1:], i[1:]) > 1e-12 * pm.dot(i, i)], sampler=lambda r: [r.uniform(-1, 1) for _ in range(4)])

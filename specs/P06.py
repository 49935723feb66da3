"""P06 Python rotations, transformations and closed-form projections (geometry.py, transformations.py, multiview.py, upright.py)"""
import numpy as np

from vf import core, pm, pysym
from vf import expr as X
from vf.core import Cond, Eq, Reject, eqs

from .P04 import rq

HALF = X.PI / 2


def sym(i):
    return any(isinstance(v, X.E) for v in i)


def hp(i):
    return HALF if sym(i) else np.pi / 2


def rx(a):
    return [[1.0, 0.0, 0.0], [0.0, pm.cos(a), -pm.sin(a)], [0.0, pm.sin(a), pm.cos(a)]]


def ry(a):
    return [[pm.cos(a), 0.0, pm.sin(a)], [0.0, 1.0, 0.0], [-pm.sin(a), 0.0, pm.cos(a)]]


def rz(a):
    return [[pm.cos(a), -pm.sin(a), 0.0], [pm.sin(a), pm.cos(a), 0.0], [0.0, 0.0, 1.0]]


AX = dict(x=rx, y=ry, z=rz)


def M3(o):
    return [[o[3 * i + j] for j in range(3)] for i in range(3)]


def A(v, n=None):
    """an array as the code would get it: object dtype when symbolic"""
    return np.array(v, dtype=object if sym(np.array(v, dtype=object).reshape(-1)) else float)


def flat(m):
    return list(np.asarray(m).reshape(-1))


def rodrigues(v):
    """contract of cv2.Rodrigues: the rotation by |v| around v"""
    v = [X.lift(e) for e in np.asarray(v).reshape(-1)]
    if len(v) != 3:
        raise NotImplementedError("Rodrigues of a matrix")
    nz = [k for k in range(3) if v[k] is not X.ZERO]
    if len(nz) == 0:
        R = pm.eye(3)
    elif len(nz) == 1:
        R = [rx, ry, rz][nz[0]](v[nz[0]])
    else:
        R = pm.rot_aa(v)
    return np.array(R, dtype=object), None


class CV2:
    def __init__(self, real):
        self.real = real

    def __getattr__(self, n):
        return getattr(self.real, n)

    def Rodrigues(self, v, *a):
        if pysym.has_sym(v):
            return rodrigues(v)
        return self.real.Rodrigues(v, *a)


# ---------------------------------------------------------------- pan, tilt, roll / omega, phi, kappa
def ptr_spec(i):
    return pm.mm(pm.mm(rz(i[2]), rx(i[1] + hp(i))), rz(i[0]))


def opk_spec(i):
    o, p, k = i
    Rc = [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]]
    return pm.mm(pm.mm(pm.mm(Rc, rz(-k)), ry(-p)), rx(-o))


def dir_post(i, o):
    """the optical axis points to (pan, tilt): east of north by pan, up by -tilt"""
    R = M3(o)
    z = R[2]
    e = [pm.sin(i[0]) * pm.cos(i[1]), pm.cos(i[0]) * pm.cos(i[1]), -pm.sin(i[1])]
    return eqs("rotation", R, ptr_spec(i), 1e-9) + eqs("optical-axis", z, e, 1e-9)


def same_angle(label, a, b, tol=1e-8):
    return [Eq(label + ".sin", pm.sin(a), pm.sin(b), tol), Eq(label + ".cos", pm.cos(a), pm.cos(b), tol)]


def angles_post(names):
    def f(i, o):
        return [e for k, n in enumerate(names) for e in same_angle(n, o[k], i[k])]

    return f


def s_ang(lim):
    return lambda r: [r.uniform(-l, l) if r.random() < 0.8 else r.choice([0.0, l * 0.5, -l * 0.5, 0.1]) for l in lim]


def open_ranges(*ks):
    def f(i):
        return [c for k in ks for c in ([i[k] > -HALF, i[k] < HALF, pm.cos(i[k]) > 0] if sym(i) else [abs(i[k]) < np.pi / 2])]

    return f


def s_quat(r):
    if r.random() < 0.3:
        ax = r.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (-1, 2, -2)])
        a = r.choice([0.0, 1.0, 3.0, 3.1415, 2.0, -2.5])
        n = sum(c * c for c in ax) ** 0.5
        return [np.cos(a / 2)] + [np.sin(a / 2) * c / n for c in ax]
    q = [r.gauss(0, 1) for _ in range(4)]
    n = sum(c * c for c in q) ** 0.5
    return [c / n for c in q]


def nz(k, n):
    """a non-zero vector of n components at position k"""
    return lambda i: [pm.dot(list(i[k:k + n]), list(i[k:k + n])) > (0 if sym(i) else 1e-6)]


Q = ["qw", "qx", "qy", "qz"]


def build(ctx):
    ctx.assume("A-REAL: floating point numbers are read as exact reals", "A-LIBM: sin, cos, atan2, asin, acos, sqrt of libm/numpy satisfy their real definitions",
               "A-RODRIGUES: cv2.Rodrigues(v) is the rotation by |v| around v", "A-EIGH: numpy.linalg.eigh of the spectral matrix qq' has its eigenvectors",
               "A-SVD: numpy.linalg.svd of U S Vh returns factors whose product U Vh is the orthogonal polar factor",
               "well-defined: denominators of the code are non-zero on the stated domain")
    g, tf, mv, up = pysym.load("geometry", "transformations", "multiview", "upright")
    for m in (g, mv):
        if not isinstance(m.cv2, CV2):
            m.cv2 = CV2(m.cv2)
    ctx.under_contract(*["geometry." + n for n in ("rotation_from_angle_axis", "rotation_from_ptr", "ptr_from_rotation", "pan_from_rotation", "tilt_from_rotation", "roll_from_rotation", "rotation_from_ptr_v2",
                                                    "ptr_from_rotation_v2", "rotation_from_opk", "opk_from_rotation", "omega_from_rotation", "phi_from_rotation", "kappa_from_rotation")])
    P = lambda fn, name: core.PyKernel(fn, name)
    prove, runtime = ctx.prove, ctx.runtime
    PTR, OPK = ["pan", "tilt", "roll"], ["omega", "phi", "kappa"]
    R3 = lambda i: A(ptr_spec(i))

    # geometry
    prove("rotation_from_angle_axis", P(lambda i: flat(g.rotation_from_angle_axis(A(i))), "geometry.rotation_from_angle_axis"), ["x", "y", "z"], lambda i, o: eqs("rotation", M3(o), pm.rot_aa(i), 1e-9), pre=nz(0, 3))
    prove("rotation_from_ptr", P(lambda i: flat(g.rotation_from_ptr(*i)), "geometry.rotation_from_ptr"), PTR, dir_post, sampler=s_ang([3.1, 1.5, 3.1]))
    prove("rotation_from_ptr_v2", P(lambda i: flat(g.rotation_from_ptr_v2(*i)), "geometry.rotation_from_ptr_v2"), PTR, dir_post_v2, sampler=s_ang([3.1, 1.5, 3.1]))
    prove("ptr_from_rotation", P(lambda i: list(g.ptr_from_rotation(R3(i))), "geometry.ptr_from_rotation"), PTR, angles_post(PTR), pre=open_ranges(1, 2), sampler=s_ang([3.1, 1.5, 1.5]))
    prove("ptr_from_rotation_v2", P(lambda i: list(g.ptr_from_rotation_v2(A(ptr2_spec(i)))), "geometry.ptr_from_rotation_v2"), PTR, angles_post(PTR), pre=lambda i: open_ranges(1)(i) + [pm.cos(i[1]) > 1e-6], sampler=s_ang([3.1, 1.5, 3.1]))
    prove("rotation_from_opk", P(lambda i: flat(g.rotation_from_opk(*i)), "geometry.rotation_from_opk"), OPK, lambda i, o: eqs("rotation", M3(o), opk_spec(i), 1e-9), sampler=s_ang([3.1, 1.5, 3.1]))
    prove("opk_from_rotation", P(lambda i: list(g.opk_from_rotation(A(opk_spec(i)))), "geometry.opk_from_rotation"), OPK, angles_post(OPK), pre=open_ranges(1), sampler=s_ang([3.1, 1.5, 3.1]))

    # transformations
    T = lambda n: ctx.under_contract("transformations." + n)
    for n in ("translation_matrix", "rotation_matrix", "euler_matrix", "euler_from_matrix", "quaternion_from_euler", "quaternion_about_axis", "quaternion_matrix", "quaternion_from_matrix", "quaternion_multiply", "quaternion_conjugate",
              "quaternion_inverse", "quaternion_slerp", "vector_norm", "unit_vector", "vector_product", "angle_between_vectors", "affine_matrix_from_points", "superimposition_matrix", "scale_matrix", "reflection_matrix", "concatenate_matrices", "inverse_matrix"):
        T(n)
    V3 = ["vx", "vy", "vz"]
    prove("translation_matrix", P(lambda i: flat(tf.translation_matrix(A(i))), "tf.translation_matrix"), V3, lambda i, o: eqs("matrix", pm.mat(o, 4, 4), m4(pm.eye(3), i)))
    prove("rotation_matrix", P(lambda i: flat(tf.rotation_matrix(i[0], A(i[1:4]))), "tf.rotation_matrix"), ["a"] + V3, lambda i, o: eqs("matrix", pm.mat(o, 4, 4), m4(axis_angle(i[0], i[1:4]), [0.0] * 3), 1e-9), pre=nz(1, 3))
    prove("rotation_matrix.point", P(lambda i: flat(tf.rotation_matrix(i[0], A(i[1:4]), A(i[4:7]))), "tf.rotation_matrix(point)"), ["a"] + V3 + ["px", "py", "pz"], post_rot_point, pre=nz(1, 3))
    prove("vector_norm", P(lambda i: [tf.vector_norm(A(i))], "tf.vector_norm"), V3, lambda i, o: [Eq("norm", o[0], pm.norm(i))])
    prove("unit_vector", P(lambda i: flat(tf.unit_vector(A(i))), "tf.unit_vector"), V3, lambda i, o: [Eq("unit[%d]" % k, o[k] * pm.norm(i), i[k]) for k in range(3)], pre=nz(0, 3))
    prove("vector_product", P(lambda i: flat(tf.vector_product(A(i[:3]), A(i[3:]))), "tf.vector_product"), V3 + ["wx", "wy", "wz"], lambda i, o: eqs("cross", list(o), pm.cross(i[:3], i[3:])))
    prove("angle_between_vectors", P(lambda i: [tf.angle_between_vectors(A(i[:3]), A(i[3:]))], "tf.angle_between_vectors"), V3 + ["wx", "wy", "wz"], post_angle, pre=lambda i: nz(0, 3)(i) + nz(3, 3)(i) + cauchy(list(i[:3]), list(i[3:])))
    for n, (first, parity, rep, frame) in sorted(tf._AXES2TUPLE.items()):
        prove("euler_matrix/" + n, P(lambda i, n=n: flat(tf.euler_matrix(*i, n)), "tf.euler_matrix(%s)" % n), ["ai", "aj", "ak"], lambda i, o, n=n: eqs("matrix", pm.mat(o, 4, 4), m4(euler_spec(n, i), [0.0] * 3), 1e-9))
        prove("euler_from_matrix/" + n, P(lambda i, n=n: list(tf.euler_from_matrix(A(m4(euler_spec(n, i), [0.0] * 3)), n)), "tf.euler_from_matrix(%s)" % n), ["ai", "aj", "ak"], lambda i, o, n=n: eqs("same-rotation", euler_spec(n, o), euler_spec(n, i), 1e-8),
              pre=lambda i, r=rep: ([pm.sin(i[1]) if r else pm.cos(i[1])] and [(pm.sin(i[1]) if r else pm.cos(i[1])) > 1e-6]), sampler=s_ang([3.1, 3.1, 3.1]))
        prove("quaternion_from_euler/" + n, P(lambda i, n=n: list(tf.quaternion_from_euler(*i, n)), "tf.quaternion_from_euler(%s)" % n), ["ai", "aj", "ak"], lambda i, o, n=n: eqs("same-rotation", pm.rot_quat(list(o)), euler_spec(n, i), 1e-9) + [Eq("unit", pm.dot(o, o), 1.0, 1e-9)])
    prove("quaternion_about_axis", P(lambda i: list(tf.quaternion_about_axis(i[0], A(i[1:4]))), "tf.quaternion_about_axis"), ["a"] + V3, lambda i, o: eqs("same-rotation", pm.rot_quat(list(o)), axis_angle(i[0], i[1:4]), 1e-9), pre=nz_big(1, 3))
    prove("quaternion_matrix", P(lambda i: flat(tf.quaternion_matrix(A(i))), "tf.quaternion_matrix"), Q, lambda i, o: eqs("matrix", pm.mat(o, 4, 4), m4(rq(i), [0.0] * 3), 1e-9), pre=nz_big(0, 4))
    prove("quaternion_multiply", P(lambda i: list(tf.quaternion_multiply(A(i[:4]), A(i[4:]))), "tf.quaternion_multiply"), Q + ["pw", "px", "py", "pz"], lambda i, o: eqs("product", list(o), qmul(i[:4], i[4:])))
    prove("quaternion_conjugate", P(lambda i: list(tf.quaternion_conjugate(A(i))), "tf.quaternion_conjugate"), Q, lambda i, o: eqs("conjugate", list(o), [i[0], -i[1], -i[2], -i[3]]))
    prove("quaternion_inverse", P(lambda i: list(tf.quaternion_inverse(A(i))), "tf.quaternion_inverse"), Q, lambda i, o: eqs("product-is-identity", qmul(list(o), i), [1.0, 0.0, 0.0, 0.0]), pre=nz(0, 4))
    for sp in (True, False):
        runtime("quaternion_slerp/%s" % ("shortest" if sp else "direct"), P(lambda i, sp=sp: list(tf.quaternion_slerp(A(i[:4]), A(i[4:8]), i[8], 0, sp)), "tf.quaternion_slerp"), Q + ["pw", "px", "py", "pz", "f"], post_slerp(sp),
              sampler=lambda r: s_quat(r) + s_quat(r) + [r.choice([0.0, 1.0, 0.5, r.random()])], pre=pre_slerp)
    tr = lambda i: A(m4(rq(i), [0.0] * 3))
    qpost = lambda i, o: [Eq("q[%d]q[%d]" % (a, b), o[a] * o[b] * pm.dot(i, i), i[a] * i[b], 1e-7) for a in range(4) for b in range(a, 4)] + [Cond("positive-real-part", o[0] >= 0 if isinstance(i[0], X.E) else o[0] >= -1e-12)]
    prove("quaternion_from_matrix", P(lambda i: eigh_run(tf, i, lambda: tf.quaternion_from_matrix(tr(i))), "tf.quaternion_from_matrix"), Q, qpost, pre=nz_big(0, 4), sampler=s_quat)
    prove("quaternion_from_matrix.precise", P(lambda i: list(tf.quaternion_from_matrix(tr(i), True)), "tf.quaternion_from_matrix(isprecise)"), Q, qpost, pre=nz_big(0, 4), sampler=s_quat)
    # registration of point sets: points moved by a similarity give that similarity back
    for name, kw in (("rigid", dict(scale=False)), ("similarity", dict(scale=True))):
        for shape in ("points", "flat"):
            prove("superimposition_matrix/%s/%s" % (name, shape), P(lambda i, kw=kw, shape=shape: flat(svd_run(tf, i, shape, kw["scale"], lambda v0, v1: tf.superimposition_matrix(v0, v1, **kw))), "tf.superimposition_matrix"), SUP, post_sup(kw["scale"]),
                  pre=lambda i: nz_big(0, 4)(i) + nz_big(4, 4)(i) + [i[8] > 0, i[9] > 0, i[10] > 0, i[11] > 0], sampler=s_sup)
    prove("affine_matrix_from_points/similarity", P(lambda i: flat(svd_run(tf, i, "points", True, lambda v0, v1: tf.affine_matrix_from_points(v0, v1, shear=False))), "tf.affine_matrix_from_points"), SUP, post_sup(True),
          pre=lambda i: nz_big(0, 4)(i) + nz_big(4, 4)(i) + [i[8] > 0, i[9] > 0, i[10] > 0, i[11] > 0], sampler=s_sup)
    runtime("superimposition_matrix.random-points", P(lambda i: [c for sv in (True, False) for c in flat(tf.superimposition_matrix(*sup_points(i), scale=True, usesvd=sv))], "tf.superimposition_matrix"), SUPR, post_sup_rt, sampler=s_sup_rt)

    # multiview closed forms
    ctx.under_contract(*["multiview." + n for n in ("homogeneous", "homogeneous_vec", "euclidean", "cross_product_matrix", "P_from_KRt", "KRt_from_P", "vector_angle", "decompose_similarity_transform", "plane_horizontalling_rotation", "K_from_camera",
                                                    "R_from_homography", "camera_up_vector", "camera_compass_angle", "rotation_matrix_from_up_vector_and_compass", "motion_from_plane_homography", "absolute_pose_known_rotation_ransac", "absolute_pose_ransac",
                                                    "relative_pose_ransac", "relative_pose_ransac_rotation_only", "relative_pose_optimize_nonlinear", "triangulate_gcp", "fit_plane", "focal_from_homography")])
    two = lambda i: A([list(i[:2]), list(i[2:4])])
    prove("homogeneous", P(lambda i: flat(mv.homogeneous(two(i))), "mv.homogeneous"), list("abcd"), lambda i, o: eqs("rows", list(o), [i[0], i[1], 1.0, i[2], i[3], 1.0]))
    prove("homogeneous_vec", P(lambda i: flat(mv.homogeneous_vec(two(i))), "mv.homogeneous_vec"), list("abcd"), lambda i, o: eqs("rows", list(o), [i[0], i[1], 0.0, i[2], i[3], 0.0]))
    prove("euclidean", P(lambda i: flat(mv.euclidean(A([list(i[:3]), list(i[3:])]))), "mv.euclidean"), list("abcdef"), lambda i, o: [Eq("e%d" % k, o[k] * i[3 * (k // 2) + 2], i[3 * (k // 2) + k % 2]) for k in range(4)], pre=lambda i: [i[2] * i[2] > 1e-9, i[5] * i[5] > 1e-9])
    prove("cross_product_matrix", P(lambda i: flat(mv.cross_product_matrix(A(i[:3])).dot(A(i[3:]))), "mv.cross_product_matrix"), list("abcdef"), lambda i, o: eqs("cross", list(o), pm.cross(i[:3], i[3:])))
    KRT = Q + ["tx", "ty", "tz", "fx", "fy", "s", "cx", "cy"]
    kr = lambda i: ([[i[7], i[9], i[10]], [0.0, i[8], i[11]], [0.0, 0.0, 1.0]], rq(i[:4]), list(i[4:7]))
    s_krt = lambda r: s_quat(r) + [r.uniform(-3, 3) for _ in range(3)] + [r.uniform(0.3, 3), r.uniform(0.3, 3), r.uniform(-0.3, 0.3), r.uniform(-1, 1), r.uniform(-1, 1)]
    prove("P_from_KRt", P(lambda i: flat(mv.P_from_KRt(*[A(v) for v in kr(i)])), "mv.P_from_KRt"), KRT, lambda i, o: eqs("KR", [list(o[4 * r:4 * r + 3]) for r in range(3)], pm.mm(kr(i)[0], kr(i)[1])) + eqs("Kt", [o[3], o[7], o[11]], pm.mv(kr(i)[0], kr(i)[2])), pre=nz_big(0, 4), sampler=s_krt)
    prove("KRt_from_P", P(lambda i: flatout(rq_run(mv, i, kr(i))), "mv.KRt_from_P"), KRT, lambda i, o: eqs("K", M3(o[:9]), kr(i)[0], 1e-7) + eqs("R", M3(o[9:18]), kr(i)[1], 1e-7) + eqs("t", list(o[18:]), kr(i)[2], 1e-7),
          pre=lambda i: nz_big(0, 4)(i) + [i[7] > 0.01, i[8] > 0.01], sampler=s_krt, max_paths=256)
    prove("vector_angle", P(lambda i: [mv.vector_angle(A(i[:3]), A(i[3:]))], "mv.vector_angle"), list("abcdef"), post_vangle, pre=lambda i: nz(0, 3)(i) + nz(3, 3)(i) + cauchy(list(i[:3]), list(i[3:])))
    prove("decompose_similarity_transform", P(lambda i: (lambda s, B, b: [s] + flat(B) + flat(b))(*mv.decompose_similarity_transform(A(m4([[i[7] * e for e in r] for r in rq(i[:4])], i[4:7])))), "mv.decompose_similarity_transform"), Q + ["tx", "ty", "tz", "s"],
          post_decompose, pre=lambda i: nz_big(0, 4)(i) + [i[7] > 0], sampler=lambda r: s_quat(r) + [r.uniform(-5, 5) for _ in range(3)] + [r.choice([0.01, 0.5, 1.0, 20.0])])
    prove("plane_horizontalling_rotation", P(lambda i: flat(mv.plane_horizontalling_rotation(A(i))), "mv.plane_horizontalling_rotation"), ["a", "b", "c"], post_plane, pre=lambda i: [i[0] * i[0] + i[1] * i[1] > (0 if sym(i) else 1e-9)])
    runtime("plane_horizontalling_rotation.vertical", P(lambda i: flat(mv.plane_horizontalling_rotation(A([0.0, 0.0, i[0]]))), "mv.plane_horizontalling_rotation"), ["c"], lambda i, o: post_plane([0.0, 0.0, i[0]], o), pre=lambda i: [i[0] * i[0] > 1e-9])
    prove("K_from_camera", P(lambda i: flat(mv.K_from_camera({"focal": i[0]})), "mv.K_from_camera"), ["f"], lambda i, o: eqs("K", M3(o), [[i[0], 0.0, 0.0], [0.0, i[0], 0.0], [0.0, 0.0, 1.0]]))
    prove("camera_up_vector", P(lambda i: flat(mv.camera_up_vector(A(rq(i)))), "mv.camera_up_vector"), Q, lambda i, o: eqs("zenith-in-camera", list(o), pm.mv(rq(i), [0.0, 0.0, 1.0])), pre=nz_big(0, 4), sampler=s_quat)
    prove("camera_compass_angle", P(lambda i: [mv.camera_compass_angle(R3(i))], "mv.camera_compass_angle"), PTR, lambda i, o: same_angle("compass-is-pan", pm.rad(o[0]), i[0]), pre=open_ranges(1), sampler=s_ang([3.1, 1.5, 3.1]))
    prove("rotation_from_up_and_compass", P(lambda i: flat(mv.rotation_matrix_from_up_vector_and_compass(list(i[:3]), i[3])), "mv.rotation_matrix_from_up_vector_and_compass"), V3 + ["compass"], post_upcompass, sampler=lambda r: [r.gauss(0, 1) for _ in range(3)] + [r.uniform(-180, 180)], pre=pre_upcompass)
    for k, v in enumerate(([0.0, 0.0, 1.0], [0.0, 0.0, -1.0])):
        prove("rotation_from_up_and_compass.vertical/%d" % k, P(lambda i, v=v: flat(mv.rotation_matrix_from_up_vector_and_compass([e * i[0] for e in v], i[1])), "mv.rotation_matrix_from_up_vector_and_compass"), ["k", "compass"], lambda i, o, v=v: post_rotation(o) + eqs("up", [o[2], o[5], o[8]], v, 1e-9), pre=lambda i: [i[0] > 1e-3])
    # poses given back by the robust estimators: camera-to-world [R|t] becomes world-to-camera
    prove_pose(ctx, mv, P)
    homography(ctx, mv, P)
    fit(ctx, mv, P)
    gcp(ctx, mv, P)

    # upright
    ctx.under_contract("upright.opensfm_to_upright")
    for orientation in (1, 3, 6, 8):
        for resized in (False, True):
            prove("opensfm_to_upright/%d%s" % (orientation, "/resized" if resized else ""), P(lambda i, o=orientation, r=resized: flat(up.opensfm_to_upright(two(i), i[4], i[5], o, *([i[6], i[7]] if r else []))), "upright.opensfm_to_upright"),
                  ["x0", "y0", "x1", "y1", "w", "h", "nw", "nh"], post_upright(orientation, resized), pre=lambda i: [i[4] >= 1, i[5] >= 1, i[6] >= 1, i[7] >= 1], sampler=lambda r: [r.uniform(-0.5, 0.5) for _ in range(4)] + [r.choice([320.0, 4000.0, 1.0]), r.choice([240.0, 5000.0]), r.choice([100.0, 640.0]), 50.0])


def m4(R, t):
    return [list(R[i]) + [t[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]


def nz_big(k, n):
    return lambda i: [pm.dot(list(i[k:k + n]), list(i[k:k + n])) > 1e-4]


def ptr2_spec(i):
    return euler_spec("szxz", [i[0], i[1] + hp(i), i[2]])


def dir_post_v2(i, o):
    R = M3(o)
    return eqs("rotation", R, ptr2_spec(i), 1e-9)


def euler_spec(n, i):
    """static axes compose on the left, rotating axes on the right"""
    R = pm.eye(3)
    for a, v in zip(n[1:], i):
        E = AX[a](v)
        R = pm.mm(E, R) if n[0] == "s" else pm.mm(R, E)
    return R


def axis_angle(a, v):
    n2 = pm.dot(v, v)
    n = pm.sqrt(n2)
    x, y, z = v
    K = [[0.0, -z, y], [z, 0.0, -x], [-y, x, 0.0]]
    K2 = pm.mm(K, K)
    s, c = pm.sin(a) / n, (1 - pm.cos(a)) / n2
    return [[(1.0 if i == j else 0.0) + s * K[i][j] + c * K2[i][j] for j in range(3)] for i in range(3)]


def post_rot_point(i, o):
    R = axis_angle(i[0], i[1:4])
    p = list(i[4:7])
    return eqs("matrix", pm.mat(o, 4, 4), m4(R, pm.vsub(p, pm.mv(R, p))), 1e-9)


def post_vangle(i, o):
    u, v = list(i[:3]), list(i[3:])
    return [Eq("cos", pm.cos(o[0]) * pm.sqrt(pm.dot(u, u) * pm.dot(v, v)), pm.dot(u, v), 1e-7)] + ([] if sym(i) else [Cond("range", 0 <= o[0] <= np.pi)])


def post_decompose(i, o):
    r = [Eq("scale", o[0], i[7], 1e-9)]
    o = list(o)
    if isinstance(o[0], X.E) and o[0].op == "f:cbrt":  # the real cube root is unique
        r = [Eq("scale-cubed", o[0].args[0], i[7] * i[7] * i[7])]
        o = X.subst([X.lift(v) for v in o], {o[0]: i[7]})
    return r + eqs("rotation", M3(o[1:10]), rq(i[:4]), 1e-9) + eqs("translation", list(o[10:]), list(i[4:7]), 1e-9)


def cauchy(u, v):
    """a true fact (Cauchy-Schwarz) that the solver does not find by itself"""
    return [pm.dot(u, v) / pm.sqrt(pm.dot(u, u) * pm.dot(v, v)) <= 1, pm.dot(u, v) / pm.sqrt(pm.dot(u, u) * pm.dot(v, v)) >= -1] if sym(u) else []


def post_angle(i, o):
    u, v = list(i[:3]), list(i[3:])
    r = [Eq("cos", pm.cos(o[0]) * pm.norm(u) * pm.norm(v), pm.dot(u, v), 1e-7)]
    if not sym(i):
        r.append(Cond("range", 0 <= o[0] <= np.pi))
    return r


def qmul(a, b):
    w1, x1, y1, z1 = a
    w0, x0, y0, z0 = b
    return [w1 * w0 - x1 * x0 - y1 * y0 - z1 * z0, w1 * x0 + x1 * w0 + y1 * z0 - z1 * y0, w1 * y0 - x1 * z0 + y1 * w0 + z1 * x0, w1 * z0 + x1 * y0 - y1 * x0 + z1 * w0]


def pre_slerp(i):
    return [pm.dot(list(i[:4]), list(i[:4])) > 1e-4, pm.dot(list(i[4:8]), list(i[4:8])) > 1e-4, i[8] >= 0, i[8] <= 1]


def post_slerp(shortest):
    def f(i, o):
        a, b, fr = list(i[:4]), list(i[4:8]), i[8]
        na, nb = pm.norm(a), pm.norm(b)
        a, b = [v / na for v in a], [v / nb for v in b]
        d = pm.dot(a, b)
        if fr not in (0.0, 1.0) and abs(abs(d) - 1) < 1e-6:
            return [Eq("unit", pm.dot(o, o), 1.0, 1e-6)]
        if fr == 0.0:
            return eqs("start", list(o), a, 1e-9)
        if fr == 1.0:
            return eqs("end", list(o), b, 1e-9)
        if shortest and d < 0:
            b, d = [-v for v in b], -d
        t = pm.acos(d)
        return eqs("slerp", list(o), [(np.sin((1 - fr) * t) * u + np.sin(fr * t) * v) / np.sin(t) for u, v in zip(a, b)], 1e-6)
    return f


class Contract:
    """numpy.linalg functions replaced by their contracts during a symbolic run"""

    def __init__(self, **k):
        self.k = k

    def __enter__(self):
        self.old = {n: pysym.NPS.linalg.__dict__.get(n) for n in self.k}
        for n, f in self.k.items():
            setattr(pysym.NPS.linalg, n, f)

    def __exit__(self, *a):
        for n, v in self.old.items():
            if v is None:
                delattr(pysym.NPS.linalg, n)
            else:
                setattr(pysym.NPS.linalg, n, v)


PENDING = []


def eigh_run(tf, i, f):
    """contract of eigh: the matrix handed over must be (4 qq' - I)/3 of the unit quaternion q = (x, y, z, w);
    its largest eigenvalue is 1, with eigenvector q up to sign"""
    if not sym(i):
        return f()
    q = [i[1], i[2], i[3], i[0]]
    n = pm.dot(q, q)
    nn = pm.sqrt(n)
    flip = X.var("sign") >= 0

    def eigh(K, *a):
        K = np.asarray(K, dtype=object)
        PENDING[:] = [("eigh-argument[%d][%d]" % (r, c), K[r, c], (4 * q[r] * q[c] / n - (1 if r == c else 0)) / 3) for r in range(4) for c in range(r + 1)]
        s = 1 if flip else -1
        V = np.zeros((4, 4), dtype=object)
        for k in range(4):
            V[k, 3] = s * q[k] / nn
        return np.array([-1 / 3, -1 / 3, -1 / 3, 1.0]), V

    with Contract(eigh=eigh):
        out = list(f())
    return Out(out, [Eq(*p) for p in PENDING])


class Out(list):
    """outputs together with the obligations of the contracts that were called"""

    def __init__(self, v, obligations):
        super().__init__(v)
        self.obligations = obligations


SUP = Q + ["vw", "vx", "vy", "vz", "a", "b", "c", "s", "tx", "ty", "tz", "cx", "cy", "cz"]
PAT = [[1, 1, -1, -1], [1, -1, 1, -1], [1, -1, -1, 1]]


def s_sup(r):
    return s_quat(r) + s_quat(r) + [r.uniform(0.5, 2), r.uniform(0.5, 2), r.uniform(0.5, 2), r.uniform(0.3, 3)] + [r.uniform(-3, 3) for _ in range(6)]


def sup_sets(i, shape, scale):
    W, R = rq(i[4:8]), rq(i[:4])
    D = [i[8], i[9], i[10] if shape == "points" else 0.0]
    c, t = list(i[15:18]), list(i[12:15])
    s = i[11] if scale else 1.0
    p0 = [pm.vadd(c, pm.mv(W, [D[k] * PAT[k][j] for k in range(3)])) for j in range(4)]
    p1 = [pm.vadd(t, [s * e for e in pm.mv(R, p)]) for p in p0]
    return A(pm.tr(p0)), A(pm.tr(p1)), W, R, D, s


def svd_run(tf, i, shape, scale, f):
    v0, v1, W, R, D, s = sup_sets(i, shape, scale)
    if not sym(i):
        return f(v0, v1)
    obl = []
    flip = X.var("sign") >= 0

    def svd(M, *a, **k):
        """contract of svd: M = U S Vh; the sign of the last pair of a rank 2 matrix is free"""
        U, Vh = pm.mm(R, W), pm.tr(W)
        S = [4 * s * d * d for d in D]
        USV = pm.mm([[U[r][k] * S[k] for k in range(3)] for r in range(3)], Vh)
        M = np.asarray(M, dtype=object)
        obl.extend(Eq("svd-argument[%d][%d]" % (r, c), M[r, c], USV[r][c]) for r in range(3) for c in range(3))
        U, Vh = np.array(U, dtype=object), np.array(Vh, dtype=object)
        if shape == "flat" and flip:
            U[:, 2] = -U[:, 2]
        return U, np.array(S, dtype=object), Vh

    with Contract(svd=svd):
        out = flat(f(v0, v1))
    return Out(out, obl)


def flatout(r):
    v = [e for m in r for e in flat(m)]
    return Out(v, r.obligations) if isinstance(r, Out) else v


def post_sup(scale):
    def f(i, o):
        s = i[11] if scale else 1.0
        return eqs("matrix", pm.mat(list(o), 4, 4), m4([[s * e for e in r] for r in rq(i[:4])], i[12:15]), 1e-6)

    return f


SUPR = Q + ["s", "tx", "ty", "tz"] + ["p%d" % k for k in range(15)]


def s_sup_rt(r):
    return s_quat(r) + [r.uniform(0.3, 3)] + [r.uniform(-3, 3) for _ in range(18)]


def sup_points(i):
    p = np.array(i[8:23]).reshape(5, 3)
    return p.T, (i[4] * p.dot(np.array(rq(i[:4])).T) + np.array(i[5:8])).T


def post_sup_rt(i, o):
    e = m4([[i[4] * v for v in r] for r in rq(i[:4])], i[5:8])
    return eqs("svd", pm.mat(o[:16], 4, 4), e, 1e-6) + eqs("quaternion", pm.mat(o[16:], 4, 4), e, 1e-6)


def rq_run(mv, i, kr):
    """contract of numpy.linalg.qr on the flipped matrix: a QR decomposition, signs free"""
    K, R, t = kr
    Pm = np.array([list(pm.mm(K, R)[r]) + [pm.mv(K, t)[r]] for r in range(3)], dtype=object if sym(i) else float)
    if not sym(i):
        return mv.KRt_from_P(Pm)
    obl = []
    signs = [1 if (X.var("sgn%d" % k) >= 0) else -1 for k in range(3)]

    def qr(M, *a):
        # flipud(K R).T = (flipud(R).T) (flipud(fliplr(K)).T) : orthogonal times upper triangular
        Rf = [R[2], R[1], R[0]]
        Qm = pm.tr(Rf)
        Kf = [[K[2 - r][2 - c] for c in range(3)] for r in range(3)]
        U = pm.tr(Kf)
        M = np.asarray(M, dtype=object)
        QU = pm.mm(Qm, U)
        obl.extend(Eq("qr-argument[%d][%d]" % (r, c), M[r, c], QU[r][c]) for r in range(3) for c in range(3))
        return np.array([[Qm[r][c] * signs[c] for c in range(3)] for r in range(3)], dtype=object), np.array([[U[r][c] * signs[r] for c in range(3)] for r in range(3)], dtype=object)

    with Contract(qr=qr):
        out = mv.KRt_from_P(Pm)
    return Out(out, obl)


def post_plane(i, o):
    R = M3(o)
    if sym(i):
        pm.sqrt(i[0] * i[0] + i[1] * i[1])
    return post_rotation(o) + eqs("plane-normal-is-vertical", pm.mv(R, list(i)), [0.0, 0.0, pm.norm(list(i))], 1e-7)


def post_rotation(o):
    R = M3(o)
    return eqs("orthonormal", pm.mm(R, pm.tr(R)), pm.eye(3), 1e-9) + [Eq("det", pm.det3(R), 1.0, 1e-9)]


def pre_upcompass(i):
    v = list(i[:3])
    return [i[0] * i[0] + i[1] * i[1] > 1e-9 * pm.dot(v, v), pm.dot(v, v) > 1e-4]


def post_upcompass(i, o):
    R = M3(o)
    n = pm.norm(list(i[:3]))
    c = pm.rad(i[3])
    # the optical axis projects on the compass direction: R[2] = (k sin, k cos, .) with k >= 0
    return post_rotation(o) + [Eq("up[%d]" % k, R[k][2] * n, i[k], 1e-9) for k in range(3)] + [Eq("compass", R[2][0] * pm.cos(c), R[2][1] * pm.sin(c), 1e-7), Eq("compass-side", R[2][0] * pm.sin(c) + R[2][1] * pm.cos(c), pm.sqrt(1 - (i[2] / n) * (i[2] / n)), 1e-7)]


def prove_pose(ctx, mv, P):
    import types

    N = Q + ["tx", "ty", "tz"]

    class Res:
        def __init__(self, m):
            self.lo_model = m

    def stub(model):
        calls = []

        class Rob:
            class RobustEstimatorParams:
                pass

            class RansacType:
                RANSAC = "RANSAC"

        for n in ("ransac_absolute_pose", "ransac_relative_pose", "ransac_relative_rotation", "ransac_absolute_pose_known_rotation"):
            setattr(Rob, n, staticmethod(lambda b1, b2, th, p, ty, n=n: (calls.append((n, b1, b2, th, p.iterations, ty)), Res(model))[1]))
        return Rob, calls

    def run(i, fn, want):
        R, t = rq(i[:4]), list(i[4:7])
        model = A([R[k] + [t[k]] for k in range(3)])
        if want == "ransac_relative_rotation":
            model = A(R)
        if want == "ransac_absolute_pose_known_rotation":
            model = A(t)
        Rob, calls = stub(model)
        old = mv.pyrobust
        mv.pyrobust = Rob
        try:
            out = getattr(mv, fn)("B1", "B2", "TH", 77, 0.99)
        finally:
            mv.pyrobust = old
        assert [c[:5] for c in calls] == [(want, "B1", "B2", "TH", 77)], "arguments of the estimator: %s" % calls
        return flat(out)

    def inv(i):
        R, t = rq(i[:4]), list(i[4:7])
        Rt = pm.tr(R)
        return Rt, [-v for v in pm.mv(Rt, t)]

    def post(i, o):
        R, t = inv(i)
        return eqs("inverse-pose", pm.mat(o, 3, 4), [R[k] + [t[k]] for k in range(3)], 1e-9)

    for fn, want in (("absolute_pose_ransac", "ransac_absolute_pose"), ("relative_pose_ransac", "ransac_relative_pose")):
        ctx.prove(fn, P(lambda i, a=fn, b=want: run(i, a, b), "mv." + fn), N, post, pre=nz_big(0, 4))
    ctx.prove("relative_pose_ransac_rotation_only", P(lambda i: run(i, "relative_pose_ransac_rotation_only", "ransac_relative_rotation"), "mv.relative_pose_ransac_rotation_only"), N, lambda i, o: eqs("transposed", M3(o), pm.tr(rq(i[:4]))), pre=nz_big(0, 4))
    ctx.prove("absolute_pose_known_rotation_ransac", P(lambda i: run(i, "absolute_pose_known_rotation_ransac", "ransac_absolute_pose_known_rotation"), "mv.absolute_pose_known_rotation_ransac"), N,
              lambda i, o: eqs("pose", pm.mat(o, 3, 4), [[1.0, 0.0, 0.0, -i[4]], [0.0, 1.0, 0.0, -i[5]], [0.0, 0.0, 1.0, -i[6]]]), pre=nz_big(0, 4))

    def refine(i, which):
        seen = []

        class G:
            @staticmethod
            def relative_pose_refinement(Rt, b1, b2, it):
                seen.append((Rt.copy(), b1, b2, it))
                R2 = rq(i[7:11])
                return A([R2[k] + [i[11 + k]] for k in range(3)])

        old = mv.pygeometry
        mv.pygeometry = G
        try:
            out = mv.relative_pose_optimize_nonlinear("B1", "B2", A(list(i[4:7])), A(rq(i[:4])), 5)
        finally:
            mv.pygeometry = old
        assert [s[1:] for s in seen] == [("B1", "B2", 5)]
        return flat(seen[0][0]) + flat(out)

    def post2(i, o):
        R, t = inv(i[:7])
        R2, t2 = inv(list(i[7:14]))
        return eqs("refinement-start", pm.mat(o[:12], 3, 4), [R[k] + [t[k]] for k in range(3)], 1e-9) + eqs("refined-pose", pm.mat(o[12:], 3, 4), [R2[k] + [t2[k]] for k in range(3)], 1e-9)

    ctx.prove("relative_pose_optimize_nonlinear", P(lambda i: refine(i, 0), "mv.relative_pose_optimize_nonlinear"), N + ["aw", "ax", "ay", "az", "ux", "uy", "uz"], post2, pre=lambda i: nz_big(0, 4)(i) + nz_big(7, 4)(i))


def homography(ctx, mv, P):
    """a plane-induced homography d R + t n' is one of the candidate motions"""
    def s(r):
        n = [r.gauss(0, 1) for _ in range(3)]
        l = sum(v * v for v in n) ** 0.5
        return s_quat(r) + [r.uniform(-1, 1) for _ in range(3)] + [v / l for v in n] + [r.uniform(0.5, 2)]

    def run(i):
        R, t, n, d = np.array(rq(i[:4])), np.array(i[4:7]), np.array(i[7:10]), i[10]
        H = d * R - np.outer(t, n)
        sols = mv.motion_from_plane_homography(H)
        if not sols:
            raise Reject()
        best = min(np.abs(a - R).max() + np.abs(np.outer(b, c) / e - np.outer(t, n) / d).max() for a, b, c, e in sols)
        allok = max(min(np.abs(e * a - np.outer(b, c) - H).max(), np.abs(e * a - np.outer(b, c) + H).max()) for a, b, c, e in sols)
        return [best, allok]

    def pre(i):
        R, t, n, d = np.array(rq(i[:4])), np.array(i[4:7]), np.array(i[7:10]), i[10]
        l = np.linalg.svd(d * R - np.outer(t, n))[1]
        return [l[0] / l[1] > 1.01, l[1] / l[2] > 1.01, l[2] > 0.05]

    ctx.runtime("motion_from_plane_homography", P(run, "mv.motion_from_plane_homography"), Q + ["tx", "ty", "tz", "nx", "ny", "nz", "d"], lambda i, o: [Eq("true-motion-is-a-candidate", o[0], 0.0, 1e-6), Eq("candidates-explain-the-homography", o[1], 0.0, 1e-6)], pre=pre, sampler=s)

    def focal(i):
        K = np.diag([i[4], i[4], 1])
        R = np.array(rq(i[:4]))
        H = K.dot(R).dot(np.linalg.inv(K)) * i[5]
        return [mv.focal_from_homography(H)] + flat(mv.R_from_homography(H / i[5], i[4], i[4]))

    def spre(i):
        w = 2 * np.arccos(min(1, abs(i[0])))
        ax = np.array(i[1:4]) / max(1e-9, np.linalg.norm(i[1:4]))
        return [0.2 < w < 2.5, abs(ax[2]) < 0.9]

    ctx.runtime("focal_from_homography", P(focal, "mv.focal_from_homography"), Q + ["f", "k"], lambda i, o: [Eq("focal", o[0], i[4], 1e-5)] + eqs("rotation", M3(o[1:]), rq(i[:4]), 1e-6), pre=spre, sampler=lambda r: s_quat(r) + [r.uniform(0.4, 2), r.uniform(0.3, 3)])


def fit(ctx, mv, P):
    def run(i):
        p = np.array(i[:3])
        n = np.array(i[3:6]) / np.linalg.norm(i[3:6])
        u = np.cross(n, [0.3, -0.5, 0.8])
        u /= np.linalg.norm(u)
        v = np.cross(n, u)
        pts = [p + i[6 + 2 * k] * u + i[7 + 2 * k] * v for k in range(4)]
        vec = [i[14] * u + i[15] * v]
        vert = [n + 0.2 * u]
        pl = mv.fit_plane(np.array(pts), vec, vert)
        pl2 = mv.fit_plane(np.array(pts), None, [-n])
        l, l2 = np.linalg.norm(pl[:3]), np.linalg.norm(pl2[:3])
        return list(pl[:3] / l) + list(-pl2[:3] / l2) + list(n)

    ctx.runtime("fit_plane", P(run, "mv.fit_plane"), ["p%d" % k for k in range(16)], lambda i, o: eqs("normal", list(o[:3]), list(o[6:]), 1e-5) + eqs("normal-flipped-with-vertical", list(o[3:6]), list(o[6:]), 1e-5),
                sampler=lambda r: [r.uniform(-2, 2) for _ in range(3)] + [r.gauss(0, 1) for _ in range(3)] + [r.uniform(-2, 2) for _ in range(10)],
                pre=lambda i: [np.linalg.norm(i[3:6]) > 0.1, np.linalg.svd(np.array(i[6:14]).reshape(4, 2) - np.array(i[6:14]).reshape(4, 2).mean(0))[1][1] > 0.5])


def gcp(ctx, mv, P):
    """rays handed to the triangulation: origin and world direction of every observation made by a known shot, in order"""
    N = [n + str(k) for k in range(2) for n in ("w", "x", "y", "z", "ox", "oy", "oz", "bx", "by", "bz")] + ["th", "ang", "depth", "X", "Y", "Z"]

    def run(i, known, valid):
        got = []

        class G:
            @staticmethod
            def triangulate_bearings_midpoint(os, bs, ths, ang, depth):
                got.extend(flat(os) + flat(bs) + list(ths) + [ang, depth])
                return valid, A(list(i[23:26]))

        class Pose:
            def __init__(s, k):
                s.k = k

            def get_origin(s):
                return A(list(i[10 * s.k + 4:10 * s.k + 7]))

            def get_rotation_matrix(s):
                return A(rq(i[10 * s.k:10 * s.k + 4]))

        class Cam:
            def __init__(s, k):
                s.k = k

            def pixel_bearing(s, x):
                assert list(x) == [0.25 + s.k, 0.5], "projection of another observation"
                return A(list(i[10 * s.k + 7:10 * s.k + 10]))

        class NS:
            def __init__(s, **k):
                s.__dict__.update(k)

        shots = {"s%d" % k: NS(pose=Pose(k), camera=Cam(k)) for k in range(2) if k in known}
        obs = [NS(shot_id="s0", projection=[0.25, 0.5]), NS(shot_id="unknown", projection=[9.0, 9.0]), NS(shot_id="s1", projection=[1.25, 0.5])]
        old = mv.pygeometry
        mv.pygeometry = G
        try:
            r = mv.triangulate_gcp(NS(observations=obs), shots, i[20], i[21], i[22])
        finally:
            mv.pygeometry = old
        return got + ([-1.0] if r is None else [1.0] + flat(r))

    def post(valid):
        def f(i, o):
            e = [v for k in range(2) for v in i[10 * k + 4:10 * k + 7]]
            for k in range(2):
                e += pm.mv(pm.tr(rq(i[10 * k:10 * k + 4])), list(i[10 * k + 7:10 * k + 10]))
            e += [i[20], i[20], pm.rad(i[21]), i[22]] + ([1.0] + list(i[23:26]) if valid else [-1.0])
            return eqs("rays-thresholds-result", list(o), e, 1e-9)

        return f

    for valid in (True, False):
        ctx.prove("triangulate_gcp/%s" % ("valid" if valid else "invalid"), P(lambda i, v=valid: run(i, (0, 1), v), "mv.triangulate_gcp"), N, post(valid), pre=lambda i: nz_big(0, 4)(i) + nz_big(10, 4)(i))
    ctx.prove("triangulate_gcp/one-ray", P(lambda i: run(i, (1,), True), "mv.triangulate_gcp"), N, lambda i, o: eqs("nothing", list(o), [-1.0]), pre=lambda i: nz_big(0, 4)(i) + nz_big(10, 4)(i))


def post_upright(orientation, resized):
    def f(i, o):
        w, h = i[4], i[5]
        s = X.ite(w >= h, w, h) if sym(i) and hasattr(X, "ite") else None
        if s is None:
            s = w if (w >= h) else h
        nw, nh = (i[6], i[7]) if resized else ((w, h) if orientation < 6 else (h, w))
        r = []
        for k in range(2):
            u, v = i[2 * k] * s / w + 0.5, i[2 * k + 1] * s / h + 0.5
            u, v = {1: (u, v), 3: (1 - u, 1 - v), 6: (1 - v, u), 8: (v, 1 - u)}[orientation]
            r += [Eq("x%d" % k, o[2 * k], nw * u, 1e-9), Eq("y%d" % k, o[2 * k + 1], nh * v, 1e-9)]
        return r

    return f

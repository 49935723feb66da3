"""P13 reconstructions are aligned by similarities that keep what the cameras see (align.py, sfm/retriangulation.cc)"""
import itertools
import logging
import math
import warnings
from types import SimpleNamespace as NS

import numpy as np

from vf import core, ext, ir, pm, pysym
from vf import expr as X
from vf.core import Eq

from .P04 import rmv, rq
from .P06 import A, sym
from .P09 import Kernel, R, names


def topo(m, a, name):
    """contract: a function of the position and the reference"""
    ret, lla, ref = a
    v = [m.load(ir.P(p.o, p.off + 8 * k), ir.DBL) for p in (lla, ref) for k in range(3)]
    for k in range(3):
        m.store(ir.P(ret.o, ret.off + 8 * k), 8, X.fn("topo%d" % k, *v))


def vec(m, p, n=3):
    return [m.load(ir.P(p.o, p.off + 8 * k), ir.DBL) for k in range(n)]


CW, WC, RMIN = 8, 8 + 128, 8 + 256  # members of a pose


def put_t(m, p, at, v):
    for k in range(3):
        m.store(ir.P(p.o, p.off + at + 8 * (12 + k)), 8, v[k])


def set_origin(m, a, name):
    """contract (P04) of SetOrigin: the rotation stays"""
    p, o = a[0], vec(m, a[1])
    R = [[m.load(ir.P(p.o, p.off + WC + 8 * (4 * c + r)), ir.DBL) for c in range(3)] for r in range(3)]
    put_t(m, p, CW, o)
    put_t(m, p, WC, pm.vscale(-1, pm.mv(R, o)))


def set_rt(m, a, name):
    """contract (P04) of SetFromWorldToCamera for rotations: camera to world is [R' | -R't]"""
    if len(a) == 3:
        p, M, t = a[0], vec(m, a[1], 9), vec(m, a[2])
        R = [[M[3 * c + r] for c in range(3)] for r in range(3)]
    else:
        p, M = a[0], vec(m, a[1], 16)
        R, t = [[M[4 * c + r] for c in range(3)] for r in range(3)], M[12:15]
    for at, Q in ((WC, R), (CW, pm.tr(R))):
        for c in range(4):
            for r in range(4):
                m.store(ir.P(p.o, p.off + at + 8 * (4 * c + r)), 8, X.lift(Q[r][c]) if r < 3 and c < 3 else X.ONE if r == c else X.ZERO)
    put_t(m, p, WC, t)
    put_t(m, p, CW, pm.vscale(-1, pm.mv(pm.tr(R), t)))
    for k in range(6):
        m.store(ir.P(p.o, p.off + RMIN + 8 * k), 8, X.ZERO)


V3 = "KN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEE"
SET_ORIGIN = "_ZN8geometry4Pose9SetOriginER" + V3
SET_RT = "_ZN8geometry4Pose20SetFromWorldToCameraERKN5Eigen6MatrixIdLi3ELi3ELi0ELi3ELi3EEERKNS2_IdLi3ELi1ELi0ELi3ELi1EEE"
SET_M4 = "_ZN8geometry4Pose20SetFromWorldToCameraERKN5Eigen6MatrixIdLi4ELi4ELi0ELi4ELi4EEE"


def instance(i, k):
    """rotation, translation and centre of instance k of a map"""
    p = i[6 + 12 * k:18 + 12 * k]
    R = [list(p[3 * j:3 * j + 3]) for j in range(3)]
    return R, pm.vscale(-1, pm.mv(R, p[9:12])), list(p[9:12])


def m4(R, t):
    return [R[0] + [t[0]], R[1] + [t[1]], R[2] + [t[2]], [0.0, 0.0, 0.0, 1.0]]


def realign(ctx):
    u = core.CxxUnit(ctx, "realign.cc", contracts=[("%s$" % SET_ORIGIN, set_origin), ("%s$" % SET_RT, set_rt), ("%s$" % SET_M4, set_rt), (r"22RotationMatrixToVector", rmv), (r"_ZN3geo18TopocentricFromLla", topo)], keep=[SET_ORIGIN, SET_RT, SET_M4, "_ZN8geometry22RotationMatrixToVectorERKN5Eigen6MatrixIdLi3ELi3ELi0ELi3ELi3EEE", "_ZN3geo18TopocentricFromLlaERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES4_"])
    n = 129

    def case(name, frm, to, inst, update, obs, nearest):
        """nearest: of each landmark, the shot of both maps its position follows (None: it stays)"""
        shared = [s for s in range(4) if frm >> s & 1 and to >> s & 1]
        first = {k: min(s for s in range(4) if inst[s] == k) for k in inst}

        def centre(i, s, have):
            R, t, o = instance(i, inst[s])
            if s != first[inst[s]]:
                return pm.vscale(-1, pm.mv(pm.tr(R), pm.vadd(t, i[3:6]))), R
            # computed from the pose in the rig unless the shot is alone
            return (pm.vscale(-1, pm.mv(pm.tr(R), t)) if sum(have >> q & 1 for q in range(4) if inst[q] == inst[s]) > 1 else o), R

        def pre(i):
            c = []
            for m in (i[:60], i[60:120]):
                c += [v > 0.01 for v in m[54:56]]
                # the second rig camera is no identity
                c.append(m[3] > 0.01)
            for l, s in enumerate(nearest):
                if s is not None:
                    d = {q: pm.dot(*[pm.vsub(i[120 + 3 * l:123 + 3 * l], centre(i[60:120], q, to)[0])] * 2) for q in shared if obs[l] >> q & 1}
                    c += [d[s] < d[q] for q in d if q != s] + [d[s] < 1e100]
            c += [i[56 + s] > 0.01 for s in range(4) if s != 2]
            if "unscaled" in name:
                c.append(X.eq(i[58], X.ZERO) if sym(i) else i[58] == 0.0)
            else:
                c.append(i[58] > 0.01)
            return c

        def smp(r):
            v = []
            for _ in range(2):
                v += [r.uniform(-60, 60), r.uniform(-170, 170), r.uniform(0, 500), r.uniform(0.1, 1), r.uniform(-1, 1), r.uniform(-1, 1)] + [w for _ in range(4) for w in sum(rq([r.gauss(0, 1) for _ in range(4)]), []) + [r.uniform(-1, 1) for _ in range(3)]] + [r.uniform(0.4, 2) for _ in range(6)]
            v[60:63] = [v[0] + r.uniform(-0.01, 0.01), v[1] + r.uniform(-0.01, 0.01), v[2] + 3]
            v[63:66] = v[3:6]
            if "unscaled" in name:
                v[58] = 0.0
            return v + [r.uniform(-3, 3) for _ in range(9)]

        def post(i, o):
            f, t = i[:60], i[60:120]
            off, k, res = o[:3], 3, []
            lift = lambda v: X.lift(float(v)) if sym(i) else float(v)

            def put(label, *w, tol=1e-7):
                nonlocal k
                for x in w:
                    res.append(Eq(label, o[k], x if isinstance(x, X.E) or not sym(i) else lift(x), tol))
                    k += 1

            poses = {}
            for q in range(4):
                R, tr, c = instance(t, q)
                if q in inst and any(inst[s] == q and s in shared for s in range(4)):
                    R, tr, c = instance(f, q)
                    c = pm.vadd(c, off)  # its centre moves with the reference
                    tr = pm.vscale(-1, pm.mv(R, c))
                poses[q] = (R, tr, c)
            for s in range(4):
                put("shot-%d-kept" % s, int(s in shared))
                if s in shared:
                    R, tr, _ = poses[inst[s]]
                    if s != first[inst[s]]:
                        tr = pm.vadd(tr, t[3:6])
                    put("pose-of-shot-%d" % s, *sum(m4(R, tr), []))
                    put("scale-of-shot-%d" % s, f[56 + s])
                    put("component-of-shot-%d" % s, 10 + s)
                    put("camera-of-shot-%d" % s, 1)
                    put("observations-of-shot-%d" % s, sum(b >> s & 1 for b in obs))
            for c in range(2):
                own = f if any(s % 2 == c for s in shared) else t
                put("camera-%d" % c, own[54 + c], own[56 + c], 0.25)
            for q in range(4):
                R, tr, c = poses[q]
                put("pose-of-instance-%d" % q, *sum(m4(R, tr), []))
                put("pose-of-instance-%d" % q, *sum(m4(pm.tr(R), c), []))
                put("shots-of-instance-%d" % q, sum(inst[s] == q for s in shared))
            for l in range(3):
                x = i[120 + 3 * l:123 + 3 * l]
                s = nearest[l]
                if s is not None and update:
                    c, R = centre(t, s, to)
                    cam = pm.mv(R, pm.vsub(x, c))  # seen by the shot before
                    a = 1.0 if "unscaled" in name and s == 2 else 1 / f[56 + s]
                    c, R = centre(f, s, frm)
                    x = pm.vadd(pm.vadd(pm.mv(pm.tr(R), pm.vscale(a, cam)), c), off)
                put("point-%d" % l, *x, tol=1e-6)
                put("observations-of-point-%d" % l, sum(obs[l] >> s & 1 for s in shared))
            for q in range(4):
                R, tr, _ = instance(f, q)
                put("other-map", *sum(m4(R, tr), []))
            put("other-map", bin(frm).count("1"))
            return res

        return ctx.prove("map/" + name, core.CxxKernel(u, "realign", 700, [frm, to, *inst, int(update), *obs]), names(n), post, pre=pre, sampler=smp, samples=30)

    S = [0, 1, 2, 3]
    case("same-shots", 0b1111, 0b1111, S, True, [0b0001, 0b0010, 0b1000], [0, 1, 3])
    case("points-left-alone", 0b1111, 0b1111, S, False, [0b0001, 0b0010, 0b1000], [0, 1, 3])
    case("more-in-to", 0b0011, 0b1111, S, True, [0b1101, 0b1100, 0b0010], [0, None, 1])
    case("more-in-from", 0b1111, 0b0110, S, True, [0b0010, 0b0100, 0], [1, 2, None])
    case("unscaled", 0b1111, 0b0110, S, True, [0b0010, 0b0100, 0], [1, 2, None])
    for s in range(3):
        case("nearest/%d" % s, 0b1111, 0b1111, S, True, [0b0111, 0, 0], [s, None, None])
    case("nearest/not-in-from", 0b1110, 0b1111, S, True, [0b0111, 0, 0], [2, None, None])
    case("rig", 0b1111, 0b1111, [0, 0, 1, 2], True, [0b0001, 0b0010, 0b0100], [0, 1, 2])
    case("rig/partly-in-from", 0b1110, 0b1111, [0, 0, 1, 2], True, [0b0001, 0b0010, 0b0100], [None, 1, 2])
    case("nothing-shared", 0b0001, 0b1110, S, True, [0b0010, 0b0100, 0], [None, None, None])


# ---------------------------------------------------------------- align.py
class Pose:
    """contract of the pose binding: a rotation matrix and a translation (P02, P04)"""

    def __init__(self, R, t):
        self.R, self.translation = A(R), A(t)

    def get_rotation_matrix(self):
        return self.R.copy()

    def set_rotation_matrix(self, R):
        assert R.shape == (3, 3)
        self.R = R.copy()

    def get_origin(self):
        return -self.R.T.dot(self.translation)

    def see(self, x):
        return list(self.R.dot(A(x)) + self.translation)


def near(i, o):
    return [Eq(getattr(o, "labels", [""] * len(o))[k // 2] if hasattr(o, "labels") else "value[%d]" % (k // 2), o[k], o[k + 1], 1e-6) for k in range(0, len(o), 2)]


def rotation(r):
    return A(rq(r(4)))


def mat3(r):
    return A([r(3) for _ in range(3)])


def opt(v):
    o = ext.Opt(vector=v is not None and not isinstance(v, int))
    if v is not None:
        o._v = v if isinstance(v, int) else A(v)
    return o


def shot(key, pose=None, gps=None, orientation=None, camera="C0"):
    return NS(id=key, pose=pose, metadata=NS(gps_position=opt(gps), orientation=opt(orientation)), camera=NS(id=camera))


def reco(shots=(), instances=(), points=(), rig_cameras=(), reference=None):
    return NS(shots={s.id: s for s in shots}, rig_instances=dict(enumerate(instances)), points=dict(enumerate(points)), rig_cameras=dict(enumerate(rig_cameras)), reference=reference)


CONFIG = dict(bundle_use_gcp=True, bundle_use_gps=True, align_method="auto", align_orientation_prior="horizontal", bundle_compensate_gps_bias=True)


def tolist(v):
    return [tolist(w) for w in v] if isinstance(v, (list, tuple, np.ndarray)) else v


def align_py(ctx):
    warnings.simplefilter("ignore")
    logging.getLogger("opensfm.align").setLevel(logging.CRITICAL)
    al, mv, geometry = pysym.load("align", "multiview", "geometry")
    ext.install()
    F = {k: getattr(al, k) for k in ("compute_reconstruction_similarity", "compute_orientation_prior_similarity", "compute_naive_similarity", "alignment_constraints", "detect_alignment_constraints", "estimate_ground_plane", "triangulate_all_gcp", "apply_similarity", "set_gps_bias")}
    ctx.under_contract(*("align." + k for k in list(F) + ["align_reconstruction", "apply_similarity_pose", "get_horizontal_and_vertical_directions"]), "multiview.triangulate_gcp")

    class Swap:
        """replace functions of the module by their contracts during a run"""

        def __init__(self, mod=al, **k):
            self.mod, self.k = mod, k

        def __enter__(self):
            self.old = {k: getattr(self.mod, k) for k in self.k}
            for k, v in self.k.items():
                setattr(self.mod, k, v)

        def __exit__(self, *a):
            for k, v in self.old.items():
                setattr(self.mod, k, v)

    def prove(name, fn, qs=(), pos=(), lo=-2.0, samples=30, **kw):
        """qs: where quaternions start, pos: values that are positive"""
        vals = R([math.sin(1 + 2 * k * k) for k in range(400)])
        fn(vals)
        n = vals.k

        def pre(i):
            return [pm.dot(i[k:k + 4], i[k:k + 4]) > 0.01 for k in qs] + [i[k] > 0.01 for k in pos] + (list(kw2(i)) if kw2 else [])

        def smp(r):
            v = [r.uniform(lo, 2) for _ in range(n)]
            for k in pos:
                v[k] = r.uniform(0.2, 3)
            return v

        kw2 = kw.pop("pre", None)
        kw.setdefault("sampler", smp)
        return ctx.prove("align/" + name, Kernel(fn, name), names(n), near, pre=pre, samples=samples, **kw)

    # -- a similarity keeps what the cameras see, s times as far
    def f_pose(r):
        s, R, M, t, b, x = r(), rotation(r), mat3(r), r(3), A(r(3)), A(r(3))
        p = Pose(M, t)
        before = p.see(x)
        al.apply_similarity_pose(p, s, R, b)
        return [(p.see(s * R.dot(x) + b), [s * v for v in before]), (tolist(p.R), tolist(A(M).dot(R.T)))]

    prove("apply_similarity_pose", f_pose, qs=[1], pos=[0])

    def f_apply(r, ni, nr, np_):
        s, R, b = r(), rotation(r), A(r(3))
        inst = [NS(pose=Pose(mat3(r), r(3))) for _ in range(ni)]
        rigs = [NS(pose=Pose(mat3(r), r(3))) for _ in range(nr)]
        pts = [NS(coordinates=A(r(3))) for _ in range(np_)]
        rec = reco(instances=inst, points=pts, rig_cameras=rigs)

        def all_():
            return [c.pose.see(k.pose.see(p.coordinates)) for k in inst for c in rigs for p in pts]

        before, xs = all_(), [p.coordinates for p in pts]
        rm = [tolist(c.pose.R) for c in rigs]
        al.apply_similarity(rec, s, R, b)
        return [(all_(), [[s * v for v in c] for c in before]), (tolist([p.coordinates for p in pts]), tolist([s * R.dot(x) + b for x in xs])), ([tolist(c.pose.R) for c in rigs], rm)]

    for k in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 2), (3, 1, 0), (0, 0, 2), (0, 2, 1), (1, 3, 1), (3, 2, 1)):
        prove("apply_similarity/%d-%d-%d" % k, lambda r, k=k: f_apply(r, *k), qs=[1], pos=[0])

    # -- orientation of the image axes: right and bottom of the image as displayed, and front
    for o in range(0, 10):
        def f_dir(r, o=o):
            M = mat3(r)
            x, y, z = al.get_horizontal_and_vertical_directions(M, o)
            X0, Y0, Z0 = (M[k] for k in range(3))
            # EXIF: the sides of the image at which its first row and first column are displayed
            row, col = {1: ("top", "left"), 2: ("top", "right"), 3: ("bottom", "right"), 4: ("bottom", "left"), 5: ("left", "top"), 6: ("right", "top"), 7: ("right", "bottom"), 8: ("left", "bottom")}.get(o, ("top", "left"))
            d = {}
            for side, to in ((row, Y0), (col, X0)):  # the image goes from that side to the other one
                k, sg = dict(top=("y", 1), bottom=("y", -1), left=("x", 1), right=("x", -1))[side]
                d[k] = sg * to
            res = [(tolist(x), tolist(d["x"])), (tolist(y), tolist(d["y"]))]
            if o not in (2, 5, 7):  # the frame of a mirrored image is ambiguous
                res.append((tolist(z), tolist(Z0)))
            return res

        prove("directions/%d" % o, f_dir)

    # -- constraints
    def topo(lat, lon, alt):
        return [lat * 2 + lon, lon * 3 - alt, alt + lat]

    def gcp(pos, alt):
        return NS(lla={"latitude": 0}, lla_vec=pos, has_altitude=alt, observations=[])

    def f_gcp(r, alts, found):
        pts = [gcp(r(3), a) for a in alts]
        est = [A(r(3)) if f else None for f in found]
        got = dict(zip(map(id, pts), [e.copy() if e is not None else None for e in est]))
        with Swap(al.multiview, triangulate_gcp=lambda p, shots, *a, **k: got[id(p)]):
            X_, Xp = al.triangulate_all_gcp(reco(reference=NS(to_topocentric=topo)), pts)
        ok = [k for k in range(len(pts)) if found[k]]
        w = [list(est[k])[:2] + ([est[k][2]] if alts[k] else [0.0]) for k in ok]
        wp = [topo(*pts[k].lla_vec)[:2] + ([topo(*pts[k].lla_vec)[2]] if alts[k] else [0.0]) for k in ok]
        return [(tolist(X_), w), (tolist(Xp), wp)]

    for alts in itertools.product((True, False), repeat=2):
        for found in itertools.product((True, False), repeat=2):
            prove("triangulate_all_gcp/%s%s" % ("".join("ag"[not a] for a in alts), "".join("+-"[not a] for a in found)), lambda r, alts=alts, found=found: f_gcp(r, alts, found))

    def f_tri(r, known, valid):
        """rays of the observations in shots of the reconstruction, from their cameras, through the observed pixels"""
        poses = [Pose(mat3(r), r(3)) for _ in range(3)]
        pix = [A(r(2)) for _ in range(3)]
        x = A(r(3))
        shots = {"s%d" % k: NS(pose=poses[k], camera=NS(pixel_bearing=lambda p, k=k: A([p[0] + k, p[1] * 2, p[0] * 3 + 1]))) for k in range(3) if known[k]}
        calls = []

        def mid(os, bs, thresholds, angle, depth):
            calls.append((tolist(os), tolist(bs), list(thresholds), angle, depth))
            return valid, x

        pt = NS(observations=[NS(shot_id="s%d" % k, projection=pix[k]) for k in range(3)])
        with Swap(mv.pygeometry, triangulate_bearings_midpoint=mid):
            got = mv.triangulate_gcp(pt, shots)
        ks = [k for k in range(3) if known[k]]
        if len(ks) < 2:
            return [(got is None and not calls, True)]
        o, b, th, an, de = calls[0]
        return [(o, [list(poses[k].get_origin()) for k in ks]), (b, [list(poses[k].R.T.dot(shots["s%d" % k].camera.pixel_bearing(pix[k]))) for k in ks]),
                (th, [0.02] * len(ks)), (float(an), math.radians(1.0)), (de, 0.001), (tolist(got) if valid else got is None, tolist(x) if valid else True)]

    mv.pygeometry.triangulate_bearings_midpoint = None
    for known in itertools.product((True, False), repeat=3):
        for valid in (True, False):
            prove("triangulate_gcp/%s/%s" % ("".join("+-"[not a] for a in known), valid), lambda r, k=known, v=valid: f_tri(r, k, v))

    def f_con(r, use_gcp, use_gps, cfg_gcp, cfg_gps, have, npts):
        """have: shots of each rig instance with a GPS position"""
        inst, shots, want, wantp = [], [], [], []
        pts = [(A(r(3)), A(r(3))) for _ in range(npts)]
        if use_gcp and cfg_gcp:
            want += [p[0] for p in pts]
            wantp += [p[1] for p in pts]
        for q, hs in enumerate(have):
            p = Pose(mat3(r), r(3))
            gps = [r(3) if h else None for h in hs]
            inst.append(NS(pose=p, shots={"s%d_%d" % (q, k): shot("s%d_%d" % (q, k), p, g) for k, g in enumerate(gps)}))
            g = [v for v in gps if v is not None]
            if g and use_gps and cfg_gps:
                want.append(p.get_origin())
                wantp.append([sum(v[k] for v in g) / len(g) for k in range(3)])
        rec = reco(instances=inst)
        with Swap(triangulate_all_gcp=lambda rec, g: ([p[0] for p in pts], [p[1] for p in pts])):
            a, b = al.alignment_constraints(dict(CONFIG, bundle_use_gcp=cfg_gcp, bundle_use_gps=cfg_gps), rec, ["gcp"] if use_gcp else [], use_gps)
        return [(tolist(a), tolist(want)), (tolist(b), tolist(wantp))]

    for flags in itertools.product((True, False), repeat=4):
        prove("alignment_constraints/%s" % "".join("+-"[not a] for a in flags), lambda r, f=flags: f_con(r, *f, [(True,), (True, False, True), (False,)], 2))
    for have in ([], [(False,)], [(True, True)], [(True,), (True,)], [(False, True), (True, True, True)]):
        prove("alignment_constraints/%s" % have, lambda r, h=have: f_con(r, True, True, True, True, h, 1))

    # -- direct 3D fit
    def f_naive(r, n, same, scale):
        s, R, b = r(), rotation(r), A(r(3))
        X_ = [A(r(3)) for _ in range(n)]
        Xp = [A(r(3)) for _ in range(n)]
        if same:
            Xp = [Xp[0].copy() for _ in range(n)]
        calls = []

        def sup(v0, v1, scale=True, usesvd=True):
            """contract (P06): the similarity that brings v0 closest to v1"""
            calls.append((tolist(v0), tolist(v1), scale))
            return A(m4(tolist(s * R), list(b)) if True else None)

        with Swap(alignment_constraints=lambda *a: ([x.copy() for x in X_], [x.copy() for x in Xp])), Swap(al.tf, superimposition_matrix=sup):
            got = al.compute_naive_similarity(CONFIG, None, [], True, scale)
        if n == 0:
            return [(got is None, True)]
        s1, A1, b1 = got
        if n == 1 or same:
            return [(s1, 1.0), (tolist(A1), tolist(np.eye(3))), (tolist(b1), tolist(Xp[0] - X_[0])), (len(calls), 0)]
        k = list(range(n)) + ([1] if n == 2 else [])
        v0, v1, sc = calls[0]
        res = [(v0, [[X_[j][c] for j in k] for c in range(3)]), (v1, [[Xp[j][c] for j in k] for c in range(3)]), (sc, scale)]
        M = A(tolist(s * R))
        det = al.np.linalg.det(M)  # the cube of the scale
        return res + [(tolist(s1 * A1), tolist(M)), (tolist(b1), tolist(b)), (s1, det ** (1.0 / 3)), (det, s * s * s)]

    for scale in (True, False):
        for n, same in ((0, False), (1, False), (2, False), (3, False), (4, False), (2, True), (3, True)):
            def apart(i, n=n, same=same):
                # measured positions are not all the same
                p = i[8 + 3 * n:8 + 6 * n]
                return [] if same or n < 2 else [(p[0] - p[3]) * (p[0] - p[3]) > 0.01]

            prove("naive/%d%s%s" % (n, "/same" if same else "", "" if scale else "/no-scale"), lambda r, n=n, same=same, scale=scale: f_naive(r, n, same, scale), qs=[1], pos=[0], pre=apart)

    # -- prior on the orientation of the cameras
    def f_prior(r, n, scale):
        s, co, si, tx, ty, R = r(), r(), r(), r(), r(), rotation(r)
        X_ = [A(r(3)) for _ in range(n)]
        Xp = [A(r(3)) for _ in range(n)]
        q = co * co + si * si
        c2, s2 = (co * co - si * si) / q, 2 * co * si / q
        T = A([[s * c2, -s * s2, tx], [s * s2, s * c2, ty], [0.0, 0.0, 1.0]])
        calls = []

        def aff(v0, v1, shear=True, scale=True, usesvd=True):
            calls.append((tolist(v0), tolist(v1), shear, scale))
            return T

        plane = object()
        with Swap(alignment_constraints=lambda *a: (list(X_), list(Xp)), estimate_ground_plane=lambda *a: plane), Swap(al.tf, affine_matrix_from_points=aff), Swap(al.multiview, plane_horizontalling_rotation=lambda p: R if p is plane else None):
            s1, A1, b1 = al.compute_orientation_prior_similarity(None, CONFIG, [], True, scale)
        lev = [R.dot(x) for x in X_]  # levelled
        if n == 0:
            return [(s1, 1.0), (tolist(A1), tolist(R)), (tolist(b1), [0.0] * 3)]
        mean = lambda v, k: sum(x[k] for x in v) / n
        moved = [s1 * A1.dot(x) + b1 for x in X_]
        if n == 1:
            return [(s1, 1.0), (tolist(A1), tolist(R)), (tolist(moved[0]), tolist(Xp[0]))]
        if not calls:  # all the same
            res = [(tolist(A1), tolist(R))]
            if n == 2 and not (isinstance(s1, float) and s1 == 1.0):
                return res  # far away
            return res + [(s1, 1.0)] + [(mean(moved, c), mean(Xp, c)) for c in range(3)]
        v0, v1, sh, sc = calls[0]
        res = [(v0, [[x[c] for x in lev] for c in range(2)]), (v1, [[x[c] for x in Xp] for c in range(2)]), (sh, False), (sc, scale)]
        for k in range(n):
            res.append((list(moved[k][:2]), [s * (c2 * lev[k][0] - s2 * lev[k][1]) + tx, s * (s2 * lev[k][0] + c2 * lev[k][1]) + ty]))
        # heights are levelled ones scaled, and right on average
        res += [(moved[k][2] - moved[0][2], s1 * (lev[k][2] - lev[0][2])) for k in range(1, n)]
        return res + [(mean(moved, 2), mean(Xp, 2)), (s1 * s1, s * s), (tolist(A1[2]), tolist(R[2]))]

    for scale in (True, False):
        for n in (0, 1, 2, 3):
            def turned(i):
                return [i[1] * i[1] + i[2] * i[2] > 0.01]

            prove("orientation_prior/%d%s" % (n, "" if scale else "/no-scale"), lambda r, n=n, scale=scale: f_prior(r, n, scale), qs=[5], pos=[0], pre=turned)

    # -- ground plane: positions, image axes in it and upward directions of the shots with a known orientation
    def f_plane(r, prior, orient):
        shots, on, up, pos = [], [], [], []
        for k, o in enumerate(orient):
            p = Pose(mat3(r), r(3))
            shots.append(shot("s%d" % k, p, None, o))
            pos.append(p.get_origin())
            if o is None:
                continue
            M = p.R
            x, y, z = {1: (M[0], M[1], M[2]), 3: (-M[0], -M[1], M[2]), 6: (-M[1], M[0], M[2]), 8: (M[1], -M[0], M[2])}[o]
            on += dict(no_roll=[x], horizontal=[x, z], vertical=[x, y])[prior]
            up += dict(no_roll=[-y], horizontal=[-y], vertical=[-z])[prior]
        m = [sum(p[c] for p in pos) / len(pos) for c in range(3)]
        calls = []

        def fit(points, vectors, verticals):
            calls.append((points, vectors, verticals))
            return "plane"

        with Swap(al.multiview, fit_plane=fit):
            got = al.estimate_ground_plane(reco(shots=shots), dict(CONFIG, align_orientation_prior=prior))
        g, v, u = calls[0]
        return [(got, "plane"), (tolist(g), [[p[c] - m[c] for c in range(3)] for p in pos]), (tolist(v), tolist(on)), (tolist(u), tolist(up))]

    for prior in ("no_roll", "horizontal", "vertical"):
        for orient in ((1,), (1, 6), (8, None, 3), (None,)):
            prove("ground_plane/%s/%s" % (prior, orient), lambda r, p=prior, o=orient: f_plane(r, p, o))

    # -- which fit is used and what is done with it
    def f_dispatch(r, method, auto, ok):
        s, R, b = r(), rotation(r), A(r(3))
        calls = []

        def fit(name):
            def g(*a):
                calls.append((name,) + a)
                return (s, R, b) if ok == "fit" else (0.0, R, b) if ok == "zero" else None

            return g

        rec, pts = object(), object()
        cfg = dict(CONFIG, align_method=method)
        with Swap(detect_alignment_constraints=lambda *a: auto, compute_naive_similarity=fit("naive"), compute_orientation_prior_similarity=fit("orientation_prior")):
            got = al.compute_reconstruction_similarity(rec, pts, cfg, True, False)
        m = auto if method == "auto" else method
        c = calls[0]
        args = (cfg, rec, pts, True, False) if m == "naive" else (rec, cfg, pts, True, False)
        res = [(len(calls) == 1 and c[0] == m and all(a is b_ for a, b_ in zip(c[1:], args)), True)]
        return res + [(tolist(got), tolist((s, R, b))) if ok == "fit" else (got is None, True)]

    for method in ("auto", "naive", "orientation_prior"):
        for auto in ("naive", "orientation_prior"):
            for ok in ("fit", "zero", "none"):
                prove("similarity/%s/%s/%s" % (method, auto, ok), lambda r, a=method, b=auto, c=ok: f_dispatch(r, a, b, c), qs=[1], pos=[0])

    def f_align(r, sizes, bias, comp, ok):
        s, R, b = r(), rotation(r), A(r(3))
        calls = []
        inst = [NS(shots=dict.fromkeys(range(n))) for n in sizes]
        rec = reco(instances=inst)
        pts = [object()]
        cfg = dict(CONFIG, bundle_compensate_gps_bias=comp)
        want = not any(n > 1 for n in sizes)

        def sim(*a):
            calls.append(("sim",) + a)
            return (s, R, b) if ok else None

        def sgb(*a):
            calls.append(("bias",) + a)
            return (s, R, b)

        with Swap(compute_reconstruction_similarity=sim, set_gps_bias=sgb, apply_similarity=lambda *a: calls.append(("apply",) + a)):
            got = al.align_reconstruction(rec, pts, cfg, True, bias)
        if bias and comp:
            c = calls[0]
            return [(len(calls) == 1 and c[0] == "bias" and c[1] is rec and c[2] is cfg and c[3] is pts and c[4] == want, True), (tolist(got), tolist((s, R, b)))]
        c = calls[0]
        res = [(c[0] == "sim" and c[1] is rec and c[2] is pts and c[3] is cfg and c[4] is True and c[5] == want, True)]
        if not ok:
            return res + [(len(calls) == 1 and got is None, True)]
        d = calls[1]
        return res + [(len(calls) == 2 and d[0] == "apply" and d[1] is rec, True), (tolist(d[2:]), tolist((s, R, b))), (tolist(got), tolist((s, R, b)))]

    for sizes in ((1, 1), (1, 2), (3,), ()):
        for bias, comp, ok in itertools.product((True, False), repeat=3):
            prove("align/%s/%s%s%s" % (sizes, *("+-"[not v] for v in (bias, comp, ok))), lambda r, a=sizes, b=bias, c=comp, d=ok: f_align(r, a, b, c, d), qs=[1], pos=[0])

    # -- biases of the GPS of each camera with respect to the ground control points
    def f_bias(r, ok, cams):
        G = (r(), rotation(r), A(r(3)))
        per = {c: (r(), rotation(r), A(r(3))) for c in sorted(set(cams))}
        vec = {c: A(r(3)) for c in per}
        x = A(r(3))
        shots = [shot("s%d" % k, None, None, None, c) for k, c in enumerate(cams)]
        rec = reco(shots=shots)
        rec.cameras = {c: NS(id=c) for c in per}
        biases, applied, asked = {}, [], []
        rec.set_bias = lambda c, v: biases.__setitem__(c, v)
        pts, cfg = [object()], CONFIG

        class Sub:
            def __init__(self):
                self.c, self.s = [], []

            def add_camera(self, c):
                self.c.append(c.id)

            def add_shot(self, s):
                self.s.append(s.id)

        def sim(rec_, gcp_, cfg_, gps, scale):
            if rec_ is rec:
                asked.append(("all", gcp_ is pts, gps, scale))
                return None if ok == "none" else G
            asked.append((rec_.c[0], len(applied) == 1, len(gcp_), tuple(rec_.s), gps, scale))
            return None if ok == "one" and rec_.c[0] == "C1" else per[rec_.c[0]]

        def rod(M):
            """contract: a rotation vector of the matrix"""
            for c in per:
                if M is per[c][1]:
                    return np.array([[v] for v in vec[c]], dtype=object if sym(list(vec[c])) else float), None
            return np.zeros((3, 1)), None

        with Swap(compute_reconstruction_similarity=sim, apply_similarity=lambda *a: applied.append(a), cv2=NS(Rodrigues=rod)), Swap(al.types, Reconstruction=Sub), Swap(al.pygeometry, Similarity=lambda v, t, s: NS(v=v, t=t, s=s)):
            got = al.set_gps_bias(rec, cfg, pts, True)
        if ok == "none":
            return [(got is None and not applied and not biases and asked == [("all", True, False, True)], True)]
        res = [(asked[0] == ("all", True, False, True) and len(applied) == 1 and applied[0][0] is rec, True), (tolist(applied[0][1:]), tolist(G)), (tolist(got), tolist(G))]
        if ok == "one":
            return res + [(len(biases), 0)]
        res.append((sorted(asked[1:]), [(c, True, 0, tuple("s%d" % k for k, d in enumerate(cams) if d == c), True, True) for c in sorted(per)]))
        res.append((sorted(biases), sorted(per)))
        for c in per:
            s, R, b = per[c]
            B = biases[c]
            # the bias undoes the similarity of the camera: rotation by minus the vector, i.e. the transposed matrix
            res += [(tolist(B.v), tolist(-vec[c])), (tolist(B.s * R.T.dot(s * R.dot(x) + b) + B.t), tolist(x))]
        return res

    al.pygeometry.Similarity = getattr(al.pygeometry, "Similarity", None)
    for ok, cams in (("none", ["C0"]), ("one", ["C0", "C1"]), ("all", ["C0"]), ("all", ["C0", "C1", "C0"])):
        qs = [1] + [9 + 8 * k for k in range(len(set(cams)))]
        prove("gps_bias/%s/%d" % (ok, len(cams)), lambda r, a=ok, b=cams: f_bias(r, a, b), qs=qs, pos=[q - 1 for q in qs])

    # -- the choice of the fit and the whole alignment, on samples
    def f_end(r, kind, scale):
        s, q, b = 0.5 + abs(r()), r(4), np.array(r(3)) * 10
        R = np.array(rq(q))
        n = 6
        X_ = np.array([r(3) for _ in range(n)])
        d = np.array(r(3))
        if kind == "line":
            X_ = np.array([x[0] * d for x in X_])
        if np.linalg.norm(d) < 0.2 or np.linalg.norm(q) < 0.2 or np.linalg.svd(X_ - X_.mean(axis=0))[1][2 if kind == "spread" else 0] < 0.3:
            return None
        if not scale:
            s = 1.0
        inst, shots = [], []
        for k in range(n):
            M = np.array(rq(r(4)))
            p = Pose(M, -M.dot(X_[k]))
            h = shot("s%d" % k, p, list(s * R.dot(X_[k]) + b), 1)
            shots.append(h)
            inst.append(NS(pose=p, shots={h.id: h}))
        rec = reco(shots=shots, instances=inst)
        if kind != "spread":
            return [(al.detect_alignment_constraints(CONFIG, rec, [], True), "orientation_prior")]
        got = al.compute_reconstruction_similarity(rec, [], CONFIG, True, scale)
        return [(al.detect_alignment_constraints(CONFIG, rec, [], True), "naive"), (tolist(got), tolist((s, R, b)))]

    for kind, scale in (("spread", True), ("spread", False), ("line", True)):
        fn = lambda r, k=kind, s=scale: f_end(r, k, s)

        def smp(r, fn=fn):
            while True:
                v = [r.uniform(-2, 2) for _ in range(53)]
                if fn(R(v)):
                    return v

        ctx.runtime("align/whole/%s%s" % (kind, "" if scale else "/no-scale"), Kernel(fn, "whole"), names(53), near, sampler=smp, samples=300)


def build(ctx):
    ctx.assume("A-REAL: floating point numbers are read as exact reals", "A-TOPO: TopocentricFromLla is a function of the position and the reference (proved in P01)", "A-SHAPE: maps of at most 4 shots, 4 rig instances and 3 landmarks, at most 4 alignment constraints; poses, positions, scales and parameters in them are arbitrary", "A-FIT: superimposition_matrix, affine_matrix_from_points, fit_plane, plane_horizontalling_rotation and Rodrigues as proved in P06, the midpoint triangulation as proved in P07")
    align_py(ctx)
    ctx.under_contract("sfm::retriangulation::RealignMaps")
    realign(ctx)

"""P05 bundle adjustment: every term of the minimised problem is the documented residual of the documented parameters"""
import hashlib

from vf import core, ir, pm
from vf import expr as X
from vf.core import Cond, Eq, eqs

from specs import P03, cams
from specs.cams import FACTORY, STORAGE

POSE = ["rx", "ry", "rz", "tx", "ty", "tz"]


def pn(s):
    return [n + s for n in POSE]


def num(v):
    if isinstance(v, X.E):
        assert v.op == "c", "structure of the problem depends on the values: %s" % X.to_str(v)
        return int(v.args[0])
    return int(round(v))


def sym(i):
    return isinstance(i[0], X.E)


class Stream:
    def __init__(self, o):
        self.o, self.k = o, 0

    def s(self):
        self.k += 1
        return self.o[self.k - 1]

    def n(self):
        return num(self.s())

    def v(self, n):
        self.k += n
        return self.o[self.k - n:self.k]


def blocks(st):
    r = []
    for _ in range(st.n()):
        b = dict(ok=st.n())
        n, nres = st.n(), st.n()
        b["loss"], b["lossb"] = st.n(), st.s()
        b["params"], b["fixed"], b["lower"] = [], [], []
        for _ in range(n):
            sz = st.n()
            b["fixed"].append(st.n())
            low, lo = st.n(), st.s()
            b["lower"].append(lo if low else None)
            b["params"].append(st.v(sz))
        b["res"] = st.v(nres)
        r.append(b)
    return r


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, X.E) or isinstance(y, X.E):
            if X.lift(x) is not X.lift(y):
                return False
        elif abs(x - y) > 1e-9 * max(1, abs(x)):
            return False
    return True


def pair(a, b):
    """the same residuals in another order: b permuted to follow a"""
    env = {}
    vs = [v for v in a + b if isinstance(v, X.E)]
    for n in X.variables(*vs) if vs else ():
        nm = n if isinstance(n, str) else n.args[0]
        env[nm] = 0.2 + (hash_(nm) % 997) / 900.0
    ev = lambda l: X.evaluate([X.lift(v) for v in l], env)
    va, vb, left, out = ev(a), ev(b), list(range(len(b))), []
    for x in va:
        k = min(left, key=lambda j: abs(vb[j] - x))
        left.remove(k)
        out.append(b[k])
    return out


def hash_(s):
    return int(hashlib.md5(s.encode()).hexdigest()[:8], 16)


def match(bs, expect):
    """expect: (label, params, fixed, residuals, loss (code, parameter) or None)"""
    out, left = [], list(bs)
    symbolic = any(isinstance(b["lossb"], X.E) for b in bs)
    for e in expect:
        label, params, res = e["label"], e["params"], e["res"]
        hit = [b for b in left if len(b["params"]) == len(params) and len(b["res"]) == len(res) and all(any(same(p, q) for q in b["params"]) for p in params)]
        if not hit:
            out.append(Cond(label + "/term-of-the-problem", X.FALSE if symbolic else False))
            continue
        b = hit[0]
        left = [c for c in left if c is not b]
        out.append(Eq(label + "/well-formed", float(b["ok"]), 1.0))
        for p, f, lo in zip(params, e.get("fixed", [0] * len(params)), e.get("lower", [None] * len(params))):
            q = [k for k, v in enumerate(b["params"]) if same(v, p)][0]
            out.append(Eq(label + "/fixed", float(b["fixed"][q]), float(f)))
            if lo is not None:
                out.append(Eq(label + "/lower-bound", -1.0 if b["lower"][q] is None else b["lower"][q], lo))
        out += eqs(label + "/residual", b["res"], pair(b["res"], res) if e.get("unordered") else res, e.get("tol", 1e-7))
        code, par = e.get("loss") or (0, 0.0)
        out += [Eq(label + "/loss", float(b["loss"]), float(code)), Eq(label + "/loss-threshold", b["lossb"], par)]
    out.append(Eq("no-other-term", float(len(left)), 0.0))
    return out


# ---- contracts of the callees
CAM, TAG, WORDS, RMV = [], [], [], []
QUAT = False


def reset():
    del CAM[:], RMV[:]  # the tables of rotations only grow: a vector keeps its matrix


def ld(m, p, n):
    return [X.lift(m.load(ir.P(p.o, p.off + 8 * k), ir.DBL)) for k in range(n)]


def st(m, p, v):
    for k, e in enumerate(v):
        m.store(ir.P(p.o, p.off + 8 * k), 8, e)


PROJ = {"21PerspectiveProjection": "persp", "17FisheyeProjection": "fish", "14DualProjection": "dual", "19SphericalProjection": "sph"}
CLASS = {0: "21PerspectiveProjectionENS_7Disto24ENS_12UniformScale", 1: "21PerspectiveProjectionENS_10DistoBrownENS_6Affine", 2: "17FisheyeProjectionENS_7Disto24ENS_12UniformScale",
         3: "17FisheyeProjectionENS_9Disto2468ENS_6Affine", 4: "17FisheyeProjectionENS_7Disto62ENS_6Affine", 5: "17FisheyeProjectionENS_8Disto624ENS_6Affine",
         6: "19SphericalProjectionENS_8IdentityES2_", 7: "14DualProjectionENS_7Disto24ENS_12UniformScale", 8: "21PerspectiveProjectionENS_7Disto24ENS_6Affine",
         9: "21PerspectiveProjectionENS_6Disto2ENS_6Affine"}


def cls(t, f):
    c = CLASS[t]
    if f == "Forward":
        return "_ZN8geometry14ProjectGenericINS_" + c + ("EE7ForwardIdEEvPKT_S8_PS6_" if t != 6 else "E7ForwardIdEEvPKT_S7_PS5_")
    return "_ZN8geometry14ProjectGenericINS_" + c + ("EE18ForwardDerivativesIdLb1EEEvPKT_S8_PS6_S9_" if t != 6 else "E18ForwardDerivativesIdLb1EEEvPKT_S7_PS5_S8_")


def project(t):
    """projection of the camera model t: an arbitrary function of the point and the parameters (its values are the subject of P02)"""
    def h(m, a, name):
        pin, par, out = a
        ins, ps = ld(m, pin, 3), ld(m, par, len(STORAGE[t]))
        for tt, i, p, v in CAM:
            if tt == t and same(i, ins) and same(p, ps):
                break
        else:
            v = [X.var("Q%d!%d" % (len(CAM), k)) for k in range(2)]
            CAM.append((t, ins, ps, v))
        st(m, out, v)

    return h


# ---- rotation vectors as words of the group: +v and -v are inverse letters, MultRotations concatenates
def neg(v):
    return [X.neg(e) for e in v]


def word(v):
    """the word a rotation vector stands for"""
    if all(X.is_c(e, 0) for e in v):
        return ()
    for w, r in WORDS:
        if same(r, v):
            return w
        if same(neg(r), v):
            return inv(w)
    k = len(WORDS)
    WORDS.append(((k + 1,), [X.lift(e) for e in v]))
    return (k + 1,)


def inv(w):
    return tuple(-k for k in reversed(w))


def cat(*ws):
    out = []
    for w in ws:
        for k in w:
            if out and out[-1] == -k:
                out.pop()
            else:
                out.append(k)
    return tuple(out)


def vec(w):
    """the rotation vector of a word"""
    if not w:
        return [X.ZERO] * 3
    for u, r in WORDS:
        if u == w:
            return r
        if u == inv(w):
            return neg(r)
    r = [X.var("W%d!%d" % (len(WORDS), k)) for k in range(3)]
    WORDS.append((w, r))
    return r


def mult(m, a, name):
    st(m, a[0], vec(cat(*[word(ld(m, p, 3)) for p in a[1:]])))


def rmul(*vs):
    """rotation vector of the product of rotations given by vectors (terms or floats)"""
    if any(isinstance(e, X.E) for v in vs for e in v):
        return vec(cat(*[word([X.lift(e) for e in v]) for v in vs]))
    M = pm.eye(3)
    for v in vs:
        M = pm.mm(M, pm.rot_aa([float(e) for e in v]) if max(abs(e) for e in v) > 1e-12 else pm.eye(3))
    return log_rot(M)


def log_rot(M):
    w = [M[2][1] - M[1][2], M[0][2] - M[2][0], M[1][0] - M[0][1]]
    s, c = pm.norm(w) / 2, (M[0][0] + M[1][1] + M[2][2] - 1) / 2
    th = pm.atan2(s, c)
    if th > 3.0:
        raise core.Reject()
    return [v / 2 for v in w] if s < 1e-9 else [v * th / (2 * s) for v in w]


def bicubic(m, a, name):
    row, col, f = a[1], a[2], a[3]
    g = m.load(ir.P(a[0].o, a[0].off), ir.PTR)
    n = [m.load(ir.P(g.o, g.off + 8 + 4 * k), ir.I32) for k in range(4)]
    data = m.load(ir.P(g.o, g.off), ir.PTR)
    ins, ps = [X.lift(row), X.lift(col)], [X.lift(int(e)) for e in n] + ld(m, data, 12)
    for kind, i, p, v in CAM:
        if kind == "heatmap" and same(i, ins) and same(p, ps):
            break
    else:
        v = [X.var("H!%d" % len(CAM))]
        CAM.append(("heatmap", ins, ps, v))
    m.store(f, 8, v[0])


def rot(v):
    """rotation matrix of a rotation vector; symbolically an arbitrary matrix for every vector, transposed for the opposite vector"""
    if not any(isinstance(e, X.E) for e in v):
        v = [float(e) for e in v]
        return pm.rot_aa(v) if max(abs(e) for e in v) > 1e-12 else pm.eye(3)
    v = [X.lift(e) for e in v]
    if all(X.is_c(e, 0) for e in v):
        return [[X.lift(e) for e in row] for row in pm.eye(3)]
    for q, M in TAG:
        if same(q, v):
            return M
        if same(neg(q), v):
            return pm.tr(M)
    if QUAT:  # any rotation but the half turns
        q = [X.var("R%d!%s" % (len(TAG), k)) for k in "xyz"]
        n = 1 + pm.dot(q, q)
        TAG.append((v, [[((1 if r == c else 0) * (1 - pm.dot(q, q)) + 2 * q[r] * q[c] + 2 * pm.cross(q, pm.eye(3)[c])[r]) / n for c in range(3)] for r in range(3)]))
        return TAG[-1][1]
    TAG.append((v, [[X.var("R%d!%d%d" % (len(TAG), p, c)) for c in range(3)] for p in range(3)]))
    return TAG[-1][1]


def vrm(m, a, name):
    """VectorToRotationMatrix: the rotation matrix of a vector"""
    M = rot(ld(m, a[1], 3))
    for p in range(3):
        st(m, ir.P(a[0].o, a[0].off + 24 * p), [M[r][p] for r in range(3)])


def rmv(m, a, name):
    """RotationMatrixToVector: inverse of the above"""
    ret, M = a
    v = [[X.lift(m.load(ir.P(M.o, M.off + 8 * (3 * c + r)), ir.DBL)) for c in range(3)] for r in range(3)]
    eye = [[X.lift(e) for e in row] for row in pm.eye(3)]
    eq = lambda A: all(same(x, y) for x, y in zip(A, v))
    out = [X.ZERO] * 3 if eq(eye) else next((q for q, R in TAG if eq(R)), None) or next((neg(q) for q, R in TAG if eq(pm.tr(R))), None)
    if out is None and QUAT:
        ev = lambda A: X.evaluate([e for row in A for e in row], {n: 0.2 + (hash_(n) % 997) / 900.0 for n in X.variables(*[e for row in A for e in row])})
        w = ev(v)
        for q, R in TAG:
            for s, T in ((q, R), (neg(q), pm.tr(R))):
                if max(abs(a - b) for a, b in zip(ev(T), w)) < 1e-9:
                    out = s
                    RMV.extend(eqs("rotation-matrix", v, T))
                    break
    if out is None:
        raise ir.Unsupported("rotation vector of an unknown rotation")
    st(m, ret, out)


def rotate(m, a, name):
    """ceres::AngleAxisRotatePoint(vector, point, result)"""
    v, x = ld(m, a[0], 3), ld(m, a[1], 3)
    st(m, a[2], pm.mv(rot(v), x))


def fwd(m, a, name):
    """PoseFunctor::Forward: R(-r) (P - t)"""
    x, p = ld(m, a[0], 3), ld(m, a[1], 6)
    st(m, a[2], pose(x, p))


def hyp(m, a, name):
    return X.sqrt(X.add(X.add(X.mul(a[0], a[0]), X.mul(a[1], a[1])), X.mul(a[2], a[2])))


class K(core.CxxKernel):
    def __init__(self, *a, quat=False):
        super().__init__(*a)
        self.quat = quat

    def prepare(self):
        global QUAT
        super().prepare()
        del TAG[:], WORDS[:]
        QUAT = self.quat

    def symbolic(self, ins):
        reset()
        return super().symbolic(ins)


def pose(P, rt):
    return pm.mv(rot([-v for v in rt[:3]]), pm.vsub(P, rt[3:6]))


class In:
    def __init__(self, i):
        self.i, self.k = i, 0

    def v(self, n):
        self.k += n
        return self.i[self.k - n:self.k]

    def s(self):
        return self.v(1)[0]


class Scene:
    def __init__(self, it, t, rigs):
        n = FACTORY[t]
        self.cam = self.store(t, it.v(len(n)))
        self.prior = self.store(t, it.v(len(n)))
        self.t = t
        self.rc = {0: [0.0] * 6}
        self.rcp = {}
        for k in (1, 2):
            if k in rigs:
                self.rc[k], self.rcp[k] = it.v(6), it.v(6)
        self.inst = [it.v(6) for _ in rigs]
        self.rigs = rigs
        self.scales, self.th, self.again = None, None, False

    @staticmethod
    def store(t, v):
        d = dict(zip(FACTORY[t], v))
        return [d[n] for n in STORAGE[t]] if t != 6 else [0.0]

    def rig(self, k):
        return self.rc[self.rigs[k]]

    def position(self, k, use_rig=True):
        """centre of shot k: t_instance + R_instance t_camera"""
        i = self.inst[k]
        return pm.vadd(i[3:6], pm.mv(rot(i[:3]), self.rig(k)[3:6])) if self.rigs[k] and use_rig else i[3:6]

    def rotation(self, k):
        """camera to world rotation vector of shot k"""
        return rmul(self.inst[k][:3], self.rig(k)[:3]) if self.rigs[k] else self.inst[k][:3]


class View:
    """the scene as the second constraint of a kind sees it: other shots first"""
    def __init__(self, sc, order):
        self.__dict__.update(sc.__dict__)
        self.inst, self.rigs = [sc.inst[k] for k in order], [sc.rigs[k] for k in order]
        self.scales, self.th, self.again = [sc.scales[k] for k in order] if sc.scales else None, sc.th, True

    rig, position, rotation = Scene.rig, Scene.position, Scene.rotation


SECOND = (2, 0, 1)


def scene_names(t, rigs):
    r = FACTORY[t] + ["p_" + n for n in FACTORY[t]]
    for k in (1, 2):
        if k in rigs:
            r += pn("AB"[k - 1]) + pn("AB"[k - 1] + "p")
    for k in range(len(rigs)):
        r += pn("i%d" % (k + 1))
    return r


SD = dict.fromkeys(["transition", "k1", "k2", "k3", "k4", "p1", "p2", "f", "ar", "cx", "cy"], 1.0)
EPS = 2.220446049250313e-16


def priors(sc, sds=SD, fixed=0, rsd=(1.0, 1.0)):
    """terms that every problem has: camera and rig camera priors, barrier of the transition of dual cameras"""
    n = STORAGE[sc.t] if sc.t != 6 else ["none"]
    r = [(pm.log(v / p) if k in ("f", "ar") else v - p) / sds.get(k, EPS) for k, v, p in zip(n, sc.cam, sc.prior)]
    e = [dict(label="camera-prior", params=[sc.cam], fixed=[fixed], res=r, unordered=True)]
    if sc.t == 7:
        v = sc.cam[0]
        e.append(dict(label="transition-barrier", params=[sc.cam], fixed=[fixed], res=[pm.log(v + 1e-10) + pm.log(1.0 - v + 1e-10) + 2.0 * (X.fn("log", X.lift(0.5)) if isinstance(v, X.E) else pm.log(0.5))]))
    for k in range(3):
        if k == 0:
            e.append(dict(label="rig-camera-prior", params=[sc.rc[0]], fixed=[1], res=[0.0] * 6))
        elif k in sc.rc:
            e.append(dict(label="rig-camera-prior", params=[sc.rc[k]], unordered=True, res=[(a - b) / s for a, b, s in zip(sc.rc[k], sc.rcp[k], [rsd[0]] * 3 + [rsd[1]] * 3)]))
    return e


def camera_point(sc, k, P, inst=None, rc=None):
    Q = pose(P, inst or sc.inst[k])
    return pose(Q, rc or sc.rig(k)) if sc.rigs[k] else Q


def moved(p, delta, fixed=False):
    """what the solver (stub) made of a parameter block"""
    return list(p) if fixed else [v + (j + 1) * delta for j, v in enumerate(p)]


def solved(sc, st, delta, fixed=(0, 0, 0)):
    r = []
    for k in range(len(sc.rigs)):
        r += eqs("result/instance-%d" % (k + 1), st.v(6), moved(sc.inst[k], delta, fixed[k]))
    for k in range(len(sc.rigs)):
        r += eqs("result/rig-camera-%d" % (k + 1), st.v(6), moved(sc.rig(k), delta, sc.rigs[k] == 0))
    return r


LOSS = {0: (0, lambda a: 0.0), 1: (1, lambda a: 0.0), 2: (2, lambda a: a), 3: (3, lambda a: a * a), 4: (4, lambda a: a * a), 5: (5, lambda a: a), 6: (6, lambda a: a * a)}


def loss(k, a=1.0):
    return (k, LOSS[k][1](a))


def bearing(obs):
    if isinstance(obs[0], X.E):
        lon, lat = 2 * pm.PI * obs[0], -2 * pm.PI * obs[1]
    else:
        lon, lat = 6.283185307179586 * obs[0], -6.283185307179586 * obs[1]
    return [pm.cos(lat) * pm.sin(lon), -pm.sin(lat), pm.cos(lat) * pm.cos(lon)]


def reproj_res(t, C, cam, obs):
    """(obligations, residual before scaling)"""
    if t == 6:
        n = pm.norm(C)
        return [c / n - q for c, q in zip(C, bearing(obs))]
    if any(isinstance(e, X.E) for e in C):
        ps = [X.lift(p) for p in cam]
        alg_same = lambda a, b: all(X.lift(x) is X.lift(y) for x, y in zip(a, b))
        v = next((v for tt, i, p, v in CAM if tt == t and alg_same(i, C) and alg_same(p, ps)), None)
        if v is None:
            v = nearest(t, C, ps)
        return [a - b for a, b in zip(v, obs)]
    return [a - b for a, b in zip(cams.project(t, C, dict(zip(STORAGE[t], cam))), obs)]


EXTRA = []


def nearest(t, C, ps):
    """the projection whose arguments are to be proved equal to (C, ps)"""
    c = [(i, p, v) for tt, i, p, v in CAM if tt == t]
    if not c:
        EXTRA.append(Cond("evaluated", X.FALSE))
        return [X.var("NoProjection!0"), X.var("NoProjection!1")]
    ev = lambda l: X.evaluate([X.lift(x) for x in l], {n: 0.2 + (hash_(n) % 997) / 900.0 for n in X.variables(*[X.lift(x) for x in l])})
    w = ev(C + ps)
    i, p, v = min(c, key=lambda e: sum(abs(a - b) for a, b in zip(ev(e[0] + e[1]), w)))
    EXTRA.extend(eqs("projection/point", i, C) + eqs("projection/parameters", p, ps))
    return v


def post_reproj(t, rig, analytic, depth, ls):
    def p(i, o):
        it = In(i)
        delta = it.s()
        sc = Scene(it, t, [rig])
        P, obs = it.v(3), it.v(2)
        sd, dep, dsd, th = it.v(4)
        st = Stream(o)
        bs = blocks(st)
        del EXTRA[:]
        L = loss(ls, th)
        e = priors(sc) + [dict(label="reprojection", params=[sc.cam, sc.inst[0], sc.rc[rig], P], fixed=[0, 0, int(rig == 0), 0], res=[v / sd for v in reproj_res(t, camera_point(sc, 0, P), sc.cam, obs)], loss=L)]
        if depth:
            C = camera_point(sc, 0, P)
            d = pm.norm(C) if depth == 1 else C[2]
            e.append(dict(label="depth", params=[sc.inst[0], sc.rc[rig], P], fixed=[0, int(rig == 0), 0], res=[(d - dep) / dsd], loss=L))
        r = match(bs, e)
        # after the solver
        cam, inst, rc, Q = moved(sc.cam, delta), moved(sc.inst[0], delta), moved(sc.rc[rig], delta, rig == 0), moved(P, delta)
        r += eqs("result/point", st.v(3), Q)
        r.append(Eq("result/number-of-errors", float(st.n()), 1.0))
        n = st.n()
        r.append(Eq("result/error-size", float(n), 3.0 if t == 6 else 2.0))
        err = st.v(n)
        C = camera_point(sc, 0, Q, inst, rc)
        if sym(i) or t == 6 or C[2] > 0.2:
            r += eqs("result/reprojection-error", err, reproj_res(t, C, cam, obs))
        r += solved(sc, st, delta)
        r += eqs("result/camera", st.v(len(sc.cam)), cam)
        return r + EXTRA + (RMV if sym(i) else [])

    return p


def pre_reproj(t, rig):
    def p(i):
        it = In(i)
        delta = it.s()
        sc = Scene(it, t, [rig])
        P, _, v = it.v(3), it.v(2), it.v(4)
        c = pre_scene(sc)
        if t == 6:
            for C in (camera_point(sc, 0, P), camera_point(sc, 0, moved(P, delta), moved(sc.inst[0], delta), moved(sc.rc[rig], delta, rig == 0))):
                c.append(pm.dot(C, C) > 1e-4)
        if not sym(i):
            C = camera_point(sc, 0, P)
            c += [C[2] > 0.3 if t != 6 else pm.norm(C) > 0.1, C[0] * C[0] + C[1] * C[1] > 1e-4, abs(delta) < 0.03, max(abs(x) for p in sc.inst + list(sc.rc.values()) for x in p[:3]) < 1.0]
        return c + [v[0] > 1e-3, v[2] > 1e-3, v[3] > 1e-3]

    return p


def pre_scene(sc):
    d = dict(zip(STORAGE[sc.t], sc.cam))
    q = dict(zip(STORAGE[sc.t], sc.prior))
    c = [v[k] > 1e-3 for k in ("f", "ar") for v in (d, q) if k in d]
    if sc.t == 7:
        c += [d["transition"] >= 0.0, d["transition"] <= 1.0]
    if not isinstance((sc.inst[0])[0], X.E):
        c += [max(abs(x) for x in p[:3]) < 1.0 for p in sc.inst + list(sc.rc.values())]
    return c


def s_scene(r, t, rigs):
    n = FACTORY[t]
    v = cams.sample_params(r, n) + cams.sample_params(r, n)
    for k in (1, 2):
        if k in rigs:
            v += [r.uniform(-0.5, 0.5) for _ in range(12)]
    for _ in rigs:
        v += [r.uniform(-0.8, 0.8) for _ in range(3)] + [r.uniform(-1, 1) for _ in range(3)]
    return v


# ---- several cameras, shots and points
RIGM, CAMM, INSTM, OBSM = [1, 2, 0], [0, 1, 0], [0, 0, 1], [(0, 0), (1, 0), (1, 1), (2, 1)]


class Mixed:
    def __init__(self, it, types):
        self.delta, self.t = it.s(), types
        self.cam, self.prior = [], []
        for t in types:
            n = FACTORY[t]
            self.cam.append(Scene.store(t, it.v(len(n))))
            self.prior.append(Scene.store(t, it.v(len(n))))
        self.rc, self.rcp = {0: [0.0] * 6}, {}
        for k in (1, 2):
            self.rc[k], self.rcp[k] = it.v(6), it.v(6)
        self.inst = [it.v(6), it.v(6)]
        self.P = [it.v(3), it.v(3)]
        self.th = it.s()
        self.obs = [(it.v(2), it.s(), it.s(), it.s()) for _ in range(4)]

    def point(self, s, P, inst=None, rc=None):
        Q = pose(P, inst or self.inst[INSTM[s]])
        return pose(Q, rc or self.rc[RIGM[s]]) if RIGM[s] else Q


def mixed_names(types):
    r = ["delta"]
    for k, t in enumerate(types):
        r += ["AB"[k] + "." + n for n in FACTORY[t]] + ["AB"[k] + ".p_" + n for n in FACTORY[t]]
    for k in "AB":
        r += pn(k) + pn(k + "p")
    r += pn("i1") + pn("i2") + ["X0", "X1", "X2", "Y0", "Y1", "Y2", "th"]
    for k in range(4):
        r += [n + str(k) for n in ("u", "v", "sd", "depth", "dsd")]
    return r


def s_mixed(r, types):
    v = [r.uniform(-0.02, 0.02)]
    for t in types:
        v += cams.sample_params(r, FACTORY[t]) + cams.sample_params(r, FACTORY[t])
    for _ in range(24 + 12):
        v.append(r.uniform(-0.4, 0.4))
    for _ in range(2):
        v += [r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(4, 7)]
    v.append(r.uniform(0.1, 2))
    for _ in range(4):
        v += [r.uniform(-.5, .5), r.uniform(-.5, .5)] + [r.uniform(0.1, 2) for _ in range(3)]
    return v


def post_mixed(types, depth):
    def p(i, o):
        m = Mixed(In(i), types)
        st = Stream(o)
        bs = blocks(st)
        del EXTRA[:]

        class One:
            pass

        e = []
        for k in range(2):
            sc = One()
            sc.t, sc.cam, sc.prior, sc.rc, sc.rcp = types[k], m.cam[k], m.prior[k], m.rc, m.rcp
            e += [x for x in priors(sc, fixed=k) if k == 0 or not x["label"].startswith("rig")]
        L = loss(2, m.th)
        for k, (s, q) in enumerate(OBSM):
            obs, sd, dep, dsd = m.obs[k]
            c, ins, rc, P = m.cam[CAMM[s]], m.inst[INSTM[s]], m.rc[RIGM[s]], m.P[q]
            C = m.point(s, P)
            fx = [int(INSTM[s] == 0), int(RIGM[s] == 0), int(q == 1)]
            e.append(dict(label="reprojection-%d" % k, params=[c, ins, rc, P], fixed=[CAMM[s]] + fx, res=[v / sd for v in reproj_res(types[CAMM[s]], C, c, obs)], loss=L))
            if depth >> k & 1:
                e.append(dict(label="depth-%d" % k, params=[ins, rc, P], fixed=fx, res=[((pm.norm(C) if k & 1 else C[2]) - dep) / dsd], loss=L))
        r = match(bs, e)
        d = m.delta
        cam = [moved(m.cam[k], d, k == 1) for k in range(2)]
        inst = [moved(m.inst[k], d, k == 0) for k in range(2)]
        rc = [moved(m.rc[k], d, k == 0) for k in range(3)]
        P = [moved(m.P[k], d, k == 1) for k in range(2)]
        r += eqs("result/point-p", st.v(3), P[0]) + eqs("result/point-q", st.v(3), P[1])
        for k, (s, q) in enumerate(OBSM):
            r.append(Eq("result/number-of-errors-%d" % k, float(st.n()), 2.0))
            n = st.n()
            t = types[CAMM[s]]
            r.append(Eq("result/error-size-%d" % k, float(n), 3.0 if t == 6 else 2.0))
            err = st.v(n)
            C = m.point(s, P[q], inst[INSTM[s]], rc[RIGM[s]])
            if n == (3 if t == 6 else 2) and (sym(i) or t == 6 or C[2] > 0.2):
                r += eqs("result/reprojection-error-%d" % k, err, reproj_res(t, C, cam[CAMM[s]], m.obs[k][0]))
        for k in range(2):
            r += eqs("result/instance-%d" % (k + 1), st.v(6), inst[k])
        for k in range(3):
            r += eqs("result/rig-camera-%d" % k, st.v(6), rc[k])
        for k in range(2):
            r += eqs("result/camera-%d" % (k + 1), st.v(len(m.cam[k])), cam[k])
        return r + EXTRA + (RMV if sym(i) else [])

    return p


def pre_mixed(types):
    def p(i):
        m = Mixed(In(i), types)
        c = [m.th > 1e-3]
        for k in range(2):
            d, q = dict(zip(STORAGE[types[k]], m.cam[k])), dict(zip(STORAGE[types[k]], m.prior[k]))
            c += [v[n] > 1e-3 for n in ("f", "ar") for v in (d, q) if n in d]
            if types[k] == 7:
                c += [d["transition"] >= 0.0, d["transition"] <= 1.0]
        c += [x > 1e-3 for ob in m.obs for x in (ob[1], ob[3])]
        for s, q in OBSM:
            if types[CAMM[s]] == 6:
                fx = moved(m.inst[INSTM[s]], m.delta, INSTM[s] == 0), moved(m.rc[RIGM[s]], m.delta, RIGM[s] == 0)
                for C in (m.point(s, m.P[q]), m.point(s, moved(m.P[q], m.delta, q == 1), *fx)):
                    c.append(pm.dot(C, C) > 1e-4)
            elif not sym(i):
                C = m.point(s, m.P[q])
                c += [C[2] > 0.3, C[0] * C[0] + C[1] * C[1] > 1e-4]
        if not sym(i):
            c += [abs(m.delta) < 0.03, max(abs(x) for p in m.inst + list(m.rc.values()) for x in p[:3]) < 1.0]
        return c

    return p


# ---- other terms: kind, input names after the scene, expected terms
def scales(it, opt, n):
    """(scale block, fixed) of each instance: shared in a reconstruction unless told otherwise"""
    v = it.v(n)
    mode = opt & 3
    own = [0, 0, 0] if mode in (0, 3) else [0, 1, 0] if mode == 1 else [0, 1, 2]
    return [(own[k], v[own[k]], int(mode == 3)) for k in range(n)]


def c_relative_motion(sc, it, opt):
    r, t = it.v(3), it.v(3)
    s, rob = it.s(), it.s()
    S = [it.v(7) for _ in range(7)]
    if not sc.again:
        sc.th = it.s()
    (ki, si, fi), (kj, sj, fj) = sc.scales[:2]
    a, b = sc.inst[:2]
    w = rmul(r, [-e for e in a[:3]], b[:3])
    v = w + [u - sj * e for u, e in zip(t, pm.mv(rot([-e for e in b[:3]]), pm.vsub(a[3:6], b[3:6])))] + [(s - sj / si) if opt & 4 else 0.0]
    two = ki != kj
    return [dict(label="relative-motion", params=[a, b, [si]] + ([[sj]] if two else []), fixed=[0, 0, fi] + [fj] * two, lower=[None, None] + [None if f else 0.0 for f in [fi] + [fj] * two],
                 res=[pm.dot(row, v) for row in S], loss=loss(2, sc.th * rob))], None


def c_relative_rotation(sc, it, opt):
    r = it.v(3)
    S = [it.v(3) for _ in range(3)]
    if not sc.again:
        sc.th = it.s()
    w = rmul(r, [-e for e in sc.rotation(0)], sc.rotation(1))
    return [dict(label="relative-rotation", params=pair_params(sc), fixed=pair_fixed(sc), res=[pm.dot(row, w) for row in S], loss=loss(3, sc.th))], None


def pair_params(sc):
    """instances of the shots, then their distinct optimised rig cameras"""
    n = sc.n
    p, seen = list(sc.inst[:n]), []
    for k, g in enumerate(sc.rigs[:n]):
        if g and g not in seen:
            seen.append(g)
            p.append(sc.rc[g])
    return p


def pair_fixed(sc, f=0):
    return [f] + [0] * (len(pair_params(sc)) - 1)


def absv(x):
    if isinstance(x, X.E):
        return X.fn("abs", x)
    return abs(x)


def c_common_position(sc, it, opt):
    m, sd = it.s(), it.s()
    d = pm.vsub(sc.position(0), sc.position(1))
    # opt: sign pattern of the first two differences, and whether they are inside of the margin
    v = []
    for k in range(2):
        o = (opt >> (2 * k)) & 3
        v.append([d[k] - m, -d[k] - m, 0.0][o])
    return [dict(label="common-position", params=pair_params(sc), fixed=pair_fixed(sc), res=[e / sd for e in v + [d[2]]], loss=loss(6))], None


def g_common_position(sc, it, opt):
    m, sd = it.s(), it.s()
    d = pm.vsub(sc.position(0), sc.position(1))
    c = [sd > 1e-3, m >= 0]
    for k in range(2):
        o = (opt >> (2 * k)) & 3
        c += [d[k] > m, d[k] >= 0] if o == 0 else [-d[k] > m, d[k] < 0] if o == 1 else [d[k] <= m, -d[k] <= m]
    return c


def shot_params(sc):
    return [sc.inst[0], sc.rig(0)]


def shot_fixed(sc):
    return [0, int(sc.rigs[0] == 0)]


def c_up(sc, it, opt):
    a, sd = it.v(3), it.s()
    n = pm.norm(a)
    z = pm.mv(rot(sc.rotation(0)), [e / n for e in a])
    return [dict(label="up-vector", params=shot_params(sc), fixed=shot_fixed(sc), res=[e / sd for e in pm.vsub(z, [0.0, 0.0, 1.0])], loss=loss(4))], None


def angle(sc, opt):
    R = rot(sc.rotation(0))
    z = [R[k][2] for k in range(3)]
    if opt == 0:
        return pm.atan2(z[0], z[1])
    l = pm.sqrt(z[0] * z[0] + z[1] * z[1])
    if opt == 1:
        return -pm.atan2(z[2], l)
    a = [z[1] / l, -z[0] / l, 0.0]
    b = pm.cross([R[k][0] for k in range(3)], a)
    s = pm.dot(z, b)
    return pm.asin(s)


def c_angle(sc, it, opt):
    a, sd = it.s(), it.s()
    d = angle(sc, opt % 4) - a
    wrap = opt // 4
    p2 = 2 * pm.PI if isinstance(d, X.E) else 6.283185307179586
    d = d - p2 if wrap == 1 else d + p2 if wrap == 2 else d
    return [dict(label=["pan", "tilt", "roll"][opt % 4], params=shot_params(sc), fixed=shot_fixed(sc), res=[d / sd], loss=loss(4))], None


def g_angle(sc, it, opt):
    a, sd = it.s(), it.s()
    R = rot(sc.rotation(0))
    z = [R[k][2] for k in range(3)]
    c = [sd > 1e-3]
    k = opt % 4
    if k == 0:
        c.append(z[0] * z[0] > 1e-10 if not isinstance(z[0], X.E) else X.or_(z[0] > 1e-5, z[0] < -1e-5))
    if k >= 1:
        c.append(z[0] * z[0] + z[1] * z[1] > 1e-8)
    if k == 2:
        l = pm.sqrt(z[0] * z[0] + z[1] * z[1])
        b = pm.cross([R[j][0] for j in range(3)], [z[1] / l, -z[0] / l, 0.0])
        c += [pm.dot(z, b) > -0.99998, pm.dot(z, b) < 1.0]
    d = angle(sc, k) - a
    p1 = pm.PI if isinstance(d, X.E) else 3.141592653589793
    w = opt // 4
    return c + ([d > p1 + 1e-9] if w == 1 else [d < -p1 - 1e-9] if w == 2 else [d < p1 - 1e-9, d > -p1 + 1e-9])


def cubic(p, x):
    a, b, c, d = 0.5 * (-p[0] + 3 * p[1] - 3 * p[2] + p[3]), 0.5 * (2 * p[0] - 5 * p[1] + 4 * p[2] - p[3]), 0.5 * (-p[0] + p[2]), p[1]
    return d + x * (c + x * (b + x * a))


def c_heatmap(sc, it, opt):
    h = it.v(12)
    x0, y0, res, sd = it.v(4)
    P = sc.position(0)
    w = 3 if sc.again else 4  # columns
    row, col = 12 // w / 2.0 - (P[1] - y0) / res, w / 2.0 + (P[0] - x0) / res
    if isinstance(row, X.E):
        v = nearest("heatmap", [row, col], [X.lift(e) for e in [0, 12 // w, 0, w] + h])[0]
    else:
        f = lambda r, c: h[w * max(0, min(12 // w - 1, r)) + max(0, min(w - 1, c))]
        r0, c0 = int(row // 1), int(col // 1)
        v = cubic([cubic([f(r0 + a, c0 + b) for b in range(-1, 3)], col - c0) for a in range(-1, 3)], row - r0)
    return [dict(label="heatmap", params=shot_params(sc), fixed=shot_fixed(sc), res=[v / sd])], None


def c_linear(sc, it, opt):
    al, ps, os_ = it.v(3)
    t = [sc.position(k) for k in range(3)]
    R = [sc.rotation(k) for k in range(3)]
    n = lambda a, b: pm.norm(pm.vsub(a, b))
    q = (al - n(t[1], t[0]) / n(t[2], t[0])) / ps
    u = [al * e for e in rmul(R[2], [-e for e in R[0]])]
    w = rmul(u, rmul(R[0], [-e for e in R[1]]))
    return [dict(label="linear-motion", params=pair_params(sc), fixed=pair_fixed(sc), res=[q] * 3 + [e / os_ for e in w], loss=loss(4))], None


def g_linear(sc, it, opt):
    t = [sc.position(k) for k in range(3)]
    d = pm.vsub(t[2], t[0])
    v = it.v(3)
    return [pm.dot(d, d) > 1e-6, v[1] > 1e-3, v[2] > 1e-3]


def c_gauge(sc, it, opt):
    n = lambda k, l: pm.vsub(sc.inst[k][3:6], sc.inst[l][3:6])
    d = n(0, 1)
    return [dict(label="gauge", params=list(sc.inst), fixed=[1, 0], res=[pm.log(pm.sqrt(pm.dot(d, d) + 1e-20) / pm.norm(d))])], None


def c_position_prior(sc, it, opt):
    bias = it.v(7) if opt & 2 else [0.0] * 6 + [1.0]
    p1, d1, p2, d2 = it.v(3), it.v(3), it.v(3), it.v(3)
    adj = opt & 4
    e = []
    for k, (p, d) in enumerate(((p1, d1), (p2, d2))):
        tp = pm.vadd([bias[6] * v for v in pm.mv(rot(bias[:3]), p)], bias[3:6])
        e.append(dict(label="position-prior-%d" % (k + 1), params=[sc.inst[k], bias, [1.0]], fixed=[0, 0 if opt & 2 else 1, 0 if adj else 1], unordered=True,
                      res=[(a - b) / s for a, b, s in zip(sc.inst[k][3:6], tp, d)]))
    if adj:
        tau = 2 * pm.PI if isinstance(p1[0], X.E) else 6.283185307179586
        for _ in range(1 if opt & 1 else 2):
            e.append(dict(label="position-deviation", params=[[1.0]], fixed=[0], lower=[1e-10], res=[pm.log(1.0 / pm.sqrt(tau * ((X.lift(1) if isinstance(p1[0], X.E) else 1.0) + 1e-20)))]))
    return e, bias


def c_point_prior(sc, it, opt):
    x, q, s = it.v(3), it.v(3), it.v(3)
    n = 3 if opt & 1 else 2
    return [dict(label="point-prior", params=[x], fixed=[1 if opt & 2 else 0], unordered=True, res=[(a - b) / c for a, b, c in zip(x, q, s)][:n])], x


XYZ = ["x", "y", "z"]
KINDS = {
    0: ("relative-motion", c_relative_motion, ["si", "sj"] + ["r" + k for k in XYZ] + ["t" + k for k in XYZ] + ["s", "rob"] + ["S%d%d" % (a, b) for a in range(7) for b in range(7)] + ["th"], 2),
    1: ("relative-rotation", c_relative_rotation, ["r" + k for k in XYZ] + ["S%d%d" % (a, b) for a in range(3) for b in range(3)] + ["th"], 2),
    2: ("common-position", c_common_position, ["margin", "sd"], 2),
    3: ("up-vector", c_up, ["ax", "ay", "az", "sd"], 1),
    4: ("angle", c_angle, ["angle", "sd"], 1),
    5: ("heatmap", c_heatmap, ["h%d" % k for k in range(12)] + ["x0", "y0", "res", "sd"], 1),
    6: ("linear-motion", c_linear, ["alpha", "psd", "osd"], 3),
    7: ("gauge", c_gauge, [], 2),
    8: ("position-prior", c_position_prior, None, 2),
    9: ("point-prior", c_point_prior, ["x", "y", "z", "qx", "qy", "qz", "sx", "sy", "sz"], 1),
}
N8 = ["p1x", "p1y", "p1z", "d1x", "d1y", "d1z", "p2x", "p2y", "p2z", "d2x", "d2y", "d2z"]
NB = ["brx", "bry", "brz", "btx", "bty", "btz", "bs"]
POS = {"si", "sj", "sk", "s", "rob", "th", "sd", "psd", "osd", "res", "bs", "d1x", "d1y", "d1z", "d2x", "d2y", "d2z", "sx", "sy", "sz"}


def c_names(kind, opt, twice=0):
    if kind == 8:
        return (NB if opt & 2 else []) + N8
    n = KINDS[kind][2]
    if kind == 0:
        pre, n = n[:2] + ["sk"] * twice, n[2:]
        return pre + n + ["b_" + k for k in n if k != "th"] * twice
    return n + ["b_" + k for k in n if k != "th"] * twice


def setup(kind, sc, it, opt, twice):
    sc.n = KINDS[kind][3]
    if kind == 0:
        sc.scales = scales(it, opt, 3 if twice else 2)


def post_c(kind, rigs, opt, twice=0):
    def p(i, o):
        it = In(i)
        delta = it.s()
        sc = Scene(it, 0, rigs)
        st = Stream(o)
        bs = blocks(st)
        del EXTRA[:]
        setup(kind, sc, it, opt, twice)
        e, extra = KINDS[kind][1](sc, it, opt)
        extras = [extra]
        if twice:
            e2, x2 = KINDS[kind][1](View(sc, SECOND), it, opt)
            for x in e2:
                x["label"] += "-2"
            e, extras = e + e2, [extra, x2]
        r = match(bs, priors(sc) + e)
        r += solved(sc, st, delta, [int(kind == 7 and k == 0) for k in range(3)])
        if kind == 0:
            for k, (_, v, f) in enumerate(sc.scales):
                r.append(Eq("result/scale-%d" % (k + 1), st.s(), v if f else v + delta))
        if kind == 8:
            r += eqs("result/bias", st.v(7), moved(extra, delta, not opt & 2))
        if kind == 9:
            for k, x in enumerate(extras):
                r += eqs("result/point-%d" % (k + 1), st.v(3), moved(x, delta, opt & 2))
        return r + EXTRA + (RMV if sym(i) else [])

    return p


def pre_c(kind, rigs, opt, twice=0):
    def p(i):
        it = In(i)
        delta = it.s()
        sc = Scene(it, 0, rigs)
        k0 = it.k
        n = c_names(kind, opt, twice)
        d = dict(zip(n, i[k0:]))
        c = pre_scene(sc) + [d[k] > 1e-3 for k in n if k.replace("b_", "") in POS]
        setup(kind, sc, it, opt, twice)
        g = {2: g_common_position, 4: g_angle, 6: g_linear}.get(kind)
        if g:
            c += g(sc, it, opt)
            if twice:
                c += g(View(sc, SECOND), it, opt)
        if kind == 0:
            c += [v + delta > 1e-3 for _, v, _ in sc.scales]
        if kind == 3:
            c += [d[x + "ax"] * d[x + "ax"] + d[x + "ay"] * d[x + "ay"] + d[x + "az"] * d[x + "az"] > 1e-6 for x in ["", "b_"][:1 + twice]]
        if kind == 7:
            t = pm.vsub(sc.inst[0][3:6], sc.inst[1][3:6])
            c.append(pm.dot(t, t) > 1e-6)
        return c

    return p


def s_c(kind, rigs, opt, twice=0):
    def s(r):
        v = [r.uniform(-0.02, 0.02)] + s_scene(r, 0, rigs)
        for n in c_names(kind, opt, twice):
            n = n.replace("b_", "")
            v.append(r.uniform(0.2, 2) if n in POS else r.uniform(-6, 6) if n == "angle" and opt > 3 else r.uniform(-0.6, 0.6) if n[0] == "r" or n[:2] == "br" else r.uniform(0, 0.3) if n == "margin" else r.uniform(-1, 1))
        if kind == 2 and not twice:
            # the two shots near to each other in the ways the case asks for
            sc = Scene(In(v[1:]), 0, rigs)
            d = pm.vsub(sc.position(0), sc.position(1))
            off = 1 + len(scene_names(0, rigs)) - 12
            for k in range(2):
                o = (opt >> (2 * k)) & 3
                want = [r.uniform(0.31, 1), -r.uniform(0.31, 1), r.uniform(-1, 1) * v[-2]][o]
                v[off + 3 + k] += want - d[k]
        return v

    return s


# ---- prior deviations and solver settings
SDN = ["f_sd", "ar_sd", "c_sd", "k1_sd", "k2_sd", "p1_sd", "p2_sd", "k3_sd", "k4_sd", "rt_sd", "rr_sd"]


def post_priors(t, fixed):
    def p(i, o):
        it = In(i)
        delta = it.s()
        v = it.v(9)
        rt, rr = it.v(2)
        sc = Scene(it, t, [1])
        st = Stream(o)
        bs = blocks(st)
        sds = dict(zip(["f", "ar", "cx", "k1", "k2", "p1", "p2", "k3", "k4"], v), cy=v[2], transition=1.0)
        r = match(bs, priors(sc, sds, fixed, (rr, rt)))
        r += solved(sc, st, delta, [fixed])
        r += eqs("result/camera", st.v(len(sc.cam)), moved(sc.cam, delta, fixed))
        return r + eqs("solver-settings", st.v(4), [37.0, 3.0, 1.0, 1.0]) + (RMV if sym(i) else [])

    return p


def pre_priors(t):
    def p(i):
        sc = Scene(In(i[12:]), t, [1])
        c = pre_scene(sc) + [v > 1e-3 for v in i[1:12]]
        if not sym(i):
            c.append(i[11] < 1.8)  # the deviation of the rotation is kept as a rotation vector: below pi
        return c

    return p


# ---- building blocks
def in2(v):
    return 1 + pm.dot(v, v)


def axis_angle(q):
    """rotation vector of a unit quaternion (w, v) with the angle in [-pi, pi]"""
    s = pm.norm(q[1:])
    return s


def half_quat(v):
    n = pm.norm(v)
    return [pm.cos(n / 2)] + [pm.sin(n / 2) / n * e for e in v]


def qmul(a, b):
    w = a[0] * b[0] - pm.dot(a[1:], b[1:])
    return [w] + pm.vadd(pm.vadd([a[0] * e for e in b[1:]], [b[0] * e for e in a[1:]]), pm.cross(a[1:], b[1:]))


QAA = []  # quaternion of each call, and the symbols that stand for its rotation vector


def qaa(m, a, name):
    q = [m.load(ir.P(a[0].o, a[0].off + 8 * k), ir.DBL) for k in range(4)]
    r = [X.var("qaa%d_%d" % (len(QAA), k)) for k in range(3)]
    for k in range(3):
        m.store(ir.P(a[1].o, a[1].off + 8 * k), 8, r[k])
    QAA.append((q, r))
    return None


class Q(core.CxxKernel):
    def symbolic(self, ins):
        del QAA[:]
        return super().symbolic(ins)


def quat_aa(q):
    """2 atan2(|v|, w) v / |v|, of the opposite quaternion when w < 0"""
    from vf import paths

    s = X.sqrt(pm.dot(q[1:], q[1:]))
    th = 2 * (X.atan2(-s, -q[0]) if paths.decide(X.lt(q[0], X.ZERO)) else X.atan2(s, q[0]))
    return [th / s * e for e in q[1:]]


def post_mult(n):
    def p(i, o):
        q = half_quat(i[:3])
        for k in range(1, n):
            q = qmul(q, half_quat(i[3 * k:3 * k + 3]))
        w = o[:3]
        if not sym(i):
            M = pm.eye(3)
            for k in range(n):
                M = pm.mm(M, pm.rot_aa(i[3 * k:3 * k + 3]))
            return eqs("rotation", pm.rot_aa(w), M, 1e-7)
        if n == 2:
            return eqs("rotation", w, quat_aa(q))
        if len(QAA) != 1:
            return [Cond("one-conversion", X.FALSE)]
        return eqs("product", QAA[0][0], q) + eqs("rotation", w, QAA[0][1])

    return p


def post_qaa(i, o):
    if sym(i):
        return eqs("rotation", o[:3], quat_aa(i))
    w, v = i[0], i[1:]
    R = [[w * w - pm.dot(v, v) if a == b else 0.0 for b in range(3)] for a in range(3)]
    S = [[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]]
    R = [[(R[a][b] + 2 * v[a] * v[b] + 2 * w * S[a][b]) / (w * w + pm.dot(v, v)) for b in range(3)] for a in range(3)]
    return eqs("rotation", pm.rot_aa(o[:3]), R, 1e-7)


def pre_mult(n):
    def p(i):
        c = [pm.dot(i[3 * k:3 * k + 3], i[3 * k:3 * k + 3]) > 1e-6 for k in range(n)]
        q = half_quat(i[:3])
        for k in range(1, n):
            q = qmul(q, half_quat(i[3 * k:3 * k + 3]))
        return c + [pm.dot(q[1:], q[1:]) > 0]

    return p


def post_diff(i, o):
    d = i[0] - i[1]
    r = o[0]
    if not sym(i):
        return [Cond("range", abs(r) <= 3.1415926535897936), Cond("same-angle", min(abs(r - d), abs(r - d - 2 * 3.141592653589793), abs(r - d + 2 * 3.141592653589793)) < 1e-9)]
    k = r - d
    return [Cond("range", X.le(r, X.PI)), Cond("range", X.ge(r, -X.PI)), Eq("same-angle", k * (k * k - 4 * X.PI * X.PI), 0)]


def post_local(i, o):
    return eqs("local", o[:3], pm.mv(pm.rot_aa([-e for e in i[1:4]]), [i[0] * a - b for a, b in zip(i[7:10], i[4:7])]))


def post_depth(rig, radial):
    def p(i, o):
        Q = P03.pose(i[12:15], i[:6])
        Q = P03.pose(Q, i[6:12]) if rig else Q
        return [Eq("depth", o[0], ((pm.norm(Q) if radial else Q[2]) - i[15]) / i[16])]

    return p


FUN = ["DiffBetweenAngles", "StdDeviationConstraint", "ParameterBarrier", "MultRotations/2", "MultRotations/3", "WorldToLocal", "RelativeDepthError", "TranslationPriorError", "Similarity-data", "Pose-data", "AngleAxisRotatePoint", "PoseFunctor::Forward", "QuaternionToAngleAxis"]


def functors(ctx, u):
    V = lambda n, k: [n + "%d" % j for j in range(k)]
    N = lambda n, cfg, c=(): core.CxxKernel(u, "functors", n, list(cfg), list(c))
    hc = [(r"^@_ZSt5hypotddd$", hyp)]
    big = lambda *offs: (lambda i: [pm.dot(i[o:o + 3], i[o:o + 3]) > 1e-10 for o in offs])
    tau = lambda i: 2 * pm.PI if sym(i) else 6.283185307179586
    one = lambda i: X.lift(1) if sym(i) else 1.0
    ctx.prove(FUN[0], N(1, [0]), ["a", "b"], post_diff, pre=lambda i: [i[0] - i[1] <= 3 * (pm.PI if sym(i) else 3.14159), i[1] - i[0] <= 3 * (pm.PI if sym(i) else 3.14159)], sampler=lambda r: [r.uniform(-4, 4), r.uniform(-4, 4)])
    ctx.prove(FUN[1], N(1, [1]), ["s"], lambda i, o: [Eq("log-density", o[0], pm.log(1.0 / pm.sqrt(tau(i) * (i[0] * i[0] + 1e-20))))], sampler=lambda r: [r.uniform(0.01, 3)])
    ctx.prove(FUN[2], N(1, [2]), ["lo", "up", "v"], lambda i, o: [Eq("barrier", o[0], pm.log(i[2] - i[0] + 1e-10) + pm.log(i[1] - i[2] + 1e-10) + 2 * pm.log((i[1] - i[0]) * 0.5))], pre=lambda i: [i[2] > i[0], i[1] > i[2]], sampler=lambda r: sorted_(r))
    s9 = lambda n: (lambda r: [r.uniform(-1.5, 1.5) for _ in range(n)])
    ctx.prove(FUN[3], N(3, [3], hc), V("a", 3) + V("b", 3), post_mult(2), pre=pre_mult(2), sampler=s9(6))
    ctx.prove(FUN[12], N(3, [12], hc), V("q", 4), post_qaa, pre=lambda i: [pm.dot(i[1:], i[1:]) > 1e-12], sampler=s9(4))
    ctx.prove(FUN[4], Q(u, "functors", 3, [4], hc + [(r"21QuaternionToAngleAxisIdEE", qaa)]), V("a", 3) + V("b", 3) + V("c", 3), post_mult(3), pre=pre_mult(3), sampler=s9(9))
    ctx.prove(FUN[5], N(3, [5], hc), ["s"] + POSE + XYZ, post_local, pre=big(1), sampler=s9(10))
    for rig in (0, 1):
        for rad in (0, 1):
            ctx.prove(FUN[6] + "/%s-%s" % (["instance", "rig"][rig], ["axis", "radial"][rad]), N(1, [6, rig, rad], hc), POSE + pn("c") + XYZ + ["depth", "sd"], post_depth(rig, rad), pre=lambda i: big(0, 6)(i) + [i[16] > 1e-3], sampler=lambda r: [r.uniform(-1, 1) for _ in range(16)] + [r.uniform(0.1, 2)])

    def post_tp(i, o):
        d = pm.vsub(i[3:6], i[9:12])
        return [Eq("log-ratio", o[0], pm.log(pm.sqrt(pm.dot(d, d) + 1e-20) / i[12]))]

    ctx.prove(FUN[7], N(1, [7], hc), POSE + pn("c") + ["norm"], post_tp, pre=lambda i: [i[12] > 1e-6], sampler=lambda r: [r.uniform(-1, 1) for _ in range(12)] + [r.uniform(0.1, 2)])
    ctx.prove(FUN[8], K(u, "functors", 14, [8], quat=True), POSE + ["s"], lambda i, o: eqs("parameters", o[:7], i) + eqs("value", o[7:14], i) + (RMV if sym(i) else []), pre=lambda i: [i[6] > 1e-3], sampler=lambda r: [r.uniform(-1, 1) for _ in range(6)] + [r.uniform(0.1, 2)])

    def post_pd(w):
        def p(i, o):
            e = i[3:6] if not w else [-v for v in pm.mv(pm.tr(rot(i[:3])), i[3:6])]
            return eqs("parameters", o[:6], [-v if w else v for v in i[:3]] + e) + (RMV if sym(i) else [])

        return p

    for w in (0, 1):
        ctx.prove(FUN[9] + "/%s" % ["camera-to-world", "world-to-camera"][w], K(u, "functors", 6, [9, w], quat=True), POSE, post_pd(w), sampler=s9(6))
    ctx.prove(FUN[10], N(3, [10], hc), V("v", 3) + XYZ, lambda i, o: eqs("rotation", o[:3], pm.mv(pm.rot_aa(i[:3]), i[3:6])), pre=big(0), sampler=s9(6))
    ctx.prove(FUN[11], N(3, [11], hc), XYZ + POSE, lambda i, o: eqs("in-place", o[:3], P03.pose(i[:3], i[3:9])), pre=big(3), sampler=s9(9))


def sorted_(r):
    a = sorted(r.uniform(-2, 2) for _ in range(3))
    return [a[0], a[2] + 1e-3, (a[0] + a[2]) / 2 + 5e-4]


# ---- analytic Jacobians of the reprojection error
def jac_names(t):
    return (STORAGE[t] if t != 6 else ["none"]) + POSE + pn("c") + XYZ + ["u", "v", "sd"]


def split(t, i):
    n = len(STORAGE[t]) if t != 6 else 1
    return i[:n], i[n:n + 6], i[n + 6:n + 12], i[n + 12:n + 15], i[n + 15:n + 17], i[n + 17]


def post_jac(t, rig, mask):
    np_ = len(STORAGE[t])
    R = 3 if t == 6 else 2

    def p(i, o):
        cam, inst, rc, P, obs, sd = split(t, i)
        stages = [("pose", inst)] + ([("pose", rc)] if rig else []) + [("normalize", []) if t == 6 else ("camera", cam)]
        out = []
        if sym(i):
            CALLS = P03.CALLS
            if len(CALLS) != len(stages) or any(a[0] != b[0] for a, b in zip(CALLS, stages)):
                return [Cond("calls-in-order", X.FALSE)]
            at, J, blocks = list(P), None, []
            for (kind, par), (_, ins, ps, ov, Jc) in zip(stages, CALLS):
                out += eqs(kind + "-input", ins, at) + eqs(kind + "-parameters", ps, par)
                d = len(ins)
                D, Q = [r[:d] for r in Jc], [r[d:] for r in Jc]
                blocks = [pm.mm(D, b) for b in blocks] + [Q]
                J = D if J is None else pm.mm(D, J)
                at = ov
            val = at
        else:
            kind = (4 if rig else 3) if t == 6 else (2 if rig else 0)
            f, names, _, nout = P03.comp(t, kind)
            a = list(P) + list(inst) + (list(rc) if rig else []) + (list(cam) if t != 6 else [])
            val, JJ = P03.jac(("ba", t, kind), f, names, a)
            J = [r[:3] for r in JJ]
            blocks = [[r[3:9] for r in JJ]] + ([[r[9:15] for r in JJ]] if rig else []) + [[r[(15 if rig else 9):] for r in JJ]]
        exp = bearing(obs) if t == 6 else obs
        out += eqs("residual", o[:R], [(a - b) / sd for a, b in zip(val, exp)])
        nc = max(np_, 1)
        zero = lambda n: [[0.0] * n for _ in range(R)]
        want = [zero(1) if t == 6 else blocks[-1], blocks[0], blocks[1] if rig else zero(6), J]
        off = R
        for k, (nm, n) in enumerate((("camera", nc), ("instance", 6), ("rig-camera", 6), ("point", 3))):
            got = o[off:off + R * n]
            off += R * n
            if mask >> k & 1:
                out += eqs("d/d(%s)" % nm, got, [e / sd for row in want[k] for e in row], 1e-5)
            else:
                out += eqs("untouched/%s" % nm, got, [7.0] * (R * n))
        return out

    return p


def pre_jac(t, rig):
    def p(i):
        cam, inst, rc, P, obs, sd = split(t, i)
        c = [sd > 1e-3]
        if not sym(i):
            Q = P03.pose(P, inst)
            Q = P03.pose(Q, rc) if rig else Q
            c += [Q[2] > 0.2 if t != 6 else pm.norm(Q) > 0.1, Q[0] * Q[0] + Q[1] * Q[1] > 1e-4]
        return c

    return p


def s_jac(t):
    def s(r):
        v = cams.sample_params(r, STORAGE[t], 0.1) if t != 6 else [r.uniform(-1, 1)]
        for _ in range(2):
            v += [r.uniform(-0.5, 0.5) for _ in range(3)] + [r.uniform(-0.5, 0.5) for _ in range(3)]
        return v + [r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(2, 6), r.uniform(-.3, .3), r.uniform(-.3, .3), r.uniform(0.1, 2)]

    return s


def jacobians(ctx, u):
    for t in range(10):
        np_, R = max(len(STORAGE[t]), 1), 3 if t == 6 else 2
        cs = [(r"11PoseFunctor18ForwardDerivativesIdLb1", P03.callee("pose", 3, 6, 3, 1)), (r"14ProjectGeneric.*18ForwardDerivativesIdLb1", P03.callee("camera", 3, len(STORAGE[t]), 2, 1)), (r"9Normalize18ForwardDerivativesIdLb1", P03.callee("normalize", 3, 0, 3, 1))]
        for rig in (0, 1):
            for mask in ((15, 0, 1, 2, 4, 8) if t in (0, 6) else (15, 5)):
                ctx.prove("jacobian/%s/%s/%d" % (cams.TYPES[t], ["instance", "rig"][rig], mask), P03.Comp(u, "jacobians", R * (1 + np_ + 15), [t, rig, mask, t], cs), jac_names(t), post_jac(t, rig, mask), pre=pre_jac(t, rig), sampler=s_jac(t))


def build(ctx):
    ctx.assume("A-REAL: floating point numbers are read as exact reals", "A-LIBM: sqrt, sin, cos, atan2, log satisfy their real definitions")
    V = "_ZN8geometry22VectorToRotationMatrixERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEE"
    M = "_ZN8geometry22RotationMatrixToVectorERKN5Eigen6MatrixIdLi3ELi3ELi0ELi3ELi3EEE"
    M2 = "_ZN6bundle13MultRotationsIdEEN5Eigen6MatrixIT_Li3ELi1ELi0ELi3ELi1EEERKS4_S6_"
    A = "_ZN5ceres20AngleAxisRotatePointIdEEvPKT_S3_PS1_"
    F = "_ZN8geometry11PoseFunctor7ForwardIdEEvPKT_S4_PS2_"
    QA = "_ZN5ceres21QuaternionToAngleAxisIdEEvPKT_PS1_"
    H = "_ZNK5ceres19BiCubicInterpolatorINS_6Grid2DIdLi1ELb1ELb1EEEE8EvaluateEddPdS4_S4_"
    keep = [V, M, "_ZSt5hypotddd", M2, M2 + "S6_", A, F, H, QA] + [cls(t, "Forward") for t in range(10)] + [cls(t, "D") for t in range(10) if t != 6]
    keep += ["_ZN8geometry11PoseFunctor18ForwardDerivativesIdLb1EEEvPKT_S4_PS2_S5_", "_ZN8geometry9Normalize18ForwardDerivativesIdLb1EEEvPKT_S4_PS2_S5_"]
    cs = [(r"^@_ZSt5hypotddd$", hyp), (r"22VectorToRotationMatrix", vrm), (r"22RotationMatrixToVector", rmv), (r"MultRotationsIdEE", mult), (r"AngleAxisRotatePointIdEE", rotate), (r"11PoseFunctor7ForwardIdEE", fwd), (r"19BiCubicInterpolator.*8Evaluate", bicubic)]
    cs += [("^@" + cls(t, "Forward") + "$", project(t)) for t in range(10)]
    u = core.CxxUnit(ctx, "bundle.cc", keep=keep, extra_native=["-lglog"], contracts=cs)
    tail = ["X", "Y", "Z", "u", "v", "sd", "depth", "dsd", "th"]
    for t in range(10):
        for rig, an, depth, ls in ((0, 0, 1, 4), (1, 0, 2, 2), (0, 1, 0, 3), (1, 1, 0, 5)) + (((1, 0, 0, 1),) if t == 0 else ()):
            names = ["delta"] + scene_names(t, [rig]) + tail
            s = lambda r, t=t, rig=rig: [r.uniform(-0.02, 0.02)] + s_scene(r, t, [rig]) + [r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(3, 6), r.uniform(-.5, .5), r.uniform(-.5, .5)] + [r.uniform(0.1, 2) for _ in range(4)]
            ctx.prove("reprojection/%s/rig%d%s" % (cams.TYPES[t], rig, "/analytic" if an else ""), K(u, "reprojection", 300, [t, rig, an, depth, ls]), names, post_reproj(t, rig, an, depth, ls), pre=pre_reproj(t, rig), sampler=s)
    for ta, tb, an, depth in ((0, 1, 0, 6), (2, 0, 1, 9), (0, 6, 0, 15), (1, 1, 1, 0), (7, 3, 0, 0)):
        types = [ta, tb]
        ctx.prove("mixed/%s+%s%s" % (cams.TYPES[ta], cams.TYPES[tb], "/analytic" if an else ""), K(u, "mixed", 700, [ta, tb, an, depth]), mixed_names(types), post_mixed(types, depth), pre=pre_mixed(types), sampler=lambda r, types=types: s_mixed(r, types))
    cases = [(0, [0, 0], o) for o in (0, 4, 1, 5, 2, 6, 3, 7)]
    cases += [(1, g, 0) for g in ([0, 0], [1, 0], [0, 1], [1, 1], [1, 2])]
    cases += [(2, [0, 0], o) for o in (0, 1, 2, 4, 5, 6, 8, 9, 10)] + [(2, g, 0) for g in ([1, 0], [0, 1], [1, 1], [1, 2])]
    cases += [(3, [g], 0) for g in (0, 1)]
    cases += [(4, [g], o) for g in (0, 1) for o in (0, 1, 2)] + [(4, [0], o) for o in (4, 8)]
    cases += [(5, [g], 0) for g in (0, 1)]
    cases += [(6, g, 0) for g in ([0, 0, 0], [1, 1, 1], [1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 1, 1], [1, 0, 1], [1, 1, 0], [1, 2, 1], [1, 1, 2], [1, 2, 2], [0, 1, 2])]
    cases += [(7, [0, 0], 0), (7, [1, 2], 0)]
    cases += [(8, [0, 0], o) for o in range(8)]
    cases += [(9, [0], o) for o in range(4)]
    cases = [c + (0,) for c in cases] + [(0, [0, 1, 2], o, 1) for o in (4, 5, 6)] + [(1, [0, 1, 2], 0, 1), (2, [1, 0, 2], 5, 1), (3, [1, 0, 2], 0, 1), (4, [1, 0, 2], 1, 1), (5, [1, 0, 2], 0, 1), (6, [1, 0, 2], 0, 1), (9, [0, 0, 0], 0, 1)]
    for kind, rigs, opt, twice in cases:
        names = ["delta"] + scene_names(0, rigs) + c_names(kind, opt, twice)
        cfg = [kind] + (rigs + [0, 0, 0])[:3] + [opt % 4 if kind == 4 else opt, twice]
        ctx.prove("%s/rigs%s/%d%s" % (KINDS[kind][0], "".join(map(str, rigs)), opt, "/two" if twice else ""), K(u, "constraint", 700, cfg, quat=kind == 8 and opt & 2), names, post_c(kind, rigs, opt, twice), pre=pre_c(kind, rigs, opt, twice), sampler=s_c(kind, rigs, opt, twice))
    for t in range(10):
        for order in (0, 1):
            for fixed in ((0, 1) if t == 0 else (0,)):
                names = ["delta"] + SDN + scene_names(t, [1])
                s = lambda r, t=t: [r.uniform(-0.02, 0.02)] + [r.uniform(0.1, 1.5) for _ in SDN] + s_scene(r, t, [1])
                ctx.prove("prior-deviations/%s/%s%s" % (cams.TYPES[t], ["before", "after"][order], "/fixed" if fixed else ""), K(u, "priors", 200, [t, order, fixed], quat=False), names, post_priors(t, fixed), pre=pre_priors(t), sampler=s)
    functors(ctx, u)
    jacobians(ctx, u)

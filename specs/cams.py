"""Camera models: specification formulae shared by several properties"""
from vf import pm

# projection type -> (factory parameters, projection, distortion, affine)
TYPES = ["perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "spherical", "dual", "radial", "simple_radial"]
AFF = ["f", "ar", "cx", "cy"]
K = lambda n: ["k%d" % (i + 1) for i in range(n)]
FACTORY = {
    0: ["f", "k1", "k2"], 1: AFF + K(3) + ["p1", "p2"], 2: ["f", "k1", "k2"], 3: AFF + K(4), 4: AFF + K(6) + ["p1", "p2"],
    5: AFF + K(6) + ["p1", "p2", "s0", "s1", "s2", "s3"], 6: [], 7: ["transition", "f", "k1", "k2"], 8: AFF + K(2), 9: AFF + K(1)}
STORAGE = {
    0: ["k1", "k2", "f"], 1: K(3) + ["p1", "p2"] + AFF, 2: ["k1", "k2", "f"], 3: K(4) + AFF, 4: K(6) + ["p1", "p2"] + AFF,
    5: K(6) + ["p1", "p2", "s0", "s1", "s2", "s3"] + AFF, 6: [], 7: ["transition", "k1", "k2", "f"], 8: K(2) + AFF, 9: K(1) + AFF}
# enum class Camera::Parameters
ENUM = dict((n, i) for i, n in enumerate(["transition", "k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "f", "ar", "cx", "cy", "s0", "s1", "s2", "s3", "none"]))
PERSP = (0, 1, 8, 9)
FISH = (2, 3, 4, 5)


def persp(P):
    return [P[0] / P[2], P[1] / P[2]]


def fisheye(P):
    """equidistant: the distance to the centre is the angle to the optical axis"""
    r = pm.sqrt(P[0] * P[0] + P[1] * P[1])
    th = pm.atan2(r, P[2])
    return [th * P[0] / r, th * P[1] / r]


def spherical(P):
    lon = pm.atan2(P[0], P[2])
    lat = pm.atan2(-P[1], pm.sqrt(P[0] * P[0] + P[2] * P[2]))
    c = 2 * pm.PI if not isinstance(P[0], float) else 6.283185307179586
    return [lon / c, -lat / c]


def dual(P, t):
    a, b = persp(P), fisheye(P)
    return [t * u + (1 - t) * v for u, v in zip(a, b)]


def distort(q, p):
    x, y = q
    r2 = x * x + y * y
    rad = 1.0
    pw = 1.0
    for i in range(1, 7):
        pw = pw * r2
        if "k%d" % i in p:
            rad = rad + p["k%d" % i] * pw
    dx, dy = x * rad, y * rad
    if "p1" in p:
        dx = dx + 2 * p["p1"] * x * y + p["p2"] * (r2 + 2 * x * x)
        dy = dy + 2 * p["p2"] * x * y + p["p1"] * (r2 + 2 * y * y)
    if "s0" in p:
        dx = dx + p["s0"] * r2 + p["s1"] * r2 * r2
        dy = dy + p["s2"] * r2 + p["s3"] * r2 * r2
    return [dx, dy]


def radial(q, p):
    r2 = q[0] * q[0] + q[1] * q[1]
    rad, pw = 1.0, 1.0
    for i in range(1, 7):
        pw = pw * r2
        if "k%d" % i in p:
            rad = rad + p["k%d" % i] * pw
    return rad + 0 * r2


def affine(q, p):
    if "ar" in p:
        return [p["f"] * q[0] + p["cx"], p["f"] * p["ar"] * q[1] + p["cy"]]
    if "f" in p:
        return [p["f"] * q[0], p["f"] * q[1]]
    return q


def projection(t, P, p, small=False):
    if t in PERSP:
        return persp(P)
    if t in FISH:
        return persp(P) if small else fisheye(P)
    if t == 6:
        return spherical(P)
    return persp(P) if small else dual(P, p["transition"])


def project(t, P, p, small=False):
    return affine(distort(projection(t, P, p, small), p) if t != 6 else projection(t, P, p), p)


def sample_params(r, names, strong=0.05):
    v = []
    for n in names:
        if n == "f":
            v.append(r.uniform(0.4, 1.5))
        elif n == "ar":
            v.append(r.uniform(0.8, 1.25))
        elif n in ("cx", "cy"):
            v.append(r.uniform(-0.1, 0.1))
        elif n == "transition":
            v.append(r.uniform(0.05, 0.95))
        elif n == "k1":
            v.append(r.uniform(-strong, strong))
        elif n[0] in "ps":
            v.append(r.uniform(-0.01, 0.01))
        else:
            v.append(r.uniform(-0.01, 0.01) if n in ("k2", "k3") else r.uniform(-0.002, 0.002))
    return v


def sample_point(r, wide=0.6):
    z = r.uniform(0.5, 3)
    if r.random() < 0.1:
        return [r.choice([0.0, 1e-3, -0.2]) * z, r.choice([1e-3, 0.3, -0.1]) * z, z]
    return [r.uniform(-wide, wide) * z, r.uniform(-wide, wide) * z, z]

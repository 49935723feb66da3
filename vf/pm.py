"""Polymorphic maths: works on symbolic terms and on floats, so that one contract
is both proved (on terms) and evaluated at run time (on floats)."""
import math

from . import expr as X

E = X.E


def _sym(*a):
    return any(isinstance(v, (X.E, X.B)) for v in a)


def sqrt(x):
    return X.sqrt(x) if _sym(x) else math.sqrt(max(x, 0.0) if x > -1e-9 else x)


def sin(x):
    return X.sin(x) if _sym(x) else math.sin(x)


def cos(x):
    return X.cos(x) if _sym(x) else math.cos(x)


def tan(x):
    return X.div(X.sin(x), X.cos(x)) if _sym(x) else math.tan(x)


def exp(x):
    return X.fn("exp", x) if _sym(x) else math.exp(x)


def log(x):
    return X.fn("log", x) if _sym(x) else math.log(x)


def atan2(y, x):
    return X.atan2(X.lift(y), X.lift(x)) if _sym(y, x) else math.atan2(y, x)


def asin(x):
    return X.asin(x) if _sym(x) else math.asin(x)


def acos(x):
    return X.acos(x) if _sym(x) else math.acos(max(-1, min(1, x)))


def pi():
    return X.PI


PI = X.PI


def rad(d):
    return d * X.PI / 180 if _sym(d) else math.radians(d)


def deg(r):
    return r * 180 / X.PI if _sym(r) else math.degrees(r)


# ---- small vector algebra on lists
def dot(a, b):
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        r = r + x * y
    return r


def norm(a):
    return sqrt(dot(a, a))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def vsub(a, b):
    return [x - y for x, y in zip(a, b)]


def vscale(k, a):
    return [k * x for x in a]


def mv(M, v):
    return [dot(r, v) for r in M]


def mm(A, B):
    Bt = list(zip(*B))
    return [[dot(r, list(c)) for c in Bt] for r in A]


def tr(A):
    return [list(r) for r in zip(*A)]


def mat(flat, r, c):
    return [[flat[i * c + j] for j in range(c)] for i in range(r)]


def eye(n):
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


def det3(M):
    return dot(M[0], cross(M[1], M[2]))


def rot_aa(w):
    """Rotation matrix of an angle-axis vector (Rodrigues), w != 0."""
    t2 = dot(w, w)
    t = sqrt(t2)
    s, c = sin(t) / t, (1 - cos(t)) / t2
    x, y, z = w
    K = [[0.0, -z, y], [z, 0.0, -x], [-y, x, 0.0]]
    K2 = mm(K, K)
    return [[(1.0 if i == j else 0.0) + s * K[i][j] + c * K2[i][j] for j in range(3)] for i in range(3)]


def rot_quat(q):
    """Rotation matrix of a unit quaternion (w, x, y, z)."""
    w, x, y, z = q
    return [
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)],
    ]

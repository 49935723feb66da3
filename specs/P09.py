"""P09 what is written to files is what is read back (io.py, types.py)"""
import io as sysio
import itertools
import math

import numpy as np

from vf import core, ext, pysym
from vf import expr as X
from vf.core import Cond, Eq, Reject

from .P06 import A, flat, sym

TYPES = list(ext.DIST)


def tr(x):
    return X.TRUE if x is True else X.FALSE if x is False else x


def arr(x):
    return isinstance(x, np.ndarray)


def same(label, got, want, out):
    """conditions under which two nested values are the same"""
    if isinstance(want, dict):
        if not isinstance(got, dict) or sorted(got) != sorted(want):
            out.append((label + ".keys", None, None))
            return out
        for k in want:
            same("%s.%s" % (label, k), got[k], want[k], out)
    elif isinstance(want, (list, tuple)) or arr(want):
        g = list(got) if isinstance(got, (list, tuple)) or arr(got) else None
        if g is None or len(g) != len(want):
            out.append((label + ".length", None, None))
            return out
        for k, (a, b) in enumerate(zip(g, want)):
            same("%s[%d]" % (label, k), a, b, out)
    elif isinstance(want, X.E) or isinstance(got, X.E) or isinstance(want, float):
        out.append((label, got, want) if isinstance(got, (X.E, float, int)) else (label, None, None))
    else:
        if type(got) is bool or got != want:
            if got != want:
                out.append((label, None, None))
    return out


class R:
    """names of the values of the next run"""

    def __init__(self, ins):
        self.i, self.k = list(ins), 0

    def __call__(self, n=None):
        if n is None:
            self.k += 1
            return self.i[self.k - 1]
        return [self() for _ in range(n)]


class Out(list):
    pass


class Kernel(core.PyKernel):
    """fn(values) -> (what was read, what was written): outputs are the leaves of both"""

    def __init__(self, fn, name):
        super().__init__(fn, name)
        self.labels = []

    def _run(self, ins):
        r = []
        for k, (got, want) in enumerate(self.fn(R(ins))):
            same("%d" % k if False else "value", got, want, r)
        self.labels = [l for l, _, _ in r]
        o = Out(v if v is not None else X.lift(float(j)) if sym(ins) else float(j) for l, g, w in r for j, v in enumerate((g, w)))
        o.labels = self.labels
        return o

    def symbolic(self, ins):
        with pysym.symbolic_numpy():
            return self._run(ins)

    def concrete(self, ins):
        return self._run(ins)


def post(i, o):
    return [Eq(getattr(o, "labels", [""] * len(o))[k // 2] if hasattr(o, "labels") else "value[%d]" % (k // 2), o[k], o[k + 1], 1e-12) for k in range(0, len(o), 2)]


def through_json(io, obj):
    """what is read from the file an object is written to"""
    def js(v):
        if isinstance(v, dict):
            if not all(isinstance(k, str) for k in v):
                raise TypeError("keys of a JSON object are strings")
            return {k: js(w) for k, w in v.items()}
        if isinstance(v, (list, tuple)):
            return [js(w) for w in v]
        if isinstance(v, (X.E, str, float, int, bool)) or v is None:
            return v
        raise TypeError("Object of type %s is not JSON serializable" % type(v))

    r = js(obj)
    if pysym.has_sym(leaves(r)):
        return r
    f = sysio.StringIO()
    io.json_dump(obj, f, minify=len(leaves(r)) % 2 == 0)
    f.seek(0)
    a, b = io.json_load(f), io.json_loads(io.json_dumps(obj))
    if a != b:
        raise ValueError("json_dump and json_dumps differ")
    return a


def leaves(v):
    if isinstance(v, dict):
        return [w for u in v.values() for w in leaves(u)]
    if isinstance(v, (list, tuple)):
        return [w for u in v for w in leaves(u)]
    return [v]


# ---------------------------------------------------------------- ghosts
def camera(pt, r, key="cam", w=640, h=480):
    c = ext.Camera.of(pt, **{k: r() for k in ext.params_of(pt)})
    c.id, c.width, c.height = key, w, h
    return c


def of_camera(c):
    return dict(type=c.projection_type, v=dict(c.v), id=c.id, width=c.width, height=c.height)


def pose(r):
    return ext.Pose(r(3), r(3))


def of_pose(p):
    return dict(r=p.rotation, t=p.translation)


def of_sim(b):
    return dict(r=b.rotation, t=b.translation, s=b.scale)


FIELDS = ("orientation", "capture_time", "gps_accuracy", "gps_position", "gravity_down", "compass_angle", "compass_accuracy", "sequence_key")


def meta(m, fields, r):
    for f in fields:
        getattr(m, f).value = r(3) if ext.ShotMeasurements.FIELDS[f] else "s-1" if f == "sequence_key" else r()
    return m


def of_meta(m):
    return {f: getattr(m, f).value for f in ext.ShotMeasurements.FIELDS if getattr(m, f).has_value}


def dress(s, r, fields, mesh):
    meta(s.metadata, fields, r)
    s.scale, s.merge_cc = r(), 3
    s.covariance = np.array([r(2), r(2)], dtype=object)
    if mesh:
        s.mesh.vertices = [r(3), r(3)]
        s.mesh.faces = [[0, 1, 1]]


def of_shot(s):
    d = dict(id=s.id, camera=s.camera.id, pose=of_pose(s.pose), meta=of_meta(s.metadata), scale=s.scale, merge_cc=s.merge_cc, cov=[list(c) for c in s.covariance], vertices=[list(v) for v in s.mesh.vertices], faces=[list(f) for f in s.mesh.faces])
    if s.rig_instance is not None:
        d.update(rig_instance=s.rig_instance.id, rig_camera=s.rig_camera.id, rig_camera_pose=of_pose(s.at_creation))
    return d


def of_rec(rec):
    m = rec.map
    d = dict(cameras={k: of_camera(c) for k, c in m.cameras.items()}, biases={k: of_sim(b) for k, b in m.biases.items()}, rig_cameras={k: dict(of_pose(c.pose), id=c.id) for k, c in m.rig_cameras.items()},
             rig_instances={k: dict(id=i.id, pose=of_pose(i.pose), shots=sorted(i.shots), rig_cameras=i.rig_camera_ids) for k, i in m.rig_instances.items()},
             shots={k: of_shot(s) for k, s in m.shots.items()}, pano_shots={k: of_shot(s) for k, s in m.pano_shots.items()},
             points={k: dict(id=p.id, x=p.coordinates, c=list(p.color)) for k, p in m.landmarks.items()}, reference=dict(lat=m.reference.lat, lon=m.reference.lon, alt=m.reference.alt))
    return d


def scene(types, kind, r):
    """a reconstruction: plain shots, rigs or panoramas"""
    rec = types.Reconstruction()
    m = rec.map
    for k, pt in (("c1", "brown"), ("c2", "perspective"), ("v2 unknown 640 480 fisheye 0.5 é", "fisheye")):
        m.create_camera(camera(pt, r, k))
    m.set_reference(r(), r(), r())
    shots = []
    if kind == "rig":
        for k in ("left", "right"):
            m.create_rig_camera(ext.RigCamera(pose(r), k))
        for k in ("i1", "i2"):
            m.create_rig_instance(k).pose = pose(r)
        shots = [("a1", "c1", "left", "i1"), ("b1", "c2", "right", "i1"), ("a2", "c1", "left", "i2")]
    if kind in ("rig", "plain"):
        for k, c in (("s1", "c1"), ("s2", "c1")):
            if c not in m.rig_cameras:
                m.create_rig_camera(ext.RigCamera(ext.Pose(), c))
            m.create_rig_instance(k).pose = pose(r)
            shots.append((k, c, c, k))
    for n, (k, c, rc, ri) in enumerate(shots):
        dress(m.create_shot(k, c, rc, ri, pose(r)), r, [f for j, f in enumerate(FIELDS) if (n + j) % 3], n % 2)
    if kind == "panorama":
        p = types.PANOSHOT_RIG_PREFIX
        for k in ("p1", "p2"):
            if p + "c1" not in m.rig_cameras:
                m.create_rig_camera(ext.RigCamera(ext.Pose(), p + "c1"))
            m.create_rig_instance(p + k).pose = pose(r)
            dress(m.create_pano_shot(k, "c1", p + "c1", p + k, pose(r)), r, FIELDS[:3], 0)
    if kind != "empty":
        m.set_bias("c1", ext.Similarity(r(3), r(3), r()))
        for k in ("12", "7"):
            m.create_landmark(k, r(3)).color = r(3)
    return rec


def count(fn):
    """number of values a scene takes"""
    class C(R):
        def __init__(self):
            self.n = 0

        def __call__(self, n=None):
            self.n += n or 1
            return 0.5 if n is None else [0.5] * n

    c = C()
    fn(c)
    return c.n


def names(n):
    return ["v%d" % k for k in range(n)]


def s_val(n):
    return lambda r: [r.choice([0.0, 1.0, -1.0, 1e-7, 12345.678901234567]) if r.random() < 0.3 else r.gauss(0, 3) for _ in range(n)]


# ---------------------------------------------------------------- ground control points
class Tok:
    """a token of a line, of which float() is the value"""

    def __init__(self, v):
        self.v = v


def parts(n, k):
    """ways n lines refer to k points, in order of first appearance"""
    for t in itertools.product(range(k), repeat=n):
        if all(v <= max(t[:j], default=-1) + 1 for j, v in enumerate(t)):
            yield t


def gcp_list(io, lines, exifs):
    """lines: (key, x, y, shot), values as text"""
    return io._read_gcp_list_lines(["%s %r %r %s" % (k, x, y, s) for k, x, y, s in lines], None, exifs)


def build(ctx):
    ctx.assume("A-REAL: floating point numbers are read as exact reals", "A-EXT: the classes of the extension modules are replaced by stand-ins that keep the values they are given, in the parameter order of Camera::Create* and the setters proved in P02 and P04, and reject unknown and duplicate ids like map::Map",
               "A-JSON: json.dump followed by json.load keeps dicts, lists, strings, numbers and None (executed for real at run time)", "A-SHAPE: reconstructions of the listed shapes; the values in them are arbitrary")
    types, io = pysym.load("types", "io")
    ext.install()
    ctx.under_contract(*["io." + n for n in ("camera_from_json", "camera_to_json", "camera_from_vector", "camera_to_vector", "pose_from_json", "bias_from_json", "bias_to_json", "assign_shot_attributes", "shot_in_reconstruction_from_json", "single_shot_from_json",
                                              "shot_to_json", "point_from_json", "point_to_json", "rig_camera_from_json", "rig_camera_to_json", "rig_cameras_from_json", "rig_cameras_to_json", "rig_instance_from_json", "rig_instance_to_json",
                                              "rig_instance_camera_per_shot", "reconstruction_from_json", "reconstruction_to_json", "reconstructions_from_json", "reconstructions_to_json", "cameras_from_json", "cameras_to_json",
                                              "pymap_metadata_to_json", "json_to_pymap_metadata", "read_ground_control_points", "write_ground_control_points", "_read_gcp_list_lines", "read_gcp_list", "_parse_utm_projection_string", "point_cloud_to_ply", "point_cloud_from_ply", "reconstruction_to_ply")],
                       *["types.Reconstruction." + n for n in ("create_shot", "create_pano_shot", "add_camera", "add_rig_camera", "add_rig_instance", "set_bias", "create_point", "reference")])

    def prove(name, fn, n, pre=lambda i: [], **k):
        ctx.prove(name, Kernel(fn, "io." + name.split("/")[0]), names(n), post, pre=pre, sampler=s_val(n), **k)

    # cameras
    for pt in TYPES:
        n = len(ext.params_of(pt))
        f = ext.params_of(pt).index("focal") if n else None
        pre = (lambda i: []) if f is None else (lambda i, f=f: [X.gt(i[f], X.ZERO)] if sym(i) else [i[f] > 0])

        def cam_json(r, pt=pt):
            c = camera(pt, r)
            return [(of_camera(io.camera_from_json("cam", through_json(io, io.camera_to_json(c)))), of_camera(c)), (of_camera(io.cameras_from_json(through_json(io, io.cameras_to_json({"x": c})))["cam"]), of_camera(c))]

        def cam_vec(r, pt=pt):
            c = camera(pt, r)
            return [(of_camera(io.camera_from_vector("cam", 640, 480, pt, io.camera_to_vector(c))), of_camera(c))]

        def cam_default(r, pt=pt):
            c = camera(pt, r)
            d = {k: 0.5 if k == "transition" else 0.0 for k in ext.params_of(pt)}
            d.update({k: v for k, v in c.v.items() if k in ("focal", "aspect_ratio")})
            o = dict(projection_type=pt)
            if pt in ext.AFFINE:
                o.update(focal_x=c.v["focal"], focal_y=c.v["focal"] * c.v["aspect_ratio"])
            elif pt != "spherical":
                o["focal"] = c.v["focal"]
            res = of_camera(io.camera_from_json("q", o))
            return [(res["v"], d), (res["id"], "q"), ([res["width"], res["height"]], [0, 0])]

        prove("camera-json/" + pt, cam_json, n, pre)
        prove("camera-vector/" + pt, cam_vec, n, pre)
        prove("camera-defaults/" + pt, cam_default, n, pre)

    def legacy(r):
        c = camera("spherical", r)
        c.projection_type = "equirectangular"
        d = io.camera_from_json("cam", through_json(io, io.camera_to_json(c)))
        return [(d.projection_type, "spherical"), (io.camera_from_json("p", dict(focal=r())).projection_type, "perspective")]

    prove("camera-legacy", legacy, 1)
    # metadata: every subset of the fields
    prove("metadata", lambda r: [(of_meta(io.json_to_pymap_metadata(through_json(io, io.pymap_metadata_to_json(meta(ext.ShotMeasurements(), fs, q))))), of_meta(meta(ext.ShotMeasurements(), fs, R(q.i))))
                                 for k in range(len(FIELDS) + 1) for fs in itertools.combinations(FIELDS, k) for q in [R(r.i)]], 11)

    def single(r):
        c = camera("brown", r, "c")
        s = ext.Shot("k", c, pose(r))
        dress(s, r, FIELDS, 1)
        return [(of_shot(io.single_shot_from_json("k", through_json(io, io.shot_to_json(s)), c)), of_shot(s))]

    prove("single-shot", single, count(single))

    def rigcams(r):
        cs = {k: ext.RigCamera(pose(r), k) for k in ("a", "b")}
        back = io.rig_cameras_from_json(through_json(io, io.rig_cameras_to_json(cs)))
        return [({k: dict(of_pose(c.pose), id=c.id) for k, c in back.items()}, {k: dict(of_pose(c.pose), id=c.id) for k, c in cs.items()})]

    prove("rig-cameras", rigcams, 12)
    for kind in ("plain", "rig", "panorama", "empty"):
        n = count(lambda r: scene(types, kind, r))

        def rec(r, kind=kind):
            a = scene(types, kind, r)
            b = io.reconstructions_from_json(through_json(io, io.reconstructions_to_json([a])))
            return [(len(b), 1), (of_rec(b[0]), of_rec(a))]

        prove("reconstruction/" + kind, rec, n, lambda i: [X.gt(i[5], X.ZERO)] if sym(i) else [i[5] > 0])  # focal length of the brown camera

    # ground control points
    def gcps(r):
        pts = []
        for k, (alt, obs) in enumerate(((True, 2), (False, 1), (None, 0))):
            p = ext.GroundControlPoint()
            p.id = "g%d" % k
            if alt is not None:
                p.lla = dict(latitude=r(), longitude=r(), altitude=r() if alt else 0.0)
                p.has_altitude = alt
            p.observations = [ext.GroundControlPointObservation("im%d" % j, np.array(r(2), dtype=object)) for j in range(obs)]
            pts.append(p)
        if pysym.has_sym(r.i):
            held = {}
            dump, load = io.json_dump, io.json_load
            io.json_dump, io.json_load = lambda d, f, **k: held.update(d=through_json(io, d)), lambda f: held["d"]
            try:
                io.write_ground_control_points(pts, None)
                back = io.read_ground_control_points(None)
            finally:
                io.json_dump, io.json_load = dump, load
        else:
            f = sysio.StringIO()
            io.write_ground_control_points(pts, f)
            f.seek(0)
            back = io.read_ground_control_points(f)
        of = lambda p: dict(id=p.id, alt=bool(p.has_altitude), lla={k: v for k, v in p.lla.items() if k != "altitude" or p.has_altitude}, obs=[(o.shot_id, o.projection) for o in p.observations])
        return [([of(p) for p in back], [of(p) for p in pts])]

    prove("ground-control-points", gcps, 11)

    def gcp_lines(r):
        """lines with the same coordinates are one point, with one observation per line of a known image, in order"""
        x = r.i
        res = []
        keys = {"a": ("10.5 20.25 3.0", (20.25, 10.5, 3.0, True)), "b": ("10.5 20.25 4.0", (20.25, 10.5, 4.0, True)), "c": ("10.5 20.25 NaN", (20.25, 10.5, 0.0, False)), "d": ("11.5 20.25 0.0", (20.25, 11.5, 0.0, True))}
        ex = {"im1": dict(width=640, height=480), "im2": dict(width=300, height=400)}
        for seq in itertools.product("abcd", repeat=3):
            for shots in (("im1", "im2", "im1"), ("im2", "missing", "im1"), ("missing", "im1", "im2")):
                lines = [(keys[k][0], float(x[j]), float(x[3 + j]), s) for j, (k, s) in enumerate(zip(seq, shots))]
                got = gcp_list(io, lines, ex)
                order = [k for j, k in enumerate(seq) if shots[j] in ex]
                order = [k for j, k in enumerate(order) if k not in order[:j]]
                want = []
                for k in order:
                    lat, lon, alt, has = keys[k][1]
                    ob = []
                    for j in range(3):
                        if seq[j] == k and shots[j] in ex:
                            w, h = ex[shots[j]]["width"], ex[shots[j]]["height"]
                            ob.append((shots[j], [(float(x[j]) + 0.5 - w / 2.0) / max(w, h), (float(x[3 + j]) + 0.5 - h / 2.0) / max(w, h)]))
                    want.append(dict(lla=dict(latitude=lat, longitude=lon, altitude=alt), has=has, obs=ob))
                res.append(([dict(lla=p.lla, has=p.has_altitude, obs=[(o.shot_id, list(o.projection)) for o in p.observations]) for p in got], want))
                res.append((len(set(p.id for p in got)), len(got)))
        return res

    ctx.runtime("gcp-list", Kernel(gcp_lines, "io._read_gcp_list_lines"), names(6), post, sampler=lambda r: [r.uniform(0, 300) for _ in range(6)], samples=5)

    def utm(r):
        res = []
        for z in range(1, 61):
            for suf, hemi in (("N", "north"), ("S", "south"), ("", "north"), ("n", "north"), ("s", "south")):
                res.append((io._parse_utm_projection_string("WGS84 UTM %d%s" % (z, suf)), "+proj=utm +zone=%d +%s +ellps=WGS84 +datum=WGS84 +units=m +no_defs" % (z, hemi)))
        return res

    ctx.runtime("utm-string", Kernel(utm, "io._parse_utm_projection_string"), ["unused"], post, samples=2)

    # point clouds
    def cloud(r):
        n = len(r.i) // 6
        p, q = [r(3) for _ in range(n)], [r(3) for _ in range(n)]
        col, lab = [[int(abs(37 * v[k])) % 256 for k in range(3)] for v in p], [int(abs(11 * v[0])) % 256 for v in p]
        f = sysio.StringIO()
        io.point_cloud_to_ply(np.array(p).reshape(-1, 3), np.array(q).reshape(-1, 3), np.array(col).reshape(-1, 3), np.array(lab), f)
        f.seek(0)
        a, b, c, d = io.point_cloud_from_ply(f)
        rnd = lambda v, k: float(np.float32("%.*f" % (k, v)))
        return [([list(map(float, v)) for v in a], [[rnd(e, 4) for e in v] for v in p]), ([list(map(float, v)) for v in b], [[rnd(e, 3) for e in v] for v in q]), ([list(map(int, v)) for v in c], col), ([int(v) for v in d], lab)]

    for n in (0, 1, 5):
        ctx.runtime("point-cloud/%d" % n, Kernel(cloud, "io.point_cloud_from_ply"), names(6 * n) or ["v"], post)

    def ply(r):
        a = scene(types, "plain", r)
        for s in a.map.shots.values():
            s.pose.get_origin = lambda s=s: np.array([float(v) for v in s.pose.translation])
            s.pose.get_rotation_matrix = lambda: np.eye(3)
        res = []
        for nc, np_, nv in itertools.product((False, True), repeat=3):
            t = io.reconstruction_to_ply(a, None, nc, np_, nv).split("\n")
            h = t.index("end_header")
            n = [int(l.split()[-1]) for l in t[:h] if l.startswith("element vertex")]
            props = sum(l.startswith("property") for l in t[:h])
            body = [l.split() for l in t[h + 1:] if l]
            want = (0 if np_ else 2) + (0 if nc else 2 * 3 * 10)
            res.append((n, [want]))
            res.append((len(body), want))
            cols = props if not nv else None
            res.append((all(len(b) == 6 for b in body) if not nv else True, True))
            if not np_:
                res.append(([[float(v) for v in b[:3]] for b in body[:2]], [[float(v) for v in p.coordinates] for p in a.map.landmarks.values()]))
        return res

    n = count(lambda r: scene(types, "plain", r))
    ctx.runtime("reconstruction-ply", Kernel(ply, "io.reconstruction_to_ply"), names(n), post, sampler=s_val(n), samples=5)

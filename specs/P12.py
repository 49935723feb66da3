"""P12 image metadata become the positions, angles, times, focal lengths and cameras they stand for (exif.py, reconstruction_helpers.py, actions/extract_metadata.py)"""
import datetime
import itertools
import math
import sys
import types as pytypes

import numpy as np

from vf import core, ext, pysym
from vf import expr as X

from .P06 import CV2, sym
from .P09 import Kernel, R, count, names, of_camera, of_meta, post


class Ratio:
    """exifread's rational: numerator and denominator as written"""

    def __init__(self, num, den):
        self.num, self.den = num, den

    def __format__(self, s):
        return "ratio"


class Tag:
    def __init__(self, *values):
        self.values = values[0] if len(values) == 1 and isinstance(values[0], (str, bytes)) else list(values)


def modules():
    for n in ("exifread", "exifread.utils", "xmltodict"):
        if n not in sys.modules or not hasattr(sys.modules[n], "of_verif"):
            sys.modules[n] = pytypes.ModuleType(n)
            sys.modules[n].of_verif = True
    sys.modules["exifread"].utils = sys.modules["exifread.utils"]
    sys.modules["exifread.utils"].Ratio = Ratio


class Data:
    """a data set: configuration, EXIF by image and what is saved"""

    def __init__(self, config, exifs, overrides=None, camera_overrides=None, existing=()):
        self.config, self.exifs, self.over, self.cam_over, self.existing = config, exifs, overrides, camera_overrides, existing
        self.saved, self.cameras = {}, None

    def images(self):
        return list(self.exifs)

    def exif_overrides_exists(self):
        return self.over is not None

    def load_exif_overrides(self):
        return self.over

    def exif_exists(self, image):
        return image in self.existing

    def load_exif(self, image):
        return dict(self.exifs[image])

    def save_exif(self, image, d):
        self.saved[image] = dict(d)

    def camera_models_overrides_exists(self):
        return self.cam_over is not None

    def load_camera_models_overrides(self):
        return self.cam_over

    def save_camera_models(self, c):
        self.cameras = c

    def image_size(self, image):
        return 480, 640

    def open_image_file(self, image):
        class F:
            def __enter__(s):
                return (image,)

            def __exit__(s, *a):
                return None

        return F()


class Reference:
    """an affine map standing for the topocentric converter (contract: a function of latitude, longitude and altitude)"""

    def to_topocentric(self, lat, lon, alt):
        return 2 * lat + lon, 3 * lon - alt, 5 * alt + lat


def gps(f, ref="N"):
    return f if ref in ("N", "E") else -f


def cs(a):
    a = X.lift(a) * X.PI / 180 if isinstance(a, X.E) else math.radians(a)
    return (X.cos(a), X.sin(a)) if isinstance(a, X.E) else (math.cos(a), math.sin(a))


def camera_axes(y, p, r):
    """right, down and forward axes (east, north, up) of a camera on a body with the given yaw, pitch and roll, top of the image forward, looking down"""
    (cy, sy), (cp, sp), (cr, sr) = cs(y), cs(p), cs(r)
    rz = [[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]]
    ry = [[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]]
    rx = [[1, 0, 0], [0, cr, -sr], [0, sr, cr]]

    def mul(a, b):
        return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]

    m = mul(rz, mul(ry, rx))  # body to north-east-down
    col = lambda j, s: [s * m[1][j], s * m[0][j], -s * m[2][j]]
    return [col(1, 1), col(0, -1), col(2, 1)]


def build(ctx):
    ctx.assume("A-REAL: floating point numbers are read as exact reals", "A-EXT: the classes of the extension modules are stand-ins that keep their values (contracts proved in P02, P04 and P11)", "A-EXIFREAD: exifread and xmltodict are replaced: tags and XMP descriptions are given as values", "A-RODRIGUES: cv2.Rodrigues(v) is the rotation by |v| around v", "A-TOPO: the topocentric converter enters as an affine function of latitude, longitude and altitude")
    modules()
    # at exactly the altitude where positions are capped both answers are the same
    uncapped = lambda k: lambda i: [X.not_(X.eq(v, X.lift(10000.0))) for v in (i[k], -i[k])] if sym(i) else [abs(i[k]) != 10000.0]
    ex, geometry, rh, em, sensors = pysym.load("exif", "geometry", "reconstruction_helpers", "actions.extract_metadata", "sensors")
    ext.install()
    if not isinstance(geometry.cv2, CV2):
        geometry.cv2 = CV2(geometry.cv2)
    import logging
    logging.disable(logging.CRITICAL)
    for m in (ex, rh, em):
        for n, v in list(m.__dict__.items()):
            if isinstance(v, pytypes.ModuleType) and v.__name__ == "exifread":
                setattr(m, n, sys.modules["exifread"])
    ctx.under_contract(*["exif." + n for n in ("eval_frac", "gps_to_decimal", "get_tag_as_float", "compute_focal", "sensor_string", "camera_id", "camera_id_", "hard_coded_calibration", "focal_ratio_calibration", "focal_xy_calibration", "default_calibration", "calibration_from_metadata", "camera_from_exif_metadata", "get_gpano_from_xmp")],
                       *["exif.EXIF." + n for n in ("extract_image_size", "extract_make", "extract_model", "extract_projection_type", "extract_focal", "extract_sensor_width", "get_mm_per_unit", "extract_orientation", "extract_ref_lon_lat", "extract_dji_lon_lat", "extract_dji_altitude", "extract_lon_lat", "extract_altitude", "extract_dop", "extract_geo", "extract_capture_time", "extract_opk", "extract_exif")],
                       *["reconstruction_helpers." + n for n in ("guess_gravity_up_from_orientation_tag", "shot_gravity_up_in_image_axis", "rotation_from_shot_metadata", "rotation_from_orientation_compass", "rotation_from_angles", "exif_to_metadata", "get_image_metadata")], "actions.extract_metadata.run_dataset", "actions.extract_metadata._extract_exif")

    def make(tags=None, xmp=None, size=(480, 640), use=True):
        e = object.__new__(ex.EXIF)
        e.tags, e.xmp, e.image_size_loader, e.use_exif_size, e.fileobj_name = tags or {}, xmp or [], (lambda: size), use, "image"
        return e

    def prove(name, fn, n=None, pre=lambda i: [], sampler=None, **k):
        n = n if n is not None else count(fn)
        ctx.prove(name, Kernel(fn, "exif." + name.split("/")[0]), names(n), post, pre=pre, sampler=sampler or (lambda r: [r.uniform(0.1, 90) for _ in range(n)]), **k)

    pos = lambda i: [X.gt(v, X.ZERO) if sym(i) else v > 0 for v in i]
    den = lambda *ks: lambda i: [X.gt(i[k], X.ZERO) if sym(i) else i[k] > 0 for k in ks]

    # ------------------------------------------------------------ positions
    def coords(r):
        res = []
        for ref in ("N", "S", "E", "W"):
            q = R(r.i)
            v = [Ratio(q(), q()) for _ in range(3)]
            res.append((ex.gps_to_decimal(v, ref), gps(v[0].num / v[0].den + v[1].num / v[1].den / 60 + v[2].num / v[2].den / 3600, ref)))
            for k in range(3):
                w = list(v)
                w[k] = Ratio(4.0, 0)
                res.append((ex.gps_to_decimal(w, ref), None))
        return res

    prove("gps_to_decimal", coords, 6, den(1, 3, 5))

    def deg(v):
        return [Ratio(v, 1), Ratio(0, 1), Ratio(0, 1)]

    def geo(r):
        res = []
        lat, lon, alt, dop = r(4)
        for rlat, rlon, sea, frac in itertools.product(("N", "S", None), ("E", "W", None), (0, 1, None), (True, False)):
            t = {"GPS GPSLatitude": Tag(*deg(lat)), "GPS GPSLongitude": Tag(*deg(lon)), "GPS GPSDOP": Tag(Ratio(dop, 10))}
            if frac:
                t["GPS GPSAltitude"] = Tag(Ratio(alt, 1))
            if rlat:
                t["GPS GPSLatitudeRef"] = Tag(rlat)
            if rlon:
                t["GPS GPSLongitudeRef"] = Tag(rlon)
            if sea is not None:
                t["GPS GPSAltitudeRef"] = Tag(sea)
            g = make(t).extract_geo()
            a = alt if sea != 1 else -alt
            want = {"latitude": -lat if rlat == "S" else lat, "longitude": -lon if rlon == "W" else lon, "dop": dop / 10}
            if frac:
                want["altitude"] = a if not a > 10000.0 else a * 0 + 10000.0
            res.append((g, want))
        # whole numbers, and what cannot be read
        res.append((make({"GPS GPSAltitude": Tag(12), "GPS GPSAltitudeRef": Tag(1)}).extract_geo(), {"altitude": -12.0}))
        for t in ({}, {"GPS GPSAltitude": Tag("x")}, {"GPS GPSAltitude": Tag(Ratio(3, 0))}, {"GPS GPSAltitude": Tag(Ratio(3, 0)), "GPS GPSAltitudeRef": Tag(1)}, {"GPS GPSLongitude": Tag(*deg(lon))}, {"GPS GPSLatitude": Tag(*deg(lat))}, {"GPS GPSDOP": Tag(Ratio(1, 0))},
                  {"GPS GPSLatitude": Tag(Ratio(0, 0), Ratio(0, 0), Ratio(0, 0)), "GPS GPSLongitude": Tag(*deg(lon))}):
            res.append((make(t).extract_geo(), {}))
        return res

    prove("extract_geo", geo, 4, uncapped(2), sampler=lambda r: [r.uniform(0, 90), r.uniform(0, 180), r.choice([r.uniform(0, 9000), r.uniform(10000, 60000), 0.0]), r.uniform(0, 50)])

    def dji(r):
        lat, lon, alt = r(3)

        class Num:
            """text of a number with its sign"""

            def __init__(self, sign, v):
                self.sign, self.v = sign, v

            def __getitem__(self, k):
                return self.sign if k == 0 else self.v

        res = []
        for a, o in itertools.product("+-", "+-"):
            x = {"@drone-dji:Latitude": Num(a, lat), "@drone-dji:Longitude": Num(o, lon), "@drone-dji:AbsoluteAltitude": alt}
            for t in ({}, {"GPS GPSLatitude": Tag(*deg(lat + 1)), "GPS GPSLongitude": Tag(*deg(lon + 1)), "GPS GPSAltitude": Tag(Ratio(alt + 1, 1)), "GPS GPSAltitudeRef": Tag(1)}):
                res.append((make(t, [x]).extract_geo(), {"latitude": lat if a == "+" else -lat, "longitude": lon if o == "+" else -lon, "altitude": alt if not alt > 10000.0 else alt * 0 + 10000.0}))
        return res

    prove("drone-position", dji, 3, uncapped(2), sampler=lambda r: [r.uniform(0, 90), r.uniform(0, 180), r.choice([r.uniform(-100, 9000), r.uniform(10000, 20000)])])

    # ------------------------------------------------------------ yaw, pitch, roll
    def opk(kind):
        def f(r):
            y, p, ro = r(3)
            if kind == "camera":
                x = {"@Camera:Yaw": y, "@Camera:Pitch": p, "@Camera:Roll": ro, "@drone-dji:GimbalYawDegree": y + 1, "@drone-dji:GimbalPitchDegree": p + 1, "@drone-dji:GimbalRollDegree": ro}
            else:
                x = {"@drone-dji:GimbalYawDegree": y, "@drone-dji:GimbalPitchDegree": p - 90, "@drone-dji:GimbalRollDegree": ro, "@Camera:Yaw": 0.0}
            lat, lon, alt = r(3)
            o = make({}, [x]).extract_opk({"latitude": lat, "longitude": lon, "altitude": alt})
            a = [v * X.PI / 180 if isinstance(v, X.E) else math.radians(v) for v in (o["omega"], o["phi"], o["kappa"])]
            return [(geometry.rotation_from_opk(*a), camera_axes(y, p, ro))]
        return f

    def horizon(i):
        # the camera does not look along the east-west direction in a way that phi is +-90 degrees
        ax = camera_axes(i[0], i[1], i[2])
        c = [1 - ax[2][0] * ax[2][0]]
        return [X.gt(v, X.lift(1e-6)) if sym(i) else v > 1e-6 for v in c]

    for kind in ("camera", "gimbal"):
        prove("extract_opk/" + kind, opk(kind), 6, horizon, sampler=lambda r: [r.uniform(-180, 360), r.uniform(-100, 100), r.uniform(-180, 180), r.uniform(-80, 80), r.uniform(-180, 180), r.uniform(0, 1000)])

    def no_opk(r):
        x = {"@Camera:Yaw": r(), "@Camera:Pitch": r(), "@Camera:Roll": r()}
        g = {"latitude": r(), "longitude": r()}
        return [(make({}, xm).extract_opk(ge), None) for xm, ge in (([], g), ([{}], g), ([x], {}), ([x], {"altitude": 1.0}), ([{**x, "@Camera:Yaw": "none"}], g), ([{k: x[k] for k in list(x)[:2]}], g))]

    prove("extract_opk/missing", no_opk, 5)

    # ------------------------------------------------------------ focal length
    def focal(r):
        f35, f, w = r(3)
        ex.sensor_data = lambda: {"make model": w}
        res = []
        for a, b, s, name in itertools.product((f35, 0, None), (f, None), (w + 1, None), ("make model", "other", None)):
            g35, g = ex.compute_focal(a, b, s, name)
            sw = s if s is not None else w if name == "make model" else None
            if a is f35:
                want = (f35, f35 / 36)
            elif b is not None and sw is not None:
                want = (36 * (f / sw), f / sw)
            else:
                want = (0.0, 0.0)
            res.append(([g35, g], list(want)))
        return res

    prove("compute_focal", focal, 3, pos)

    def extract_focal(r):
        f35, f, px, py, w, sw = r(6)
        ex.sensor_data = lambda: {"acme a1": sw}
        res = []
        for a, b, unit, x, y, make_, model in itertools.product((True, False), (True, False), (2, 3, 4, 5, 6, None), (px, 0, None), (py, 0, None), ("Acme ", "unknown"), ("Acme A1", "B2")):
            t = {"Image Make": Tag(make_), "Image Model": Tag(model)}
            if a:
                t["EXIF FocalLengthIn35mmFilm"] = Tag(f35)
            if b:
                t["EXIF FocalLength"] = Tag(Ratio(f, 10))
            if unit:
                t["EXIF FocalPlaneResolutionUnit"] = Tag(unit)
            if x is not None:
                t["EXIF FocalPlaneXResolution"] = Tag(Ratio(x, 1) if x is px else 0)
            if y is not None:
                t["EXIF FocalPlaneYResolution"] = Tag(Ratio(y, 1) if y is py else 0)
            e = make(t, size=(7, w))
            mm = {2: 25.4, 3: 10, 4: 1, 5: 0.001}.get(unit)
            res_px = None if x is None else x if x is px else py if y is py else None
            width = w / res_px * mm if mm and res_px is not None else None
            res.append((e.extract_sensor_width(), width))
            s = width if width is not None else sw if (make_, model) == ("Acme ", "Acme A1") or (make_, model) == ("unknown", "Acme A1") and False else None
            g35, g = e.extract_focal()
            if a:
                want = (f35, f35 / 36)
            elif b and s is not None:
                want = (36 * (f / 10 / s), f / 10 / s)
            else:
                want = (0.0, 0.0)
            res.append(([g35, g], list(want)))
        return res

    prove("extract_focal", extract_focal, 6, pos)

    def whole(r):
        """sizes, names, orientation, projection"""
        res = []
        for use, exif_size, image_size in itertools.product((True, False), (True, False), (True, False)):
            t = {}
            if exif_size:
                t.update({"EXIF ExifImageWidth": Tag(101), "EXIF ExifImageLength": Tag(102)})
            if image_size:
                t.update({"Image ImageWidth": Tag(201), "Image ImageLength": Tag(202)})
            want = [101, 102] if use and exif_size else [201, 202] if use and image_size else [640, 480]
            res.append((list(make(t, use=use).extract_image_size()), want))
        for lens, image in itertools.product((True, False), repeat=2):
            t = {}
            if lens:
                t.update({"EXIF LensMake": Tag("lmake"), "EXIF LensModel": Tag("lmodel")})
            if image:
                t.update({"Image Make": Tag("imake"), "Image Model": Tag("imodel")})
            e = make(t)
            p = "l" if lens else "i" if image else None
            res.append(([e.extract_make(), e.extract_model()], [p + "make", p + "model"] if p else ["unknown", "unknown"]))
        res.append((make({"Image Make": Tag(b"ab"), "Image Model": Tag(b"\xff\xfe")}).extract_make(), "ab"))
        res.append((make({"Image Make": Tag(b"ab"), "Image Model": Tag(b"\xff\xfe")}).extract_model(), "unknown"))
        for k in range(9):
            res.append((make({"Image Orientation": Tag(k)}).extract_orientation(), k or 1))
        res.append((make({"Image Orientation": Tag("x")}).extract_orientation(), 1))
        res.append((make({}).extract_orientation(), 1))
        for x, w in (([], "perspective"), ([{}, {"GPano:ProjectionType": "equirectangular"}], "equirectangular"), ([{"GPano:Other": "1"}], "perspective")):
            res.append((make({}, x).extract_projection_type(), w))
        res.append((ex.sensor_string("Acme", "Acme X "), "acme x"))
        res.append((ex.sensor_string("unknown", " unknown X "), "unknown unknown x"))
        res.append((ex.camera_id_("Acme ", "Acme  Pro", 640, 480, "brown", 0.123456789), "v2 acme pro 640 480 brown 0.1234"))
        res.append((ex.camera_id(dict(make="unknown", model="Unknown", width=6.0, height=4, projection_type="Brown", focal_ratio=0)), "v2 unknown unknown 6 4 brown 0.0"))
        return res + [(r(), r.i[0])]

    prove("sizes-names-orientations", whole, 1)

    def extract(r):
        lat, lon, alt, f35 = r(4)
        ex.sensor_data = lambda: {}
        saved = ex.camera_id
        ex.camera_id = lambda d: "id"
        try:
            t = {"Image Make": Tag("m"), "Image Model": Tag("o"), "EXIF FocalLengthIn35mmFilm": Tag(Ratio(f35, 1)), "GPS GPSLatitude": Tag(*deg(lat)), "GPS GPSLongitude": Tag(*deg(lon)), "GPS GPSAltitude": Tag(Ratio(alt, 1)), "Image Orientation": Tag(6), "Image DateTime": Tag("1970:01:02 00:00:01")}
            d = make(t, [{"GPano:ProjectionType": "fisheye"}]).extract_exif()
            want = dict(make="m", model="o", width=640, height=480, projection_type="fisheye", focal_ratio=f35 / 36, orientation=6, capture_time=86401.0, gps=dict(latitude=lat, longitude=lon, altitude=alt), camera="id")
            d2 = make(t, [{"@Camera:Yaw": lat, "@Camera:Pitch": lat / 10, "@Camera:Roll": lat / 20}]).extract_exif()
            return [(d, want), (sorted(d2.pop("opk")), ["kappa", "omega", "phi"]), (d2, {**want, "projection_type": "perspective"})]
        finally:
            ex.camera_id = saved

    prove("extract_exif", extract, 4, lambda i: pos(i) + ([X.lt(i[2], X.lift(10000.0))] if sym(i) else [i[2] < 10000.0]))

    # ------------------------------------------------------------ times (concrete dates and texts)
    def times(r):
        day, sec, sub, off, mins, which = [int(abs(r()) * 1e6) for _ in range(6)]
        d = datetime.datetime(1980, 1, 1) + datetime.timedelta(days=day % 25000, seconds=sec % 86400)
        micro = sub % 1000
        t, names_ = {}, [("EXIF DateTimeOriginal", "EXIF SubSecTimeOriginal", "EXIF Tag 0x9011"), ("EXIF DateTimeDigitized", "EXIF SubSecTimeDigitized", "EXIF Tag 0x9012"), ("Image DateTime", "Image SubSecTime", "Image Tag 0x9010")]
        epoch = datetime.datetime(1970, 1, 1)
        hh, mm = off % 15, [0, 30, 45][mins % 3]
        sign = 1 if which % 2 else -1
        res = []

        def texts(names3, when, sub3, zone):
            t[names3[0]] = Tag(when.strftime("%Y:%m:%d %H:%M:%S"))
            if sub3 is not None:
                t[names3[1]] = Tag("%03d" % sub3)
            if zone is not None:
                t[names3[2]] = Tag(zone)

        z = "%s%02d:%02d" % ("+" if sign > 0 else "-", hh, mm)
        want = (d - epoch).total_seconds() + micro / 1000
        for k in (2, 1, 0):  # each one overrides the later ones
            texts(names_[k], d + datetime.timedelta(days=k), micro, z)
            res.append((make(t).extract_capture_time(), want + 86400 * k - sign * (3600 * hh + 60 * mm)))
        t2 = dict(t)
        t2[names_[0][0]] = Tag("0000:00:00 00:00:00")  # not a date: the next one is used
        res.append((make(t2).extract_capture_time(), want + 86400 - sign * (3600 * hh + 60 * mm)))
        t3 = {names_[0][0]: t[names_[0][0]], names_[0][2]: Tag("xx")}
        res.append((make(t3).extract_capture_time(), (d - epoch).total_seconds()))
        g = d + datetime.timedelta(days=9)
        t["GPS GPSDate"] = Tag(g.strftime("%Y:%m:%d"))
        t["GPS GPSTimeStamp"] = Tag(Ratio(g.hour, 1), Ratio(g.minute, 1), Ratio(g.second * 1000 + micro, 1000))
        res.append((make(t).extract_capture_time(), want + 9 * 86400))
        for bad in ([Ratio(g.hour, 0), Ratio(1, 1), Ratio(1, 1)], [Ratio(24, 1), Ratio(1, 1), Ratio(1, 1)], [Ratio(1, 1), Ratio(1, 1), Ratio(1, 0)]):
            t["GPS GPSTimeStamp"] = Tag(*bad)
            res.append((make(t).extract_capture_time(), want - sign * (3600 * hh + 60 * mm)))
        res.append((make({}).extract_capture_time(), 0.0))
        return [(g - w, 0.0) for g, w in res]

    ctx.runtime("capture-times", Kernel(times, "exif.EXIF.extract_capture_time"), names(6), lambda i, o: [core.Eq("time[%d]" % k, o[k], o[k + 1], 1e-4) for k in range(0, len(o), 2)], sampler=lambda r: [r.random() for _ in range(6)], samples=400)

    # ------------------------------------------------------------ calibrations and cameras
    TYPES = ["perspective", "fisheye", "brown", "fisheye_opencv", "fisheye62", "fisheye624", "radial", "simple_radial", "dual", "spherical", "equirectangular"]

    def metadata(pt, **k):
        return dict(make=" Acme", model="A1 ", width=640, height=480.0, projection_type=pt, camera="c", **k)

    def cameras(pt):
        c = "fisheye62" if pt == "fisheye62" else pt
        affine = pt in ext.AFFINE

        def f(r):
            fr, fx, cx, cy, prior, tr = r(6)
            full = dict(focal=r(), focal_x=r(), focal_y=r(), c_x=r(), c_y=r(), transition=r(), **{k: r() for k in ("k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3")})
            data = Data(dict(default_focal_prior=prior), {})
            res = []

            def expected(focal, y, x0, y0, d):
                p = "spherical" if pt == "equirectangular" else pt
                v = {k: d.get(k, focal * 0) for k in ext.DIST[p]}
                if p != "spherical":
                    v["focal"] = focal
                if affine:
                    v.update(aspect_ratio=y / focal, cx=x0, cy=y0)
                if p == "dual":
                    v["transition"] = d["transition"]
                return dict(type=p, v=v, id="c", width=640, height=480)

            # calibrations known for the model, in every way they are listed
            for table in ({"acme": {"ALL": full}}, {"acme": {"MODEL": {"a1": full}}}, {"acme": {"FOCAL": {29: full}}}):
                ex.camera_calibration = lambda table=table: [table]
                m = metadata(pt, focal_ratio=0.8)
                res.append((of_camera(ex.camera_from_exif_metadata(m, data)), expected(full["focal_x"] if affine else full["focal"], full["focal_y"], full["c_x"], full["c_y"], full)))
                res.append((sorted(full), sorted(k for k in full if k != "projection_type")))  # the table is left as it is
            # a listed projection type wins
            ex.camera_calibration = lambda: [{"acme": {"ALL": {**full, "projection_type": "Brown"}}}]
            res.append((ex.camera_from_exif_metadata(metadata(pt, focal_ratio=0.8), data).projection_type, "brown"))
            if pt == "dual":
                return res
            # focal length of the image, else the default
            for table in ({}, {"acme": {"MODEL": {"a2": full}}}, {"acme": {"FOCAL": {30: full}}}, {"acme": {}}, {"other": {"ALL": full}}):
                ex.camera_calibration = lambda table=table: [table]
                zero = fr * 0
                res.append((of_camera(ex.camera_from_exif_metadata(metadata(pt, focal_ratio=0.8), data)), expected(zero + 0.8, zero + 0.8, zero, zero, {})))
                res.append((of_camera(ex.camera_from_exif_metadata(metadata(pt, focal_ratio=0), data)), expected(prior, prior, zero, zero, {})))
            ex.camera_calibration = lambda: [{}]
            if affine:
                saved = ex.hard_coded_calibration
                ex.hard_coded_calibration = lambda m: None
                try:
                    res.append((of_camera(ex.camera_from_exif_metadata(metadata(pt, focal_ratio=fr), data)), expected(fr, fr, fr * 0, fr * 0, {})))
                    res.append((of_camera(ex.camera_from_exif_metadata(metadata(pt, focal_ratio=fr, focal_x=fx, c_x=cx, c_y=cy), data)), expected(fx, fx, cx, cy, {})))
                finally:
                    ex.hard_coded_calibration = saved
            return res
        return f

    for pt in TYPES:
        prove("camera_from_exif_metadata/" + pt, cameras(pt), 24, pos)

    def history(r):
        """the camera of an image does not depend on the images before it"""
        prior, fo, k1, k2 = r(4)
        data = Data(dict(default_focal_prior=prior), {})
        res = []
        for a, b in itertools.permutations(("perspective", "fisheye", "spherical"), 2):
            entry = dict(focal=fo, k1=k1, k2=k2)
            ex.camera_calibration = lambda entry=entry: [{"acme": {"FOCAL": {29: entry}}}]
            ca = ex.camera_from_exif_metadata(metadata(a, focal_ratio=0.8), data)
            cb = ex.camera_from_exif_metadata(metadata(b, focal_ratio=0.8), data)
            res += [([ca.projection_type, cb.projection_type], [a, b]), (entry, dict(focal=fo, k1=k1, k2=k2))]
        return res

    prove("independent-of-history", history, 4, pos)

    # ------------------------------------------------------------ measurements of a shot
    def measurements(r):
        lat, lon, alt, dop, w, p, k, acc = r(8)
        grav = r(3)
        res = []
        for use, has_alt, d, gp in itertools.product((True, False), (True, False), (dop, 0.0, None), (True, False)):
            e = {}
            want = dict(orientation=1)
            if gp:
                e["gps"] = dict(latitude=lat, longitude=lon)
                if has_alt:
                    e["gps"]["altitude"] = alt
                if d is not None:
                    e["gps"]["dop"] = d
                a = (alt if not alt > 10000.0 else 10000.0) if use and has_alt else 2.0
                want["gps_position"] = list(Reference().to_topocentric(lat, lon, a))
                want["gps_accuracy"] = d if d is dop else 15.0
            res.append((of_meta(rh.exif_to_metadata(e, use, Reference())), want))
        for opk_acc, o, g, c, cacc, t, sk in itertools.product((acc, None), (None, 6), (True, False), (True, False), (acc, None), (True, False), (True, False)):
            e = dict(opk=dict(omega=w, phi=p, kappa=k))
            want = dict(opk_angles=[w, p, k], opk_accuracy=1.0, orientation=o or 1)
            if opk_acc is not None:
                e["opk"]["accuracy"] = want["opk_accuracy"] = acc
            if o:
                e["orientation"] = o
            if g:
                e["gravity_down"] = want["gravity_down"] = grav
            if c:
                e["compass"] = dict(angle=k)
                want["compass_angle"] = k
                if cacc is not None:
                    e["compass"]["accuracy"] = want["compass_accuracy"] = acc
            if t:
                e["capture_time"] = want["capture_time"] = dop
            if sk:
                e["skey"] = want["sequence_key"] = "s-1"
            res.append((of_meta(rh.exif_to_metadata(e, True, Reference())), want))
        for gps_ in ({}, dict(latitude=lat), dict(longitude=lon), dict(altitude=alt)):
            res.append((of_meta(rh.exif_to_metadata(dict(gps=gps_, opk=dict(omega=w, phi=p)), True, Reference())), dict(orientation=1)))

        class D:
            config = dict(use_altitude_tag=False)
            load_exif = lambda s, image: dict(gps=dict(latitude=lat, longitude=lon, altitude=alt), capture_time=dop) if image == "im" else {}
            load_reference = lambda s: Reference()

        res.append((of_meta(rh.get_image_metadata(D(), "im")), dict(gps_position=list(Reference().to_topocentric(lat, lon, 2.0)), gps_accuracy=15.0, orientation=1, capture_time=dop)))
        return res

    prove("exif_to_metadata", measurements, 11, lambda i: den(3, 7)(i) + uncapped(2)(i), sampler=lambda r: [r.uniform(-80, 80), r.uniform(-180, 180), r.choice([r.uniform(-100, 9000), r.uniform(10000, 20000)])] + [r.uniform(0.1, 20) for _ in range(8)])

    # ------------------------------------------------------------ initial rotations
    # image axes (right, down) of the row 0 and column 0 sides of the stored image, by orientation tag of the EXIF standard: what is up on display
    UP = {1: (0, -1), 2: (0, -1), 3: (0, 1), 4: (0, 1), 5: (-1, 0), 6: (-1, 0), 7: (1, 0), 8: (1, 0)}

    class Shot:
        id = "s"

        def __init__(self):
            self.metadata = ext.ShotMeasurements()

    def rotations(r):
        c, w, p, k = r(4)
        g = r(3)
        calls = []
        saved = rh.multiview.rotation_matrix_from_up_vector_and_compass
        rh.multiview.rotation_matrix_from_up_vector_and_compass = lambda up, angle: calls.append((list(up), angle)) or "rotation"
        res = []
        try:
            for o in list(UP) + [0, 9]:
                for compass, grav in itertools.product((True, False), repeat=2):
                    s = Shot()
                    s.metadata.orientation.value = o
                    if compass:
                        s.metadata.compass_angle.value = c
                    if grav:
                        s.metadata.gravity_down.value = np.array(g, dtype=object)
                    calls.clear()
                    res.append((rh.rotation_from_shot_metadata(s), "rotation"))
                    up = [-v for v in g] if grav else [c * 0 + v for v in (*UP.get(o, UP[1]), 0)]
                    res.append(([c * 0 + v for v in calls[0][0]] + [calls[0][1] + c * 0], up + [c if compass else c * 0]))
            res.append((rh.rotation_from_shot_metadata(Shot()), None))
        finally:
            rh.multiview.rotation_matrix_from_up_vector_and_compass = saved
        s = Shot()
        s.metadata.orientation.value = 6
        s.metadata.opk_angles.value = np.array([w, p, k], dtype=object)
        a = [v * X.PI / 180 if isinstance(v, X.E) else math.radians(v) for v in (w, p, k)]
        res.append((rh.rotation_from_shot_metadata(s), geometry.rotation_from_opk(*a)))
        return res

    prove("initial-rotation", rotations, 7)

    # ------------------------------------------------------------ the command
    def command(r):
        fo, f2, pr = r(3)
        res = []
        ex.camera_calibration = lambda: [{}]
        saved = ex.extract_exif_from_file, ex.hard_coded_calibration
        ex.hard_coded_calibration = lambda m: None

        def exif_of(fp, size, use, name):
            assert fp == (name,) and size() == (480, 640)
            return dict(make="m", model="" if name == "c" else "o", width=640, height=480, projection_type="brown", focal_ratio=fo if use else pr, camera="?")

        ex.extract_exif_from_file = exif_of
        ids = ex.camera_id
        ex.camera_id = lambda d: "%s-%s-%s" % (d["make"], d["model"], d["projection_type"])
        try:
            for unknown, default, over, cams in itertools.product((True, False), (None, "radial"), (None, {"b": dict(focal_ratio=f2, camera="b-cam")}), (None, "all", "one")):
                oc = ext.Camera.of("simple_radial", focal=f2, aspect_ratio=fo, cx=f2, cy=f2, k1=fo)
                oc.id, oc.width, oc.height = "over", 1, 2
                data = Data(dict(use_exif_size=True, unknown_camera_models_are_different=unknown, default_projection_type=default, default_focal_prior=pr), dict.fromkeys(["a", "b", "c", "d"]), over, None if cams is None else {"all": oc} if cams == "all" else {"m-o-" + (default or "brown"): oc, "new": oc}, ("d",))
                data.exifs["d"] = dict(make="x", model="y", width=10, height=20, projection_type="brown", focal_ratio=f2, camera="d-cam")
                em.run_dataset(data)
                pt = default or "brown"
                mo = "unknown_c" if unknown else ""
                want = {}
                for im in "abc":
                    w = dict(make="m", model=mo if im == "c" else "o", width=640, height=480, projection_type=pt, focal_ratio=fo)
                    w["camera"] = "%s-%s-%s" % (w["make"], w["model"], pt)
                    if over and im == "b":
                        w.update(over["b"])
                    want[im] = w
                res.append((data.saved, want))
                z = fo * 0
                cam = {}
                for im in ("a", "b", "c", "d"):
                    w = want.get(im) or data.exifs["d"]
                    if w["camera"] in cam:
                        continue
                    v = {k: z for k in ext.DIST[w["projection_type"]]}
                    v.update(focal=w["focal_ratio"], aspect_ratio=z + 1, cx=z, cy=z)
                    cam[w["camera"]] = dict(type=w["projection_type"], v=v, id=w["camera"], width=w["width"], height=w["height"])
                if cams == "all":
                    cam = {k: {**of_camera(oc), "id": k} for k in cam}
                elif cams == "one":
                    cam["m-o-" + pt] = cam["new"] = of_camera(oc)
                res.append(({k: of_camera(c) for k, c in data.cameras.items()}, cam))
        finally:
            ex.extract_exif_from_file, ex.hard_coded_calibration = saved
            ex.camera_id = ids
        return res

    prove("extract_metadata", command, 3, pos)

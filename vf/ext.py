"""Stand-ins for the classes of the C++ extension modules, by their contracts (the C++ side of which is the subject of other properties).

Values are kept as given; containers reject unknown and duplicate ids as the C++ ones do.
"""
import numpy as np

DIST = dict(perspective=["k1", "k2"], fisheye=["k1", "k2"], brown=["k1", "k2", "k3", "p1", "p2"], fisheye_opencv=["k1", "k2", "k3", "k4"],
            fisheye62=["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2"], fisheye624=["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3"],
            dual=["k1", "k2"], radial=["k1", "k2"], simple_radial=["k1"], spherical=[])
SHORT = ("perspective", "fisheye", "dual")  # focal only
AFFINE = ("brown", "fisheye_opencv", "fisheye62", "fisheye624", "radial", "simple_radial")


def params_of(pt):
    if pt == "spherical":
        return []
    return DIST[pt] + ["focal"] + (["transition"] if pt == "dual" else []) + (["aspect_ratio", "cx", "cy"] if pt in AFFINE else [])


class Camera:
    def __init__(self):
        self.id, self.width, self.height = "", 1, 1
        self.projection_type = "perspective"
        self.v = {}

    @classmethod
    def of(cls, pt, **v):
        c = cls()
        c.projection_type = pt
        if sorted(v) != sorted(params_of(pt)):
            raise RuntimeError("parameters of a %s camera: %r" % (pt, sorted(v)))
        c.v = v
        return c

    def __getattr__(self, n):
        if n.startswith("_") or n == "v":
            raise AttributeError(n)
        if n == "principal_point":
            return np.array([self.v["cx"], self.v["cy"]], dtype=object)
        if n not in self.v:
            raise RuntimeError("Unknown parameter %s of %s" % (n, self.projection_type))
        return self.v[n]

    @staticmethod
    def is_panorama(pt):
        return pt in ("spherical", "equirectangular")


def _short(pt):
    return staticmethod(lambda focal, k1, k2: Camera.of(pt, focal=focal, k1=k1, k2=k2))


def _affine(pt):
    def f(focal, aspect_ratio, principal_point, distortion):
        d = [distortion] if pt == "simple_radial" else list(distortion)
        if len(d) != len(DIST[pt]) or len(principal_point) != 2:
            raise RuntimeError("Invalid distortion coefficients size")
        return Camera.of(pt, focal=focal, aspect_ratio=aspect_ratio, cx=principal_point[0], cy=principal_point[1], **dict(zip(DIST[pt], d)))

    return staticmethod(f)


Camera.create_perspective, Camera.create_fisheye = _short("perspective"), _short("fisheye")
Camera.create_dual = staticmethod(lambda transition, focal, k1, k2: Camera.of("dual", transition=transition, focal=focal, k1=k1, k2=k2))
Camera.create_spherical = staticmethod(lambda: Camera.of("spherical"))
for _p in AFFINE:
    setattr(Camera, "create_" + _p, _affine(_p))


def vec3(v):
    v = list(v)
    if len(v) != 3:
        raise TypeError("not a 3-vector")
    return np.array(v, dtype=object)


class Vec:
    """an attribute that is a 3-vector"""

    def __set_name__(self, o, n):
        self.n = "_" + n

    def __get__(self, o, c):
        return getattr(o, self.n)

    def __set__(self, o, v):
        setattr(o, self.n, vec3(v))


class Pose:
    rotation, translation = Vec(), Vec()

    def __init__(self, rotation=(0.0, 0.0, 0.0), translation=(0.0, 0.0, 0.0)):
        self.rotation, self.translation = rotation, translation

    def copy(self):
        return Pose(self.rotation, self.translation)


class Similarity:
    rotation, translation = Vec(), Vec()

    def __init__(self, rotation=(0.0, 0.0, 0.0), translation=(0.0, 0.0, 0.0), scale=1.0):
        self.rotation, self.translation, self.scale = rotation, translation, scale


class Opt:
    def __init__(self, vector=False):
        self._v, self.vector = None, vector

    @property
    def has_value(self):
        return self._v is not None

    @property
    def value(self):
        if self._v is None:
            raise RuntimeError("no value")
        return self._v

    @value.setter
    def value(self, v):
        self._v = vec3(v) if self.vector else v

    def reset(self):
        self._v = None


class ShotMeasurements:
    FIELDS = dict(orientation=0, capture_time=0, gps_accuracy=0, gps_position=1, gravity_down=1, compass_angle=0, compass_accuracy=0, sequence_key=0, opk_angles=1, opk_accuracy=0)

    def __init__(self):
        for k, v in self.FIELDS.items():
            setattr(self, k, Opt(bool(v)))
        self.attributes = {}


class Mesh:
    def __init__(self):
        self.vertices, self.faces = np.zeros((0, 3)), np.zeros((0, 3))


class RigCamera:
    def __init__(self, pose=None, id=""):
        self.pose, self.id = (pose or Pose()).copy(), id


class RigInstance:
    def __init__(self, id=""):
        self.id, self.pose = id, Pose()
        self.shots, self.rig_cameras = {}, {}

    @property
    def rig_camera_ids(self):
        return {k: v.id for k, v in self.rig_cameras.items()}

    def keys(self):
        return set(self.shots)


class Shot:
    def __init__(self, id, camera, pose, rig_instance=None, rig_camera=None):
        self.id, self.camera, self.pose = id, camera, pose
        self.metadata, self.mesh, self.scale, self.merge_cc = ShotMeasurements(), Mesh(), 1.0, 0
        self.covariance = np.zeros((6, 6))
        self.rig_instance, self.rig_camera = rig_instance, rig_camera
        self.at_creation = None if rig_camera is None else rig_camera.pose.copy()  # pose of the rig camera when the pose was set

    rig_instance_id = property(lambda self: self.rig_instance.id)
    rig_camera_id = property(lambda self: self.rig_camera.id)


class Color(np.ndarray):
    def astype(self, t, *a, **k):
        if any(hasattr(v, "op") for v in self.reshape(-1)):
            return self
        return np.asarray(self).astype(t)


class Landmark:
    coordinates = Vec()

    @property
    def color(self):
        return np.array(list(self._color), dtype=object).view(Color)

    @color.setter
    def color(self, v):
        if len(v) != 3:
            raise TypeError("not a colour")
        self._color = list(v)

    def __init__(self, id, coordinates):
        self.id, self.coordinates, self.color = id, coordinates, np.array([255, 0, 0])
        self.observations = {}

    def get_observations(self):
        return self.observations

    def number_of_observations(self):
        return len(self.observations)


class View:
    def __init__(self, name):
        self.name = name

    def __call__(self, m):
        v = _View()
        v.d = getattr(m, self.name)
        return v


class _View:
    def __len__(self):
        return len(self.d)

    def items(self):
        return self.d.items()

    def values(self):
        return self.d.values()

    def keys(self):
        return self.d.keys()

    def __iter__(self):
        return iter(self.d)

    def get(self, k, default=None):
        return self.d.get(k, default)

    def __getitem__(self, k):
        return self.d[k]

    def __contains__(self, k):
        return k in self.d


class Reference:
    def __init__(self, lat, lon, alt):
        self.lat, self.lon, self.alt = lat, lon, alt


class Map:
    """contracts of map::Map: ids are unique, what an object refers to exists"""

    def __init__(self):
        for n in ("cameras", "biases", "rig_cameras", "rig_instances", "shots", "pano_shots", "landmarks"):
            setattr(self, n, {})
        self.reference = Reference(0.0, 0.0, 0.0)

    @staticmethod
    def _add(d, k, v):
        if k in d:
            raise RuntimeError("%s already exists" % k)
        d[k] = v
        return v

    @staticmethod
    def _get(d, k):
        if k not in d:
            raise RuntimeError("Accessing invalid id %s" % k)
        return d[k]

    def create_camera(self, c):
        self.biases.setdefault(c.id, Similarity())
        return self.cameras.setdefault(c.id, c)

    def set_bias(self, k, b):
        self._get(self.cameras, k)
        self.biases[k] = b

    def create_rig_camera(self, c):
        return self._add(self.rig_cameras, c.id, RigCamera(c.pose, c.id))

    def create_rig_instance(self, k):
        return self._add(self.rig_instances, k, RigInstance(k))

    def update_rig_instance(self, i):
        r = self._get(self.rig_instances, i.id)
        r.pose = i.pose.copy()
        return r

    def _shot(self, d, k, camera, rig_camera, rig_instance, pose):
        if k in d:
            raise RuntimeError("Shot %s already exists" % k)
        cam, inst, rc = self._get(self.cameras, camera), self._get(self.rig_instances, rig_instance), self._get(self.rig_cameras, rig_camera)
        s = Shot(k, cam, pose.copy() if pose is not None else None, inst, rc)
        inst.shots[k] = s
        inst.rig_cameras[k] = rc
        d[k] = s
        return s

    def create_shot(self, k, camera, rig_camera, rig_instance, pose=None):
        return self._shot(self.shots, k, camera, rig_camera, rig_instance, pose)

    def create_pano_shot(self, k, camera, rig_camera, rig_instance, pose=None):
        return self._shot(self.pano_shots, k, camera, rig_camera, rig_instance, pose)

    def create_landmark(self, k, x):
        return self._add(self.landmarks, k, Landmark(k, x))

    def get_reference(self):
        return self.reference

    def set_reference(self, lat, lon, alt):
        self.reference = Reference(lat, lon, alt)

    def add_observation(self, shot, lm, obs):
        self._get(self.landmarks, lm).observations[self._get(self.shots, shot).id] = obs


class GroundControlPointObservation:
    def __init__(self, *a):
        self.shot_id, self.uid, self.projection = "", 0, np.zeros(2)
        if a:
            self.shot_id, self.projection = a


class GroundControlPoint:
    def __init__(self):
        self.id, self.survey_point_id, self.has_altitude, self.lla, self.observations, self.role = "", 0, False, {}, [], None

    def add_observation(self, o):
        self.observations = self.observations + [o]


class Depth:
    def __init__(self, value=0.0, is_radial=True, std_deviation=1.0):
        self.value, self.is_radial, self.std_deviation = value, is_radial, std_deviation


class Observation:
    NO_SEMANTIC_VALUE = -1

    def __init__(self, x, y, s, r, g, b, feature, segmentation=-1, instance=-1):
        for v in (r, g, b, feature, segmentation, instance):
            if not isinstance(v, (int, np.integer)) or isinstance(v, bool):
                raise TypeError("incompatible constructor arguments")
        self.point, self.scale, self.color = np.array([x, y], dtype=object if hasattr(x, "op") or hasattr(y, "op") else float), s, np.array([r, g, b])
        self.id, self.segmentation, self.instance, self.depth_prior = int(feature), int(segmentation), int(instance), None

    def copy(self):
        o = Observation(0.0, 0.0, 0.0, 0, 0, 0, 0)
        o.__dict__.update(self.__dict__)
        return o


class TracksManager:
    """the contract of map::TracksManager (P10)"""

    def __init__(self):
        self.by_shot, self.by_track = {}, {}

    def add_observation(self, shot, track, o):
        if not isinstance(shot, str) or not isinstance(track, str) or not isinstance(o, Observation):
            raise TypeError("incompatible function arguments")
        o = o.copy()
        self.by_shot.setdefault(shot, {})[track] = o
        self.by_track.setdefault(track, {})[shot] = o

    def remove_observation(self, shot, track):
        if shot not in self.by_shot or track not in self.by_track:
            raise RuntimeError("Accessing invalid ID")
        self.by_shot[shot].pop(track, None)
        self.by_track[track].pop(shot, None)

    def num_shots(self):
        return len(self.by_shot)

    def num_tracks(self):
        return len(self.by_track)

    def get_shot_ids(self):
        return list(self.by_shot)

    def get_track_ids(self):
        return list(self.by_track)

    def _of(self, d, k):
        if k not in d:
            raise RuntimeError("Accessing invalid ID")
        return dict(d[k])

    def get_shot_observations(self, s):
        return self._of(self.by_shot, s)

    def get_track_observations(self, t):
        return self._of(self.by_track, t)

    def get_observation(self, s, t):
        if t not in self._of(self.by_shot, s):
            raise RuntimeError("Accessing invalid ID")
        return self.by_shot[s][t]

    def get_all_common_observations(self, a, b):
        x, y = self._of(self.by_shot, a), self._of(self.by_shot, b)
        return [(t, o, y[t]) for t, o in x.items() if t in y]

    def get_all_pairs_connectivity(self, shots=(), tracks=()):
        r = {}
        for t in tracks or self.by_track:
            for a in self.by_track.get(t, {}):
                for b in self.by_track[t]:
                    if a < b and (not shots or a in shots and b in shots):
                        r[a, b] = r.get((a, b), 0) + 1
        return r


def install(*mods):
    """bind the names of the stub modules to the stand-ins"""
    import sys

    g, p = sys.modules["opensfm.pygeometry"], sys.modules["opensfm.pymap"]
    for k, v in dict(Camera=Camera, Pose=Pose, Similarity=Similarity).items():
        setattr(g, k, v)
    for k, v in dict(Depth=Depth, Observation=Observation, TracksManager=TracksManager, Shot=Shot, ShotMeasurements=ShotMeasurements, RigCamera=RigCamera, RigInstance=RigInstance, Landmark=Landmark, Map=Map, GroundControlPoint=GroundControlPoint, GroundControlPointObservation=GroundControlPointObservation,
                     CameraView=View("cameras"), BiasView=View("biases"), RigCameraView=View("rig_cameras"), RigInstanceView=View("rig_instances"), ShotView=View("shots"), PanoShotView=View("pano_shots"), LandmarkView=View("landmarks")).items():
        setattr(p, k, v)

"""P11 the map stays consistent under every sequence of edits (map.cc, shot.cc, landmark.cc, rig.cc)"""
import itertools
import math
import random

from vf import core
from vf import expr as X
from vf.core import Cond, Eq

from .P06 import sym
from .P09 import names

NS, NL, NF, NI = 4, 3, 6, 4


class Lin:
    """a sum of values of the input"""

    def __init__(self, *terms):
        self.t = terms

    def __add__(self, o):
        return Lin(*self.t, *o.t)

    def __sub__(self, o):
        return Lin(*self.t, *[(-s, k) for s, k in o.t])

    def at(self, i):
        r = X.ZERO if sym(i) else 0.0
        for s, k in self.t:
            r = r + i[k] if s > 0 else r - i[k]
        return r


def val(k):
    return Lin((1, k))


def vec(k):
    """three values of payload k"""
    return [val(12 + 3 * k + j) for j in range(3)]


ZERO3 = [Lin()] * 3
RC = {0: ZERO3, 1: [val(6 + j) for j in range(3)]}


class Shot:
    def __init__(self, cam, rc, inst):
        self.cam, self.rc, self.inst = cam, rc, inst
        self.merge, self.scale, self.gps = 0, Lin(), None

    def copy(self):
        s = Shot(self.cam, self.rc, self.inst)
        s.merge, s.scale, s.gps = self.merge, self.scale, self.gps
        s.meas = getattr(self, "meas", None)
        return s


class Ghost:
    """what is in a map: shots and panoramas, landmarks, observations (shot, landmark) -> (feature, payload), poses of rig instances"""

    def __init__(self):
        self.shots, self.pano, self.lms, self.obs, self.inst, self.err = {}, {}, {}, {}, {}, True

    def pose(self, s):
        return [a + b for a, b in zip(RC[s.rc], self.inst[s.inst])]


class Script:
    def __init__(self):
        self.cfg, self.exp = [], []

    def start(self):
        self.cfg.append(20)
        self.g = Ghost()
        self.all = [self.g]

    def use(self, k):
        self.cfg += [21, k]
        self.g = self.all[k]

    def create(self, s, cam, rc, inst, pay, pano=False):
        g = self.g
        self.cfg += [0, s, cam, rc, inst, pay, int(pano)]
        h = Shot(cam, rc, inst)
        h.merge, h.scale, h.gps = 7 + s, vec(pay)[0], vec(pay) if s % 2 else None
        (g.pano if pano else g.shots)[s] = h
        g.inst[inst] = [a - b for a, b in zip(vec(pay), RC[rc])]

    def remove(self, s, pano=False):
        self.cfg += [9 if pano else 1, s]
        (self.g.pano if pano else self.g.shots).pop(s)
        if not pano:
            self.g.obs = {k: v for k, v in self.g.obs.items() if k[0] != s}

    def landmark(self, l, pay):
        self.cfg += [2, l, pay]
        self.g.lms[l] = vec(pay)

    def remove_landmark(self, l, by_pointer=False):
        self.cfg += [10 if by_pointer else 3, l]
        self.g.lms.pop(l)
        self.g.obs = {k: v for k, v in self.g.obs.items() if k[1] != l}

    def observe(self, s, l, f, pay):
        self.cfg += [4, s, l, f, pay]
        self.g.obs[s, l] = (f, pay)

    def forget(self, s, l):
        self.cfg += [5, s, l]
        self.g.obs.pop((s, l))

    def clear(self):
        self.cfg += [6]
        self.g.lms, self.g.obs = {}, {}

    def clean(self, n):
        self.cfg += [7, n]
        for l in [l for l in self.g.lms if sum(k[1] == l for k in self.g.obs) < n]:
            self.g.lms.pop(l)
            self.g.obs = {k: v for k, v in self.g.obs.items() if k[1] != l}

    def copy(self, obs):
        self.cfg += [8, int(obs)]
        g, c = self.g, Ghost()
        c.shots, c.pano = {k: s.copy() for k, s in g.shots.items()}, {k: s.copy() for k, s in g.pano.items()}
        c.lms, c.obs, c.err = dict(g.lms), dict(g.obs) if obs else {}, False
        c.inst = {s.inst: g.inst[s.inst] for s in [*g.shots.values(), *g.pano.values()]}
        self.g = c
        self.all.append(c)

    def remove_instance(self, i):
        self.cfg += [11, i]
        self.g.inst.pop(i)

    def update(self, s, pay, mask=0):
        h = self.g.shots[s]
        self.cfg += [14, s, h.inst, pay, mask]
        h.merge, h.scale = 99, vec(pay)[1]
        self.g.inst[h.inst] = [a - b for a, b in zip(vec(pay), RC[h.rc])]
        self._measured(h, s, mask, pay)

    def measure(self, s, mask, pay):
        self.cfg += [16, s, mask, pay]
        self._measured(self.g.shots.get(s) or self.g.pano[s], s, mask, pay)

    def _measured(self, h, s, mask, pay):
        p = vec(pay)
        h.gps = p if mask & 2 else None
        m = []
        for b, w in ((1, p[0]), (4, p[1]), (8, p[2]), (16, p[0] + p[1]), (64, p[0] - p[1])):
            m += [1, w] if mask & b else [0, 0]
        for b, c in ((2, 1), (32, 2), (128, 3)):
            m += [1] + [sum([x] * (c - 1), x) if c > 1 else x for x in p] if mask & b else [0] * 4
        m += [3 + s if mask & 256 else -1, 1 if mask & 512 else -1, 2 if mask & 1024 else 0, int(bool(mask & 1024))]
        h.meas = m

    def measurements(self):
        self.cfg += [17]
        for s in range(NS):
            h = self.g.shots.get(s) or self.g.pano.get(s)
            if h:
                self.exp += getattr(h, "meas", None) or [0] * 10 + ([1, *h.gps] if h.gps else [0] * 4) + [0] * 8 + [-1, -1, 0, 0]

    def update_rig(self, inst, a, b, pay, pano):
        """a is there with rig camera 0, b is made with rig camera 1"""
        self.cfg += [18, inst, a, b, pay, int(pano)]
        d = self.g.pano if pano else self.g.shots
        if b not in d:
            d[b] = Shot(1, 1, inst)
            d[b].merge, d[b].scale = 51, vec(pay)[1]
        d[a].merge, d[a].scale, d[a].gps, d[a].meas = 50, vec(pay)[0], None, None
        # the second shot of the other map sets the pose of its instance
        self.g.inst[inst] = [p - q for p, q in zip(vec(pay), RC[1])]

    def _obs(self, o):
        return [*vec(o[1]), o[0], 60 + o[0]]

    def dump(self):
        g, e = self.g, []
        self.cfg += [12, int(g.err)]
        e += [len(g.shots), len(g.lms), len(g.pano)]
        for d, pano in ((g.shots, 0), (g.pano, 1)):
            e.append(len(d))
            for s in range(NS):
                e.append(int(s in d))
                if s not in d:
                    continue
                h = d[s]
                e += [s, h.cam, 1, h.rc, 1, h.inst, 1, *g.pose(h), h.merge, h.scale, int(h.gps is not None), *(h.gps or [])]
                mine = {} if pano else {l: o for (a, l), o in g.obs.items() if a == s}
                e += [len(mine), len(mine)]
                for l in range(NL):
                    if l in mine:
                        e += [1, *self._obs(mine[l]), *self._obs(mine[l])]
                    e.append(int(l in mine))
                for f in range(NF):
                    at = [l for l, o in mine.items() if o[0] == f]
                    e += [at[0], *self._obs(mine[at[0]])] if at else [-1]
        for l in range(NL):
            e.append(int(l in g.lms))
            if l not in g.lms:
                continue
            mine = {s: o for (s, m), o in g.obs.items() if m == l}
            e += [len(mine), *g.lms[l], 1 + l, 2, 3]
            for s in range(NS):
                if s in mine:
                    e += [1, mine[s][0], mine[s][0]]
                e.append(int(s in mine))
                if g.err:
                    e += [1, *vec(mine[s][1])[:2]] if s in mine else [0]
        for i in range(NI):
            e.append(int(i in g.inst))
            if i in g.inst:
                mine = {s: h for d in (g.shots, g.pano) for s, h in d.items() if h.inst == i}
                e += [i, len(mine), len(mine)]
                for s in range(NS):
                    e += [1, mine[s].rc] if s in mine else [0, -1]
        e += [2, 2]
        for c in range(2):
            e += [1, 0.5 + c, 100 + c, *[val(3 * c + j) for j in range(3)], 2 + c]
        e += [val(9), val(10), val(11)]
        self.exp += e

    def tracks(self):
        g, e = self.g, []
        self.cfg += [13]
        ss = {s for s, _ in g.obs}
        e += [len(ss), len({l for _, l in g.obs})]
        for s in range(NS):
            e.append(int(s in ss))
            if s in ss:
                mine = {l: o for (a, l), o in g.obs.items() if a == s}
                e.append(len(mine))
                for l in range(NL):
                    e += [1, *self._obs(mine[l])] if l in mine else [0]
        self.exp += e


def build(ctx):
    ctx.assume("A-REAL: floating point numbers are read as exact reals", "A-SHAPE: maps of at most 4 shots, 4 panoramas, 3 landmarks and 4 rig instances, histories of the listed lengths; poses (translations), positions and observations in them are arbitrary",
               "A-PRE: an observation is added once for a shot and a landmark, with a feature of the shot that no other landmark has; only empty rig instances are removed", "A-STD: hash functions, rehashing policy and tree balancing of libstdc++ replaced by cxx/rt.h in the proof (compiled for real at run time)")
    ctx.under_contract(*["map::Map::" + n for n in ("DeepCopy", "AddObservation", "RemoveObservation", "GetShot", "GetPanoShot", "GetLandmark", "ClearObservationsAndLandmarks", "CleanLandmarksBelowMinObservations", "CreateShot", "RemoveShot", "CreatePanoShot", "RemovePanoShot", "CreateLandmark", "RemoveLandmark",
                                                    "CreateCamera", "UpdateShotWithRig", "UpdateShot", "UpdatePanoShot", "CreateRigCamera", "CreateRigInstance", "RemoveRigInstance", "GetRigInstance", "GetBias", "SetBias", "ComputeReprojectionErrors", "GetValidObservations", "ToTracksManager")],
                       *["map::Shot::" + n for n in ("CreateObservation", "RemoveLandmarkObservation", "GetLandmarkObservation", "GetObservation", "GetObservationLandmark", "ComputeValidLandmarks")],
                       *["map::Landmark::" + n for n in ("AddObservation", "RemoveObservation", "GetObservationIdInShot", "RemoveReprojectionError")], "map::ShotMeasurements::Set", *["map::RigInstance::" + n for n in ("AddShot", "RemoveShot", "GetShotIDs")])
    u = core.CxxUnit(ctx, "maps.cc", max_steps=60_000_000)
    P = 10
    n = 12 + 3 * P

    def pre(i):
        # the pose of the second rig camera is not the identity
        return [X.gt(i[6], X.lift(0.1))] if sym(i) else [i[6] > 0.1]

    def smp(r):
        v = [r.uniform(-2, 2) for _ in range(n)]
        v[6] = r.uniform(0.2, 2)
        return v

    def script(name, s):
        s.cfg.append(-1)
        exp = s.exp

        def p(i, o):
            res = []
            for k, e in enumerate(exp):
                w = e.at(i) if isinstance(e, Lin) else X.lift(float(e)) if sym(i) else float(e)
                res.append(Eq("answer[%d]" % k, o[k], w, 1e-9) if o[k] is not None else Cond("answer[%d]" % k, X.FALSE))
            return res

        ctx.prove(name, core.CxxKernel(u, "script", len(exp) + 4000, s.cfg), names(n), p, pre=pre, sampler=smp, samples=2)

    rng = random.Random(3)

    def step(s, copies=True):
        """one applicable edit"""
        g = s.g
        for _ in range(50):
            op = rng.choice(["create", "create", "landmark", "landmark", "observe", "observe", "observe", "observe", "observe", "forget", "remove", "remove-landmark", "clean", "clear", "pano", "pano-remove", "copy", "back", "update", "instance"])
            if op in ("create", "pano"):
                d = g.pano if op == "pano" else g.shots
                free = [k for k in range(NS) if k not in g.shots and k not in g.pano]
                rc = rng.choice([0, 0, 1])
                # an instance has each rig camera once, and either shots or panoramas
                ok = [i for i in range(NI) if all(h.rc != rc for q in (g.shots, g.pano) for h in q.values() if h.inst == i) and not any(h.inst == i for h in (g.shots if op == "pano" else g.pano).values())]
                if free and ok and (op == "create" or len(d) < 2):
                    return s.create(rng.choice(free), rng.randrange(2), rc, rng.choice(ok), rng.randrange(P), op == "pano")
            elif op == "landmark":
                free = [l for l in range(NL) if l not in g.lms]
                if free:
                    return s.landmark(rng.choice(free), rng.randrange(P))
            elif op == "observe":
                c = [(a, l) for a in g.shots for l in g.lms if (a, l) not in g.obs]
                if c:
                    a, l = rng.choice(c)
                    f = rng.choice([f for f in range(NF) if f not in [o[0] for (b, _), o in g.obs.items() if b == a]])
                    return s.observe(a, l, f, rng.randrange(P))
            elif op == "forget" and g.obs:
                return s.forget(*rng.choice(sorted(g.obs)))
            elif op == "remove" and len(g.shots) > 1 and rng.random() < 0.6:
                return s.remove(rng.choice(sorted(g.shots)))
            elif op == "pano-remove" and g.pano:
                return s.remove(rng.choice(sorted(g.pano)), True)
            elif op == "remove-landmark" and g.lms and rng.random() < 0.6:
                return s.remove_landmark(rng.choice(sorted(g.lms)), rng.random() < 0.5)
            elif op == "clean" and rng.random() < 0.3:
                return s.clean(rng.choice([1, 2, 3]))
            elif op == "clear" and rng.random() < 0.2:
                return s.clear()
            elif op == "copy" and copies and len(s.all) < 3 and rng.random() < 0.6:
                return s.copy(rng.random() < 0.7)
            elif op == "back" and len(s.all) > 1:
                return s.use(rng.randrange(len(s.all)))
            elif op == "update" and g.shots:
                a = rng.choice(sorted(g.shots))
                if g.shots[a].rc == 0:
                    return s.update(a, rng.randrange(P), rng.choice([0, 2, rng.randrange(2048)]))
            elif op == "instance":
                free = [i for i in g.inst if not any(h.inst == i for q in (g.shots, g.pano) for h in q.values())]
                if free:
                    return s.remove_instance(rng.choice(free))

    for t in range(40):
        s = Script()
        for _ in range(3):
            s.start()
            for k in range(22):
                step(s)
                if k % 7 == 6 or k == 21:
                    s.dump()
                    s.tracks()
        script("history/%d" % t, s)

    def full(s):
        s.start()
        for k, (rc, inst) in enumerate(((0, 0), (1, 0), (0, 2))):
            s.create(k, k % 2, rc, inst, k)
        for l in range(2):
            s.landmark(l, 3 + l)
        for j, (a, l) in enumerate(itertools.product(range(3), range(2))):
            s.observe(a, l, (a + 2 * l) % NF, 4 + j)

    # every pair of removals from a full map
    ops = [("remove", k) for k in range(3)] + [("remove_landmark", k) for k in range(2)] + [("forget", a, l) for a in range(3) for l in range(2)] + [("clean", 2), ("clean", 3), ("clean", 4), ("clear",), ("copy", True), ("copy", False)]
    pairs = list(itertools.product(ops, repeat=2))
    for g in range(0, len(pairs), 32):
        s = Script()
        for pr in pairs[g:g + 32]:
            full(s)
            for op, *a in pr:
                if op == "remove" and a[0] not in s.g.shots or op == "remove_landmark" and a[0] not in s.g.lms or op == "forget" and tuple(a) not in s.g.obs:
                    continue
                getattr(s, op)(*a)
            s.dump()
            s.tracks()
        script("removals/%d" % (g // 32), s)

    # measurements, one after the other and all together, through copies and updates
    s = Script()
    for mask in [0, *[1 << b for b in range(11)], 2047, 0b10101010101, 0b01010101010]:
        full(s)
        s.create(3, 1, 0, 3, 5, True)
        s.measure(0, mask, 1)
        s.measure(2, 2047 - mask, 2)
        s.measure(3, mask, 3)
        s.measurements()
        s.copy(True)
        s.measurements()
        s.measure(0, 2047, 4)
        s.update(2, 1)
        s.measurements()
        s.update(0, 6, mask)
        s.update(2, 7, 2047 - mask)
        s.measurements()
        s.use(0)
        s.measurements()
    script("measurements", s)

    # a shot updated with one of a rig brings the other shots of the rig
    for pano in (False, True):
        s = Script()
        s.start()
        s.create(0, 0, 0, 0, 1)
        s.create(1, 0, 0, 1, 2, pano)
        s.update_rig(1, 1, 3, 3, pano)
        s.measurements()
        s.dump()
        s.update_rig(1, 1, 3, 4, pano)
        s.dump()
        s.copy(True)
        s.dump()
        script("update-rig/%s" % ("panoramas" if pano else "shots"), s)

    # what is not there is refused, and so are duplicates
    s = Script()
    full(s)
    s.forget(0, 0)
    base = s.cfg
    for name, cmd in (("remove-shot", [1, 3]), ("remove-landmark", [3, 2]), ("observe-shot", [4, 3, 0, 0, 0]), ("observe-landmark", [4, 0, 2, 0, 0]), ("forget", [5, 0, 0]), ("remove-pano", [9, 0]), ("create-duplicate", [0, 0, 0, 0, 1, 0, 0]), ("landmark-duplicate", [2, 0, 0]),
                      ("unknown-camera", [0, 3, 2, 0, 1, 0, 0]), ("unknown-rig-camera", [0, 3, 0, 2, 1, 0, 0]), ("rig-camera-twice", [0, 3, 0, 0, 0, 0, 0]), ("remove-instance", [11, 3]), ("update-unknown", [14, 3, 3, 0, 0])):
        k = core.CxxKernel(u, "script", 100, base + cmd + [-1])
        ctx.prove("refuses/" + name, core.Throws(k), names(n), lambda i, o: [Eq("throws", o[0], X.ONE if sym(i) else 1.0)], pre=pre, sampler=smp, samples=2, allow_throw=True)

    # tracks managers seen through the map
    def errors(name, s, native):
        s.cfg += [15, -1]
        g = s.g

        def p(i, o):
            lift = (lambda v: X.lift(float(v))) if sym(i) else float
            res, k = [], 0

            def put(label, w):
                nonlocal k
                if w is not None:
                    res.append(Eq("%s[%d]" % (label, k), o[k], w, 1e-7) if o[k] is not None else Cond("%s[%d]" % (label, k), X.FALSE))
                k += 1

            seen = {a: [l for l in range(NL) if l in g.lms and (a + l) % 3 != 2] for a in g.shots}
            for _ in range(4):
                put("shots", lift(len(seen)))
            for a in range(NS):
                put("has-shot", lift(a in seen))
                if a not in seen:
                    continue
                for _ in range(4):
                    put("landmarks", lift(len(seen[a])))
                for l in range(NL):
                    put("has-landmark", lift(l in seen[a]))
                    if l not in seen[a]:
                        continue
                    q = [e.at(i) for e in vec((a + l) % 4)]
                    for v in (q[0], q[1], q[2], lift(l), lift(0)):
                        put("observation", v)
                    x = [b.at(i) + c.at(i) for b, c in zip(g.lms[l], g.pose(g.shots[a]))]
                    f = lift(0.5 + g.shots[a].cam)
                    e = [q[j] - f * x[j] / x[2] for j in range(2)]
                    put("pixel", e[0]), put("pixel", e[1])
                    put("normalized", e[0] / q[2]), put("normalized", e[1] / q[2])
                    if native:
                        b = [q[0] / f, q[1] / f, 1.0]
                        c = sum(u * v for u, v in zip(b, x)) / math.sqrt(sum(u * u for u in b) * sum(v * v for v in x))
                        w = math.acos(max(-1.0, min(1.0, c)))
                        put("angular", w), put("angular", w)
                    else:
                        put("angular", None), put("angular", None)
            return res

        def pr(i):
            r = list(pre(i))
            for a, h in g.shots.items():
                for l, x in g.lms.items():
                    z = x[2].at(i) + g.pose(h)[2].at(i)
                    r.append(X.gt(z, X.lift(0.01)) if sym(i) else z > 0.01)
            for k in range(4):
                z = vec(k)[2].at(i)
                r.append(X.gt(z, X.lift(0.01)) if sym(i) else z > 0.01)
            return r

        def sm(r):
            v = smp(r)
            for k in range(P):
                v[12 + 3 * k + 2] = r.uniform(0.2, 2)
            v[8] = 0.0
            return v

        (ctx.runtime if native else ctx.prove)(name, core.CxxKernel(u, "script", 1000, s.cfg), names(n), p, pre=pr, sampler=sm, samples=200 if native else 5)

    for native in (0, 1):
        for t in range(3):
            s = Script()
            s.start()
            for a in range(2 + t % 2):
                s.create(a, a % 2, 0, a, 4 + a)
            for l in range(1 + t):
                s.landmark(l, 7 + l)
            errors("%s/%d" % ("angular-errors" if native else "errors", t), s, native)

"""P14 pairs of images to match and matches of features are the nearest ones asked for (pairs_selection.py, matching.py)"""
import inspect
import itertools
import logging
import math
from types import SimpleNamespace as NS

import numpy as np

from vf import core, ext, pysym
from vf import expr as X

from .P06 import CV2, sym
from .P09 import Kernel, R, names, post


class Reference:
    """contract of the topocentric converter: a function of latitude, longitude and altitude (here the identity)"""

    def to_topocentric(self, lat, lon, alt):
        return lat, lon, alt


def sq(a, b):
    return sum((x - y) * (x - y) for x, y in zip(a, b))


class Tree:
    """contract of a k-d tree: the k nearest points closer than a bound, nearest first; missing ones have the number of points as index"""

    def __init__(self, points, *a, **k):
        self.p = [list(q) for q in points]
        self.n, self.data = len(self.p), points

    def query(self, x, k=1, eps=0, p=2, distance_upper_bound=np.inf, workers=1):
        if np.ndim(x) == 2:
            rows = [self.query(q, k, distance_upper_bound=distance_upper_bound) for q in x]
            return np.array([r[0] for r in rows], dtype=object), np.array([r[1] for r in rows])
        d = [sq(x, q) for q in self.p]
        b = distance_upper_bound
        near = []
        for j in range(len(d)):
            if not isinstance(b, X.E) and b == np.inf or d[j] < b * b:
                at = len(near)
                while at and d[j] < d[near[at - 1]]:
                    at -= 1
                near.insert(at, j)
        near = (near + [len(d)] * k)[:k]
        dist = [d[j] if j < len(d) else np.inf for j in near]
        return (dist[0], near[0]) if k == 1 else (np.array(dist, dtype=object), np.array(near))


def text(pairs):
    """names of a set of pairs"""
    return " ".join("%s-%s" % p for p in sorted(pairs))


def und(a, b):
    return (a, b) if a < b else (b, a)


def nearest(ref, cand, d, k, inside=lambda r, c: True):
    """pairs of a reference with its k nearest other candidates"""
    res = set()
    for r in ref:
        for c in cand:
            if c == r:
                continue
            closer = 0
            for o in set(cand) - {r, c}:
                if d(r, o) < d(r, c):
                    closer += 1
            if closer < k and inside(r, c):
                res.add(und(r, c))
    return res


SHAPES = [("abc", "abc"), ("a", "abc"), ("ab", "cd"), ("a", "b"), ("ab", "b"), ("a", "bcd"), ("abc", "ab"), ("abc", "d"), ("ab", "bc"), ("", "ab"), ("abcd", "bd")]


def build(ctx):
    ctx.assume("A-REAL: floating point numbers are read as exact reals", "A-KDTREE: scipy's k-d tree is taken by its contract (k nearest, strictly closer than the bound)", "A-DELAUNAY: scipy's triangulations are given", "A-TOPO: the topocentric converter is the identity", "A-FLANN: nearest neighbours of descriptors, brute-force matches and matches by words are given",
               "A-TIES: no two candidates are equally far")
    ps, matching, geometry = pysym.load("pairs_selection", "matching", "geometry")
    ext.install()
    if not isinstance(geometry.cv2, CV2):
        geometry.cv2 = CV2(geometry.cv2)
    logging.disable(logging.CRITICAL)
    real = ps.spatial
    tri = {}

    class Delaunay:
        def __init__(self, points, *a, **k):
            self.simplices = tri["next"](points)

    ps.spatial = NS(cKDTree=Tree, KDTree=Tree, Delaunay=Delaunay, QhullError=real.QhullError)
    ctx.under_contract(*["pairs_selection." + n for n in ("has_gps_info", "sorted_pair", "get_gps_point", "get_gps_opk_point", "sign", "get_representative_points", "match_candidates_by_distance", "match_candidates_by_graph", "match_candidates_by_time", "match_candidates_by_order", "match_candidates_from_metadata", "match_candidates_with_bow", "match_candidates_with_vlad", "compute_bow_affinity", "compute_vlad_affinity", "preempt_candidates", "construct_pairs", "create_parallel_matching_args", "match_bow_unwrap_args", "bow_distances", "pairs_from_neighbors", "ordered_pairs")],
                       *["matching." + n for n in ("match_words_symmetric", "match_flann", "match_flann_symmetric", "match_brute_force", "match_brute_force_symmetric", "unfilter_matches")])

    def prove(name, fn, n, pre=lambda i: [], sampler=None, **k):
        k.setdefault("max_paths", 1500)
        ctx.prove(name, Kernel(fn, "pairs_selection." + name.split("/")[0]), names(n), post, pre=pre, sampler=sampler or (lambda r: [r.uniform(-5, 5) for _ in range(n)]), **k)

    def exif(lat, lon):
        return {"gps": {"latitude": lat, "longitude": lon}}

    def apart(n, dim, ref=None):
        """squared distances differ and are positive"""
        def pre(i):
            P = [i[dim * j:dim * j + dim] for j in range(n)]
            c = []
            for r in range(n):
                D = [sq(P[r], P[o]) for o in range(n) if o != r]
                c += [d > 0 for d in D] + [d < 1e15 for d in D]
                c += [X.not_(X.eq(a, b)) if sym(i) else a != b for a, b in itertools.combinations(D, 2)]
            return c
        return pre

    # ---- by distance
    def distance(ref, cand, k, bound):
        ims = sorted(set(ref) | set(cand))
        flat = max(len(cand), len(ref)) > 2 and ref != cand  # on a line

        def fn(r):
            at = {m: (r(), 0 if flat else r(), 0) for m in ims}
            D = r() if bound else 0
            ex = {m: exif(at[m][0], at[m][1]) for m in ims}
            got = ps.match_candidates_by_distance(list(ref), list(cand), ex, Reference(), k, D)
            if not k and not bound:
                return [(text(got), "")]
            want = nearest(ref, cand, lambda a, b: sq(at[a], at[b]), k or 99, (lambda a, b: bool(sq(at[a], at[b]) < D * D)) if bound else (lambda a, b: True))
            return [(text(got), text(want))]

        n = (2 - flat) * len(ims) + bool(bound)

        def pre(i):
            c = apart(len(ims), 2 - flat)(i)
            if bound:
                c += [i[-1] > 0.01]
            return c

        prove("match_candidates_by_distance/%s/%s/%d%s" % (ref, cand, k, "-bounded" if bound else ""), fn, n, pre, lambda r: [r.uniform(-5, 5) for _ in range(n - bool(bound))] + ([r.uniform(1, 8)] if bound else []))

    for ref, cand in SHAPES:
        for k, bound in ((0, True), (1, False), (2, False), (2, True), (7, False), (0, False)):
            if len(ref) > 3 and (k, bound) != (1, False):
                continue
            distance(ref, cand, k, bound)

    def missing(r):
        res = []
        for ref, cand in SHAPES:
            ims = sorted(set(ref) | set(cand))
            for gone in ims:
                for broken in ({}, {"gps": {}}, {"gps": {"latitude": 1.0}}, {"gps": {"longitude": 1.0}}):
                    ex = {m: exif(r.i[0] + ord(m), r.i[0]) for m in ims}
                    ex[gone] = broken
                    res.append((text(ps.match_candidates_by_distance(list(ref), list(cand), ex, Reference(), 3, 5.0)), ""))
        return res

    prove("match_candidates_by_distance/missing", missing, 1)

    # ---- viewing directions
    def opk(mix):
        def fn(r):
            alt = r()
            ex, want = {}, {}
            saved, ps.find_best_altitude = ps.find_best_altitude, lambda o, d: alt
            try:
                for m in "ab":
                    la, lo, o, p, k = r(5)
                    ex[m] = exif(la, lo)
                    d = [0, 0, 1]
                    if m in mix:
                        ex[m]["opk"] = {"omega": o, "phi": p, "kappa": k}
                        rad = (lambda v: v * X.PI / 180) if isinstance(o, X.E) else math.radians
                        (so, co), (sp, cp) = [((X.sin(rad(v)), X.cos(rad(v))) if isinstance(v, X.E) else (math.sin(rad(v)), math.cos(rad(v)))) for v in (o, p)]
                        ax = [-sp, so * cp, -co * cp]  # the optical axis looks down when all angles are zero
                        up = ax[2]
                        s = up if up > 0 else -up
                        d = [v / s for v in ax]
                    want[m] = [la + d[0] * alt, lo + d[1] * alt, d[2] * alt]
                got = ps.get_representative_points(["a", "b"], ex, Reference())
            finally:
                ps.find_best_altitude = saved
            return [({m: list(v) for m, v in got.items()}, want)]

        def pre(i):
            c = []
            for q, m in enumerate("ab"):
                o, p = i[1 + 5 * q + 2:1 + 5 * q + 4]
                rad = (lambda v: v * X.PI / 180) if sym(i) else math.radians
                z = X.cos(rad(o)) * X.cos(rad(p)) if sym(i) else math.cos(rad(o)) * math.cos(rad(p))
                c.append(X.not_(X.eq(z, X.ZERO)) if sym(i) else abs(z) > 1e-6)
            return c

        prove("get_representative_points/opk-%s" % mix, fn, 11, pre, lambda r: [r.uniform(1, 80) for _ in range(11)])

    opk("ab")
    opk("a")

    # ---- by time and order
    def by_time(ref, cand, k):
        ims = sorted(set(ref) | set(cand))

        def fn(r):
            t = {m: r() for m in ims}
            got = ps.match_candidates_by_time(list(ref), list(cand), {m: {"capture_time": t[m]} for m in ims}, k)
            return [(text(got), text(nearest(ref, cand, lambda a, b: (t[a] - t[b]) * (t[a] - t[b]), k)))]

        prove("match_candidates_by_time/%s/%s/%d" % (ref, cand, k), fn, len(ims), apart(len(ims), 1))

    for ref, cand in SHAPES:
        for k in (0, 1, 2, 7):
            by_time(ref, cand, k)

    def by_order(r):
        res = []
        for n in range(8):
            for k in range(-1, 9):
                ims = ["i%d" % j for j in range(n)]
                want = {(ims[a], ims[b]) for a in range(n) for b in range(a + 1, n) if k > 0 and b - a <= (k + 1) // 2}
                res.append((text(ps.match_candidates_by_order(ims, list(ims), k)), text(want)))
        return res

    prove("match_candidates_by_order", by_order, 1)

    # ---- each pair once, the reference first
    def ordered(r):
        res = []
        every = list(itertools.combinations("abcd", 2))
        for k in range(64):
            pairs = {p for b, p in enumerate(every) if k >> b & 1}
            for s in range(1, 16):
                ref = [m for b, m in enumerate("abcd") if s >> b & 1]
                got = ps.ordered_pairs(set(pairs), list(ref))
                want = {p for p in pairs if p[0] in ref or p[1] in ref}
                ok = len(got) == len(want) and {und(*p) for p in got} == want and all(p[0] in ref for p in got)
                res.append((float(ok), 1.0))
        return res

    prove("ordered_pairs", ordered, 1)

    # ---- by graph
    def by_graph(ref, cand):
        at = {"a": (0.0, 0.0), "b": (3.0, 0.5), "c": (1.0, 4.0), "d": (5.0, 5.0)}

        def fn(r):
            ims = sorted(set(ref) | set(cand))
            order, sets = [], [["abc", "bcd"], ["abd"], ["acd"]]

            def nxt(points):
                if not order:
                    order.extend(next(m for m in at if all(float(x) == y for x, y in zip(p, at[m]))) for p in points)
                return [tuple(order.index(m) for m in t) for t in seq.pop(0)]

            res = []
            for rounds in (0, 1, 2):
                order.clear()
                seq = [t for t in sets]
                tri["next"] = nxt
                got = ps.match_candidates_by_graph(list(ref), list(cand), {m: exif(*at[m]) for m in ims}, Reference(), rounds)
                want = set()
                if rounds and len(cand) >= 4:
                    for t in sum(sets[:rounds + 1], []):
                        for p in itertools.combinations(t, 2):
                            if p[0] in ref and p[1] in cand or p[1] in ref and p[0] in cand:
                                want.add(und(*p))
                res.append((text(got), text(want)))
            return res

        prove("match_candidates_by_graph/%s/%s" % (ref, cand), fn, 1)

    for ref, cand in (("abcd", "abcd"), ("a", "abcd"), ("ab", "abcd"), ("ab", "cd"), ("ad", "abcd")):
        by_graph(ref, cand)

    # ---- by scores
    CAMS = {"a": {"camera": "x"}, "b": {"camera": "y"}, "c": {"camera": "x"}, "d": {"camera": "y"}, "e": {"camera": "x"}}

    def score(others, k, enforce):
        def fn(r):
            d = {c: r() for c in others}
            d2 = r()
            got = ps.construct_pairs([("a", [d[c] for c in others], list(others)), ("b", [d["b"], d2], ["a", "z"])], k, {**CAMS, "z": {"camera": "x"}}, enforce)
            groups = [others] if not enforce else [[c for c in others if CAMS[c] == CAMS["a"]], [c for c in others if CAMS[c] != CAMS["a"]]]
            want = {}
            for g in groups:
                want.update({p: d[p[1]] for p in nearest("a", g, lambda _, c: d[c], k)})
            if k > 1:
                want[("b", "z")] = d2
                want[("a", "b")] = d["b"]
            elif d2 < d["b"]:
                want[("b", "z")] = d2
            else:
                want[("a", "b")] = d["b"]
            return [({"%s-%s" % p: v for p, v in got.items()}, {"%s-%s" % p: v for p, v in want.items()})]

        n = len(others) + 1
        prove("construct_pairs/%s/%d%s" % (others, k, "-cameras" if enforce else ""), fn, n, lambda i: [X.not_(X.eq(a, b)) if sym(i) else a != b for a, b in itertools.combinations(i, 2)])

    for others in ("bc", "bcd", "bcde"):
        for k in (1, 2):
            for enforce in (False, True):
                score(others, k, enforce)

    def preempt(pairs, gps):
        def fn(r):
            saved, ps.match_candidates_by_distance = ps.match_candidates_by_distance, lambda *a, **k: {und(*p) for p in pairs}
            try:
                got, load = ps.preempt_candidates(["a", "b"], ["b", "c", "d"], {}, None, *gps)
            finally:
                ps.match_candidates_by_distance = saved
            if max(gps) > 0:
                want = {m: {p[1 - p.index(m)] for p in pairs if m in p} for m in "ab"}
                want = {m: v for m, v in want.items() if v}
            else:
                want = {m: set("bcd") for m in "ab"}
            return [({m: " ".join(sorted(v)) for m, v in got.items()}, {m: " ".join(sorted(v)) for m, v in want.items()}), (" ".join(sorted(load)), " ".join(sorted(set(want) | {c for v in want.values() for c in v})))]

        prove("preempt_candidates/%s/%d-%d" % (" ".join(pairs) or "none", *gps), fn, 1)

    for pairs in ((), ("ab",), ("ab", "bc"), ("ac", "ad", "bd")):
        for gps in ((0, 0), (3, 0), (0, 7), (3, 7)):
            preempt(pairs, gps)

    # ---- histograms of words
    def affinity(method):
        def fn(r):
            h = {m: np.array(r(2), dtype=object if sym(r.i) else float) for m in "abc"}
            saved = ps.load_histograms, ps.context.parallel_map, ps.vlad_histograms, ps.vlad.vlad_distances, ps.context.processes_that_fit_in_memory
            asked = []
            ps.load_histograms = lambda data, ims: asked.append(sorted(ims)) or {m: h[m] for m in ims if m in h}
            ps.vlad_histograms = lambda ims, data: asked.append(sorted(ims)) or {m: h[m] for m in ims if m in h}
            ps.vlad.vlad_distances = lambda im, others, hs: ps.bow_distances(im, [o for o in "abcd" if o in set(others)], hs)
            ps.context.parallel_map = lambda f, args, *a, **k: [f(x) for x in args]
            ps.context.processes_that_fit_in_memory = lambda n, m: 1
            try:
                args = (NS(config={"processes": 1}), ["a", "d"], ["a", "b", "c", "d"], CAMS, None)
                res = []
                for k in (0, 1, 2):
                    if method == "bow":
                        got = ps.match_candidates_with_bow(*args, k, 0, 0, False)
                    else:
                        have = {"b": h["b"]}
                        got = ps.match_candidates_with_vlad(*args, k, 0, 0, False, have)
                    # the image without a histogram is in no pair
                    d = {c: sum(abs(x - y) for x, y in zip(h["a"], h[c])) for c in "bc"}
                    if bool(X.eq(d["b"], d["c"])) if isinstance(d["b"], X.E) else d["b"] == d["c"]:
                        raise core.Reject()
                    want = {"%s-%s" % p: d[p[1]] for p in nearest("a", "bc", lambda _, c: d[c], k)}
                    res.append(({"%s-%s" % p: v for p, v in got.items()}, want))
                res.append((" / ".join("".join(a) for a in asked), " / ".join(["abcd" if method == "bow" else "acd"] * 2)))
            finally:
                ps.load_histograms, ps.context.parallel_map, ps.vlad_histograms, ps.vlad.vlad_distances, ps.context.processes_that_fit_in_memory = saved
            return res

        prove("match_candidates_with_%s" % method, fn, 6)

    affinity("bow")
    affinity("vlad")

    # ---- all together
    KEYS = ["matching_gps_distance", "matching_gps_neighbors", "matching_graph_rounds", "matching_time_neighbors", "matching_order_neighbors", "matching_bow_neighbors", "matching_bow_gps_distance", "matching_bow_gps_neighbors", "matching_bow_other_cameras", "matching_vlad_neighbors", "matching_vlad_gps_distance", "matching_vlad_gps_neighbors", "matching_vlad_other_cameras"]

    def metadata(ref, cand, on, nogps, override):
        ims = sorted(set(ref) | set(cand))

        def fn(r):
            calls = {}

            def method(name, pairs, scored=False):
                def f(*a, **k):
                    a = tuple(inspect.signature(saved[name]).bind(*a, **k).arguments.values())
                    calls[name] = a
                    live = {"distance": a[4] or a[5] if name == "distance" else 0, "graph": a[4] if name == "graph" else 0, "time": a[3] if name == "time" else 0, "order": a[2] if name == "order" else 0, "bow": a[5] if name == "bow" else 0, "vlad": a[5] if name == "vlad" else 0}[name]
                    res = {und(*p) for p in pairs if live and (p[0] in ref and p[1] in cand or p[1] in ref and p[0] in cand)}
                    return {p: 1.0 for p in res} if scored else res
                return f

            given = {"distance": ("ab", "bc"), "graph": ("ac",), "time": ("ab", "ad"), "order": ("cd",), "bow": ("bd", "ab"), "vlad": ("ad", "bc")}
            attr = {m: "match_candidates_" + ("with_" if m in ("bow", "vlad") else "by_") + m for m in given}
            saved = {m: getattr(ps, a) for m, a in attr.items()}
            for m in given:
                setattr(ps, attr[m], method(m, given[m], m in ("bow", "vlad")))
            conf = {k: 0 for k in KEYS}
            conf.update(matching_bow_gps_distance=11, matching_bow_gps_neighbors=12, matching_bow_other_cameras=True, matching_vlad_gps_distance=13, matching_vlad_gps_neighbors=14, matching_vlad_other_cameras=False)
            put = {k: 3 + q for q, k in enumerate(KEYS) if k in on}
            over = put if override else {}
            if not override:
                conf.update(put)
            else:
                conf.update({k: 1 for k in on[:1]})
            before = dict(conf)
            ex = {m: exif(r.i[0], r.i[0]) for m in ims}
            if nogps:
                ex[nogps] = {}
            data = NS(config=conf, init_reference=lambda: None, load_reference=lambda: "ref")
            try:
                pairs, report = ps.match_candidates_from_metadata(list(reversed(ref)), list(cand), ex, data, over)
            finally:
                for m in given:
                    setattr(ps, attr[m], saved[m])
            off = bool(nogps)
            live = {"distance": any(k in on for k in KEYS[:2]) and not off, "graph": KEYS[2] in on and not off, "time": KEYS[3] in on, "order": KEYS[4] in on, "bow": KEYS[5] in on, "vlad": KEYS[9] in on}
            each = {m: {und(*p) for p in given[m] if live[m] and (p[0] in ref and p[1] in cand or p[1] in ref and p[0] in cand)} for m in given}
            want = set().union(*each.values()) if any(live.values()) else {und(a, b) for a in ref for b in cand if a != b}
            ok = len(pairs) == len(want) and all(p[0] in ref for p in pairs) and before == conf
            res = [(text({und(*p) for p in pairs}), text(want)), (float(ok), 1.0), (text([(k, str(v)) for k, v in report.items()]), text([("num_pairs_" + m, str(len(each[m]))) for m in given]))]
            val = {k: put.get(k, conf[k]) for k in KEYS}
            for m, args in calls.items():
                w = {"distance": (val[KEYS[1]] * (not off), val[KEYS[0]] * (not off)), "graph": (val[KEYS[2]] * (not off),), "time": (val[KEYS[3]],), "order": (val[KEYS[4]],),
                     "bow": tuple(val[k] for k in KEYS[5:9]), "vlad": tuple(val[k] for k in KEYS[9:13]) + ({},)}[m]
                res.append((repr(args[-len(w):]), repr(w)))
            return res

        prove("match_candidates_from_metadata/%s/%s/%s%s%s" % (ref, cand, "+".join(k[9:] for k in on) or "all", "-nogps" if nogps else "", "-override" if override else ""), fn, 1)

    ONS = [[], ["matching_gps_distance"], ["matching_gps_neighbors"], ["matching_graph_rounds"], ["matching_time_neighbors"], ["matching_order_neighbors"], ["matching_bow_neighbors"], ["matching_vlad_neighbors"],
           ["matching_gps_neighbors", "matching_time_neighbors"], [KEYS[k] for k in (0, 1, 2, 3, 4, 5, 9)], ["matching_bow_neighbors", "matching_order_neighbors", "matching_graph_rounds"]]
    for ref, cand in (("abcd", "abcd"), ("a", "abcd"), ("ab", "cd"), ("cd", "ab")):
        for on in ONS:
            for nogps in (None, "b"):
                for override in (False, True):
                    if nogps and nogps not in ref + cand:
                        continue
                    metadata(ref, cand, on, nogps, override)

    # ---- matches of features
    def given_index(near, dist):
        return NS(knnSearch=lambda f, k, params=None: (np.array(near), np.array(dist, dtype=object) if any(isinstance(v, X.E) for row in dist for v in row) else np.array(dist)))

    def flann(r):
        ratio = r()
        di = [[r(), r()] for _ in range(3)]
        dj = [[r(), r()] for _ in range(2)]
        ni, nj = [[1, 0], [0, 1], [1, 0]], [[2, 0], [0, 1]]  # nearest features of image i for each of j, and the other way round
        conf = {"lowes_ratio": ratio, "flann_checks": 5}
        one = matching.match_flann(given_index(ni, di), None, conf)
        good = lambda D, k: bool(D[k][0] < ratio * ratio * D[k][1])
        res = [(text([(str(int(a)), str(int(b))) for a, b in one]), text([(str(ni[k][0]), str(k)) for k in range(3) if good(di, k)]))]
        both = matching.match_flann_symmetric(None, given_index(ni, di), None, given_index(nj, dj), conf)
        want = [(str(ni[k][0]), str(k)) for k in range(3) if good(di, k) and good(dj, ni[k][0]) and nj[ni[k][0]][0] == k]
        return res + [(text([(str(int(a)), str(int(b))) for a, b in both]), text(want))]

    def m_prove(name, fn, n, pre=lambda i: [], **k):
        ctx.prove(name, Kernel(fn, "matching." + name), names(n), post, pre=pre, sampler=lambda r: [r.uniform(0.1, 1) for _ in range(n)], max_paths=600, **k)

    m_prove("match_flann", flann, 11, lambda i: [v > 0 for v in i])

    def brute(masked):
        def fn(r):
            ratio = r()
            d = [[r(), r()] for _ in range(5)]
            # per feature of one image: two nearest, one nearest and no nearest of the other one
            near = {"1": [[(0, 0), (1, 1)], [(2, 0), (0, 1)], [(1, 0)]], "2": [[(0, 0), (2, 1)], [], [(1, 0), (2, 1)]]}
            calls = []
            dd = {"1": [d[0], d[1], d[2]], "2": [d[3], d[2], d[4]]}

            class Matcher:
                def add(self, fs):
                    self.f = fs[0]

                def knnMatch(self, f, k=2, masks=None):
                    s = "1" if f[0, 0] == 1.0 else "2"
                    calls.append((s, k, None if masks is None else np.array(masks)[0].tolist()))
                    return [[NS(queryIdx=q, trainIdx=t, distance=dd[s][q][w]) for t, w in row] for q, row in enumerate(near[s])]

            f1, f2 = np.ones((3, 2)), 2 * np.ones((3, 2))
            mask = np.array([[1, 0, 1], [1, 1, 0], [0, 1, 1]], bool) if masked else None
            saved, matching.cv2 = matching.cv2, NS(DescriptorMatcher_create=lambda t: Matcher())
            try:
                conf = {"lowes_ratio": ratio}
                one = matching.match_brute_force(f1, f2, conf, mask)
                both = matching.match_brute_force_symmetric(f1, f2, conf, mask)
            finally:
                matching.cv2 = saved
            good = lambda s: [(q, row[0][0]) for q, row in enumerate(near[s]) if len(row) == 2 and bool(dd[s][q][0] < ratio * dd[s][q][1])]
            S = lambda v: text([(str(a), str(b)) for a, b in v])
            g1, g2 = good("1"), [(b, a) for a, b in good("2")]
            m = mask.astype(int).tolist() if masked else None
            mt = mask.T.astype(int).tolist() if masked else None
            return [(S(one), S(g1)), (S(both), S(set(g1) & set(g2))), (repr(sorted(calls, key=repr)), repr(sorted([("1", 2, m), ("1", 2, m), ("2", 2, mt)], key=repr)))]

        m_prove("match_brute_force%s" % ("/masked" if masked else ""), fn, 11, lambda i: [v > 0 for v in i])

    brute(False)
    brute(True)

    def words(r):
        saved, matching.pyfeatures = matching.pyfeatures, NS(match_using_words=lambda f1, w1, f2, w2, ratio, checks: np.array({"1": [[0, 3], [1, 2], [4, 4]], "2": [[3, 0], [2, 5], [4, 4], [1, 1]]}[f1 + "" if (list(w2) == [7, 8]) == (f1 == "1") and (ratio, checks) == (0.8, 9) else "x"]))
        try:
            got = matching.match_words_symmetric("1", np.array([[5, 0], [6, 0]]), "2", np.array([[7, 1], [8, 1]]), {"lowes_ratio": 0.8, "bow_num_checks": 9})
        finally:
            matching.pyfeatures = saved
        return [(text([(str(int(a)), str(int(b))) for a, b in got]), "0-3 4-4")]

    m_prove("match_words_symmetric", words, 1)

    def unfilter(r):
        res = []
        for bits in range(64):
            m1, m2 = [np.array([bits >> (k + s) & 1 for k in range(3)], bool) for s in (0, 3)]
            k1, k2 = np.flatnonzero(m1), np.flatnonzero(m2)
            pairs = [(a, b) for a in range(len(k1)) for b in range(len(k2)) if (a + b) % 2 == 0]
            if pairs:
                got = matching.unfilter_matches(np.array(pairs), m1, m2)
                res.append((repr([[int(v) for v in g] for g in got]), repr([[int(k1[a]), int(k2[b])] for a, b in pairs])))
        return res

    m_prove("unfilter_matches", unfilter, 1)

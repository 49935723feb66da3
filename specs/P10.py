"""P10 tracks: sets of linked features, and the manager that holds them (unionfind.py, tracking.py, union_find.h, tracks_manager.cc, tracks_helpers.cc)"""
import itertools
import random

import numpy as np

from vf import core, ext, ir, pysym
from vf import expr as X
from vf.core import Cond, Eq, Reject

from .P06 import sym
from .P09 import Kernel, names, post, s_val

NS, NT, NF = 4, 6, 4
DEPTH_LOST = -1.0


class Obs:
    """payload k (0: the default observation), feature id f"""

    def __init__(self, k, f, depth=True, default=False):
        self.k, self.f, self.depth, self.default = k, f, depth, default

    def leaves(self):
        if self.default:
            return [None, None, 1.0, 0, None, 0, 0, -1.0]
        return [("v", 4 * self.k), ("v", 4 * self.k + 1), ("v", 4 * self.k + 2), self.f, 10 + self.f, 40 + self.f, 50 + self.f, ("v", 4 * self.k + 3) if self.depth else -1.0]


class Mgr:
    """ghost: the relation between shots and tracks"""

    def __init__(self):
        self.obs, self.shots, self.tracks = {}, set(), set()

    def add(self, s, t, o):
        self.obs[s, t] = o
        self.shots.add(s)
        self.tracks.add(t)


class Script:
    """commands for the harness, and what they have to answer"""

    def __init__(self):
        self.cfg, self.exp, self.n, self.dumps = [], [], 0, 0
        self.m = []

    def reset(self, k=1):
        self.cfg += [9, k]
        self.m = [Mgr() for _ in range(k)]

    def add(self, m, s, t, f, k=None):
        if k is None:
            k = self.n
            self.n += 1
        self.cfg += [0, m, s, t, f, k]
        self.m[m].add(s, t, Obs(k, f))

    def remove(self, m, s, t):
        self.cfg += [1, m, s, t]
        self.m[m].obs.pop((s, t), None)

    def subset(self, m, ts, ss):
        self.cfg += [2, m, len(ts), *ts, len(ss), *ss]
        r = Mgr()
        for (s, t), o in self.m[m].obs.items():
            if t in ts and s in ss:
                r.add(s, t, o)
        self.m.append(r)

    def text(self, m):
        self.cfg += [4, m]
        r = Mgr()
        for (s, t), o in self.m[m].obs.items():
            r.add(s, t, Obs(o.k, o.f, False, o.default))
        self.m.append(r)

    def say(self, *v):
        self.exp += v

    def dump(self, m):
        self.cfg += [5, m]
        g = self.m[m]
        self.say(len(g.shots), len(g.tracks), sum(1 << s for s in g.shots), sum(1 << t for t in g.tracks), len(g.shots), len(g.tracks))
        for s in range(NS):
            self.say(1 if s in g.shots else 0)
            if s in g.shots:
                self.say(sum(a == s for a, _ in g.obs))
                for t in range(NT):
                    self.say(*(2 * g.obs[s, t].leaves() if (s, t) in g.obs else [-1]))
        for t in sorted(g.tracks):
            self.say(sum(b == t for _, b in g.obs))
            for s in range(NS):
                self.say(*(g.obs[s, t].leaves() if (s, t) in g.obs else [-1]))

    def common(self, m, a, b):
        self.cfg += [6, m, a, b]
        g = self.m[m].obs
        c = [t for t in range(NT) if (a, t) in g and (b, t) in g]
        self.say(len(c))
        for t in c:
            self.say(*g[a, t].leaves(), *g[b, t].leaves())

    def connectivity(self, m, ts, ss):
        self.cfg += [7, m, len(ts), *ts, len(ss), *ss]
        g = self.m[m].obs
        c = {}
        for t in ts or range(NT):
            for a in ss or range(NS):
                for b in ss or range(NS):
                    if a < b and (a, t) in g and (b, t) in g:
                        c[a, b] = c.get((a, b), 0) + 1
        self.say(len(c), *[c.get((a, b), 0) for a in range(NS) for b in range(NS)])

    def counts(self, m, ts, ss):
        self.cfg += [10, m, len(ts), *ts, len(ss), *ss]
        g = self.m[m].obs
        self.say(len(ss), *[sum((s, t) in g for t in ts) if s in ss else -1 for s in range(NS)])

    def connections(self, m, s, ts, add):
        self.cfg += [11 if add else 12, m, s, len(ts), *ts]
        for t in ts:
            if add:
                self.m[m].add(s, t, Obs(0, 0, default=True))
            else:
                self.m[m].obs.pop((s, t), None)

    def merge(self, ms):
        """the tracks of all managers that share a feature are one track"""
        self.cfg += [3, len(ms), *ms, 8, len(self.m)]
        tr = []
        for m in ms:
            for t in sorted(self.m[m].tracks):
                tr.append({(s, o.f): o for (s, u), o in self.m[m].obs.items() if u == t})
        cl = components(range(len(tr)), [(a, b) for a in range(len(tr)) for b in range(a) if set(tr[a]) & set(tr[b])])
        r = Mgr()
        feats = [sorted({f for k in c for f in tr[k]}) for c in cl]
        if any(len({s for s, _ in f}) != len(f) for f in feats):
            return False
        self.m.append(r)
        where = {f: (c[0], [tr[k][f] for k in cl[j] if f in tr[k]][0]) for j, c in enumerate(feats) for f in c}
        self.say(sum(len(f) > 0 for f in feats), len(where))
        for s in range(NS):
            for f in range(NF):
                if (s, f) in where:
                    (s0, f0), o = where[s, f]
                    self.say(s0 * NF + f0, *o.leaves())
                else:
                    self.say(-1)
        return True

    def end(self):
        self.cfg.append(-1)
        return self


def components(nodes, edges):
    """connected components, by closure"""
    cl = [{n} for n in nodes]
    for a, b in edges:
        ca, cb = [next(c for c in cl if v in c) for v in (a, b)]
        if ca is not cb:
            ca |= cb
            cl = [c for c in cl if c is not cb]
    return sorted(sorted(c) for c in cl)


def build(ctx):
    ctx.assume("A-REAL: floating point numbers are read as exact reals", "A-SHAPE: managers of at most 4 shots, 6 tracks and 4 features per shot, histories of the listed lengths; the coordinates, scales and depths in them are arbitrary",
               "A-STD: hash functions and rehashing policy of libstdc++ replaced by cxx/rt.h in the proof (compiled for real at run time)")
    ctx.under_contract(*["map::TracksManager::" + n for n in ("AddObservation", "RemoveObservation", "GetObservation", "NumShots", "NumTracks", "GetShotIds", "GetTrackIds", "HasShotObservations", "GetShotObservations", "GetTrackObservations", "ConstructSubTracksManager",
                                                              "GetAllCommonObservations", "GetAllPairsConnectivity", "MergeTracksManager", "AsString", "InstanciateFromString")],
                       "Find", "Union", "GetUnionFindClusters", "sfm::tracks_helpers::CountTracksPerShot", "sfm::tracks_helpers::AddConnections", "sfm::tracks_helpers::RemoveConnections",
                       "unionfind.UnionFind", *["tracking." + n for n in ("create_tracks_manager", "_good_track", "common_tracks", "all_common_tracks", "as_weighted_graph", "as_graph", "load_matches", "load_features")])
    u = core.CxxUnit(ctx, "tracks.cc", max_steps=60_000_000)

    def script(name, s, tol=1e-12, native=False):
        s.end()
        exp = s.exp

        def p(i, o):
            res = []
            for k, e in enumerate(exp):
                if e is None:
                    continue
                if o[k] is None:
                    res.append(Cond("answer[%d]" % k, X.FALSE))
                    continue
                w = i[e[1]] if isinstance(e, tuple) else X.lift(float(e)) if sym(i) else float(e)
                res.append(Eq("answer[%d]" % k, o[k], w, tol))
            return res

        n = 4 * max(s.n, 1)
        k = core.CxxKernel(u, "script", len(exp) + 700 * 8, s.cfg)
        smp = lambda r: [r.choice([0.0, -1.0, 0.5, 1e-7, -0.333333333333]) if r.random() < 0.3 else r.uniform(-1, 1) for _ in range(n)]
        (ctx.runtime if native else ctx.prove)(name, k, names(n), p, sampler=smp, samples=3)

    cells = list(itertools.product(range(2), range(2)))
    # histories of additions and removals
    seqs = [h for n in (1, 2, 3) for h in itertools.product([(a,) + c for a in (0, 1) for c in cells], repeat=n)]
    rng = random.Random(5)
    seqs += [[(int(rng.random() < 0.35), rng.randrange(NS), rng.randrange(NT)) for _ in range(12)] for _ in range(24)]
    chunk = []
    groups = []
    for h in seqs:
        shots, tracks, ok = set(), set(), True
        for a, s, t in h:
            if a and (s not in shots or t not in tracks):
                ok = False
                break
            if not a:
                shots.add(s), tracks.add(t)
        if not ok:
            h = [x for j, x in enumerate(h) if not x[0] or (any(y[0] == 0 and y[1] == x[1] for y in h[:j]) and any(y[0] == 0 and y[2] == x[2] for y in h[:j]))]
            if len(h) < 4:
                continue
        chunk.append(h)
        if len(chunk) == 48:
            groups.append(chunk)
            chunk = []
    groups.append(chunk)
    for g, hs in enumerate(groups):
        s = Script()
        for h in hs:
            s.reset()
            s.n = 0
            for j, (a, x, y) in enumerate(h):
                (s.remove(0, x, y) if a else s.add(0, x, y, j % NF, j))
            s.dump(0)
        s.n = 12
        script("history/%d" % g, s)
    # what is asked of a manager
    rng = random.Random(7)
    tables = [[(s, t) for j, (s, t) in enumerate(itertools.product(range(3), range(3))) if b >> j & 1] for b in range(512)]
    tables = tables[1::3] + [[(s, t) for s in range(NS) for t in range(NT) if rng.random() < p] for p in (0.3, 0.5, 0.7, 1.0) for _ in range(5)]

    def picks(n):
        return [v for v in range(n) if rng.random() < 0.6]

    def sub(v):
        return [x for x in v if rng.random() < 0.6]

    for g in range(0, len(tables), 32):
        a, b, c, d = Script(), Script(), Script(), Script()
        for tb in tables[g:g + 32]:
            for s in (a, b, c, d):
                s.reset()
                s.n = 0
                rng.shuffle(tb)
                for j, (x, y) in enumerate(tb):
                    s.add(0, x, y, (x + y + j) % NF, j)
            shots, tracks = sorted(a.m[0].shots), sorted(a.m[0].tracks)
            for x, y in itertools.product(shots, repeat=2):
                a.common(0, x, y)
            b.connectivity(0, [], [])
            b.connectivity(0, sub(tracks), sorted({*sub(shots), NS - 1}))
            b.connectivity(0, sub(range(NT)), [])
            b.connectivity(0, [], sub(range(NS)))
            if shots:
                b.counts(0, sub(range(NT)), sub(shots))
            c.subset(0, sub(range(NT)), sub(range(NS)))
            c.dump(1)
            d.text(0)
            d.dump(1)
            d.dump(0)
        for s in (a, b, c, d):
            s.n = 24
        script("common/%d" % (g // 32), a)
        script("connectivity/%d" % (g // 32), b)
        script("subset/%d" % (g // 32), c)
        script("text/%d" % (g // 32), d, 2e-5, True)
    s = Script()
    for _ in range(40):
        s.reset()
        s.n = 0
        for j in range(6):
            s.add(0, rng.randrange(3), rng.randrange(3), j % NF, j)
        x = rng.choice(sorted(s.m[0].shots))
        s.connections(0, x, picks(NT), True)
        s.dump(0)
        s.connections(0, x, sub(sorted(s.m[0].tracks)), False)
        s.dump(0)
    s.n = 6
    script("connections", s)

    # merged managers: a feature has the same observation wherever it appears
    feats = [(s, f) for s in range(NS) for f in range(2)]
    groups, n = [], 0
    for trial in range(400):
        k = rng.choice([1, 2, 2, 2, 3, 4])
        s = Script()
        s.reset(k)
        for m in range(k):
            seen = set()
            for t in range(rng.randrange(0, 4)):
                for x in range(NS):
                    f = rng.randrange(2)
                    if rng.random() < 0.55 and ((x, f) not in seen or trial % 5 == 0):
                        seen.add((x, f))
                        s.add(m, x, t, f, 2 * x + f)
        n0 = len(s.exp)
        if s.merge(list(range(k))):
            groups.append(s)
    for g in range(0, len(groups), 25):
        s = Script()
        for q in groups[g:g + 25]:
            s.cfg += q.cfg
            s.exp += q.exp
        s.n = 8
        script("merge/%d" % (g // 25), s)

    # unknown shots and tracks are refused
    for name, cmds in (("remove-shot", [1, 0, 1, 0]), ("remove-track", [1, 0, 0, 1]), ("common", [6, 0, 0, 1]), ("common-first", [6, 0, 1, 0]), ("counts", [10, 0, 1, 0, 1, 2])):
        k = core.CxxKernel(u, "script", 100, [9, 1, 0, 0, 0, 0, 0, 0, *cmds, -1])
        ctx.prove("refuses/" + name, core.Throws(k), names(4), lambda i, o: [Eq("throws", o[0], X.ONE if sym(i) else 1.0)], sampler=s_val(4), allow_throw=True)

    # union-find: clusters are the connected components
    def clusters(name, cases):
        for g, (n, es) in enumerate(cases):
            cl = components(range(n), es)
            lo = {v: c[0] for c in cl for v in c}
            want = [lo[v] for v in range(n)] * 2 + [1, n]
            k = core.CxxKernel(u, "clusters", 2 * n + 2, [n, len(es)] + [v for e in es for v in e])
            yield k, want

    cases = [(4, es) for r in range(4) for es in itertools.product(itertools.product(range(4), repeat=2), repeat=r) if all(a != b for a, b in es)][::7]
    cases += [(n, [(rng.randrange(n), rng.randrange(n)) for _ in range(m)]) for n, m in ((6, 4), (8, 6), (9, 12), (12, 9), (16, 14), (40, 35)) for _ in range(6)]

    class Many:
        """several runs of a kernel, one after another"""
        func, lang, cfg = "clusters", "c++", None

        def __init__(self, ks):
            self.ks, self.unit = ks, u

        def prepare(self):
            for k in self.ks:
                k.prepare()

        def symbolic(self, i):
            return [v for k in self.ks for v in k.symbolic(i)]

        def concrete(self, i):
            return [v for k in self.ks for v in k.concrete(i)]

        def functions(self):
            return self.ks[0].functions()

    kw = list(clusters("", cases))
    for g in range(0, len(kw), 40):
        part = kw[g:g + 40]
        want = [w for _, ws in part for w in ws]
        ctx.prove("clusters/%d" % (g // 40), Many([k for k, _ in part]), ["unused"], lambda i, o, want=want: [Eq("element[%d]" % j, a, X.lift(float(b)) if sym(i) else float(b)) for j, (a, b) in enumerate(zip(o, want))], sampler=s_val(1), samples=1)
    python(ctx)


# ---------------------------------------------------------------- python
def python(ctx):
    uf_mod, tracking = pysym.load("unionfind", "tracking")
    ext.install()
    rng = random.Random(11)

    def prove(name, fn, n, **k):
        ctx.prove(name, Kernel(fn, name.split("/")[0]), names(n), post, sampler=s_val(n), samples=3, **k)

    def family(uf, nodes):
        return sorted(sorted(x for x in nodes if uf[x] == r) for r in {uf[x] for x in nodes})

    def unions(r):
        """any sequence of unions and look-ups: sets are the connected components, named by one of their members"""
        res = []
        hist = [h for n in range(4) for h in itertools.product([(a, b) for a in range(4) for b in range(4)] + [(0, 1, 2), (3,), (2, 1, 3)], repeat=n)]
        hist = hist[:400] + hist[400::17] + [[tuple(rng.randrange(12) for _ in range(rng.choice([1, 2, 2, 3, 4]))) for _ in range(m)] for m in (6, 9, 14) for _ in range(20)]
        for h in hist:
            uf = uf_mod.UnionFind()
            known = []
            for j, op in enumerate(h):
                uf.union(*op)
                for v in op:
                    known.append(v) if v not in known else None
                if j % 3 == 2:
                    uf[op[0]]
            res.append((list(iter(uf)), known))
            edges = [(op[0], v) for op in h for v in op[1:]]
            res.append((family(uf, known), components(known, edges)))
            res.append((all(uf[x] in known and uf[uf[x]] == uf[x] and any(x in c and uf[x] in c for c in components(known, edges)) for x in known), True))
        u = uf_mod.UnionFind()
        res.append((u["new"], "new"))
        res.append((list(u), ["new"]))
        return res

    prove("unionfind/histories", unions, 1)

    def feature_data(r, images, nf):
        F = {im: np.array([r(3) for _ in range(nf)], dtype=object) for im in images}
        C = {im: np.array([[10 * j + k, 100 + 10 * j + k, 200 + k] for k in range(nf)]) for j, im in enumerate(images)}
        S = {im: np.array([3 + k + j for k in range(nf)]) for j, im in enumerate(images) if j % 2 == 0}
        I = {im: np.array([70 + k + j for k in range(nf)]) for j, im in enumerate(images) if j % 3 == 0}
        return F, C, S, I

    def linked(cases, nf, images):
        def fn(r):
            F, C, S, I = feature_data(r, images, nf)
            D = {images[1]: [r() for _ in range(nf)]}
            std = r()
            res = []
            for edges, minlen, order, missing in cases:
                m = {}
                for (a, f), (b, g) in edges:
                    key = (images[a], images[b])
                    m.setdefault(key, []).append((f, g))
                Fm = {k: v for k, v in F.items() if k not in missing}
                Dm = D if order else {}
                tm = tracking.create_tracks_manager(Fm, C, S, I, m, minlen, Dm, bool(order % 2), std)
                nodes = sorted({v for e in edges for v in e})
                good = [c for c in components(nodes, edges) if len(c) >= minlen and len({a for a, _ in c}) == len(c)]
                got = {}
                for t in tm.get_track_ids():
                    for im, o in tm.get_track_observations(t).items():
                        got.setdefault(t, []).append((images.index(im), o.id))
                want = sorted(x for x in ([v for v in c if images[v[0]] not in missing] for c in good) if x)
                res.append((sorted(sorted(v) for v in got.values()), want))
                for t in tm.get_track_ids():
                    for im, o in sorted(tm.get_track_observations(t).items()):
                        k, j = o.id, images.index(im)
                        res.append((list(o.point) + [o.scale], list(F[im][k])))
                        res.append(([list(o.color), o.segmentation, o.instance], [list(C[im][k]), int(S[im][k]) if im in S else -1, int(I[im][k]) if im in I else -1]))
                        res.append((o.depth_prior is not None, im in Dm))
                        if o.depth_prior is not None:
                            z = Dm[im][k]
                            dev = max(std * z, std)
                            res.append(([o.depth_prior.value, o.depth_prior.std_deviation, o.depth_prior.is_radial], [z, dev, bool(order % 2)]))
                        res.append((list(tm.get_observation(im, t).point), list(o.point)))
            return res
        return fn

    images = ["im%d" % k for k in range(4)]
    nodes = [(a, f) for a in range(3) for f in range(2)]
    alle = [(x, y) for x in nodes for y in nodes if x[0] < y[0]]
    cases = []
    for b in range(1, 4096, 13):
        es = [e for k, e in enumerate(alle) if b >> k & 1]
        rng.shuffle(es)
        es = [e if rng.random() < 0.7 else (e[1], e[0]) for e in es]
        cases.append((es, 2 + b % 2, 0, ["im2"] if b % 5 == 0 else []))
    for g in range(0, len(cases), 80):
        prove("create_tracks_manager/%d" % (g // 80), linked(cases[g:g + 80], 2, images), 3 * 2 * 4 + 3)
    big = [(a, f) for a in range(4) for f in range(4)]
    for trial in range(6):
        es = []
        for _ in range(14):
            x, y = rng.sample(big, 2)
            if x[0] != y[0] and (trial % 2 or x[1] == y[1]):
                es.append((x, y))
        prove("create_tracks_manager/wide-%d" % trial, linked([(es, 2 + trial % 3, 0, [])], 4, images), 3 * 4 * 4 + 5)
    prove("create_tracks_manager/depths", linked([([((0, 0), (1, 0)), ((1, 1), (2, 1))], 2, o, []) for o in (1, 2)], 2, images), 3 * 2 * 4 + 3)
    for bad in (float("nan"), float("inf"), -float("inf")):
        def nodepth(r, bad=bad):
            F, C, S, I = feature_data(r, images, 2)
            tm = tracking.create_tracks_manager(F, C, S, I, {("im0", "im1"): [(0, 1)]}, 2, {"im0": [bad, 1.0], "im1": [bad, 2.0]})
            (t,) = tm.get_track_ids()
            return [(tm.get_observation("im0", t).depth_prior is None, True), (tm.get_observation("im1", t).depth_prior.value, 2.0), (tm.get_observation("im1", t).depth_prior.is_radial, True)]

        prove("create_tracks_manager/no-depth/%s" % bad, nodepth, 24)

    # pairs of images and the tracks they share
    def shared(tables):
        def fn(r):
            res = []
            i = list(r.i)
            for tb in tables:
                tm = ext.TracksManager()
                p = {}
                for j, (s, t) in enumerate(tb):
                    o = ext.Observation(i[3 * (j % 9)], i[3 * (j % 9) + 1], i[3 * (j % 9) + 2], j, 1, 2, j, 5, 6)
                    tm.add_observation("im%d" % s, str(t), o)
                    p[s, t] = o
                shots = sorted({s for s, _ in tb})
                for a, b in itertools.permutations(shots, 2):
                    ts, p1, p2 = tracking.common_tracks(tm, "im%d" % a, "im%d" % b)
                    both = sorted(str(t) for t in range(9) if (a, t) in p and (b, t) in p)
                    res.append((sorted(ts), both))
                    res.append(([len(p1), len(p2)], [len(ts)] * 2))
                    res.append(([list(v) for v in p1], [list(p[a, int(t)].point) for t in ts]))
                    res.append(([list(v) for v in p2], [list(p[b, int(t)].point) for t in ts]))
                for least in (1, 2, 3):
                    full, bare = tracking.all_common_tracks_with_features(tm, least), tracking.all_common_tracks_without_features(tm, least)
                    want = {}
                    for a, b in itertools.combinations(shots, 2):
                        c = sorted(str(t) for t in range(9) if (a, t) in p and (b, t) in p)
                        if len(c) >= least:
                            want["im%d" % a, "im%d" % b] = c
                    res.append(({"|".join(k): sorted(v) for k, v in bare.items()}, {"|".join(k): v for k, v in want.items()}))
                    res.append(({"|".join(k): sorted(v[0]) for k, v in full.items()}, {"|".join(k): v for k, v in want.items()}))
                    for (a, b), (ts, p1, p2) in full.items():
                        res.append(([list(v) for v in p1], [list(p[int(a[2:]), int(t)].point) for t in ts]))
                        res.append(([list(v) for v in p2], [list(p[int(b[2:]), int(t)].point) for t in ts]))
                g = tracking.as_weighted_graph(tm)
                res.append((sorted(g.nodes()), ["im%d" % s for s in shots]))
                w = {}
                for a, b in itertools.combinations(shots, 2):
                    c = sum((a, t) in p and (b, t) in p for t in range(9))
                    if c:
                        w["im%d|im%d" % (a, b)] = c
                res.append(({"|".join(sorted(e[:2])): e[2]["weight"] for e in g.edges(data=True)}, w))
                g = tracking.as_graph(tm)
                res.append((sorted(g.nodes()), sorted(["im%d" % s for s in shots] + list({str(t) for _, t in tb}))))
                res.append(({n: d["bipartite"] for n, d in g.nodes(data=True)}, {n: 0 if n.startswith("im") else 1 for n in g.nodes()}))
                res.append((sorted("|".join(sorted(e)) for e in g.edges()), sorted("|".join(sorted(("im%d" % s, str(t)))) for s, t in tb)))
                for s, t in tb:
                    d, o = g["im%d" % s][str(t)], p[s, t]
                    res.append(([list(d["feature"]), d["feature_scale"], d["feature_id"], list(d["feature_color"]), d["feature_segmentation"], d["feature_instance"]], [list(o.point), o.scale, o.id, list(o.color), o.segmentation, o.instance]))
            return res
        return fn

    tables = [[(s, t) for j, (s, t) in enumerate(itertools.product(range(3), range(3))) if b >> j & 1] for b in range(512)][1::9]
    for g in range(0, len(tables), 20):
        prove("common-tracks/%d" % (g // 20), shared(tables[g:g + 20]), 27)

    # matches and features are those of the images asked for
    def loading(r):
        class Data:
            def load_matches(self, im):
                if im == "im1":
                    raise IOError(im)
                return {"im0": {"im1": [(1, 2)], "im2": [(3, 4)], "other": [(5, 6)]}, "im2": {"im0": [(7, 8)], "im3": []}, "im3": {}}[im]

            def load_features(self, im):
                return None if im == "im1" else fd[im]

        class FD:
            pass

        class Sem:
            def __init__(self, s, inst):
                self.segmentation, self.instances = s, inst

            def has_instances(self):
                return self.instances is not None

        fd = {}
        for j, im in enumerate(("im0", "im2", "im3")):
            f = FD()
            f.points = np.array([r(4), r(4)], dtype=object)
            f.colors = "colors-" + im
            f.semantic = None if j == 0 else Sem("seg-" + im, "inst-" + im if j == 2 else None)
            f.depths = "depth-" + im if j == 1 else None
            fd[im] = f
        ims = ["im0", "im1", "im2", "im3"]
        m = tracking.load_matches(Data(), ims)
        F, C, S, I, D = tracking.load_features(Data(), ims)
        return [({"|".join(k): [list(v) for v in w] for k, w in m.items()}, {"im0|im1": [[1, 2]], "im0|im2": [[3, 4]], "im2|im0": [[7, 8]], "im2|im3": []}),
                ({k: [list(v) for v in w] for k, w in F.items()}, {k: [list(v[:3]) for v in fd[k].points] for k in fd}), (C, {k: "colors-" + k for k in fd}),
                (S, {k: "seg-" + k for k in ("im2", "im3")}), (I, {"im3": "inst-im3"}), (D, {"im2": "depth-im2"})]

    prove("loading", loading, 24)

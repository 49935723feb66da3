"""P01 geodesy: opensfm/geo.py and src/geo/src/geo.cc"""
from vf import core, pm, pysym
from vf.core import Cond, Eq, eqs

A, B_ = 6378137.0, 6356752.314245
A2, B2 = A * A, B_ * B_
EA2 = (((A2 - B2) / A2) ** 0.5) ** 2


def ecef_spec(lat, lon, alt):
    la, lo = pm.rad(lat), pm.rad(lon)
    W = pm.sqrt(A2 * pm.cos(la) * pm.cos(la) + B2 * pm.sin(la) * pm.sin(la))
    n = [pm.cos(la) * pm.cos(lo), pm.cos(la) * pm.sin(lo), pm.sin(la)]
    foot = [A2 / W * n[0], A2 / W * n[1], B2 / W * n[2]]
    return pm.vadd(foot, pm.vscale(alt, n))


def enu(lat, lon):
    la, lo = pm.rad(lat), pm.rad(lon)
    return [[-pm.sin(lo), pm.cos(lo), 0.0],
            [-pm.sin(la) * pm.cos(lo), -pm.sin(la) * pm.sin(lo), pm.cos(la)],
            [pm.cos(la) * pm.cos(lo), pm.cos(la) * pm.sin(lo), pm.sin(la)]]


def s_lla(r):
    k = r.random()
    if k < 0.2:
        return [r.choice([-89.9, -60.0, -45.0, 0.0, 30.0, 45.0, 89.9]), r.choice([-179.9, -90.0, 0.0, 90.0, 135.0, 179.9]), r.choice([0.0, -100.0, 1000.0, 8000.0])]
    return [r.uniform(-89, 89), r.uniform(-180, 180), r.uniform(-400, 9000)]


def s_pair(r):
    ref = s_lla(r)
    if r.random() < 0.6:
        p = [min(89, max(-89, ref[0] + r.uniform(-0.05, 0.05))), ref[1] + r.uniform(-0.05, 0.05), r.uniform(-400, 9000)]
    else:
        p = s_lla(r)
    return p + ref


def s_topo(r):
    ref = [r.uniform(-80, 80), r.uniform(-180, 180), r.uniform(-100, 3000)]
    return [r.uniform(-5000, 5000), r.uniform(-5000, 5000), r.uniform(-300, 3000)] + ref


def s_ecef(r):
    return ecef_spec(*s_lla(r))


def post_ecef(i, o):
    return eqs("point-on-ellipsoid-normal-at-altitude", o, ecef_spec(*i), 1e-9)


def is_ecef_near_earth(i):
    x, y, z = i
    return [x * x + y * y > 1e4]


def post_lla(i, o):
    """longitude and height are exact functions of the returned latitude"""
    x, y, z = i
    la, lo = pm.rad(o[0]), pm.rad(o[1])
    p = pm.sqrt(x * x + y * y)
    # e is the rounded first eccentricity, as every implementation computes it
    N = A / pm.sqrt(1.0 - EA2 * pm.sin(la) * pm.sin(la)) if isinstance(x, core.X.E) else A2 / pm.sqrt(A2 * pm.cos(la) * pm.cos(la) + B2 * pm.sin(la) * pm.sin(la))
    return [Eq("lon-x", p * pm.cos(lo), x, 1e-9), Eq("lon-y", p * pm.sin(lo), y, 1e-9), Eq("height", (N + o[2]) * pm.cos(la), p, 1e-9)]


def post_lla_foot(i, o):
    """on the ellipsoid (alt = 0) the latitude is recovered exactly"""
    la, lo = pm.rad(o[0]), pm.rad(o[1])
    a, b = pm.rad(i[0]), pm.rad(i[1])
    return [Eq("lat-sin", pm.sin(la), pm.sin(a), 1e-9), Eq("lat-cos", pm.cos(la), pm.cos(a), 1e-9), Eq("lon-sin", pm.sin(lo), pm.sin(b), 1e-9),
            Eq("lon-cos", pm.cos(lo), pm.cos(b), 1e-9), Eq("alt", o[2], 0.0, 1e-3)]


def ndeg(d):
    while d > 180:
        d -= 360
    while d < -180:
        d += 360
    return d


def post_rt(i, o):
    """run time only: one Bowring step is accurate to micrometres"""
    return [Eq("lat", o[0], i[0], 1e-9), Eq("lon", ndeg(o[1] - i[1]), 0.0, 1e-9), Eq("alt", o[2], i[2], 1e-6)]


def post_T(i, o):
    T = pm.mat(o, 4, 4)
    R = enu(i[0], i[1])
    e = ecef_spec(*i)
    return (eqs("axes-east-north-up", [r[:3] for r in T[:3]], pm.tr(R), 1e-9) + eqs("origin", [r[3] for r in T[:3]], e, 1e-9)
            + eqs("last-row", T[3], [0.0, 0.0, 0.0, 1.0]))


def post_Tfd(i, o):
    T = pm.mat(o, 4, 4)
    R = enu(i[0], i[1])
    return eqs("axes", [r[:3] for r in T[:3]], pm.tr(R), 1e-6) + eqs("origin", [r[3] for r in T[:3]], ecef_spec(*i), 1e-9)


def post_topo(i, o):
    d = pm.vsub(ecef_spec(*i[:3]), ecef_spec(*i[3:]))
    return eqs("enu-coordinates", o, pm.mv(enu(i[3], i[4]), d), 1e-6)


def topo_to_ecef(i):
    return pm.vadd(pm.mv(pm.tr(enu(i[3], i[4])), i[:3]), ecef_spec(*i[3:]))


def post_topo_inv(i, o):
    return post_lla(topo_to_ecef(i), o)


def post_topo_rt(i, o):
    return eqs("topocentric-to-lla-and-back", o[3:], i[:3], 1e-5)


def post_dist(i, o):
    d = pm.vsub(ecef_spec(i[0], i[1], 0.0), ecef_spec(i[2], i[3], 0.0))
    return [Eq("chord-length", o[0], pm.norm(d), 1e-6)]


def post_ref(i, o):
    return eqs("reference", o, i)


LLA = ["lat", "lon", "alt"]
REF = ["reflat", "reflon", "refalt"]


def coslat(i):
    return [pm.cos(pm.rad(i[0])) > 0]


def build(ctx):
    ctx.assume("A-REAL: floating point numbers are read as exact reals", "A-PI: doubles that are the rounded value of k*pi are read as k*pi",
               "A-LIBM: sin, cos, atan2, sqrt of libm/numpy satisfy their real definitions",
               "well-defined: denominators of the code are non-zero on the stated domain",
               "accuracy of the single Bowring step off the ellipsoid is checked at run time only (bounded)")
    u = core.CxxUnit(ctx, "geo.cc")
    geo = pysym.load("geo")
    ctx.under_contract("geo.ecef_from_lla", "geo.lla_from_ecef", "geo.ecef_from_topocentric_transform", "geo.topocentric_from_lla", "geo.lla_from_topocentric",
                       "geo.gps_distance", "geo.TopocentricConverter.to_topocentric", "geo.TopocentricConverter.to_lla", "geo.TopocentricConverter.__eq__")
    for c in (0, 1):
        ctx.prove("cxx.EcefFromLla/%d" % c, u.kernel("ecef", 3, [c]), LLA, post_ecef, sampler=s_lla)
        ctx.prove("cxx.LlaFromEcef/%d" % c, u.kernel("lla", 3, [c]), ["x", "y", "z"], post_lla, pre=is_ecef_near_earth, sampler=s_ecef)
        ctx.prove("cxx.EcefFromTopocentricTransform/%d" % c, u.kernel("topo_T", 16, [c]), LLA, post_T, sampler=s_lla)
        ctx.runtime("cxx.EcefFromTopocentricTransformFiniteDiff/%d" % c, u.kernel("topo_Tfd", 16, [c]), LLA, post_Tfd, sampler=lambda r: [r.uniform(-80, 80), r.uniform(-180, 180), r.uniform(0, 3000)])
    ctx.runtime("cxx.LlaFromEcef.exact-on-ellipsoid", u.kernel("lla_of_ecef", 3), LLA, post_lla_foot, pre=coslat, sampler=lambda r: s_lla(r)[:2] + [0.0])
    ctx.runtime("cxx.LlaFromEcef.accuracy", u.kernel("lla_of_ecef", 3), LLA, post_rt, sampler=s_lla)
    for c in range(4):
        ctx.prove("cxx.TopocentricFromLla/%d" % c, u.kernel("topo", 3, [c]), LLA + REF, post_topo, sampler=s_pair)
        ctx.prove("cxx.LlaFromTopocentric/%d" % c, u.kernel("topo_inv", 3, [c]), ["x", "y", "z"] + REF, post_topo_inv, sampler=s_topo,
                  pre=lambda i: is_ecef_near_earth(topo_to_ecef(i)) if not isinstance(i[0], core.X.E) else [])
    ctx.prove("cxx.GpsDistance", u.kernel("gps_distance", 1), ["lat1", "lon1", "lat2", "lon2"], post_dist, sampler=lambda r: s_lla(r)[:2] + s_lla(r)[:2])
    ctx.prove("cxx.GetLlaRef", u.kernel("ref", 3), LLA, post_ref)

    K = core.PyKernel
    flat = lambda T: [T[i, j] for i in range(4) for j in range(4)]
    ctx.prove("py.ecef_from_lla", K(lambda i: list(geo.ecef_from_lla(*i)), "geo.ecef_from_lla"), LLA, post_ecef, sampler=s_lla)
    ctx.prove("py.lla_from_ecef", K(lambda i: list(geo.lla_from_ecef(*i)), "geo.lla_from_ecef"), ["x", "y", "z"], post_lla, pre=is_ecef_near_earth, sampler=s_ecef)
    ctx.runtime("py.lla_from_ecef.exact-on-ellipsoid", K(lambda i: list(geo.lla_from_ecef(*geo.ecef_from_lla(*i))), "lla_from_ecef(ecef_from_lla)"), LLA, post_lla_foot, pre=coslat,
                sampler=lambda r: s_lla(r)[:2] + [0.0])
    ctx.runtime("py.lla_from_ecef.accuracy", K(lambda i: list(geo.lla_from_ecef(*geo.ecef_from_lla(*i))), "lla_from_ecef(ecef_from_lla)"), LLA, post_rt, sampler=s_lla)
    ctx.prove("py.ecef_from_topocentric_transform", K(lambda i: flat(geo.ecef_from_topocentric_transform(*i)), "geo.ecef_from_topocentric_transform"), LLA, post_T, sampler=s_lla)
    ctx.runtime("py.ecef_from_topocentric_transform_finite_diff", K(lambda i: flat(geo.ecef_from_topocentric_transform_finite_diff(*i)), "finite_diff"), LLA, post_Tfd,
                sampler=lambda r: [r.uniform(-80, 80), r.uniform(-180, 180), r.uniform(0, 3000)])
    ctx.prove("py.topocentric_from_lla", K(lambda i: list(geo.topocentric_from_lla(*i)), "geo.topocentric_from_lla"), LLA + REF, post_topo, sampler=s_pair)
    ctx.prove("py.TopocentricConverter.to_topocentric", K(lambda i: list(geo.TopocentricConverter(*i[3:]).to_topocentric(*i[:3])), "TopocentricConverter.to_topocentric"), LLA + REF, post_topo, sampler=s_pair)
    ctx.prove("py.lla_from_topocentric", K(lambda i: list(geo.lla_from_topocentric(*i)), "geo.lla_from_topocentric"), ["x", "y", "z"] + REF, post_topo_inv, sampler=s_topo)
    ctx.prove("py.TopocentricConverter.to_lla", K(lambda i: list(geo.TopocentricConverter(*i[3:]).to_lla(*i[:3])), "TopocentricConverter.to_lla"), ["x", "y", "z"] + REF, post_topo_inv, sampler=s_topo)

    def rt(i):
        c = geo.TopocentricConverter(*i[3:])
        lla = c.to_lla(*i[:3])
        return list(lla) + list(c.to_topocentric(*lla))

    ctx.runtime("py.topocentric-round-trip", K(rt, "to_topocentric(to_lla)"), ["x", "y", "z"] + REF, post_topo_rt, sampler=s_topo)
    ctx.prove("py.gps_distance", K(lambda i: [geo.gps_distance(i[:2], i[2:])], "geo.gps_distance"), ["lat1", "lon1", "lat2", "lon2"], post_dist, sampler=lambda r: s_lla(r)[:2] + s_lla(r)[:2])

    def vec(i):
        import numpy as np

        a = [np.array([v, v]) for v in i[:3]]
        t = geo.topocentric_from_lla(*a, *i[3:])
        return [t[0][1], t[1][1], t[2][1]]

    ctx.prove("py.topocentric_from_lla.arrays", K(vec, "geo.topocentric_from_lla(arrays)"), LLA + REF, post_topo, sampler=s_pair)

"""C10: orbit definitions, element sets and derived orbits agree."""
import itertools
import math
from datetime import datetime, time, timedelta, timezone

import numpy as np
from sgp4.api import Satrec
from sgp4.conveniences import sat_epoch_datetime
from skyfield.api import EarthSatellite, load

from tatc import config, utils
from tatc.schemas import (CircularOrbit, KeplerianOrbit, MolniyaOrbit, SunSynchronousOrbit, TundraOrbit, TwoLineElements)
from mc import env
from mc.core import Violation, require
from mc.common import T0

BOUNDS = {
    "quick": "anomaly conversions: 13 eccentricities x 97 angles over 4 turns; element sets: 5 orbit types on a lattice of altitude, inclination, node, perigee, eccentricity, anomaly, epoch (about 1 500 orbits); derived orbits: 40 sources x 12 x 12 offsets",
    "thorough": "finer lattices (about 10x)",
}
CHUNK = 8
TS = load.timescale()
MU = 3.986004418e14
RM = (2 * 6378137.0 + 6356752.314245179) / 3
EPOCHS = [T0, datetime(2024, 2, 29, 23, 59, 59, 999000, tzinfo=timezone.utc),
          datetime(1999, 12, 31, 12, 0, tzinfo=timezone(timedelta(hours=5, minutes=30))), datetime(2020, 1, 1, tzinfo=timezone.utc)]
OFFS = [0.0, 30.0, 180.0, 359.9999, 360.0, -30.0, -360.0, 720.5, -1e-15, 1e-9, -725.25, 90.125]


def kepler_true(M, e):
    """Bisection solution of Kepler's equation (degrees), turn preserving."""
    turn = math.floor(M / 360.0)
    m = math.radians(M - 360.0 * turn)
    lo, hi = 0.0, 2 * math.pi
    for _ in range(200):
        x = (lo + hi) / 2
        if x - e * math.sin(x) < m:
            lo = x
        else:
            hi = x
    E = (lo + hi) / 2
    nu = 2 * math.atan2(math.sqrt(1 + e) * math.sin(E / 2), math.sqrt(1 - e) * math.cos(E / 2))
    return math.degrees(nu) % 360.0 + 360.0 * turn


def kepler_mean(nu, e):
    turn = math.floor(nu / 360.0)
    v = math.radians(nu - 360.0 * turn)
    E = 2 * math.atan2(math.sqrt(1 - e) * math.sin(v / 2), math.sqrt(1 + e) * math.cos(v / 2))
    M = E - e * math.sin(E)
    return math.degrees(M) % 360.0 + 360.0 * turn


def ang(a, b):
    return abs((a - b + 180.0) % 360.0 - 180.0)


def cases(tier):
    q = tier == "quick"
    out = []
    for e in [0.0, 1e-6, 0.001, 0.05, 0.2, 0.35, 0.5, 0.65, 0.74, 0.85, 0.92, 0.97, 0.99] + ([] if q else [0.01, 0.1, 0.3, 0.6, 0.7, 0.8, 0.95, 0.995]):
        out.append({"k": "anomaly", "e": e, "n": 97 if q else 721})
    alts = [200e3, 705e3, 20180e3, 35793170.0]
    incs = [0.0, 28.5, 90.0, 98.2, 179.9]
    raans = [0.0, 121.5, 359.99]
    tas = [0.0, 45.0, 180.0, 270.25, 359.999]
    n = 0
    for a, i, r, t in itertools.product(alts, incs, raans, tas):
        n += 1
        ep = n % len(EPOCHS)
        out.append({"k": "tle", "t": "circular", "a": a, "i": i, "r": r, "ta": t, "ep": ep})
    for a, e in ((2000e3, 0.05), (8000e3, 0.4), (20184e3, 0.7), (20184e3, 0.001)):
        for i, r, t, w in itertools.product((5.0, 63.4, 116.0), (0.0, 200.0), tas, (0.0, 90.0, 270.0, 359.5)):
            n += 1
            out.append({"k": "tle", "t": "keplerian", "a": a, "i": i, "r": r, "ta": t, "e": e, "w": w, "ep": n % len(EPOCHS)})
    for a in (300e3, 567e3, 705e3, 1400e3, 4000e3):
        for h, m in ((0, 0), (6, 0), (10, 30.75), (13, 30), (18, 45 + 40.5 / 60), (23, 59 + 59.25 / 60)):
            for asc in (True, False):
                for t in (0.0, 100.0):
                    n += 1
                    out.append({"k": "tle", "t": "sso", "a": a, "h": h, "m": m, "asc": asc, "ta": t, "ep": n % len(EPOCHS)})
    for typ in ("molniya", "tundra"):
        for per in ((43080, 40000, 30000) if typ == "molniya" else (86400, 86164, 60000)):
            for t, w, r in itertools.product(tas, (270.0, 90.0), (0.0, 333.0)):
                n += 1
                out.append({"k": "tle", "t": typ, "per": per, "ta": t, "w": w, "r": r, "a": 600e3 if n % 2 else 1200e3, "e": 0.2 if n % 3 else 0.35, "ep": n % len(EPOCHS)})
    # derived orbits
    srcs = [c for c in out if c["k"] == "tle"]
    per_type = {}
    for c in srcs:
        per_type.setdefault(c["t"], []).append(c)
    for typ, cs in per_type.items():
        step = max(1, len(cs) // (8 if q else 40))
        for k in range(len(cs) // step):
            # a stride that meets every value of the inner lattice dimensions
            out.append({"k": "der", "src": cs[(k * step + 7 * k) % len(cs)]})
    for k in range(4 if q else 8):
        out.append({"k": "dertle", "v": k})
    return out


def make(c):
    ep = EPOCHS[c["ep"]]
    t = c["t"]
    if t == "circular":
        return CircularOrbit(altitude=c["a"], inclination=c["i"], right_ascension_ascending_node=c["r"], true_anomaly=c["ta"], epoch=ep)
    if t == "keplerian":
        return KeplerianOrbit(altitude=c["a"], inclination=c["i"], right_ascension_ascending_node=c["r"], true_anomaly=c["ta"],
                              eccentricity=c["e"], perigee_argument=c["w"], epoch=ep)
    if t == "sso":
        return SunSynchronousOrbit(altitude=c["a"], equator_crossing_time=time(c["h"], int(c["m"]), int(c["m"] % 1 * 60 + 1e-9), round((c["m"] % 1 * 60 + 1e-9) % 1 * 1e3) * 1000), equator_crossing_ascending=c["asc"],
                                   true_anomaly=c["ta"], epoch=ep)
    if t == "molniya":
        return MolniyaOrbit(altitude=c["a"], inclination=63.4, right_ascension_ascending_node=c["r"], true_anomaly=c["ta"],
                            perigee_argument=c["w"], orbital_period=c["per"], epoch=ep)
    return TundraOrbit(altitude=c["a"], right_ascension_ascending_node=c["r"], true_anomaly=c["ta"], perigee_argument=c["w"],
                       orbital_period=c["per"], eccentricity=c["e"], epoch=ep)


def expected(c):
    """(inclination, raan, perigee, ecc, mean anomaly, rev/day, ecc tolerance) of the definition."""
    t = c["t"]
    ep = EPOCHS[c["ep"]]
    if t in ("circular", "keplerian"):
        a = RM + c["a"]
        e = c.get("e", 0.0)
        return (c["i"], c["r"], c.get("w", 0.0), e, kepler_mean(c["ta"], e), 86400 / (2 * math.pi) * math.sqrt(MU / a ** 3))
    if t == "sso":
        a = RM + c["a"]
        inc = math.degrees(math.acos(-(a / 12352000.0) ** 3.5))
        x, y, _ = env.sun_direction(TS.from_datetime(ep).tt)
        ra = math.degrees(math.atan2(y, x))
        lst = c["h"] + c["m"] / 60.0
        raan = ra + 15.0 * (lst - 12.0) + (0.0 if c["asc"] else 180.0)
        return (inc, raan, 0.0, 0.0, c["ta"], 86400 / (2 * math.pi) * math.sqrt(MU / a ** 3))
    if t == "molniya":
        a = (MU * (c["per"] / (2 * math.pi)) ** 2) ** (1 / 3)
        e = (a - (c["a"] + 6378137.0)) / a
        return (63.4, c["r"], c["w"], e, kepler_mean(c["ta"], e), 86400 / c["per"])
    return (63.4, c["r"], c["w"], c["e"], kepler_mean(c["ta"], c["e"]), 86400 / c["per"])


def check_anomaly(case, ctx):
    e = case["e"]
    for k in range(case["n"]):
        x = -720.0 + 1440.0 * k / (case["n"] - 1) + (0.0 if k % 3 else 0.37)
        nu = utils.mean_anomaly_to_true_anomaly(x, e)
        M = utils.true_anomaly_to_mean_anomaly(x, e)
        tol = 1e-7 / (1 - e)
        require(abs(nu - kepler_true(x, e)) < tol or ang(nu, kepler_true(x, e)) < tol and x % 360 < 1e-6, "true anomaly violates Kepler's equation", "m2t", M=x, e=e, got=nu, exp=kepler_true(x, e))
        require(abs(M - kepler_mean(x, e)) < tol or ang(M, kepler_mean(x, e)) < tol and x % 360 < 1e-6, "mean anomaly violates Kepler's equation", "t2m", nu=x, e=e, got=M, exp=kepler_mean(x, e))
        require(abs(utils.true_anomaly_to_mean_anomaly(nu, e) - x) < tol and abs(utils.mean_anomaly_to_true_anomaly(M, e) - x) < 10 * tol,
                "anomaly conversions do not invert each other", "inverse", x=x, e=e)
        ctx.step(4)
        ctx.state([e, k])
    ctx.trace([e], {"e": e, "angles": case["n"]})


def check_tle(case, ctx):
    orb = make(case)
    before = orb.model_dump()
    tle = orb.to_tle()
    require(type(tle).__name__ == "TwoLineElements" and tle.get_tle_count() == 1, "conversion does not give one element set", "type")
    inc, raan, w, e, M, n = expected(case)
    sr = Satrec.twoline2rv(*tle.tle)
    etol = 2e-4 if case["t"] == "molniya" else 2e-7
    mtol = 0.05 if case["t"] == "molniya" else 2e-4
    rtol = 0.005 if case["t"] == "sso" else 2e-4
    vals = {"inclination": (math.degrees(sr.inclo), inc, 2e-4), "eccentricity": (sr.ecco, e, etol), "mean motion": (sr.no_kozai * 1440 / (2 * math.pi), n, 2e-7 * n + 1e-8)}
    for k, (g, x, tol) in vals.items():
        require(abs(g - x) <= tol, "%s is not preserved" % k, k, got=g, exp=x)
    for k, g, x, tol in (("node", math.degrees(sr.nodeo), raan, rtol), ("perigee", math.degrees(sr.argpo), w, 2e-4), ("mean anomaly", math.degrees(sr.mo), M, mtol)):
        require(ang(g, x) <= tol, "%s is not preserved" % k, k, got=g, exp=x)
    if case["t"] == "sso":
        # the node moves by exactly the crossing time, whatever the Sun's position
        noon = Satrec.twoline2rv(*make(dict(case, h=12, m=0.0)).to_tle().tle)
        ctx.step()
        require(ang(math.degrees(sr.nodeo - noon.nodeo), 15.0 * (case["h"] + case["m"] / 60.0 - 12.0)) <= 4e-4, "the node does not follow the equator crossing time", "crossing time",
                got=math.degrees(sr.nodeo - noon.nodeo), exp=15.0 * (case["h"] + case["m"] / 60.0 - 12.0))
    require(abs((sat_epoch_datetime(sr) - EPOCHS[case["ep"]]).total_seconds()) < 2e-3, "epoch is not preserved", "epoch")
    ctx.step(7)
    # accessors of both sides
    def acc(name, got, exp, tol):
        require(ang(got, exp) <= tol if name in ("raan", "M", "nu", "w") else abs(got - exp) <= tol, "accessor %s differs" % name, "accessor-" + name, got=got, exp=exp)
    acc("i", tle.get_inclination(), inc, 2e-4)
    acc("raan", tle.get_right_ascension_ascending_node(), raan, rtol)
    acc("w", tle.get_perigee_argument(), w, 2e-4)
    acc("e", tle.get_eccentricity(), e, etol)
    acc("M", tle.get_mean_anomaly(), M, mtol)
    acc("nu", tle.get_true_anomaly(), case["ta"], (mtol + 1e-4) * 4 / (1 - e) ** 1.5)
    acc("n", tle.get_mean_motion(), n, 2e-7 * n + 1e-8)
    a = (MU / (n * 2 * math.pi / 86400) ** 2) ** (1 / 3)
    acc("a", tle.get_semimajor_axis(), a, 2e-6 * a)
    acc("alt", tle.get_altitude(), a - RM, 2e-6 * a)
    acc("T", tle.get_orbit_period().total_seconds(), 86400 / n, 1e-5 * 86400 / n)
    acc("M", orb.get_mean_anomaly(), M, mtol)
    acc("a", orb.get_semimajor_axis(), a, (1e-6 if case["t"] not in ("molniya", "tundra") else 2e-4) * a)
    if case["t"] in ("circular", "keplerian", "sso"):
        acc("T", orb.get_orbit_period().total_seconds(), 86400 / n, 1e-5 * 86400 / n)
        acc("n", orb.get_mean_motion(), n, 1e-6 * n)
    if case["t"] == "sso":
        acc("i", orb.get_inclination(), inc, 1e-6)
        acc("raan", orb.get_right_ascension_ascending_node(), raan, rtol)
        # nodal precession follows the Sun
        J2, RE = 1.08262668e-3, 6378137.0
        rate = -1.5 * math.sqrt(MU / a ** 3) * J2 * (RE / a) ** 2 * math.cos(math.radians(inc)) * 86400
        require(abs(math.degrees(rate) - 360 / 365.2422) < 0.01, "orbit does not precess with the Sun", "sso", got=math.degrees(rate))
    if case["t"] in ("molniya", "tundra"):
        acc("e", orb.get_eccentricity(), e, etol)
    ctx.step(14)
    # the propagated state is where the definition says
    s = EarthSatellite(tle.tle[0], tle.tle[1], None, TS)
    err, r, v = s.model.sgp4(s.model.jdsatepoch, s.model.jdsatepochF)
    require(err == 0, "element set cannot be propagated", "propagate", err=err)
    nu = math.radians(case["ta"])
    rr = a * (1 - e * e) / (1 + e * math.cos(nu)) / 1000.0
    u = math.radians(w) + nu
    O, I = math.radians(raan), math.radians(inc)
    ref = rr * np.array([math.cos(O) * math.cos(u) - math.sin(O) * math.sin(u) * math.cos(I),
                         math.sin(O) * math.cos(u) + math.cos(O) * math.sin(u) * math.cos(I), math.sin(u) * math.sin(I)])
    d = np.linalg.norm(ref - np.array(r))
    require(d < 0.012 * a / 1000.0, "propagated position is not the defined one", "state", d_km=d)
    # the first call does not change the orbit, a second call agrees
    require(orb.model_dump() == before, "the orbit was changed by the conversion", "mutated")
    require(orb.to_tle().tle == tle.tle and orb.to_tle(lazy_load=False).tle == tle.tle, "second conversion differs", "again")
    ctx.step(3)
    ctx.state(case)
    ctx.trace(tle.tle, {"case": case, "tle": tle.tle})


KEEP = ["altitude", "inclination", "eccentricity", "perigee_argument", "orbital_period", "epoch"]


def check_der(case, ctx):
    c = case["src"]
    inc, raan, w, e, M, n = expected(c)
    for a, b in itertools.product(OFFS, OFFS):
        orb = make(c)
        before = orb.model_dump()
        d = orb.get_derived_orbit(a, b)
        require(orb.model_dump() == before, "the source orbit was changed", "mutated")
        want = "circular" if c["t"] == "sso" else c["t"]
        require(d.type == want, "derived orbit has another type", "type", got=d.type)
        for f in KEEP:
            if f in before and hasattr(d, f):
                x, y = before[f], getattr(d, f)
                ok = x == y if f == "epoch" else abs(x - y) < 1e-9 * max(1, abs(x))
                require(ok, "derived orbit changes %s" % f, f, src=str(x), got=str(y))
        require(0 <= d.true_anomaly < 360 and 0 <= d.right_ascension_ascending_node < 360, "derived angle out of range", "range")
        m = d.get_mean_anomaly()
        src_m = orb.get_mean_anomaly()
        require(ang(m, src_m + a) < 1e-6, "mean anomaly offset is not applied", "offset-M", got=m, src=src_m, offset=a)
        src_r = orb.right_ascension_ascending_node if c["t"] != "sso" else orb.get_right_ascension_ascending_node()
        require(ang(d.right_ascension_ascending_node, src_r + b) < 1e-6, "node offset is not applied", "offset-node", got=d.right_ascension_ascending_node, src=src_r, offset=b)
        if c["t"] == "sso":
            require(abs(d.inclination - inc) < 1e-6, "inclination is not kept", "inclination")
        ctx.step()
        ctx.state([c, a, b])
        if OFFS.index(a) % 4 == 0 and OFFS.index(b) % 3 == 0:
            sr = Satrec.twoline2rv(*d.to_tle().tle)
            mt = 0.05 if c["t"] == "molniya" else 3e-4
            require(ang(math.degrees(sr.mo), M + a) < mt, "element set of the derived orbit has another mean anomaly", "tle-M", got=math.degrees(sr.mo), exp=M + a)
            require(ang(math.degrees(sr.nodeo), raan + b) < (0.03 if c["t"] == "sso" else 3e-4), "element set of the derived orbit has another node", "tle-node")
            require(abs(sr.no_kozai * 1440 / (2 * math.pi) - n) < 2e-7 * n + 1e-8, "element set of the derived orbit has another mean motion", "tle-n")
            require(abs(sr.ecco - e) < (2e-4 if c["t"] == "molniya" else 2e-7), "element set of the derived orbit has another eccentricity", "tle-e")
            ctx.step()
    ctx.trace([c["t"]], {"src": c})


TLES = [
    ["1 25544U 98067A   21156.30527927  .00003432  00000-0  70541-4 0  9993", "2 25544  51.6455  41.4969 0003508  68.0432  78.3395 15.48957534286754"],
    ["1 43013U 17073A   22150.78990200  .00000001  00000-0  21208-4 0  9994", "2 43013  98.7192  90.3345 0001380  86.9366 273.1976 14.19547730234789"],
]


def fixsum(line):
    s = sum(int(ch) if ch.isdigit() else ch == "-" for ch in line[:68]) % 10
    return line[:68] + str(s)


def check_dertle(case, ctx):
    v = case["v"]
    t = [fixsum(l) for l in TLES[v % 2]]
    # variants: signs and exponents of the drag terms
    l = t[0]
    if v >= 2:
        l = l[:33] + "-.00001234" + l[43:44] + "-12345-6" + l[52:53] + "-54321-4" + l[61:]
    lines = [fixsum(l), t[1]]
    if v in (1, 3):
        l2 = fixsum(lines[0][:20] + "%012.8f" % (float(lines[0][20:32]) + 2.5) + lines[0][32:])
        lines += [l2, fixsum(lines[1][:43] + "100.0000" + lines[1][51:])]
    orb = TwoLineElements(tle=lines)
    for a, b in itertools.product(OFFS, OFFS):
        before = list(orb.tle)
        d = orb.get_derived_orbit(a, b)
        require(orb.tle == before, "the source orbit was changed", "mutated")
        require(len(d.tle) == len(lines), "derived orbit has another number of element sets", "count")
        for k in range(len(lines) // 2):
            s, g = Satrec.twoline2rv(*lines[2 * k:2 * k + 2]), Satrec.twoline2rv(*d.tle[2 * k:2 * k + 2])
            require(ang(math.degrees(g.mo), math.degrees(s.mo) + a) < 3e-4, "mean anomaly offset is not applied", "offset-M", k=k)
            require(ang(math.degrees(g.nodeo), math.degrees(s.nodeo) + b) < 3e-4, "node offset is not applied", "offset-node", k=k)
            for f, tol in (("inclo", 2e-6), ("argpo", 2e-6), ("ecco", 1e-7), ("no_kozai", 1e-9), ("bstar", 1e-8), ("ndot", 1e-13), ("nddot", 1e-16)):
                require(abs(getattr(s, f) - getattr(g, f)) <= tol, "derived element set changes %s" % f, f, src=getattr(s, f), got=getattr(g, f))
            require(abs((sat_epoch_datetime(s) - sat_epoch_datetime(g)).total_seconds()) < 2e-3, "epoch is not kept", "epoch")
            ctx.step()
        ctx.state([v, a, b])
    ctx.trace([v], {"tle": lines})


def check(case, ctx):
    {"anomaly": check_anomaly, "tle": check_tle, "der": check_der, "dertle": check_dertle}[case["k"]](case, ctx)

"""C09: constellation generators place members exactly as specified.

Reference model: closed-form member offsets written from the class
documentation (Walker i:t/p/f, trains, streets of coverage), and for mutual
orbits a two-body propagation of reference and member in the reference's
along-track / cross-track frame.
"""
import itertools
import math
from datetime import timedelta

import numpy as np

from tatc.schemas import (CircularOrbit, Instrument, KeplerianOrbit, MOGConstellation, PointedInstrument, Satellite,
                          SOCConstellation, SunSynchronousOrbit, TrainConstellation, TwoLineElements, WalkerConstellation)
from mc.core import require
from mc.common import T0
from mc.orbits import ISS, NOAA20

R = (2 * 6378137.0 + 6356752.314245179) / 3
BOUNDS = {
    "quick": "Walker: all (satellites<=9, planes, spacing, configuration) x 7 lead orbits, plus 26 to 101 satellites in up to 29 planes; trains: 7 lead orbits x 1..6,10,11 satellites x 10 intervals (negative, zero, longer than an orbit or a day) x repeat ground track; mutual orbits: 1..6 satellites x 4 axis pairs x 6 inclinations x 3 nodes x 5 anomalies x both directions x 8 phases; streets of coverage: 4 altitudes x 12 swaths x 6 packings; 3 instrument sets",
    "thorough": "Walker up to 24 satellites; trains up to 30; mutual orbits up to 12 satellites; streets of coverage 9 altitudes x 30 swaths x 12 packings",
}
CHUNK = 4
LEADS = ["circ", "sso", "kep", "tle", "tle2", "zero", "wrap"]
AXES = [(1000.0, 1000.0), (100e3, 60e3), (60e3, 200e3), (50.0, 3e5)]


def lead(n):
    if n == "circ":
        return CircularOrbit(altitude=567000, inclination=98.0, true_anomaly=10.0, right_ascension_ascending_node=50.0, epoch=T0)
    if n == "zero":
        return CircularOrbit(altitude=800000, inclination=0.0, true_anomaly=0.0, right_ascension_ascending_node=0.0, epoch=T0)
    if n == "wrap":
        return CircularOrbit(altitude=1200000, inclination=140.0, true_anomaly=359.99, right_ascension_ascending_node=359.99, epoch=T0)
    if n == "sso":
        return SunSynchronousOrbit(altitude=705000, equator_crossing_time="10:30:00", equator_crossing_ascending=False, true_anomaly=77.0, epoch=T0)
    if n == "kep":
        return KeplerianOrbit(altitude=9000000, inclination=63.4, eccentricity=0.3, perigee_argument=120.0, right_ascension_ascending_node=300.0, true_anomaly=200.0, epoch=T0)
    if n == "tle":
        return TwoLineElements(tle=list(ISS))
    return TwoLineElements(tle=list(ISS) + list(NOAA20))


def instruments(n):
    if n == 0:
        return [Instrument(name="a")]
    if n == 1:
        return [Instrument(name="a", field_of_regard=20, min_access_time=timedelta(seconds=7)),
                PointedInstrument(name="b", cross_track_field_of_view=5, along_track_field_of_view=3, roll_angle=-4, is_rectangular=True)]
    return None


def elements(o):
    t = o if isinstance(o, TwoLineElements) else o.to_tle()
    n = t.get_tle_count()
    return [(t.get_epoch(i), t.get_inclination(i), t.get_eccentricity(i), t.get_perigee_argument(i), t.get_mean_motion(i),
             t.get_mean_anomaly(i), t.get_right_ascension_ascending_node(i), t.get_b_star(i)) for i in range(n)]


def ang(a, b):
    return abs((a - b + 180.0) % 360.0 - 180.0)


def common(con, n, base, ctx, what):
    """Checks shared by all constellations; returns the members."""
    before = con.model_dump_json()
    ids = [id(x) for x in con.instruments]
    mem = con.generate_members()
    again = con.generate_members()
    ctx.step(2)
    require(len(mem) == n, "%d members instead of %d" % (len(mem), n), sig="count", what=what)
    nm = [m.name for m in mem]
    w = len(str(n))
    require(nm == ["%s %s" % (con.name, str(i + 1).rjust(w, "0")) for i in range(n)], "names %r" % nm[:12], sig="names", what=what)
    require(nm == sorted(nm) and len(set(nm)) == n, "names not sortable or unique %r" % nm[:12], sig="names", what=what)
    seen = set(ids)
    for m, g in zip(mem, again):
        require(type(m) is Satellite and m.type == "satellite", "member type %s" % type(m), sig="member type", what=what)
        require(len(m.instruments) == len(con.instruments), "member instruments", what=what)
        for a, b in zip(m.instruments, con.instruments):
            require(type(a) is type(b) and a.model_dump() == b.model_dump(), "instrument altered: %r vs %r" % (a, b), sig="instrument altered", what=what)
            require(id(a) not in seen, "instruments are shared between members or with the constellation", sig="instruments shared", what=what)
            seen.add(id(a))
        require(m.name == g.name and m.model_dump_json() == g.model_dump_json(), "second call generates different members", sig="not repeatable", what=what)
        require(m.instruments is not g.instruments, "instrument lists shared between calls", what=what)
    require(con.model_dump_json() == before and [id(x) for x in con.instruments] == ids, "generating members altered the constellation", sig="altered", what=what)
    # a change of one member's instrument stays with that member
    mem2 = con.generate_members()
    mem2[0].instruments[0].field_of_regard = 1.25
    mem2[0].instruments.append(Instrument(name="extra"))
    for m in mem2[1:] + con.generate_members():
        require(m.instruments[0].field_of_regard == con.instruments[0].field_of_regard and len(m.instruments) == len(con.instruments),
                "changing one member's instrument affects another", sig="instruments shared", what=what)
    require(con.instruments[0].field_of_regard != 1.25, "changing a member's instrument affects the constellation", sig="instruments shared", what=what)
    return mem


def offsets(base, m, dM, dO, what, tolO=2.5e-4):
    eb, em = elements(base), elements(m.orbit)
    require(len(eb) == len(em), "element sets lost", what=what)
    for b, o in zip(eb, em):
        require(abs((b[0] - o[0]).total_seconds()) < 1e-3, "epoch differs", what=what, member=m.name)
        require(abs(b[1] - o[1]) < 2e-4 and abs(b[2] - o[2]) < 2e-7 and ang(b[3], o[3]) < 2.5e-4 and abs(b[4] - o[4]) < 2e-8 and abs(b[7] - o[7]) < 1e-9,
                "other elements differ: %r %r" % (b, o), sig="other elements", what=what, member=m.name)
        require(ang(o[5] - b[5], dM) < 2.5e-4, "mean anomaly offset %.4f instead of %.4f" % ((o[5] - b[5]) % 360, dM % 360), sig="mean anomaly offset", what=what, member=m.name)
        require(ang(o[6] - b[6], dO) < tolO, "node offset %.4f instead of %.4f" % ((o[6] - b[6]) % 360, dO % 360), sig="node offset", what=what, member=m.name)


def cases(tier):
    q = tier == "quick"
    k = 0
    for n in list(range(1, 10 if q else 25)):
        for p in range(1, n + 1):
            for f in range(p):
                for cfg in ("delta", "star"):
                    for l in (LEADS if n <= 4 or not q else [LEADS[k % 7]]):
                        k += 1
                        yield {"k": "walker", "n": n, "p": p, "f": f, "cfg": cfg, "lead": l, "ins": k % 3}
    for n, p in ((99, 9), (100, 10), (101, 1), (26, 13), (40, 20), (30, 29)):
        if p > 9:
            yield {"k": "walker", "n": n, "p": p, "f": p // 2, "cfg": "star", "lead": "tle", "ins": 1}
        yield {"k": "walker", "n": n, "p": p, "f": p - 1, "cfg": "delta", "lead": "circ", "ins": 0}
    for l in LEADS:
        for n in ([1, 2, 3, 4, 5, 6, 10, 11] if q else list(range(1, 31))):
            for s in (0.0, 1.0, 30.0, 600.0, 3600.5, 5400.0, 86400.0, 90000.25, -60.0, -7200.0):
                for rg in (True, False, None):
                    k += 1
                    yield {"k": "train", "n": n, "s": s, "rg": rg, "lead": l, "ins": k % 3}
    for n in range(1, 7 if q else 13):
        for ax in range(len(AXES)):
            for inc in (0.0, 30.0, 63.4, 90.0, 120.0, 179.0):
                for cw in (True, False, None):
                    yield {"k": "mog", "n": n, "ax": ax, "inc": inc, "cw": cw, "ins": n % 3}
    for a in ([400e3, 705e3, 1200e3, 3000e3] if q else [300e3, 400e3, 550e3, 705e3, 900e3, 1200e3, 2000e3, 3000e3, 8000e3]):
        yield {"k": "soc", "a": a, "m": 12 if q else 30, "pk": 6 if q else 12}
    yield {"k": "single"}
    yield {"k": "limits"}


def kw(c):
    i = instruments(c["ins"])
    return {} if i is None else {"instruments": i}


def check(c, ctx):
    k = c["k"]
    if k == "walker":
        base = lead(c["lead"])
        con = WalkerConstellation(name="W 1", orbit=lead(c["lead"]), number_satellites=c["n"], number_planes=c["p"], relative_spacing=c["f"], configuration=c["cfg"], **kw(c))
        mem = common(con, c["n"], base, ctx, c)
        spp = -(-c["n"] // c["p"])
        span = 360.0 if c["cfg"] == "delta" else 180.0
        for i, m in enumerate(mem):
            plane, slot = divmod(i, spp)
            ctx.state(("w", c["n"], c["p"], c["f"], c["cfg"], i, c["lead"]))
            offsets(base, m, slot * 360.0 / spp + plane * c["f"] * 360.0 / c["n"], plane * span / c["p"], c)
        if c["n"] % c["p"] == 0:
            planes = {}
            for m in mem:
                planes.setdefault(round((elements(m.orbit)[0][6] - elements(base)[0][6]) % 360 / (span / c["p"])) % (c["p"] if c["cfg"] == "delta" else 10 ** 6), []).append(m)
            require(len(planes) == c["p"] and all(len(v) == spp for v in planes.values()), "planes are unevenly filled", what=c)
        if c["cfg"] == "delta" and c["f"] == 0:
            d = WalkerConstellation(name="W 1", orbit=lead(c["lead"]), number_satellites=c["n"], number_planes=c["p"], **kw(c))
            require([x.model_dump_json() for x in d.generate_members()] == [x.model_dump_json() for x in mem], "defaults are not delta with zero spacing", what=c)
        ctx.trace((c["n"], c["p"], c["f"], c["cfg"], c["lead"]))
    elif k == "train":
        base = lead(c["lead"])
        x = {} if c["rg"] is None else {"repeat_ground_track": c["rg"]}
        con = TrainConstellation(name="T", orbit=lead(c["lead"]), number_satellites=c["n"], interval=timedelta(seconds=c["s"]), **x, **kw(c))
        mem = common(con, c["n"], base, ctx, c)
        for i, m in enumerate(mem):
            ctx.state(("t", c["n"], c["s"], c["rg"], i, c["lead"]))
            if len(elements(base)) == 1:
                mm = elements(base)[0][4]
                if c["lead"] not in ("tle",):
                    mm = 86400 / (2 * math.pi) * math.sqrt(3.986004418e14 / (base.altitude + R) ** 3)
                dM = -360.0 * mm * c["s"] / 86400 * i
            else:
                dM = -360.0 * elements(base)[0][4] * c["s"] / 86400 * i
            dO = 0.0 if c["rg"] is False else 360.0 * c["s"] / 86400 * i
            offsets(base, m, dM, dO, c)
        ctx.trace((c["n"], c["s"], c["rg"], c["lead"]))
    elif k == "mog":
        P, T = AXES[c["ax"]]
        for O, ta in itertools.product((0.0, 30.0, 300.0), (0.0, 45.0, 90.0, 200.0, 359.5)):
            x = {} if c["cw"] is None else {"clockwise": c["cw"]}
            ref = CircularOrbit(altitude=500e3, inclination=c["inc"], right_ascension_ascending_node=O, true_anomaly=ta, epoch=T0)
            con = MOGConstellation(name="M", orbit=ref, parallel_axis=P, transverse_axis=T, number_satellites=c["n"], **x, **kw(c))
            mem = common(con, c["n"], ref, ctx, c)
            mog(c, ref, mem, P, T, O, ta, c["cw"] is not False, ctx)
            ctx.trace((c["n"], c["ax"], c["inc"], c["cw"], O, ta))
    elif k == "soc":
        h = c["a"]
        hor = math.acos(R / (R + h))
        for j, g in itertools.product(range(c["m"]), range(c["pk"])):
            lam = hor * (0.98 * (j + 1) / c["m"]) if j else hor * 0.05
            pk = (g + 1.0) / c["pk"]
            if lam * pk < 0.02:
                continue
            s = math.sin(lam) * pk
            nf, npl = 2 * math.pi / (2 * math.asin(s)), 2 * math.pi / (2 * math.asin(s * math.sqrt(3) / 2))
            what = dict(altitude=h, swath=2 * R * lam, packing=pk)
            if min(abs(nf - round(nf)), abs(npl - round(npl))) < 1e-6:
                ctx.skip()
                continue
            spp, planes = math.ceil(nf), math.ceil(npl)
            ref = CircularOrbit(altitude=h, inclination=53.0, right_ascension_ascending_node=20.0, true_anomaly=5.0, epoch=T0)
            con = SOCConstellation(name="S", orbit=ref, swath_width=2 * R * lam, packing_distance=pk, instruments=instruments(1))
            wk = con.generate_walker()
            ctx.step()
            ctx.state(("s", h, j, g))
            require(type(wk) is WalkerConstellation and wk.number_planes == planes and wk.number_satellites == planes * spp and wk.relative_spacing == 0,
                    "streets of coverage pattern %d/%d instead of %d/%d" % (wk.number_satellites, wk.number_planes, planes * spp, planes), sig="soc pattern", what=what)
            if planes * spp <= 400:
                mem = common(con, planes * spp, ref, ctx, what)
                for i, m in enumerate(mem):
                    plane, slot = divmod(i, spp)
                    offsets(ref, m, slot * 360.0 / spp, plane * 360.0 / planes, what)
            ctx.trace((spp, planes))
    elif k == "single":
        for l in LEADS:
            for n in (0, 1, 2):
                i = instruments(n)
                s = Satellite(name="A", orbit=lead(l), **({} if i is None else {"instruments": i}))
                m = s.generate_members()
                require(len(m) == 1 and m[0].model_dump_json() == s.model_dump_json(), "a single satellite is its own member", what=l)
                ctx.step()
                ctx.state(("1", l, n))
        ctx.trace("single")
    else:
        from pydantic import ValidationError
        for n in range(-1, 7):
            for p in range(-1, 9):
                for f in range(-1, 9):
                    want = n >= 1 and p >= 1 and 0 <= f < p and p <= n
                    try:
                        WalkerConstellation(name="W", orbit=lead("circ"), number_satellites=n, number_planes=p, relative_spacing=f)
                        got = True
                    except ValidationError:
                        got = False
                    require(got == want, "Walker %d/%d/%d accepted=%r" % (n, p, f, got), sig="limits")
                    ctx.step()
                    ctx.state(("l", n, p, f))
        ctx.trace("limits")


def rot3(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


def rot1(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[1.0, 0, 0], [0, c, -s], [0, s, c]])


def pos(a, e, i, O, w, M):
    E = M
    for _ in range(60):
        E = M + e * math.sin(E)
    x = np.array([a * (math.cos(E) - e), a * math.sqrt(1 - e * e) * math.sin(E), 0.0])
    return rot3(O).dot(rot1(i)).dot(rot3(w)).dot(x)


def mog(c, ref, mem, P, T, O, ta, cw, ctx):
    a = ref.altitude + R
    i0, O0, u0 = math.radians(c["inc"]), math.radians(O), math.radians(ta)
    ph = []
    what = dict(c, node=O, anomaly=ta)
    small = (P + T) / a  # terms of second order that the construction neglects
    for k, m in enumerate(mem):
        o = m.orbit
        require(o.epoch == ref.epoch and abs(o.altitude - ref.altitude) < 1e-6, "epoch or altitude of a mutual orbiter", what=what)
        e = o.eccentricity
        nu = math.radians(o.true_anomaly)
        E = 2 * math.atan2(math.sqrt(1 - e) * math.sin(nu / 2), math.sqrt(1 + e) * math.cos(nu / 2))
        M0 = E - e * math.sin(E)
        prev = None
        for j in range(9):
            d = 2 * math.pi * j / 8
            r0 = pos(a, 0.0, i0, O0, 0.0, u0 + d)
            v0 = pos(a, 0.0, i0, O0, 0.0, u0 + d + math.pi / 2)
            r = pos(a, e, math.radians(o.inclination), math.radians(o.right_ascension_ascending_node), math.radians(o.perigee_argument), M0 + d)
            nrm = np.cross(r0, v0)
            y = (r - r0).dot(v0) / np.linalg.norm(v0) / (P / 2)
            z = (r - r0).dot(nrm) / np.linalg.norm(nrm) / (T / 2)
            tol = 0.01 + 3 * small * max(P, T) / min(P, T)
            require(abs(math.hypot(y, z) - 1) < tol, "member %d leaves the mutual orbit ellipse: (%.3f, %.3f) of the half axes" % (k, y, z), sig="ellipse", what=what)
            p = math.degrees(math.atan2(z, y))
            if prev is not None and tol < 0.3:
                step = (p - prev + 180) % 360 - 180
                require(abs(step - (-45 if cw else 45)) < 60 * tol + 2, "member %d moves %.1f degrees about the reference per eighth orbit" % (k, step), sig="direction", what=what)
            prev = p
            if j == 0:
                ph.append(p)
            ctx.step()
        ctx.state(("m", c["n"], c["ax"], c["inc"], cw, O, ta, k))
    n = len(ph)
    tol = 2 + 60 * (0.01 + 3 * small * max(P, T) / min(P, T))
    if tol < 20:
        for k in range(1, n):
            st = (ph[k] - ph[k - 1]) % 360
            require(min(abs(st - 360.0 / n), abs(st - 360 + 360.0 / n)) < tol, "members are not equally phased: %r" % ph, sig="phasing", what=what)

"""C14: repeat cycles are genuine and replayed consistently.

For each orbit of a menu the reference model scans the whole search span
densely in Earth-fixed coordinates; then every phase x cycle offset (before and
after the epoch, scalar and list) and every (start phase, period length) pair
is explored.
"""
import itertools
from datetime import timedelta

import numpy as np
from skyfield.api import EarthSatellite, load, wgs84
from skyfield.framelib import itrs

from tatc import config
from tatc.analysis import collect_orbit_track, collect_observations
from tatc.schemas import CircularOrbit, Instrument, KeplerianOrbit, Point, Satellite, TwoLineElements
from mc import windows
from mc.core import Violation, require
from mc.common import T0

BOUNDS = {
    "quick": "9 orbits (repeat cycles of 0 to 8 days and none) x 7 tolerance/duration settings, dense scan of the search span; 4 x 4 tolerances around what the reported return needs; 9 phases x 9 cycle offsets, scalar and list; 5 start phases x 7 period lengths x 2 places, and periods of 34 and 36 cycles",
    "thorough": "14 orbits, 30-day searches, 17 phases x 15 cycle offsets, 9 start phases x 10 lengths x 4 places",
}
ASSUMPTIONS = ["a return is required to be found (or rejected) only when it is inside (outside) the tolerances by 10 %",
               "geostationary orbits never leave the tolerance: only the validity of the reported cycle is decided"]
CHUNK = 1
TS = load.timescale()
ORB = {
    "r1": (572000, 98.2, 0.0), "r2": (504000, 51.6, 0.0), "r3": (518000, 63.4, 0.0), "eq": (700000, 0.0, 0.0),
    "n1": (612000, 97.9, 0.0), "n2": (850000, 150.0, 0.0), "r8": (534000, 98.2, 0.0), "r5": (634000, 98.2, 0.0),
    "geo": (35793170, 0.05, 0.0), "meo": (20180000, 55.0, 0.0), "r4": (584000, 51.6, 0.0), "n3": (400000, 28.5, 0.0),
    "heo": (20184000, 63.4, 0.7), "n4": (1200000, 75.0, 0.05),
}


def orbit(n):
    a, i, e = ORB[n]
    return KeplerianOrbit(altitude=a, inclination=i, eccentricity=e, perigee_argument=270.0 if e else 0.0,
                          right_ascension_ascending_node=20.0, true_anomaly=10.0 if not e else 0.0, epoch=T0).to_tle()


SET = [(10000, 10, 3.5), (10000, 10, 0.5), (10000, 10, 9), (3000, 10, 3.5), (10000, 1.0, 3.5), (200, 10, 3.5), (60000, 80, 3.5)]


def cases(tier):
    q = tier == "quick"
    orbs = ["r1", "r2", "r3", "eq", "n1", "n2", "r8", "geo", "heo"] if q else list(ORB)
    out = []
    for o in orbs:
        for s in SET:
            if s[2] > 5 and q and o not in ("r8", "n1"):
                continue
            out.append({"k": "find", "o": o, "s": list(s)})
        if not q:
            out.append({"k": "find", "o": o, "s": [10000, 10, 30]})
        out.append({"k": "edge", "o": o, "d": 3.5 if q else 9})
        out.append({"k": "replay", "o": o, "q": q})
        for ph in range(5 if q else 9):
            out.append({"k": "events", "o": o, "ph": ph, "q": q})
    out.append({"k": "events", "o": "r1", "ph": 1, "q": q, "lens": [36.4]})
    out.append({"k": "events", "o": "r2", "ph": 4, "q": q, "lens": [33.7]})
    return out


_SCAN = {}


def fixed(sat, x, epoch):
    t0 = TS.from_datetime(epoch)
    p, v = sat.at(TS.tt_jd(t0.whole, t0.tt_fraction + np.atleast_1d(x) / 86400.0)).frame_xyz_and_velocity(itrs)
    return p.m, v.m_per_s


def scan(o, days):
    """Local minima of the Earth-fixed distance to the initial state: (time, dr, dv, elevation)."""
    orb = orbit(o)
    sat = EarthSatellite(orb.tle[0], orb.tle[1], None, TS)
    ep = sat.epoch.utc_datetime()
    p0, v0 = fixed(sat, 0.0, ep)
    out = []
    step = 20.0
    for a in np.arange(600.0, days * 86400, 40000.0):
        x = np.arange(a - step, min(a + 40000.0, days * 86400) + step, step)
        p, v = fixed(sat, x, ep)
        d = np.linalg.norm(p - p0, axis=0)
        k = np.nonzero((d[1:-1] <= d[:-2]) & (d[1:-1] < d[2:]) & (d[1:-1] < 400000))[0] + 1
        if not len(k):
            continue
        lo, hi = x[k - 1], x[k + 1]
        for _ in range(25):
            m1, m2 = lo + (hi - lo) / 3, hi - (hi - lo) / 3
            d1 = np.linalg.norm(fixed(sat, m1, ep)[0] - p0, axis=0)
            d2 = np.linalg.norm(fixed(sat, m2, ep)[0] - p0, axis=0)
            lo, hi = np.where(d1 > d2, m1, lo), np.where(d1 > d2, hi, m2)
        m = (lo + hi) / 2
        p, v = fixed(sat, m, ep)
        dr, dv = np.linalg.norm(p - p0, axis=0), np.linalg.norm(v - v0, axis=0)
        out += [(float(a_), float(b_), float(c_)) for a_, b_, c_ in zip(m, dr, dv) if 600 < a_ < days * 86400]
    return sorted(set(out)), ep, sat, p0, v0


def check_find(case, ctx):
    o = case["o"]
    pos, vel, days = case["s"]
    mins, ep, sat, p0, v0 = scan(o, days)
    ctx.step(len(mins))
    rc = orbit(o).get_repeat_cycle(max_delta_position=pos, max_delta_velocity=vel, max_search_duration=timedelta(days=days), lazy_load=False)
    # the same through the configuration
    orb2 = orbit(o)
    config.rc.repeat_cycle_delta_position_m, config.rc.repeat_cycle_delta_velocity_m_per_s = pos, vel
    config.rc.repeat_cycle_search_duration_days = days
    rc2 = orb2.get_repeat_cycle()
    require(rc == rc2, "settings and arguments give different cycles", "config", a=str(rc), b=str(rc2))
    ctx.step(2)
    alt = ORB[o][0]
    # candidate times are resolved to half a second, about 4 km along the track
    lim = 0.9 * pos if pos >= 10000 else 0.9 * pos - 4000
    clear = [m for m in mins if m[1] < lim and m[2] < 0.9 * vel and m[1] < 0.02 * alt]
    if rc is not None:
        x = rc.total_seconds()
        require(0 < x <= days * 86400 + 1, "cycle outside the search span", "span", got=x)
        p, v = fixed(sat, x, ep)
        dr, dv = np.linalg.norm(p - p0), np.linalg.norm(v - v0)
        require(dr < pos * 1.02 and dv < vel * 1.02, "state does not return at the reported cycle", "invalid", dr=dr, dv=dv, rc=x)
        if o != "geo":
            early = [m for m in clear if m[0] < x - 60]
            require(not early, "an earlier return exists", "first", got=x, exp=early[:1])
    else:
        # a geostationary orbit has no separate return
        if o != "geo":
            require(not clear, "a return exists but no cycle is reported", "missed", exp=clear[:1])
    ctx.state(["find", o, case["s"]])
    ctx.trace(str(rc), {"orbit": o, "setting": case["s"], "cycle": str(rc), "clear_returns": clear[:2]})


def check_edge(case, ctx):
    """Tolerances just below and above what the reported return needs."""
    o = case["o"]
    if o == "geo":
        return  # never leaves the tolerance
    dur = timedelta(days=case["d"])
    orb = orbit(o)
    sat = EarthSatellite(orb.tle[0], orb.tle[1], None, TS)
    ep = sat.epoch.utc_datetime()
    p0, v0 = fixed(sat, 0.0, ep)
    for pos, vel in ((10000, 10), (60000, 80), (300000, 400)):
        rc = orbit(o).get_repeat_cycle(max_delta_position=pos, max_delta_velocity=vel, max_search_duration=dur, lazy_load=False)
        if rc is None:
            ctx.skip()
            continue
        p, v = fixed(sat, rc.total_seconds(), ep)
        dr, dv = np.linalg.norm(p - p0), np.linalg.norm(v - v0)
        for fp, fv in itertools.product((0.95, 0.75, 1.1, 2), repeat=2):
            a, b = dr * fp, dv * fv
            r2 = orbit(o).get_repeat_cycle(max_delta_position=a, max_delta_velocity=b, max_search_duration=dur, lazy_load=False)
            ctx.step()
            ctx.state([o, pos, fp, fv])
            if r2 is not None:
                p, v = fixed(sat, r2.total_seconds(), ep)
                d, w = np.linalg.norm(p - p0), np.linalg.norm(v - v0)
                require(d < a * 1.01 and w < b * 1.01, "state does not return within the tolerances at the reported cycle", "edge-invalid", dr=d, dv=w, tolerances=(a, b))
            if fp > 1 and fv > 1:
                require(r2 is not None and r2 <= rc + timedelta(seconds=5), "a return inside both tolerances is not found", "edge-missed", dr=dr, dv=dv, tolerances=(a, b), got=str(r2), known=str(rc))
        ctx.trace([o, pos, str(rc)], {"orbit": o, "cycle": str(rc), "dr": dr, "dv": dv})


def check_replay(case, ctx):
    o = case["o"]
    orb = orbit(o)
    config.rc.repeat_cycle_search_duration_days = 9
    rc = orb.get_repeat_cycle()
    sat = EarthSatellite(orb.tle[0], orb.tle[1], None, TS)
    ep = sat.epoch.utc_datetime()
    R = rc.total_seconds() if rc is not None else 86400.0
    phases = [0.0, 1e-3, 0.1, 0.25, 0.4, 0.5, 0.75, 0.9, 0.999] if case["q"] else [k / 16 for k in range(16)] + [0.999]
    cyc = [-3, -2, -1, 0, 1, 2, 3, 5, 10] if case["q"] else list(range(-5, 8)) + [15, 40]
    times = [ep + timedelta(seconds=(f + k) * R) for k in cyc for f in phases]

    def state(tr):
        p, v = tr.frame_xyz_and_velocity(itrs)
        return np.asarray(p.m), np.asarray(v.m_per_s)
    P, V = state(orb.get_orbit_track(times))
    require(P.shape == (3, len(times)), "track has the wrong shape", "shape")
    pl_p, pl_v = state(sat.at(TS.from_datetimes(times)))
    off_p, off_v = state(orb.get_orbit_track(times, try_repeat=False))
    require(np.abs(off_p - pl_p).max() < 1.0, "plain propagation is not used although repeats are disabled", "off")
    config.rc.repeat_cycle_for_orbit_track = False
    off_p, off_v = state(orb.get_orbit_track(times))
    s_p, _ = state(orb.get_orbit_track(times[5]))
    config.rc.repeat_cycle_for_orbit_track = True
    require(np.abs(off_p - pl_p).max() < 1.0 and np.abs(s_p - pl_p[:, 5]).max() < 1.0,
            "plain propagation is not used although repeats are disabled", "off")
    if rc is None:
        require(np.abs(P - pl_p).max() < 1.0, "orbit without repeat cycle is not propagated plainly", "none")
    # cycles before and after the epoch differ by the drift of the orbit over one cycle
    xs = np.linspace(-R, 0, 61)
    (pa, va), (pb, vb) = fixed(sat, xs, ep), fixed(sat, xs + R, ep)
    tol_seam = 1.3 * np.linalg.norm(pa - pb, axis=0).max() + 500
    tolv_seam = 1.3 * np.linalg.norm(va - vb, axis=0).max() + 0.5
    n = len(phases)
    for a, k in enumerate(cyc):
        for b, f in enumerate(phases):
            i = a * n + b
            ctx.step()
            ctx.state([o, k, f])
            # scalar equals list
            if (a + b) % 3 == 0:
                p, v = state(orb.get_orbit_track(times[i]))
                require(np.abs(p - P[:, i]).max() < 1.0 and np.abs(v - V[:, i]).max() < 1e-2, "scalar and list propagation differ", "scalar", k=k, phase=f)
            tr = orb.get_orbit_track(times[i])
            require(abs((tr.t.utc_datetime() - times[i]).total_seconds()) < 1e-3, "track does not carry the requested time", "time")
            if rc is None:
                continue
            if k == 0:
                require(np.abs(P[:, i] - pl_p[:, i]).max() < 1.0 and np.abs(V[:, i] - pl_v[:, i]).max() < 1e-2,
                        "first cycle differs from plain propagation", "first-cycle", phase=f)
            else:
                i0 = cyc.index(0) * n + b
                d, dv = np.linalg.norm(P[:, i] - P[:, i0]), np.linalg.norm(V[:, i] - V[:, i0])
                seam = k < 0 or f in (0.0,)
                # same side of the epoch: exact; across it: within the tolerance of the repeat
                lim, limv = (tol_seam, tolv_seam) if seam else (2.0, 0.01)
                require(d < lim and dv < limv, "Earth-fixed state is not that of the first cycle", "replay", k=k, phase=f, d=d, dv=dv)
    if rc is not None:
        # negative side: cycles before the epoch repeat each other
        neg = [k for k in cyc if k < 0]
        for b, f in enumerate(phases):
            if f == 0.0:
                continue
            idx = [cyc.index(k) * n + b for k in neg]
            for i in idx[1:]:
                require(np.linalg.norm(P[:, i] - P[:, idx[0]]) < 2.0, "cycles before the epoch differ from each other", "replay-neg", phase=f)
    # the analysis sees the same
    sub = times[:: 7]
    df = collect_orbit_track(Satellite(name="S", orbit=orb, instruments=[Instrument(name="I")]), sub)
    for j, g in enumerate(df.geometry):
        i = 7 * j
        lat, lon = geodetic(P[:, i])
        require(abs(lat - g.y) < 1e-3 and abs((lon - g.x + 180) % 360 - 180) * np.cos(np.radians(lat)) < 1e-3, "collected track differs from the replayed state", "collect",
                got=(g.x, g.y), exp=(lon, lat))
    ctx.trace([o, str(rc)], {"orbit": o, "cycle": str(rc), "times": len(times)})


def geodetic(r):
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    p = np.hypot(r[0], r[1])
    lat = np.arctan2(r[2], p * (1 - e2))
    for _ in range(8):
        N = a / np.sqrt(1 - e2 * np.sin(lat) ** 2)
        lat = np.arctan2(r[2] + e2 * N * np.sin(lat), p)
    return np.degrees(lat), np.degrees(np.arctan2(r[1], r[0]))


PL = [(40.0, -74.0), (0.0, 60.0), (-63.0, 10.0), (20.0, 179.9)]


def check_events(case, ctx):
    o = case["o"]
    orb = orbit(o)
    config.rc.repeat_cycle_search_duration_days = 9
    rc = orb.get_repeat_cycle()
    ep = orb.get_epoch()
    R = rc.total_seconds() if rc is not None else 86400.0
    sat = EarthSatellite(orb.tle[0], orb.tle[1], None, TS)
    start = ep + timedelta(seconds=[0.0, 0.3, 0.77, 1.4, -0.6, 0.05, 2.2, -1.3, 0.5][case["ph"]] * R)
    lens = [0.4, 0.9, 1.05, 1.7, 2.0, 2.6, 3.3] if case["q"] else [0.2, 0.4, 0.9, 0.999, 1.001, 1.5, 2.0, 2.6, 3.3, 4.8]
    lens = case.get("lens", lens)
    me = 12.0
    for la, lo in PL[:2] if case["q"] else PL:
        pt = Point(id=1, latitude=la, longitude=lo)
        topos = wgs84.latlon(la, lo, 0)
        one_t, one_e = sat.find_events(topos, TS.from_datetime(start), TS.from_datetime(start + timedelta(seconds=R)), me)
        one = [((t.utc_datetime() - start).total_seconds(), int(e)) for t, e in zip(one_t, one_e)]
        for L in lens:
            end = start + timedelta(seconds=L * R)

            def get(**kw):
                t, e = orb.get_observation_events(pt, start, end, me, **kw)
                return [((x.utc_datetime() - start).total_seconds(), int(y)) for x, y in zip(t, e)] if len(e) else []
            pt_, pe_ = sat.find_events(topos, TS.from_datetime(start), TS.from_datetime(end), me)
            plain = [((t.utc_datetime() - start).total_seconds(), int(e)) for t, e in zip(pt_, pe_)]
            exp = plain
            if rc is not None and L > 1:
                exp = [(x + k * R, e) for k in range(int(np.ceil(L)) + 1) for x, e in one if x + k * R <= L * R]
            same(get(), exp, L * R, "events are not those of the first cycle repeated", "events")
            same(get(try_repeat=True), exp, L * R, "events are not those of the first cycle repeated", "events")
            same(get(try_repeat=False), plain, L * R, "plain events are not used although repeats are disabled", "events-off")
            config.rc.repeat_cycle_for_observation_events = False
            g = get()
            config.rc.repeat_cycle_for_observation_events = True
            same(g, plain, L * R, "plain events are not used although repeats are disabled", "events-off")
            ctx.step(4 + len(exp))
            ctx.state([o, case["ph"], L, la])
            ctx.trace([len(exp), len(plain), o], {"orbit": o, "start": str(start), "length_in_cycles": L, "events": exp[:4]})


def same(got, exp, end, msg, sig):
    edge = lambda l: [(x, e) for x, e in l if x < end - 2]
    a, b = edge(got), edge(exp)
    require(len(a) == len(b) and all(abs(x - y) < 1.0 and e == f for (x, e), (y, f) in zip(a, b)), msg, sig, got=a[:6], exp=b[:6], n=(len(a), len(b)))
    require(all(x <= end + 1 for x, _ in got), "events after the period end", "events-end")


def check(case, ctx):
    from tatc.config import RuntimeConfiguration
    config.rc = RuntimeConfiguration()
    {"find": check_find, "edge": check_edge, "replay": check_replay, "events": check_events}[case["k"]](case, ctx)

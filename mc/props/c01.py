"""C01: observation windows are exactly the visibility intervals.

A case fixes (orbit, place, field of regard); inside it *every* ordered pair of
period boundaries from a set that visits every phase (before rise, rising part,
setting part, after set) of up to three consecutive passes is explored.
"""
import itertools
from datetime import timedelta, timezone

import numpy as np
from skyfield.api import wgs84

from tatc import config
from tatc.analysis import collect_observations
from tatc.schemas import Instrument, Satellite
from mc import env, orbits, windows
from mc.core import Violation, require
from mc.common import same_point

BOUNDS = {
    "quick": "10 orbits x 7 places (one below sea level) x up to 3 fields of regard; all ordered boundary pairs over the phases of 3 consecutive passes; 6 instrument settings in rotation, all settings and all 9 lighting requirements on selected groups; periods of 0.2 to 0.8 s inside passes and periods starting 0.75 to 0.95 s before a set; periods within 5 s of sunrise, sunset and shadow crossings, and minimum access times within 0.1 s of the period or exactly the length of a pass",
    "thorough": "as quick, 5 fields of regard, 4 passes, every instrument setting for every boundary pair",
}
ASSUMPTIONS = ["passes whose peak is within 0.05 deg of the threshold and clipped pieces shorter than 1 s are don't-care",
               "boundaries compared within 1 s"]
OFF = {"heo", "geo", "equat"}  # orbits with short repeat cycles: plain propagation selected by configuration
ORBS = ["iss", "leo98", "leo30", "retro", "polar", "equat", "meo", "geo", "heo", "ecc"]
SETTINGS = [(0, False), (0, True), (240, False), (240, True), (1e6, False), (30, True)]
NAMES = {0: "Default"}


def cases(tier):
    fors = (180.0, 100.0, 35.0) if tier == "quick" else (180.0, 120.0, 100.0, 60.0, 35.0, 250.0, 360.0)
    out = []
    for o in ORBS:
        for p in orbits.PLACES:
            fs = fors
            if o in ("meo", "geo", "heo"):
                fs = (180.0, 16.0) if o != "heo" else (180.0, 30.0)
            for f in fs:
                out.append({"o": o, "p": p, "f": f, "np": 3 if tier == "quick" else 4, "all": tier != "quick"})
    out.append({"o": "leo98", "p": "mid", "f": 300.0, "np": 1, "all": False})
    out.append({"o": "iss", "p": "mid", "f": 360.0, "np": 1, "all": False})
    for o, p in (("leo98", "mid"), ("iss", "eq"), ("heo", "high")):
        out.append({"o": o, "p": p, "f": 140.0, "np": 2, "all": True})
    for o, p in (("leo98", "mid"), ("retro", "eq"), ("meo", "mid"), ("iss", "mtn")):
        out.append({"o": o, "p": p, "f": 180.0, "np": 2, "light": True})
    for o, p in (("geo", "anti"), ("meo", "anti"), ("meo", "mtn"), ("meo", "eq"), ("meo", "mid"), ("leo98", "mid")):
        out.append({"o": o, "p": p, "f": 180.0, "np": 0, "term": True})
    return out


_SAT = {}


def sky(o, p, span):
    orb = orbits.orbit(o)
    la, lo, el = orbits.PLACES[p]
    return windows.Sky(orb.to_tle().tle, la, lo, el, orbits.base_time(o)).sample(-7200, span, 60)


def satellite(o, f, setting, idx=0, light=(None, None)):
    key = (o, f, setting, idx, light)
    if key not in _SAT:
        m, fixed = setting
        inst = Instrument(name="cam-%g" % f, field_of_regard=f, min_access_time=timedelta(seconds=m), access_time_fixed=fixed,
                          req_self_sunlit=light[0], req_target_sunlit=light[1])
        other = Instrument(name="other", field_of_regard=1.0)
        # the observing instrument sits at a varying position of the list
        _SAT[key] = Satellite(name="Sat " + o, orbit=orbits.orbit(o), instruments=[[inst], [other, inst], [other, other, inst, other]][idx])
    return _SAT[key]


def boundaries(sk, f, npass):
    """Boundary instants visiting every phase of npass consecutive clear passes."""
    me = windows.min_elevation(sk.height(0), f)
    ps = [i for i in sk.intervals(me) if not i[3] and i[0] > sk.x[0] + 60 and i[1] < sk.x[-1] - 60][:npass]
    if not ps:
        # never (or always) visible: a few arbitrary periods
        return [0.0, 1800.0, 5400.0, 20000.0, 86400.0]
    b = []
    for s, e, _, _ in ps:
        m = (sk.x >= s) & (sk.x <= e)
        c = float(sk.x[m][np.argmax(sk.e[m])]) if m.any() else (s + e) / 2
        b += [s - 40.0, s + 0.3 * (c - s), c + 0.4 * (e - c), e + 40.0]
    b.append(ps[-1][1] + 4000.0)
    return sorted(set(round(x, 3) for x in b if x < sk.x[-1] - 10))


def solar(sk, x):
    """Independent lighting state at time x: (margin of satellite, target altitude, azimuth)."""
    g = sk.gcrs(x)
    r = g.position.m[:, 0]
    tt = g.t.tt[0]
    s = env.sun_direction(tt) * env.sun_distance_au(tt) * 149597870700.0
    d = s - r
    u = d / np.linalg.norm(d)
    t = -np.dot(r, u)  # along the line towards the sun, closest approach to the centre
    miss = np.linalg.norm(r + max(t, 0) * u)
    sat_margin = (miss - 6378136.6) / 1000.0 if t > 0 else 1e6
    topos = sk.topos.at(g.t)
    q = topos.position.m[:, 0]
    d = s - q
    R = sk.topos.rotation_at(g.t)[:, :, 0]
    v = R @ (d / np.linalg.norm(d))
    alt = np.degrees(np.arcsin(v[2]))
    az = np.degrees(np.arctan2(v[1], v[0])) % 360
    return sat_margin, alt, az


def roots(f, a, b, step):
    out, x, u = [], a, f(a)
    while x < b:
        y = min(x + step, b)
        v = f(y)
        if (u > 0) != (v > 0):
            lo, hi = x, y
            for _ in range(30):
                m = (lo + hi) / 2
                if (f(m) > 0) == (u > 0):
                    lo = m
                else:
                    hi = m
            out.append(lo)
        x, u = y, v
    return out


def terminator(case, sk):
    """Periods inside a pass whose middle lies just before or after a change of
    lighting, and periods around the minimum access time."""
    me = windows.min_elevation(sk.height(0), case["f"])
    todo = []
    nt = ns = 0
    for s, e, _, fz in sk.intervals_cached(me):
        s, e = max(s, 0.0), min(e, 100000.0)
        if fz or e - s < 500:
            continue
        h = min(120.0, (e - s) / 5)
        c = (s + e) / 2
        for m, fixed in itertools.product((150.4, 150.6, 149.0, 150.0), (False, True)):
            # the whole period is visible and lasts 150.5 s
            todo.append((c - 75.25, c + 75.25, (m, fixed), 0, 0, (None, None), False))
        # the period ends up with less than a second of visibility
        for d in (0.2, 0.5, 0.8):
            todo.append((c, c + d, (0, False), 0, 0, (None, None), False))
        if e - s < 90000:
            for d in (0.75, 0.95):
                todo.append((e - d, e + 300.0, (0, False), 0, 0, (None, None), False, True))
        if e - s < 1000 and nt + ns:
            continue
        for x in roots(lambda x: solar(sk, x)[1], s + 2 * h, e - 2 * h, 300.0)[:2]:
            nt += 1
            for d, l in itertools.product((-h, -60, -20, -5, 5, 20, 60, h), ((None, True), (None, False), (True, True), (None, None))):
                todo.append((x + d - h, x + d + h, (0, False), 0, 0, l, l == (None, None)))
        for x in roots(lambda x: solar(sk, x)[0], s + 2 * h, e - 2 * h, 60.0)[:2]:
            ns += 1
            for d, l in itertools.product((-h, -30, -5, 5, 30, h), ((True, None), (False, None), (False, True), (None, None))):
                todo.append((x + d - h, x + d + h, (0, False), 0, 0, l, l == (None, None)))
    return todo


def one(case, sk, start, end, setting, ctx, tz=0, idx=0, light=(None, None), solar_cols=False, last=False):
    o, f = case["o"], case["f"]
    sat = satellite(o, f, setting, idx, light)
    pt = orbits.point(case["p"], 17)
    zone = timezone(timedelta(hours=tz))
    t_s = (sk.base + timedelta(seconds=start)).astimezone(zone)
    t_e = (sk.base + timedelta(seconds=end)).astimezone(timezone(timedelta(hours=(tz + 5.5) % 11)) if tz else zone)
    df = collect_observations(pt, sat, t_s, t_e, instrument_index=idx, omit_solar=not solar_cols)
    me = windows.min_elevation(sk.height(start), f)
    ints = windows.clip(sk.intervals_cached(me), start, end)
    m, fixed = setting
    la, lo, el = orbits.PLACES[case["p"]]
    got, mids = [], []
    sec = lambda t: (t.to_pydatetime() - sk.base).total_seconds()
    for _, r in df.iterrows():
        require(r.point_id == 17 and r.satellite == sat.name and r.instrument == "cam-%g" % f, "row is mislabelled", "labels",
                got=[r.point_id, r.satellite, r.instrument])
        require(same_point(r.geometry, lo, la, el), "row geometry is not the point", "geometry", got=str(r.geometry))
        s, e, c = sec(r.start), sec(r.end), sec(r.epoch)
        require(abs((s + e) / 2 - c) < 1e-3, "epoch is not the middle of the row", "epoch")
        if fixed:
            require(abs((e - s) - m) < 1e-3, "fixed access time not respected", "fixed", got=e - s)
        mids.append(c)
        got.append((s, e))
        a, z = sk.altaz([c])
        require(abs(r.sat_alt - a[0]) < 0.02, "satellite altitude angle differs", "sat_alt", got=r.sat_alt, exp=a[0])
        dz = abs((r.sat_az - z[0] + 180) % 360 - 180) * np.cos(np.radians(a[0]))
        require(dz < 0.02, "satellite azimuth differs", "sat_az", got=r.sat_az, exp=z[0])
        if solar_cols:
            mg, alt, az = solar(sk, c)
            if abs(mg) > 2:
                require(bool(r.sat_sunlit) == (mg > 0), "sunlit flag differs", "sat_sunlit", margin=mg)
            require(abs(r.solar_alt - alt) < 0.05, "solar altitude differs", "solar_alt", got=r.solar_alt, exp=alt)
            require(abs((r.solar_az - az + 180) % 360 - 180) * np.cos(np.radians(alt)) < 0.05, "solar azimuth differs", "solar_az", got=r.solar_az, exp=az)
            # local solar time = hour angle + 12 h
            require(-1e-6 <= r.solar_time <= 24 + 1e-6, "solar time is not an hour of the day", "solar_time", got=r.solar_time)
            ha = hour_angle(alt, az, la)
            require(abs((r.solar_time - 12 - ha + 12) % 24 - 12) * np.cos(np.radians(23.5)) < 0.02 or abs(la) > 89, "solar time differs", "solar_time", got=r.solar_time, exp=ha + 12)
    require(mids == sorted(mids), "rows are not in time order", "order")
    if len(df) and m == 0 and not fixed and idx == 0 and light == (None, None) and not solar_cols and int(start) % 5 == 0:
        # a pass that lasts exactly the minimum access time counts; one that is a microsecond shorter does not
        r = df.iloc[0]
        length = (r.end - r.start).to_pytimedelta()
        for extra in (0, 1):
            inst = Instrument(name="cam", field_of_regard=f, min_access_time=length + timedelta(microseconds=extra))
            g = collect_observations(pt, Satellite(name="S", orbit=orbits.orbit(o), instruments=[inst]), t_s, t_e)
            has = any(x == r.start and y == r.end for x, y in zip(g.start, g.end))
            require(has == (extra == 0), "a pass of %s is %s for a minimum access time of %s" % (length, "reported" if has else "missing", inst.min_access_time), "min access")
    if light != (None, None):
        exp2 = []
        for i in ints:
            c = (i[0] + i[1]) / 2
            mg, alt, _ = solar(sk, c)
            keep, fuzzy = True, i[3]
            if light[0] is not None:
                keep &= (mg > 0) == light[0]
                fuzzy |= abs(mg) < 2
            if light[1] is not None:
                keep &= (alt > 0) == light[1]
                fuzzy |= abs(alt) < 0.01
            if keep or fuzzy:
                exp2.append([i[0], i[1], i[2], fuzzy])
        ints = exp2
    near = sk.near_misses(me)
    if fixed:  # compare the centres: turn rows into the windows they must stand for
        got = expand(mids, ints, m)
    if light == (None, None) and len(ints) == 1 and not ints[0][3] and ints[0][0] == start and ints[0][1] == end and abs(end - start - m) > 0.05:
        # visible throughout: the pass lasts exactly as long as the period
        require(len(mids) == (end - start >= m), "a pass of %.3f s gives %d rows for a minimum access time of %.3f s" % (end - start, len(mids), m), "min access")
    if last:
        # the pass ends just after the start of the period
        require(len(got) == 1 and abs(got[0][0] - start) < 0.1 and abs(got[0][1] - ints[0][1]) < 0.5, "the last %.1f s of a pass are reported as %r" % (ints[0][1] - start, got), "tail", exp=(start, ints[0][1]))
    err, sk_n = windows.compare(got, ints, near, min_len=m)
    if err:
        if light == (None, None) and lost_crossing(sk, start, end, me, got, ints, m, near, mids if fixed else None):
            # the rise/set search of skyfield itself lost a crossing
            ctx.finding("event-search-lost-crossing", err,
                        dict(case, only=[start, end, list(setting), tz, idx, list(light), solar_cols]))
            return
        raise Violation(err, "windows")
    ctx.skip(sk_n)
    ctx.step()
    ph = [case["o"], case["p"], f, round(start), round(end), setting, light]
    ctx.state(ph)
    ctx.trace([len(got), len(ints), [round(g[1] - g[0]) for g in got]],
              {"period": [t_s, t_e], "windows": got, "min_elevation": me, "case": case})


def lost_crossing(sk, start, end, me, got, ints, m, near, mids):
    """True if skyfield's own event search lacks crossings that dense sampling
    shows and the reported windows are what its events imply."""
    if len(sk.sats) != 1:
        return False
    t, ev = sk.sats[0].find_events(sk.topos, sk._t(start)[0], sk._t(end)[0], me)
    raw = [((a.utc_datetime() - sk.base).total_seconds(), int(k)) for a, k in zip(t, ev) if k != 1]
    cross = sorted(x for i in ints for x in i[:2] if start + 1 < x < end - 1)
    if len(cross) <= len(raw):
        return False
    wins, open_at = [], (start if not raw or raw[0][1] == 2 else None)
    for x, k in raw:
        if k == 0:
            open_at = x
        elif open_at is not None:
            wins.append((open_at, x))
            open_at = None
    if open_at is not None:
        wins.append((open_at, end))
    wins = [[a, b, 90.0, False] for a, b in wins]
    if mids is not None:
        got = expand(mids, wins, m)
    return windows.compare(got, wins, near, min_len=m)[0] is None


def expand(mids, ints, m):
    """Fixed-length rows -> the windows they stand for (matched by centre)."""
    out = []
    for c in mids:
        cand = [i for i in ints if abs((i[0] + i[1]) / 2 - c) <= 1.0]
        out.append((cand[0][0], cand[0][1]) if cand else (c - m / 2, c + m / 2))
    return out


def hour_angle(alt, az, lat):
    a, z, p = np.radians(alt), np.radians(az), np.radians(lat)
    x = np.sin(a) * np.cos(p) - np.cos(a) * np.cos(z) * np.sin(p)
    y = -np.sin(z) * np.cos(a)
    return np.degrees(np.arctan2(y, x)) / 15


def check(case, ctx):
    config.rc.repeat_cycle_for_orbit_track = case["o"] not in OFF
    config.rc.repeat_cycle_for_observation_events = case["o"] not in OFF
    sk = sky(case["o"], case["p"], 2.2 * 86400 if case["o"] != "heo" else 3.2 * 86400)
    cache = {}

    def cached(me):
        k = round(me, 9)
        if k not in cache:
            cache[k] = sk.intervals(me)
        return cache[k]
    sk.intervals_cached = cached
    bs = boundaries(sk, case["f"], case["np"])
    pairs = list(itertools.combinations(bs, 2))
    if "only" in case:
        a = case["only"]
        return one(case, sk, a[0], a[1], tuple(a[2]), ctx, a[3], a[4], tuple(a[5]), *a[6:])
    todo = []
    if case.get("term"):
        todo = terminator(case, sk)
    elif case.get("light"):
        for (s, e) in pairs[:: 3]:
            for l in itertools.product((None, True, False), repeat=2):
                todo.append((s, e, (0, False), 0, 0, l, l == (None, None)))
    else:
        for k, (s, e) in enumerate(pairs):
            if case["all"]:
                for j, st in enumerate(SETTINGS):
                    todo.append((s, e, st, (0, 5.5, -8)[(k + j) % 3], (k + j) % 3, (None, None), False))
            else:
                # the plain setting for every pair, the others in rotation
                todo.append((s, e, (0, False), (0, 5.5, -8)[k % 3], k % 3, (None, None), False))
                todo.append((s, e, SETTINGS[1 + k % 5], 0, 0, (None, None), k % 16 == 0))
    for a in todo:
        try:
            one(case, sk, *a[:3], ctx, *a[3:])
        except Violation as v:
            c = dict(case)
            c["only"] = list(a)
            raise Violation(str(v), v.sig, c)
        except Exception as e:
            c = dict(case)
            c["only"] = list(a)
            import traceback
            raise Violation("unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-900:]), "exception:" + type(e).__name__, c)


CHUNK = 1


def warm():
    from tatc.schemas import Point
    collect_observations(Point(id=0, latitude=0, longitude=0), satellite("leo98", 180.0, (0, False)),
                         orbits.T0, orbits.T0 + timedelta(hours=6))

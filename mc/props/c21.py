"""C21: radio occultations are the maximal runs of valid geometry.

Reference model: explicit vector geometry per instant (tangent point of the
line between the satellites, horizontal and vertical angles at the receiver),
then the maximal runs of consecutive list positions with valid geometry.
"""
import bisect
import itertools
import math
from datetime import timedelta, timezone

import geopandas as gpd
import numpy as np
from skyfield.framelib import itrs

from tatc.analysis import collect_ro_observations
from tatc.schemas import CircularOrbit, Instrument, Satellite, TwoLineElements
from mc.core import require
from mc.common import T0, dt
from mc.orbits import orbit
from mc.props.c17 import altaz
from mc.props.c18 import A, F, geodetic

RX = ["leo98", "leo30", "retro", "polar"]


def gps(k):
    return CircularOrbit(altitude=20180000 + 1000 * k, inclination=55.0 if k % 2 else 64.8, right_ascension_ascending_node=(60.0 * k) % 360,
                         true_anomaly=(100.0 * k + 20) % 360, epoch=T0)


RO = {n: orbit(n) for n in RX}
TX = {"g%d" % k: gps(k) for k in range(6)}
TX["geo"] = orbit("geo")
TX["leo"] = orbit("leo30")


def multi():
    """A transmitter described by three element sets."""
    lines = []
    for h in (-1.0, 0.7, 2.0):
        lines += list(gps(2).model_copy().to_tle().tle) if h == -1.0 else list(
            CircularOrbit(altitude=20190000, inclination=56.0, right_ascension_ascending_node=118.0, true_anomaly=(230 + 30 * h) % 360, epoch=T0 + timedelta(hours=h)).to_tle().tle)
    return TwoLineElements(tle=lines)


TX["multi"] = multi()
LIMITS = [(65.0, (-200e3, 60e3)), (30.0, (-200e3, 60e3)), (10.0, (-100e3, 30e3)), (80.0, (0.0, 20e3)), (90.0, (-50e3, -10e3)), (120.0, (-200e3, 400e3)), (180.0, (-200e3, 60e3)), (55.0, (-2000e3, 2000e3)), (5.0, (-300e3, 100e3))]
SAMPLES = [0.0, -150e3, 45e3]
GRIDS = [(7.0, 3000.0, 90), (20.0, 0.0, 300), (45.0, 11.0, 160), (180.0, 5.0, 40), (600.0, 0.0, 12)]
BOUNDS = {
    "quick": "4 receivers x 9 transmitters (navigation, geostationary, low, several element sets) x 5 time grids x 9 limit pairs x sample elevations rotating; all sub-windows with each start and end of runs on a grid; all sequences of up to 5 samples over {valid, elevation out of range, yaw out of range, no tangent}; lists of transmitters in several orders, also under one common name",
    "thorough": "sequences of up to 7 samples, all sample elevations, all windows of all pairs",
}
CHUNK = 2
VALIDATION = "each enumerated call is executed by the real function; every reported occultation is compared point by point with the reference run"


def cases(tier):
    q = tier == "quick"
    k = 0
    for r, t, g in itertools.product(RX, TX, range(len(GRIDS))):
        if r == "leo30" and t == "leo":
            continue
        k += 1
        yield {"k": "grid", "rx": r, "tx": [t], "g": g, "n": k, "all": not q}
    for r, ts in itertools.product(RX, (["g0", "g1", "g2"], ["g3", "geo", "g0", "multi"], ["g2", "g1", "g0"], [])):
        yield {"k": "grid", "rx": r, "tx": ts, "g": 1, "n": 1, "all": not q}
    for r in RX:
        yield {"k": "grid", "rx": r, "tx": ["g0", "g1", "g2", "g4"], "g": 1, "n": 1, "all": not q, "same": True}
    for r, t in itertools.product(RX, ("g0", "g3", "multi") if q else tuple(TX)):
        if r == "leo30" and t == "leo":
            continue
        for sh in range(4):
            yield {"k": "win", "rx": r, "tx": [t], "sh": sh}
    n = 5 if q else 7
    for first in itertools.product("VEYN", repeat=2):
        yield {"k": "seq", "rx": RX[0], "tx": ["g1"], "p": "".join(first), "n": n}
    for z in range(5):
        yield {"k": "edge", "z": z}


_P = {}


def fixed(name, o, t):
    """Inertial and Earth-fixed state of a satellite at one instant."""
    key = (name, t.timestamp())
    if key not in _P:
        g = o.to_tle().get_orbit_track(t)
        _P[key] = (g.position.m, g.velocity.m_per_s, itrs.rotation_at(g.t))
    return _P[key]


_G = {}


def geometry(rx, tx, t):
    """Reference geometry at one instant."""
    key = (rx, tx, t.timestamp())
    if key in _G:
        return _G[key]
    xr, vr, m = fixed(rx, RO[rx], t)
    xt, _, _ = fixed(tx, TX[tx], t)
    d = xt - xr
    u = d / np.linalg.norm(d)
    s = -(xr @ u)  # distance from the receiver to the tangent point
    tp = xr + s * u
    between = 0 < s < np.linalg.norm(d)
    margin = min(abs(s), abs(np.linalg.norm(d) - s))
    b = xr / np.linalg.norm(xr)
    v = vr / np.linalg.norm(vr)
    n = np.cross(xr, vr)
    n = n / np.linalg.norm(n)
    yaw = math.degrees(math.atan2(d @ n, (d - b * (b @ d)) @ v))
    pitch = math.degrees(math.atan2((d - n * (n @ d)) @ b, (d - n * (n @ d)) @ v))
    f = m @ tp
    lon, lat = geodetic(f)
    la = math.radians(lat)
    e2 = F * (2 - F)
    nn = A / math.sqrt(1 - e2 * math.sin(la) ** 2)
    h = math.hypot(f[0], f[1]) * math.cos(la) + (f[2] + e2 * nn * math.sin(la)) * math.sin(la) - nn
    az = altaz(m @ xt, lon, lat, h)[1]
    off = min(abs(yaw), 180 - abs(yaw))
    _G[key] = dict(between=between, margin=margin, yaw=yaw, pitch=pitch, lon=lon, lat=lat, h=h, az=az, off=off, deep=np.linalg.norm(tp) < 2e6)
    return _G[key]


def status(g, lim):
    """V valid, E elevation, Y yaw, N no tangent between, ? undecided."""
    yaw, (lo, hi) = lim
    if g["margin"] < 10 or abs(g["off"] - yaw) < 1e-4 or abs(g["h"] - lo) < 20 or abs(g["h"] - hi) < 20 or g["deep"] and lo < -4e6:
        return "?"
    if not g["between"]:
        return "N"
    if g["off"] > yaw:
        return "Y"
    return "V" if lo < g["h"] < hi else "E"


def expected(rx, tx, times, lim):
    """[(transmitter, [geometry...], [time...])] or None when undecided."""
    runs = []
    st = [status(geometry(rx, tx, t), lim) for t in times]
    if "?" in st:
        return None
    prev = None
    for i, (t, s) in enumerate(zip(times, st)):
        if s == "V":
            if prev == "V":
                runs[-1][1].append(t)
            else:
                runs.append((tx, [t]))
        prev = s
    return runs


def sats(names, same=False):
    return [Satellite(name="T" if same else n, orbit=TX[n], instruments=[Instrument(name="i")]) for n in names]


def compare(c, ctx, rx, txs, times, lim, sample, call=None):
    want = []
    for tx in txs:
        w = expected(rx, tx, times, lim)
        if w is None:
            ctx.skip()
            return None
        want += w
    kw = {}
    if sample != 0.0:
        kw["sample_elevation"] = sample
    if lim != LIMITS[0]:
        kw["max_yaw"], kw["range_elevation"] = lim
    r = Satellite(name="rx", orbit=RO[rx], instruments=[Instrument(name="i")])
    tl = sats(txs, c.get("same"))
    args = list(times)
    got = collect_ro_observations(r, tl[0] if call == "single" else tl, args, **kw)
    ctx.step()
    what = {"receiver": rx, "transmitters": txs, "limits": lim, "sample": sample, "times": (str(times[0]) if times else None, len(times))}
    require(args == list(times), "the list of times was changed", **what)
    require(isinstance(got, gpd.GeoDataFrame) and len(got) == len(want), "%d occultations instead of %d: %s" % (len(got), len(want), [(str(a), str(b)) for a, b in zip(got["start"], got["end"])][:6]), sig="runs", want=[(w[0], str(w[1][0]), str(w[1][-1])) for w in want][:6], **what)
    require(list(got.index) == list(range(len(got))), "index is not consecutive", sig="index", **what)
    require(all(a <= b for a, b in zip(got["time"], list(got["time"])[1:])), "rows are not ordered by time", sig="order", **what)
    left = list(want)
    for _, row in got.iterrows():
        hit = [w for w in left if ("T" if c.get("same") else w[0]) == row["transmitter"] and w[1][0] == row["start"] and w[1][-1] == row["end"] and len(w[1]) == len(row["geometry"].geoms)]
        require(len(hit) >= 1, "an occultation of %s from %s to %s with %d points is not a maximal run" % (row["transmitter"], row["start"], row["end"], len(row["geometry"].geoms)), sig="runs", want=[(w[0], str(w[1][0]), str(w[1][-1]), len(w[1])) for w in left][:6], **what)
        # (transmitters of one name are told apart by their tangent points)
        w = min(hit, key=lambda w: abs(geometry(rx, w[0], w[1][0])["lat"] - row["geometry"].geoms[0].y))
        left.remove(w)
        gs = [geometry(rx, w[0], t) for t in w[1]]
        wh = dict(what, transmitter=w[0], start=str(row["start"]))
        require(row["receiver"] == "rx", "receiver name", sig="labels", **wh)
        for p, g in zip(row["geometry"].geoms, gs):
            pos(p, g, wh)
        best = min(abs(g["h"] - sample) for g in gs)
        near = [i for i, g in enumerate(gs) if abs(g["h"] - sample) < best + 1.0]
        ok = [i for i in near if w[1][i] == row["time"]]
        require(ok, "sampled at %s, the tangent point is closest to the sample elevation at %s" % (row["time"], w[1][near[0]]), sig="sample", **wh)
        g = gs[ok[0]]
        pos(row["position"], g, wh)
        for n, v, tol in (("rx_tx_pitch", g["pitch"], 1e-4), ("rx_tx_yaw", g["yaw"], 1e-4), ("tp_tx_azimuth", g["az"], 0.02)):
            require(abs((row[n] - v + 180) % 360 - 180) < tol, "%s is %.4f, expected %.4f" % (n, row[n], v), sig=n, **wh)
        fore = [g["pitch"] > -90 for g in gs]
        if all(fore) or not any(fore):
            require(bool(row["is_rising"]) == fore[0], "is_rising is %s with pitch %.1f" % (row["is_rising"], gs[0]["pitch"]), sig="rising", **wh)
        else:
            ctx.skip()
        ctx.count("occultations")
    ctx.trace((rx, tuple(txs), lim, len(times), len(want)))
    return got


def pos(p, g, what):
    require(abs((p.x - g["lon"] + 180) % 360 - 180) * math.cos(math.radians(g["lat"])) < 1e-5 and abs(p.y - g["lat"]) < 1e-5 and abs(p.z - g["h"]) < 2.0, "tangent point (%.5f, %.5f, %.1f), expected (%.5f, %.5f, %.1f)" % (p.x, p.y, p.z, g["lon"], g["lat"], g["h"]), sig="tangent", **what)


def check(c, ctx):
    globals()["_" + c["k"]](c, ctx)


def grid(i):
    st, off, n = GRIDS[i]
    return [dt(off + st * k) for k in range(n)]


def _grid(c, ctx):
    times = grid(c["g"])
    for j, lim in enumerate(LIMITS):
        for s in (range(3) if c["all"] else [(c["n"] + j) % 3]):
            ctx.state((c["rx"], tuple(c["tx"]), c["g"], j, s))
            got = compare(c, ctx, c["rx"], c["tx"], times, lim, SAMPLES[s])
        if len(c["tx"]) == 1 and j in (0, 5) and got is not None:
            one = compare(c, ctx, c["rx"], c["tx"], times, lim, SAMPLES[s], call="single")
            require(one.equals(got), "a single transmitter and a list of one differ", sig="single")


def _win(c, ctx):
    """All windows whose start and end lie around a change of validity."""
    lim, base = LIMITS[c["sh"]], grid(2)
    st = [status(geometry(c["rx"], c["tx"][0], t), lim) for t in base]
    cut = sorted({i for i in range(len(st) + 1) if i in (0, len(st)) or st[i - 1] != st[i]})
    cut = [i for i in cut if any(s == "V" for s in st[max(0, i - 1):i + 2]) or i in (0, len(st))][:9]
    marks = sorted({max(0, min(len(st), i + d)) for i in cut for d in (-1, 0, 1)})
    for a, b in itertools.combinations(marks, 2):
        if b - a > 45:
            continue
        ctx.state((c["rx"], c["tx"][0], c["sh"], a, b))
        compare(c, ctx, c["rx"], c["tx"], base[a:b], lim, SAMPLES[(a + b) % 3])


_CL = {}


def classes(rx, tx, lim):
    if not _CL:
        for t in [dt(40.0 * k) for k in range(1900)]:
            s = status(geometry(rx, tx, t), lim)
            if s != "?":
                _CL.setdefault(s, []).append(t)
    return _CL


def _seq(c, ctx):
    lim = (35.0, (-120e3, 40e3))
    cl = classes(c["rx"], c["tx"][0], lim)
    require(all(len(cl.get(k, [])) > 8 for k in "VEYN"), "reference has too few samples: %s" % {k: len(v) for k, v in cl.items()})
    for n in range(2, c["n"] + 1):
        for rest in itertools.product("VEYN", repeat=n - 2):
            p = c["p"] + "".join(rest)
            t, times = dt(-1), []
            for ch in p:
                i = bisect.bisect_right(cl[ch], t)
                if i == len(cl[ch]):
                    break
                t = cl[ch][i]
                times.append(t)
            if len(times) < len(p):
                ctx.skip()
                continue
            ctx.state(p)
            compare(c, ctx, c["rx"], c["tx"], times, lim, SAMPLES[len(p) % 3])


def _edge(c, ctx):
    """Empty and single-element lists of times; other time zones."""
    z = c["z"]
    base = grid(1)
    r = RX[z % 4]
    tx = ["g0", "g1", "g2"]
    if z == 0:
        for lim in LIMITS:
            for call in (None, "single"):
                compare(c, ctx, r, tx[:1] if call else tx, [], lim, 0.0, call)
    elif z == 1:
        for t in base[::3]:
            compare(c, ctx, r, tx, [t], LIMITS[5], 0.0)
    else:
        tz = [timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(hours=-8)), timezone.utc][z - 2]
        compare(c, ctx, r, tx, [t.astimezone(tz) for t in base], LIMITS[0], 0.0)
        compare(c, ctx, r, tx, [t.astimezone(tz) if k % 2 else t for k, t in enumerate(base)], LIMITS[0], 0.0)
    ctx.state(("edge", z))

"""Reference model of visibility windows: dense sampling plus bisection.

Independent of the event search and of the rise/set pairing of the library:
only ``EarthSatellite.at`` and ``altaz`` of skyfield are used.
"""
import math
from datetime import timedelta

import numpy as np
from skyfield.api import EarthSatellite, load, wgs84

TS = load.timescale()
R_MEAN = (2 * 6378137.0 + 6356752.314245179) / 3
GRAZE_DEG = 0.05


def min_elevation(height_m, fov_deg):
    """Elevation (deg) of a satellite seen from the edge of its field of regard."""
    s = math.sin(math.radians(min(fov_deg, 180.0)) / 2) * (R_MEAN + height_m) / R_MEAN
    return 0.0 if s > 1 else math.degrees(math.acos(s))


class Sky(object):
    """Elevation of one satellite over one place, as a function of time."""

    def __init__(self, tle, lat, lon, elev, base):
        # tle: list of 2n lines (element set nearest in time is used)
        self.sats = [EarthSatellite(tle[i], tle[i + 1], None, TS) for i in range(0, len(tle), 2)]
        self.epochs = [s.epoch.utc_datetime() for s in self.sats]
        self.topos = wgs84.latlon(lat, lon, elev)
        self.base = base

    def _t(self, x):
        return TS.from_datetimes([self.base + timedelta(seconds=float(v)) for v in np.atleast_1d(x)])

    def pick(self, x):
        d = [abs((self.base + timedelta(seconds=float(x)) - e).total_seconds()) for e in self.epochs]
        return int(np.argmin(d))

    def _tt(self, x):
        # array of seconds -> Time (fast path: uniform UTC seconds, no leap second inside)
        t0 = TS.from_datetime(self.base)
        return TS.tt_jd(t0.whole, t0.tt_fraction + np.asarray(x, dtype=float) / 86400.0)

    def altaz(self, x):
        x = np.atleast_1d(np.asarray(x, dtype=float))
        if len(self.sats) == 1:
            a, z, _ = (self.sats[0] - self.topos).at(self._tt(x)).altaz()
            return a.degrees, z.degrees
        el, az = np.zeros(len(x)), np.zeros(len(x))
        k = np.array([self.pick(v) for v in x])
        for i in set(k):
            m = k == i
            a, z, _ = (self.sats[i] - self.topos).at(self._tt(x[m])).altaz()
            el[m], az[m] = a.degrees, z.degrees
        return el, az

    def el(self, x):
        return self.altaz(x)[0]

    def height(self, x):
        s = self.sats[self.pick(x)]
        return float(wgs84.geographic_position_of(s.at(self._tt([x]))).elevation.m[0])

    def gcrs(self, x):
        s = self.sats[self.pick(x)]
        return s.at(self._tt([x]))

    def sample(self, a, b, step):
        n = max(3, int(math.ceil((b - a) / step)) + 1)
        self.x = np.linspace(a, b, n)
        self.e = self.el(self.x)
        # refine local extrema so that short passes and shallow gaps are seen
        e = self.e
        ext = np.nonzero(((e[1:-1] >= e[:-2]) & (e[1:-1] >= e[2:])) | ((e[1:-1] <= e[:-2]) & (e[1:-1] <= e[2:])))[0] + 1
        ext = ext[e[ext] > -10.0]  # extrema deep below the horizon are irrelevant
        if len(ext):
            lo, hi = self.x[ext - 1].copy(), self.x[ext + 1].copy()
            sign = np.where(e[ext] >= e[ext - 1], 1.0, -1.0)
            g = (math.sqrt(5) - 1) / 2
            c, d = hi - g * (hi - lo), lo + g * (hi - lo)
            fc, fd = sign * self.el(c), sign * self.el(d)
            for _ in range(24):
                m = fc > fd
                hi = np.where(m, d, hi)
                lo = np.where(m, lo, c)
                nc, nd = hi - g * (hi - lo), lo + g * (hi - lo)
                fx = sign * self.el(np.where(m, nc, nd))
                fc, fd = np.where(m, fx, fd), np.where(m, fc, fx)
                c, d = nc, nd
            xs = (lo + hi) / 2
            self.x = np.concatenate([self.x, xs])
            self.e = np.concatenate([self.e, self.el(xs)])
            o = np.argsort(self.x, kind="stable")
            self.x, self.e = self.x[o], self.e[o]
        return self

    def intervals(self, min_el):
        """Maximal intervals (a, b, peak, fuzzy) of the sampled span above min_el."""
        up = self.e > min_el
        cr = np.nonzero(up[1:] != up[:-1])[0]
        xs = []
        if len(cr):
            lo, hi = self.x[cr].copy(), self.x[cr + 1].copy()
            rising = up[cr + 1]
            for _ in range(22):
                m = (lo + hi) / 2
                f = self.el(m) > min_el
                t = f == rising
                hi = np.where(t, m, hi)
                lo = np.where(t, lo, m)
            xs = list((lo + hi) / 2)
        edges = ([self.x[0]] if up[0] else []) + xs + ([self.x[-1]] if up[-1] else [])
        out = []
        for i in range(0, len(edges) - 1, 2):
            a, b = edges[i], edges[i + 1]
            m = (self.x >= a) & (self.x <= b)
            peak = float(self.e[m].max()) if m.any() else min_el
            out.append([a, b, peak, peak - min_el < GRAZE_DEG])
        # a gap that is barely below the threshold makes both neighbours fuzzy
        for i in range(len(out) - 1):
            m = (self.x >= out[i][1]) & (self.x <= out[i + 1][0])
            low = float(self.e[m].min()) if m.any() else min_el
            if min_el - low < GRAZE_DEG:
                out[i][3] = out[i + 1][3] = True
        return out

    def near_misses(self, min_el):
        """Spans where the elevation comes within GRAZE_DEG below min_el at a peak."""
        m = (self.e <= min_el) & (self.e > min_el - GRAZE_DEG)
        return [(float(x) - 60, float(x) + 60) for x in self.x[m]]


def clip(ints, a, b):
    out = []
    for s, e, p, f in ints:
        s2, e2 = max(s, a), min(e, b)
        if e2 > s2:
            out.append([s2, e2, p, f])
    return out


def compare(got, exp, near, tol=1.0, min_len=0.0, short=1.0):
    """Match reported windows with expected ones; returns (error | None, skipped)."""
    got = sorted(got)
    used = [False] * len(got)
    skipped = 0
    for s, e, p, fuzzy in exp:
        hit = None
        for i, (gs, ge) in enumerate(got):
            if not used[i] and abs(gs - s) <= tol and abs(ge - e) <= tol:
                hit = i
                break
        if hit is not None:
            used[hit] = True
            # a window that is clearly too short must not be reported
            if not fuzzy and e - s < min_len - tol:
                return "a pass shorter than the minimum access time is reported: %r" % ((s, e),), skipped
            continue
        if fuzzy or (e - s) < short or abs((e - s) - min_len) <= 2 * tol:
            skipped += 1
            continue
        if e - s < min_len:
            continue  # correctly dropped
        return "the pass [%.1f, %.1f] (peak %.2f deg) is not reported; reported: %r" % (s, e, p, got), skipped
    for i, (gs, ge) in enumerate(got):
        if used[i]:
            continue
        ok = any(f and gs < e + 30 and ge > s - 30 for s, e, p, f in exp) or \
            any(gs < b and ge > a for a, b in near) or \
            any(e - s < short and abs(gs - s) < 2 * tol for s, e, p, f in exp)
        if not ok:
            return "reported window [%.1f, %.1f] is not a visibility interval; expected: %r" % (
                gs, ge, [(round(s, 1), round(e, 1)) for s, e, _, _ in exp]), skipped
        skipped += 1
    return None, skipped

"""C12: concurrent analyses on shared objects equal sequential ones.

Stateless model checking of the real code: two threads run one call each on
shared objects (or on the shared module state) under a controlled scheduler
that explores every schedule with at most a given number of preemptions;
preemption is possible before every line (small calls: every byte-code
instruction) of the library.  Each schedule runs in its own forked process,
so nothing is memoized beforehand.
"""
from datetime import timedelta

from tatc.analysis import (aggregate_observations, collect_downlinks, collect_ground_pixels, collect_ground_track,
                           collect_multi_observations, collect_observations, collect_orbit_track, compute_dop,
                           compute_ground_track, compute_latencies, grid_observations, reduce_observations, DopMethod,
                           collect_ro_observations)
from tatc.generation import generate_equally_spaced_cells, generate_fibonacci_lattice_points
from tatc.schemas import CircularOrbit, Instrument, KeplerianOrbit, Satellite, TwoLineElements
from tatc import utils
from mc.canon import canon, same
from mc.core import Violation
from mc.iso import ChildFailed, isolated
from mc.props import c11, c23
from mc.sched import Run, codes

BOUNDS = {
    "quick": "2 threads, 82 pairs of calls on shared objects; preemption points: the first (orbits: and last) execution of every line of the library (memoizing calls: of every byte-code instruction); all schedules with <= 2 preemptions for pairs with few combinations of points (200 / 700), else <= 1 preemption",
    "thorough": "preemption points: the first three and the last execution of every line; all schedules with <= 2 preemptions for pairs with up to 8000 combinations, else <= 1",
}
ASSUMPTIONS = ["library code (skyfield, pydantic, pandas, compiled numba kernels) between two lines of tatc is executed atomically",
               "sequentially consistent memory (CPython's interpreter lock)"]
VALIDATION = "stateless exploration of the implementation itself: every schedule is an execution of the real code"
CHUNK = 1


def warm():
    c23.warm()
    c11.warm()
    c23.setup()
    codes()


# ---- shared worlds and calls ---------------------------------------------
def orb_world(k):
    return {"o": c11.build(k, 0, 0)}


def lean_world():
    w = c23.world()
    w["end"] = w["start"] + timedelta(hours=13)
    w["times"] = w["times"][:3]
    w["rotimes"] = w["rotimes"][20:32]
    w["gps"] = w["gps"][:5]
    for k in ("soc",):
        w.pop(k)
    return w


def other(w):
    """The world with the same space systems and other remaining arguments."""
    if not _OTHER:
        v = c23.twin_of(c23.twin_of(lean_world(), "place"), "time")
        v["end"] -= timedelta(hours=2)
        v["times"] = v["times"][:2] + v["times"][:1]
        _OTHER.update({k: x for k, x in v.items() if not hasattr(x, "orbit") and k not in ("gps", "sso")})
    return dict(w, **_OTHER)


_OTHER = {}
QO = c11.QO
OPS = {  # name -> (world, call)
}
for _k in ("circ", "kep", "sso", "tle1", "tle3", "mol"):
    for _n in ("tle", "rep", "trk", "trks", "ev", "idx", "der", "evp", "trkp"):
        OPS["%s.%s" % (_k, _n)] = (_k, lambda w, n=_n: QO[n](w["o"]))
for _n, _c in c23.CALLS.items():
    OPS["w." + _n] = ("w", lambda w, c=_c: canon(c(w)))
PQ, SQ, TQ = c11.Point(id=3, latitude=-31.0, longitude=140.0), c11.S + timedelta(hours=5), c11.S + timedelta(hours=19)
TTQ = [c11.E0 + timedelta(hours=h) for h in (-3.5, 1.25, 7, 40)]


def evq(o):
    t, e = o.to_tle().get_observation_events(PQ, SQ, TQ, 3.0, False)
    return canon([list(t.utc_datetime()) if len(e) else [], list(map(int, e))])


for _k in ("circ", "tle1", "tle3"):
    OPS["%s.evq" % _k] = (_k, lambda w: evq(w["o"]))
    OPS["%s.trkq" % _k] = (_k, lambda w: c11.state(w["o"].to_tle().get_orbit_track(TTQ, False)))
    OPS["%s.idxq" % _k] = (_k, lambda w: canon([w["o"].to_tle().get_closest_tle_index(TTQ), w["o"].to_tle().get_closest_tle_index(TTQ[1]), w["o"].to_tle().partition_by_tle_index(SQ, TQ)]))
# the same calls on the same space systems, with other points, periods, times, masks and tables
for _n, _c in c23.CALLS.items():
    OPS["w.%s~" % _n] = ("w", lambda w, c=_c: canon(c(other(w))))
OPS["w.valid1"] = ("w", lambda w: canon(bool(w["satp"].instruments[0].is_valid_observation(c23.geo(w["sat"].orbit, w["times"][1]), c23.wgs84.latlon(40.0, 130.0)))))
OPS["w.obsb"] = ("w", lambda w: canon(collect_observations(w["pts"][1], w["sat"], w["start"], w["end"])))
OPS["w.pxs"] = ("w", lambda w: canon(collect_ground_pixels(w["satp"], w["times"][1:])))
OPS["w.footb"] = ("w", lambda w: canon([w["satp"].instruments[0].compute_footprint(c23.geo(w["satp"].orbit, w["times"][1])),
                                        w["sat"].instruments[0].compute_footprint(c23.geo(w["sat"].orbit, w["times"][2]), elevation=1000.0)]))
OPS["w.splitb"] = ("w", lambda w: canon(utils.split_polygon(c23.Polygon([(160, -30), (200, -30), (200, 10), (160, 10)]))))
OPS["w.cellsb"] = ("w", lambda w: canon(generate_equally_spaced_cells(3000000, mask=w["multi"])))
OPS["w.fibb"] = ("w", lambda w: canon(generate_fibonacci_lattice_points(3000000, mask=w["poly"])))
OPS["w.dopb"] = ("w", lambda w: canon(compute_dop(w["times"], w["pts"][1], w["gps"][1:], 10.0, DopMethod.HDOP)))
OPS["w.rob"] = ("w", lambda w: canon(collect_ro_observations(w["satt"], w["gps"], w["rotimes"])))

PAIRS = []
for _k in ("circ", "kep", "sso", "mol"):
    PAIRS += [(_k, "tle", "tle"), (_k, "tle", "trks")]
PAIRS += [("circ", "rep", "ev"), ("circ", "rep", "trk"), ("circ", "ev", "trks"), ("circ", "rep", "rep"), ("circ", "der", "tle"), ("sso", "der", "tle"),
          ("tle1", "rep", "rep"), ("tle1", "rep", "trks"), ("tle1", "rep", "ev"), ("tle1", "ev", "ev"), ("tle1", "trks", "ev"), ("tle1", "idx", "trks"),
          ("tle3", "idx", "idx"), ("tle3", "idx", "trks"), ("tle3", "trks", "ev"), ("tle3", "ev", "ev"), ("tle3", "ev", "idx"), ("tle1", "der", "rep"),
          ("tle1", "evp", "trks"), ("tle1", "evp", "ev"), ("tle1", "trkp", "trks"), ("tle1", "trkp", "ev"), ("tle1", "evp", "rep"),
          ("tle1", "evp", "evq"), ("tle1", "ev", "evq"), ("tle3", "ev", "evq"), ("tle1", "trkp", "trkq"), ("tle3", "trks", "trkq"), ("tle3", "idx", "idxq"), ("circ", "evp", "evq")]
PAIRS += [("w", a, b) for a, b in [
    ("obs", "obs~"), ("obs", "trk"), ("obs1", "obsp"), ("multi1", "obs"), ("walker", "walker"), ("train", "train"), ("mog", "mog"), 
    ("mog", "walker"), ("trk", "gt"), ("gts", "gt"), ("px", "px~"), ("foot", "footb"), ("gtm", "cgt"), ("agg", "agg~"), ("agg", "red"), ("red", "red~"),
    ("grid", "grid~"), ("grid", "glat"), ("lat", "agg"), ("dl", "lat"), ("dl", "dl~"), ("cellsm", "cellsb"), ("fibm", "fibb"), ("eqm", "cells"), ("split", "splitb"), ("normg", "gtm"),
    ("dop", "dopb"), ("dop", "dop~"), ("ro", "rob"), ("ro", "ro~"), ("limb", "foot"), ("tle", "trk"), ("rlat", "rlat~"), ("glat", "glat~"), ("lat", "lat~"), ("trkm", "normg"), ("valid", "valid1"), ("foot", "foot~"), ("trkm", "trkm~"), ("trks", "trks~"),
    ("gtm", "gtm~"), ("cgl", "cgl~"), ("pxm", "pxm~"), ("cellss", "cellss~"), ("fibm", "fibm~"), ("eqm", "eqm~"), ("norms", "norms~"), ("limb", "limb~"), ("proj", "proj~"), ("obs1", "obs1~"), ("obsp", "obsp~")]]
MEMO = [("circ", "tle", "tle"), ("kep", "tle", "tle"), ("sso", "tle", "tle"), ("mol", "tle", "tle"), ("tle1", "rep", "rep"), ("tle3", "idx", "idx"),
        ("tle1", "rep", "trk")]


# only in the thorough tier
DEEP = {("foot", "footb"), ("ro", "rob"), ("dop", "dopb"), ("cellsm", "cellsb"), ("fibm", "fibb"), ("obs1", "obsp"), ("limb", "foot"), ("gtm", "cgt"), ("trk", "gt"), ("pxm", "pxm~")}
_WORLD = {}


def make(k):
    """The shared arguments (built once per worker, which never calls anything on them: only forked children do)."""
    c11.setup()
    if k == "w":
        other({})
    if k not in _WORLD:
        w = lean_world() if k == "w" else orb_world(k)
        _WORLD[k] = (w, c23.prints(w))
    return _WORLD[k]


def keep(log, n):
    """The 1-based steps at the first n and the last execution of every location."""
    pos = {}
    for i, x in enumerate(log):
        pos.setdefault(x, []).append(i + 1)
    return sorted(set(i for v in pos.values() for i in (v[:n] + v[-1:] if n else v[:1])))


def measure(k, a, b, op, n):
    w = make(k)[0]
    f, g = OPS[k + "." + a][1], OPS[k + "." + b][1]
    r = Run([lambda: f(w), lambda: None], (0, []), op).go()
    if any(r.error):
        return [], []
    return keep(r.log[0], n), None


def points(k, a, b, op, n):
    return isolated(measure, k, a, b, op, n)[0], isolated(measure, k, b, a, op, n)[0]


def one(k, a, b, plan, op):
    w, p0 = make(k)
    f, g = OPS[k + "." + a][1], OPS[k + "." + b][1]
    r = Run([lambda: f(w), lambda: g(w)], plan, op).go()
    bad = c23.changed(p0, c23.prints(w))
    after = None
    if not any(r.error) and not bad and k != "w":
        after = (f(w), g(w))
    return r.result, r.error, bad, after, r.steps, r.switches, r.where, not r.plan


def alone(k, a):
    return OPS[k + "." + a][1](make(k)[0])


_REF = {}


def ref(k, a):
    if (k, a) not in _REF:
        _REF[(k, a)] = isolated(alone, k, a)
    return _REF[(k, a)]


def cases(tier):
    q = tier == "quick"
    out = []
    for op, pairs in ((False, PAIRS), (True, MEMO)):
        for k, a, b in pairs:
            if q and (a, b) in DEEP:
                continue
            out.append({"k": k, "a": a, "b": b, "op": op, "plan": None})  # the two sequential schedules
            try:
                pa, pb = points(k, a, b, op, (0 if k == "w" else 1) if q else 3)
            except ChildFailed:
                continue  # the sequential case above reports it
            two = len(pa) * len(pb) <= ((200 if k == "w" else 700) if q else 8000)
            for first in ((0,) if a == b else (0, 1)):
                p1, p2 = (pa, pb) if first == 0 else (pb, pa)
                step = 1 if two else 6
                for lo in range(0, len(p1), step):
                    out.append({"k": k, "a": a, "b": b, "op": op, "plan": [first, p1[lo:lo + step]], "p2": p2 if two else []})
    return out


def judge(k, a, b, op, plan, ctx):
    case = {"k": k, "a": a, "b": b, "op": op, "exact": plan}
    try:
        res, err, bad, after, steps, sw, where, used = isolated(one, k, a, b, (plan[0], [tuple(p) for p in plan[1]]), op)
    except ChildFailed as e:
        raise Violation("%s.%s || %s.%s: %s" % (k, a, k, b, e), "exception", case)
    ctx.step(sum(steps))
    desc = "%s.%s || %s.%s, preempted at %s" % (k, a, k, b, where)
    for i, e in enumerate(err):
        if e:
            raise Violation("%s: thread %d raised %s" % (desc, i, e), "raises", case)
    for i, n in enumerate((a, b)):
        d = same(res[i], ref(k, n))
        if d:
            raise Violation("%s: the result of %s differs from the one when run alone: %s" % (desc, n, d), "differs", case)
        d = same(after[i], ref(k, n)) if after else None
        if d:
            raise Violation("%s: afterwards %s gives another result than when run alone: %s" % (desc, n, d), "afterwards", case)
    if bad:
        raise Violation("%s: shared arguments %s were changed" % (desc, bad), "inputs", case)
    ctx.state([k, a, b, op, plan[0], plan[1]])
    ctx.trace([k, a, b], {"pair": "%s.%s || %s" % (k, a, b), "preempted_at": where} if where else None)
    ctx.count("preemptions_%d" % sw)
    return used


def check(case, ctx):
    k, a, b, op = case["k"], case["a"], case["b"], case["op"]
    if "exact" in case:
        judge(k, a, b, op, case["exact"], ctx)
        return
    if case["plan"] is None:
        for first in (0, 1):
            judge(k, a, b, op, [first, []], ctx)
        return
    first, idx = case["plan"]
    for i in idx:
        if not judge(k, a, b, op, [first, [[first, i]]], ctx):
            break
        for j in case["p2"]:
            if not judge(k, a, b, op, [first, [[first, i], [1 - first, j]]], ctx):
                break

"""C11: results never depend on an object's call history.

All operation sequences up to a depth (queries, lazy or not, field
reassignment, copies with changed fields, deep copies, work on side copies,
configuration switches) are executed on real objects of every kind, each
sequence in a forked process whose module state is pristine; afterwards every
query is compared with its answer on a freshly built object with the same
field values (itself computed in a pristine process).
"""
import copy
from datetime import datetime, time, timedelta, timezone

import numpy as np
from skyfield.framelib import itrs

from tatc import config
from tatc.analysis import collect_multi_observations, collect_observations, collect_orbit_track
from tatc.schemas import (CircularOrbit, Instrument, KeplerianOrbit, MOGConstellation, MolniyaOrbit, Point, Satellite,
                          SOCConstellation, SunSynchronousOrbit, TrainConstellation, TundraOrbit, TwoLineElements,
                          WalkerConstellation)
from mc.canon import canon, same
from mc.core import Violation
from mc.iso import ChildFailed, isolated

BOUNDS = {
    "quick": "13 kinds of objects x all operation sequences of length <= 2 over an alphabet of 21 operations (orbits) / 15 (systems), followed by every query in one order (length <= 1: both orders)",
    "thorough": "the same with all sequences of length <= 3 for orbits (queries and mutations) and systems, both orders for length <= 2",
}
ASSUMPTIONS = ["a repeat cycle computed earlier with other tolerances may be reused while reuse is enabled (documented): then either answer is accepted",
               "fields are changed by assignment or model_copy, not by mutating a list in place"]
VALIDATION = ("every enumerated operation sequence is executed on the real objects; each final answer is compared with "
              "the answer of a fresh object with the model's field values in a process without history")
CHUNK = 1
UTC = timezone.utc
E0 = datetime(2022, 6, 1, tzinfo=UTC)
E1 = datetime(2022, 6, 3, 4, tzinfo=UTC)
PT = Point(id=3, latitude=12.0, longitude=20.0)
S, T = E0 + timedelta(hours=3), E0 + timedelta(hours=41)
TT = [E0 + timedelta(hours=h) for h in (-7.5, 0.25, 3, 26.5, 31, 60)]


def tle(alt, inc, ep, raan=20.0):
    return list(KeplerianOrbit(altitude=alt, inclination=inc, right_ascension_ascending_node=raan, true_anomaly=10.0,
                               epoch=ep).to_tle().tle)


_TLE = {}


def tles(k, a, b):
    if k == "tle1":
        return tle((572000, 640000)[a], (98.2, 51.6)[b], E0)
    eps = [E0 + timedelta(days=d) for d in ((0, 1, 1.5), (0.5, 0.9, 2))[a]]
    out = []
    for i, e in enumerate(eps[:3 - b]):
        out += tle(572000 + 4000 * i, 98.2, e)
    return out


def build(k, a, b):
    inst = [Instrument(name="I", field_of_regard=100.0)]
    if k == "circ":
        return CircularOrbit(altitude=(572000, 640000)[a], inclination=98.2, right_ascension_ascending_node=(20.0, 80.0)[b], true_anomaly=10.0, epoch=E0)
    if k == "kep":
        return KeplerianOrbit(altitude=572000, inclination=98.2, eccentricity=(0.0, 0.02)[a], perigee_argument=0.0, right_ascension_ascending_node=20.0, true_anomaly=10.0, epoch=(E0, E1)[b])
    if k == "sso":
        return SunSynchronousOrbit(altitude=572000, equator_crossing_time=(time(10, 30), time(6, 0))[a], equator_crossing_ascending=(True, False)[b], epoch=E0)
    if k == "mol":
        return MolniyaOrbit(altitude=(1000000, 1500000)[a], inclination=63.4, perigee_argument=270.0, orbital_period=(43080.0, 42000.0)[b], epoch=E0)
    if k == "tun":
        return TundraOrbit(altitude=20000000, eccentricity=(0.2, 0.3)[a], true_anomaly=(0.0, 120.0)[b], epoch=E0)
    if k in ("tle1", "tle3"):
        return TwoLineElements(tle=tles(k, a, b))
    orb = build("circ", a, 0)
    if k == "sat":
        return Satellite(name="X", orbit=orb, instruments=[Instrument(name="I", field_of_regard=(100.0, 60.0)[b])])
    if k == "satt":
        return Satellite(name="X", orbit=build("tle1", a, 0), instruments=[Instrument(name="I", field_of_regard=(100.0, 60.0)[b])])
    if k == "train":
        return TrainConstellation(name="X", orbit=orb, instruments=inst, number_satellites=(2, 3)[b], interval=timedelta(minutes=10))
    if k == "walker":
        return WalkerConstellation(name="X", orbit=orb, instruments=inst, number_satellites=(3, 4)[b], number_planes=2, relative_spacing=1)
    if k == "mog":
        return MOGConstellation(name="X", orbit=orb, instruments=inst, number_satellites=(2, 3)[b], parallel_axis=100000, transverse_axis=50000)
    if k == "soc":
        return SOCConstellation(name="X", orbit=CircularOrbit(altitude=(3000000, 3500000)[a], inclination=80.0, epoch=E0), instruments=inst, swath_width=(6000000, 7000000)[b], packing_distance=0.8)
    raise KeyError(k)


FIELDS = {"circ": ("altitude", "right_ascension_ascending_node"), "kep": ("eccentricity", "epoch"), "sso": ("equator_crossing_time", "equator_crossing_ascending"),
          "mol": ("altitude", "orbital_period"), "tun": ("eccentricity", "true_anomaly"), "tle1": ("tle", "tle"), "tle3": ("tle", "tle"),
          "sat": (None, "instruments"), "satt": (None, "instruments"), "train": (None, "number_satellites"), "walker": (None, "number_satellites"),
          "mog": (None, "number_satellites"), "soc": (None, "swath_width")}
ORBITS = ["circ", "kep", "sso", "mol", "tun", "tle1", "tle3"]
SYSTEMS = ["sat", "satt", "train", "walker", "mog", "soc"]


# ---- queries -------------------------------------------------------------
def state(g):
    p, v = g.frame_xyz_and_velocity(itrs)
    return (canon(np.asarray(p.m)), canon(np.asarray(v.m_per_s)))


def events(o, try_repeat=None):
    t, e = o.to_tle().get_observation_events(PT, S, T, 15.0, try_repeat)
    return canon([list(t.utc_datetime()) if len(e) else [], list(map(int, e))])


def elements(o):
    t = o.to_tle()
    return canon([t.tle, t.get_epoch(), t.get_tle_count(), t.get_mean_motion(), t.get_altitude()])


QO = {
    "tle": elements,
    "rep": lambda o: canon(o.to_tle().get_repeat_cycle()),
    "trk": lambda o: state(o.to_tle().get_orbit_track(TT[3])),
    "trks": lambda o: state(o.to_tle().get_orbit_track(TT)),
    "trkp": lambda o: state(o.to_tle().get_orbit_track(TT, False)),
    "ev": events,
    "idx": lambda o: canon([o.to_tle().get_closest_tle_index(TT), o.to_tle().get_closest_tle_index(TT[3]), o.to_tle().partition_by_tle_index(S, T)]),
    "der": lambda o: canon([o.get_derived_orbit(33.0, 44.0).to_tle().tle, o.get_mean_motion(), o.get_mean_anomaly(), o.get_semimajor_axis()]),
    "evp": lambda o: events(o, False),
    "rep_nl": lambda o: canon(o.to_tle().get_repeat_cycle(lazy_load=False)),
}
QO2 = {"tle_nl": lambda o: canon((o.to_tle(lazy_load=False) if not isinstance(o, TwoLineElements) else o).tle)}
QS = {
    "mem": lambda o: canon(o.generate_members()),
    "trk": lambda o: canon(collect_orbit_track(o.generate_members()[-1], TT)),
    "obs": lambda o: canon(collect_observations(PT, o.generate_members()[0], S, T)),
    "multi": lambda o: canon(collect_multi_observations(PT, o if not isinstance(o, SOCConstellation) else o.generate_members()[-2:], S, T)),
    "orb": lambda o: elements(o.orbit),
}
REP = {"rep", "trk", "trks", "ev", "obs", "multi", "mem"}


def queries(k):
    q = dict(QO) if k in ORBITS else dict(QS)
    if k in ORBITS:
        q.update(QO2)
    return q


# ---- operations ----------------------------------------------------------
CFG = {"c_tle": "orbit_tle_lazy_load", "c_rl": "repeat_cycle_lazy_load", "c_rt": "repeat_cycle_for_orbit_track",
       "c_re": "repeat_cycle_for_observation_events"}


def alphabet(k):
    if k in ORBITS:
        q = ["q:tle", "q:rep", "q:trks", "q:ev", "q:idx", "q:der", "q:tle_nl", "q:rep_nl", "q:tight"]
    else:
        q = ["q:mem", "q:trk", "q:multi", "q:tight", "q:spoil"]
    return q + ["set:a", "set:b", "cpy:a", "cpy:b", "deep", "side", "dside", "near"] + (["c_tle", "c_rl", "c_rt", "c_re"] if k in ORBITS else ["c_tle", "c_rt", "c_re"])


def assign(o, k, a, b, which):
    new = build(k, a, b)
    f = FIELDS[k][which]
    if f is not None:
        setattr(o, f, getattr(new, f))
    elif k == "satt":
        o.orbit.tle = new.orbit.tle
    else:
        o.orbit.altitude = new.orbit.altitude


def copied(o, k, a, b, which):
    f = FIELDS[k][which] or "orbit"
    return o.model_copy(update={f: getattr(build(k, a, b), f)})


def near(k, a, b):
    """Another object whose field values differ by little (element sets: in the drag term only)."""
    o = build(k, a, b)
    if k in SYSTEMS:
        o.orbit = near("tle1", a, 0) if k == "satt" else o.orbit.model_copy(update={"altitude": o.orbit.altitude + 0.4})
        return o
    if isinstance(o, TwoLineElements):
        from mc.props.c23 import swap_columns
        return TwoLineElements(tle=[swap_columns(t, 53, 61, "99208-3") if i % 2 == 0 else t for i, t in enumerate(o.tle)])
    return o.model_copy(update={"altitude": o.altitude + 0.4})


def tight(o):
    t = o.to_tle() if hasattr(o, "to_tle") else o.orbit.to_tle()
    t.get_repeat_cycle(max_delta_position=200.0, max_delta_velocity=0.05)


def setup():
    config.rc.repeat_cycle_search_duration_days = 1.6


def work(o, k):
    """Everything a user might compute on an object."""
    q = queries(k)
    for n in ("tle", "rep", "trks", "ev", "idx", "mem", "multi"):
        if n in q:
            q[n](o)


def run(k, seq, order):
    """Execute the operations and then every query; returns the model state and the answers."""
    setup()
    a = b = 0
    cfg = {c: True for c in CFG}
    o = build(k, 0, 0)
    was_tight = False
    q = queries(k)
    for op in seq:
        if op == "q:tight":
            tight(o)
            was_tight = True
        elif op == "q:spoil":  # whatever is done to generated members stays there
            for m in o.generate_members():
                if m is not o:
                    m.orbit = build("circ", 1, 1)
                    m.instruments[0].field_of_regard = 10.0
                    m.name = "spoiled"
        elif op.startswith("q:"):
            q[op[2:]](o)
        elif op in CFG:
            cfg[op] = not cfg[op]
            setattr(config.rc, CFG[op], cfg[op])
        elif op == "deep":
            o = copy.deepcopy(o)
        elif op == "side":  # a changed copy is used; the original goes on
            work(copied(o, k, 1 - a, b, 0), k)
        elif op == "near":  # another object, hardly different, is used
            work(near(k, a, b), k)
        elif op == "dside":
            c = copy.deepcopy(o)
            assign(c, k, a, 1 - b, 1)
            work(c, k)
        else:
            kind, which = op.split(":")
            if which == "a":
                a = 1 - a
            else:
                b = 1 - b
            w = "ab".index(which)
            if kind == "set":
                assign(o, k, a, b, w)
            else:
                o = copied(o, k, a, b, w)
    names = list(q)
    if order:
        names.reverse()
    return (a, b, cfg, was_tight), {n: q[n](o) for n in names}


def fresh(k, a, b, rt, re, n, pre):
    setup()
    config.rc.repeat_cycle_for_orbit_track = rt
    config.rc.repeat_cycle_for_observation_events = re
    o = build(k, a, b)
    if pre:
        tight(o)
    return queries(k)[n](o)


def warm():
    """Compile and load what the children would otherwise compile each, on inputs of no case."""
    setup()
    for o in (CircularOrbit(altitude=777000, inclination=61.0, epoch=E0 + timedelta(days=99)),
              KeplerianOrbit(altitude=777000, inclination=61.0, eccentricity=0.01, epoch=E0 + timedelta(days=99))):
        s = E0 + timedelta(days=99)
        o.get_derived_orbit(1.0, 2.0).to_tle().get_orbit_track([s, s + timedelta(hours=1)]).frame_xyz_and_velocity(itrs)
        sat = Satellite(name="W", orbit=o, instruments=[Instrument(name="V", field_of_regard=33.0)])
        collect_multi_observations(Point(id=9, latitude=1.0, longitude=2.0), TrainConstellation(name="T", orbit=o, number_satellites=2, interval=timedelta(minutes=5)), s, s + timedelta(hours=3))
        collect_observations(Point(id=9, latitude=1.0, longitude=2.0), sat, s, s + timedelta(hours=30))
        QO["der"](o)
        collect_orbit_track(sat, [s, s + timedelta(hours=1)])
    MOGConstellation(name="T", orbit=CircularOrbit(altitude=777000, inclination=61.0, epoch=s), number_satellites=2, parallel_axis=1000, transverse_axis=500).generate_members()
    SOCConstellation(name="T", orbit=CircularOrbit(altitude=3777000, inclination=61.0, epoch=s), swath_width=5000000, packing_distance=0.7).generate_members()


_REF = {}


def ref(k, a, b, cfg, n, pre=False):
    key = (k, a, b, cfg["c_rt"] if n in REP else True, cfg["c_re"] if n in REP else True, n, pre)
    if key not in _REF:
        _REF[key] = isolated(fresh, *key)
    return _REF[key]


def cases(tier):
    q = tier == "quick"
    out = []
    for k in ORBITS + SYSTEMS:
        al = alphabet(k)
        if q:
            out += [{"k": k, "f": [f]} for f in al]
        else:
            out += [{"k": k, "f": [f, g], "d": 3} for f in al for g in al]
            out += [{"k": k, "f": [f]} for f in al]
    return out


def judge(k, seq, order, ctx):
    try:
        (a, b, cfg, was_tight), got = isolated(run, k, seq, order)
    except ChildFailed as e:
        raise Violation("%s after %s: %s" % (k, seq, e), "exception", {"k": k, "seq": seq, "order": order})
    ctx.step(len(seq) + len(got))
    for n, g in got.items():
        d = same(g, ref(k, a, b, cfg, n))
        if d and was_tight and cfg["c_rl"] and n in REP and not same(g, ref(k, a, b, cfg, n, True)):
            ctx.count("reused_repeat_cycle")
            d = None
        if d:
            raise Violation("%s: after %s (then the queries in %s order) the answer %r differs from the one of a fresh object with the same fields: %s"
                            % (k, seq, "reverse" if order else "given", n, d), "history:%s" % n, {"k": k, "seq": seq, "order": order})
    ctx.state([k, a, b, sorted(cfg.items()), was_tight])
    ctx.trace([k, hash(str(sorted(got.items())))], {"kind": k, "sequence": seq})


def check(case, ctx):
    k = case["k"]
    if "seq" in case:
        return judge(k, case["seq"], case["order"], ctx)
    al = alphabet(k)
    if case.get("d") == 3:
        for g in al:
            judge(k, case["f"] + [g], 0, ctx)
        return
    for order in (0, 1):
        judge(k, case["f"], order, ctx)
    for g in al:
        judge(k, case["f"] + [g], 0, ctx)

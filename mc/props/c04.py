"""C04: aggregation is the per-point union of observation intervals."""
import itertools

import geopandas as gpd
import pandas as pd
from shapely.geometry import Point

from tatc.analysis import aggregate_observations
from mc.core import require
from mc.common import dt, secs, tds, close, frame_fingerprint, names, same_point

BOUNDS = {
    "quick": "all sequences of <=2 closed intervals on a 5-instant lattice over 2 points x 4 time scales (0.4 ms to 2 days per step), of 3 intervals on a 4-instant lattice (scales rotating); "
             "all multisets of 4 intervals (1 point) on a 4-instant lattice in 2 orders; "
             "all multisets of 3 intervals on a 5-instant lattice; index variants; groups of up to 24 overlapping rows and tables of up to 40 points (ids 0 to 2**40)",
    "thorough": "all sequences of <=3 intervals on a 5-instant lattice over 2 points, "
                "all multisets of 4 on a 5-instant lattice and of 5 on a 4-instant lattice, 3 points",
}
COORD = {7: (10.0, 20.0, 0.0), 0: (-170.512345678, -35.251234567, 120.0), 12: (0.0, 89.0, 5.0)}
UNITS = (37.0, 0.0004, 90000.5, 172800.0)  # seconds per lattice step
SATS = ["A", "B", "A", "C", "B"]
INST = ["i1", "i1", "i2", "i1", "i3"]
# many points; ids congruent modulo every small power of ten and two
MANY = [0, 7, 1, 12, 10, 100, 107, 1000, 1007, 10007, 65536, 65543, 1000007, 2**31, 2**31 + 7, 2**32 + 7, 2**40] + list(range(20, 43))


def sat(i):
    return SATS[i] if i < 5 else "S%02d" % i


def ins(i):
    return INST[i] if i < 5 else "j%02d" % i


def where(p):
    return COORD[p] if p in COORD else (-179.0 + (p * 37.123456789) % 358, -89.0 + (p * 11.987654321) % 178, 0.0)


def lattice(n):
    return [(a, b) for a in range(n) for b in range(a, n)]


def cases(tier):
    out = []
    n3 = 4 if tier == "quick" else 5
    L = lattice(n3)
    out.append({"rows": [], "index": "range"})
    for k in (1, 2):
        for seq in itertools.product(lattice(5), repeat=k):
            for pids in itertools.product((7, 0), repeat=k):
                for u in UNITS:
                    out.append({"rows": [[p, a, b] for p, (a, b) in zip(pids, seq)], "index": "range", "unit": u})
    for seq in itertools.product(L, repeat=3):
        for pids in ((7, 7, 7), (7, 0, 7), (0, 0, 7), (7, 0, 0)):
            out.append({"rows": [[p, a, b] for p, (a, b) in zip(pids, seq)], "index": "range"})
    for ms in itertools.combinations_with_replacement(lattice(5), 3):
        out.append({"rows": [[0, a, b] for (a, b) in reversed(ms)], "index": "dup"})
    nn = lattice(4 if tier == "quick" else 5)
    for ms in itertools.combinations_with_replacement(nn, 4):
        out.append({"rows": [[7, a, b] for (a, b) in ms], "index": "rev"})
        r = [ms[2], ms[0], ms[3], ms[1]]
        out.append({"rows": [[7, a, b] for (a, b) in r], "index": "dup"})
    if tier == "thorough":
        for ms in itertools.combinations_with_replacement(lattice(4), 5):
            out.append({"rows": [[7, a, b] for (a, b) in (ms[3], ms[0], ms[4], ms[2], ms[1])], "index": "range"})
        for seq in itertools.product(lattice(3), repeat=3):
            for pids in itertools.permutations((7, 0, 12)):
                out.append({"rows": [[p, a, b] for p, (a, b) in zip(pids, seq)], "index": "range"})
    # non-lattice instants (sub-second, unequal epochs)
    for e in range(3):
        out.append({"rows": [[7, 0, 2.5], [7, 1.25, 1.75], [0, 0.5, 0.5], [7, 2.6, 3]], "index": "range", "epoch": e})
    # long chains of overlapping, touching and separate rows; many points
    for n in (6, 9, 13, 24):
        for kind in ("nested", "chain", "touch", "apart", "mixed"):
            rows = {"nested": [[7, i, 2 * n - i] for i in range(n)],
                    "chain": [[7, i, i + 1.5] for i in range(n)],
                    "touch": [[7, i, i + 1] for i in range(n)],
                    "apart": [[7, i, i + 0.75] for i in range(n)],
                    "mixed": [[7, i, i + (9.5 if i % 7 == 0 else 0.5)] for i in range(n)]}[kind]
            for r in (rows, rows[::-1], rows[1::2] + rows[0::2]):
                out.append({"rows": r, "index": "range", "epoch": 1, "unit": UNITS[len(out) % 4]})
    for m in (9, 17, len(MANY)):
        for sh in range(3):
            rows = [[p, k, k + 0.5] for p in MANY[:m] for k in (0, 1)] + [[p, 1.25, 1.5] for p in MANY[:m:2]]
            rows = rows if sh == 0 else rows[::-1] if sh == 1 else rows[1::3] + rows[0::3] + rows[2::3]
            out.append({"rows": rows, "index": "range", "epoch": 1})
    for i, c in enumerate(out):
        c.setdefault("unit", UNITS[i % 4])
    return out


def build(case):
    recs = []
    for i, (p, a, b) in enumerate(case["rows"]):
        lon, lat, z = where(p)
        UNIT = case["unit"]
        a_, b_ = a * UNIT, b * UNIT
        mid = (a_ + b_) / 2 + (UNIT / 1024 * i * i if case.get("epoch") else 0)
        recs.append({"point_id": p, "geometry": Point(lon, lat, z), "satellite": sat(i),
                     "instrument": ins(i), "start": pd.Timestamp(dt(a_)), "end": pd.Timestamp(dt(b_)),
                     "epoch": pd.Timestamp(dt(mid)), "sat_alt": 50.0 + i, "sat_az": 10.0 * i})
    if not recs:
        return gpd.GeoDataFrame({c: [] for c in ("point_id", "geometry", "satellite", "instrument", "start", "end", "epoch", "sat_alt", "sat_az")}, geometry="geometry", crs="EPSG:4326")
    df = gpd.GeoDataFrame(recs, crs="EPSG:4326")
    if case["index"] == "dup":
        df.index = [i % 2 for i in range(len(df))]
    elif case["index"] == "rev":
        df.index = list(range(len(df) - 1, -1, -1))
    return df


def model(case):
    """Interval union per point, processing one interval at a time."""
    UNIT = case["unit"]
    out = []
    for p in sorted({r[0] for r in case["rows"]}):
        items = []
        for i, (q, a, b) in enumerate(case["rows"]):
            if q == p:
                mid = (a * UNIT + b * UNIT) / 2 + (UNIT / 1024 * i * i if case.get("epoch") else 0)
                items.append((a * UNIT, b * UNIT, mid, sat(i), ins(i)))
        groups = []
        for it in items:  # merge the new interval with every group it meets
            s, e, members = it[0], it[1], [it]
            rest = []
            for g in groups:
                if g[0] <= e and s <= g[1]:
                    s, e, members = min(s, g[0]), max(e, g[1]), members + g[2]
                else:
                    rest.append(g)
            groups = rest + [(s, e, members)]
        groups.sort(key=lambda g: g[0])
        prev = None
        for s, e, m in groups:
            out.append({"p": p, "s": s, "e": e, "mid": sum(x[2] for x in m) / len(m),
                        "sat": sorted(x[3] for x in m), "ins": sorted(x[4] for x in m),
                        "acc": e - s, "rev": None if prev is None else s - prev})
            prev = e
    return out


def check(case, ctx):
    df = build(case)
    before = frame_fingerprint(df)
    res = aggregate_observations(df)
    ctx.step(1 + len(case["rows"]))  # interval insertions + the call
    require(frame_fingerprint(df) == before, "aggregation modified its input", "input modified")
    exp = model(case)
    ctx.state([[e["p"], e["s"], e["e"], e["sat"]] for e in exp])
    require(len(res) == len(exp), "wrong number of aggregated rows: got %d, expected %d" % (len(res), len(exp)), "row count")
    if not exp:
        ctx.trace("empty")
        return
    require(list(res.index) == list(range(len(res))), "index not consecutive", "index")
    rows = [r for _, r in res.iterrows()]
    got_pids = []
    for r in rows:
        if not got_pids or got_pids[-1] != r.point_id:
            got_pids.append(r.point_id)
    require(sorted(got_pids) == sorted({e["p"] for e in exp}), "rows of a point are not contiguous", "contiguous", pids=got_pids)
    for p in got_pids:
        mine = [r for r in rows if r.point_id == p]
        ref = [e for e in exp if e["p"] == p]
        require(len(mine) == len(ref), "wrong number of rows for a point", "row count per point", point=p)
        for r, e in zip(mine, ref):
            require(close(secs(r.start), e["s"]), "start differs", "start", got=secs(r.start), exp=e["s"])
            require(close(secs(r.end), e["e"]), "end differs", "end", got=secs(r.end), exp=e["e"])
            require(close(secs(r.epoch), e["mid"]), "epoch is not the mean epoch", "epoch", got=secs(r.epoch), exp=e["mid"])
            require(close(tds(r.access), e["acc"]), "access differs", "access", got=tds(r.access), exp=e["acc"])
            require(close(tds(r.revisit), e["rev"]), "revisit differs", "revisit", got=tds(r.revisit), exp=e["rev"])
            require(names(r.satellite) == e["sat"], "satellite names", "satellite", got=r.satellite, exp=e["sat"])
            require(names(r.instrument) == e["ins"], "instrument names", "instrument", got=r.instrument, exp=e["ins"])
            lon, lat, z = where(p)
            require(same_point(r.geometry, lon, lat), "geometry differs", "geometry", got=str(r.geometry))
    ctx.trace([[e["p"], e["s"], e["e"], e["rev"]] for e in exp], {"case": case, "model": exp})


def warm():
    aggregate_observations(build({"rows": [[7, 0, 1]], "index": "range", "unit": 37.0}))

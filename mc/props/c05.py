"""C05: reduced and gridded statistics are exact (weighted) means."""
import itertools

import geopandas as gpd
import pandas as pd
from shapely.geometry import Point, Polygon, box

from tatc.analysis import (reduce_observations, grid_observations,
                           reduce_latencies, grid_latencies)
from mc.core import require
from mc.common import dt, tds, close, frame_fingerprint, same_point

BOUNDS = {
    "quick": "reduce: all record lists of length <=3 of one point x 8 companions of a second point x row orders; "
             "grid: all tables of <=3 points x cell membership (none/A/B/both) x samples{1,3} x values{2,10} x revisit{undefined,5,8} x 4 index labellings; 5000 cells with and without samples; points on the edge between two cells",
    "thorough": "as quick with 3-valued values and all index labellings for every table",
}
XY = {7: (10.0, 20.0), 0: (-170.512345678, -35.251234567), 12: (0.5, 0.5)}
# seconds per unit of the record values: below a second, seconds, days
SCALES = (1.0, 0.000317, 86400.25, 100000.0)
# cells: A and B are disjoint, C overlaps both, D holds no point
CELLS = {"A": (5, box(0, 0, 2, 2)), "B": (2, box(2, 0, 4, 2)), "D": (9, box(50, 50, 52, 52))}
INSIDE = {"A": [(0.5, 0.5), (1.0, 1.5), (1.5, 0.25)], "B": [(2.5, 0.5), (3.0, 1.5), (3.5, 0.25)],
          "E": [(2.0, 0.5), (2.0, 1.5), (2.0, 0.25)],
          "N": [(-20.0, 0.5), (-30.0, 1.5), (-40.0, 3.0)]}
IDX = ["range", "shift", "rev", "dup"]


def inside(cell, i):
    x, y = INSIDE[cell][i % 3]
    return x + 0.001234567 * (i // 3), y


def cases(tier):
    out = [{"k": "reduce", "rows": []}, {"k": "reduce_lat", "rows": []}]
    recs = [(a, r) for a in (1.0, 4.5) for r in (None, 2.0, 7.25)]
    comp = [(), ((3.0, None),), ((3.0, 9.0),), ((2.0, None), (6.0, 11.0))]
    for k in (1, 2, 3):
        for seq in itertools.product(recs, repeat=k):
            for ci, c in enumerate(comp):
                rows = [[7, a, r] for a, r in seq] + [[0, a, r] for a, r in c]
                if ci % 2:
                    rows = rows[::-1]
                out.append({"k": "reduce", "rows": rows})
                if ci < 2:
                    out.append({"k": "reduce_lat", "rows": [[p, r] for p, _, r in rows]})
    vals = (2.0, 10.0) if tier == "quick" else (2.0, 10.0, 31.5)
    for n in (1, 2, 3):
        memb = list(itertools.product("ABN", repeat=n))
        for m in memb:
            for s in itertools.product((1, 3), repeat=n):
                for v in itertools.product(vals, repeat=n):
                    for r in ([(5.0,) * n, (None,) * n] if n == 3 else list(itertools.product((None, 5.0, 8.5), repeat=n))):
                        tab = [[mm, ss, vv, rr] for mm, ss, vv, rr in zip(m, s, v, r)]
                        if n == 3 and r[0] is not None:
                            tab = [[t[0], t[1], t[2], 5.0 + 3 * i] for i, t in enumerate(tab)]
                        h = (sum(s) + int(sum(v)) + len(out)) % 4
                        for ix in ([IDX[h]] if tier == "quick" else IDX):
                            out.append({"k": "grid", "tab": tab, "index": ix, "cidx": IDX[(h + 1) % 3], "over": False})
                        out.append({"k": "grid_lat", "tab": tab, "index": IDX[(h + 1) % 4], "cidx": IDX[h % 3], "over": False})
    # overlapping cells: a point counts in every cell that contains it
    for m in itertools.product("AB", repeat=2):
        for s in itertools.product((1, 3), repeat=2):
            for ix in IDX:
                tab = [[mm, ss, 2.0 + 5 * i, 5.0 + i] for i, (mm, ss) in enumerate(zip(m, s))]
                out.append({"k": "grid", "tab": tab, "index": ix, "cidx": "range", "over": True})
                out.append({"k": "grid_lat", "tab": tab, "index": ix, "cidx": "rev", "over": True})
    # points on the edge between two cells, with inner companions
    for m in itertools.product("ABE", repeat=2):
        if "E" in m:
            for s, (ix, k) in itertools.product(itertools.product((1, 3), repeat=2), zip(IDX, (0, 1, 2, 0))):
                tab = [[mm, ss, 2.0 + 5 * i, 5.0 + i] for i, (mm, ss) in enumerate(zip(m, s))]
                out.append({"k": "edge", "tab": tab, "index": ix, "cidx": IDX[k], "over": False})
                out.append({"k": "edge_lat", "tab": tab, "index": ix, "cidx": IDX[k], "over": False})
    out.append({"k": "grid", "tab": [], "index": "range", "cidx": "range", "over": False})
    out.append({"k": "grid_lat", "tab": [], "index": "range", "cidx": "range", "over": False})
    for n in (5000,):
        for k in ("grid", "grid_lat"):
            out.append({"k": k, "tab": [], "index": "range", "cidx": "rev", "over": False, "n": n})
            out.append({"k": k, "tab": [["A", 3, 2.0, 5.0]], "index": "range", "cidx": "shift", "over": False, "n": n})
    # many records of one point, many points in one cell, heavy weights
    for n in (7, 12, 40, 130):
        recs = [(1.0 + (i * i) % 11, None if i % 5 == 0 else 2.0 + (i * 3) % 7) for i in range(n)]
        rows = [[7, a, r] for a, r in recs] + [[0, a, r] for a, r in recs[: n // 2]]
        out.append({"k": "reduce", "rows": rows[::-1]})
        out.append({"k": "reduce_lat", "rows": [[p, r] for p, _, r in rows]})
        for w in (1, 100, 100000):
            tab = [["A" if i % 3 else "B", 1 + w * (i % 4), 1.0 + (i * i) % 11, 2.0 + (i * 3) % 7] for i in range(n)]
            for ix in ("range", "dup"):
                out.append({"k": "grid", "tab": tab, "index": ix, "cidx": "rev", "over": False})
                out.append({"k": "grid_lat", "tab": tab, "index": ix, "cidx": "shift", "over": False})
    # scale of the record values: rotating, and every scale for the shortest tables
    res = []
    for i, c in enumerate(out):
        vs = SCALES if len(c.get("rows", c.get("tab"))) <= 1 else (SCALES[i % 4],)
        res += [{**c, "u": v} for v in vs]
    return res


def scaled(case):
    """The case with its values in seconds (whole microseconds)."""
    f = lambda x: x if x is None or isinstance(x, str) else round(x * case["u"], 6)
    if "rows" in case:
        return {**case, "rows": [[r[0]] + [f(x) for x in r[1:]] for r in case["rows"]]}
    return {**case, "tab": [[t[0], t[1], f(t[2]), f(t[3])] for t in case["tab"]]}


def td(x):
    return pd.NaT if x is None else pd.Timedelta(seconds=x)


def agg_frame(rows):
    return gpd.GeoDataFrame({
        "point_id": pd.Series([r[0] for r in rows], dtype="int"),
        "satellite": ["A"] * len(rows), "instrument": ["x"] * len(rows),
        "start": [pd.Timestamp(dt(i)) for i in range(len(rows))],
        "epoch": [pd.Timestamp(dt(i)) for i in range(len(rows))],
        "end": [pd.Timestamp(dt(i + 1)) for i in range(len(rows))],
        "access": pd.Series([td(r[1]) for r in rows], dtype="timedelta64[ns]"),
        "revisit": pd.Series([td(r[2]) for r in rows], dtype="timedelta64[ns]"),
        "geometry": [Point(*XY[r[0]]) for r in rows]}, geometry="geometry", crs="EPSG:4326")


def lat_frame(rows):
    return gpd.GeoDataFrame({
        "point_id": pd.Series([r[0] for r in rows], dtype="int"),
        "satellite": ["A"] * len(rows), "instrument": ["x"] * len(rows),
        "sat_alt": [1.0] * len(rows), "sat_az": [2.0] * len(rows), "station": ["s"] * len(rows),
        "downlinked": [pd.Timestamp(dt(i + 1)) for i in range(len(rows))],
        "latency": pd.Series([td(r[1]) for r in rows], dtype="timedelta64[ns]"),
        "observed": [pd.Timestamp(dt(i)) for i in range(len(rows))],
        "geometry": [Point(*XY[r[0]]) for r in rows]}, geometry="geometry", crs="EPSG:4326")


def mean(v):
    v = [x for x in v if x is not None]
    return sum(v) / len(v) if v else None


def relabel(df, ix):
    n = len(df)
    if ix == "shift":
        df.index = range(100, 100 + n)
    elif ix == "rev":
        df.index = range(n - 1, -1, -1)
    elif ix == "dup":
        df.index = [0] * n
    return df


def check_reduce(case, ctx, lat):
    rows = case["rows"]
    if not rows:
        df = (lat_frame if lat else agg_frame)([])
        res = (reduce_latencies if lat else reduce_observations)(df)
        require(len(res) == 0, "reducing nothing gave rows", "reduce empty")
        ctx.step(); ctx.state(["empty", lat]); ctx.trace("empty")
        return
    df = (lat_frame if lat else agg_frame)(rows)
    before = frame_fingerprint(df)
    res = (reduce_latencies if lat else reduce_observations)(df)
    require(frame_fingerprint(df) == before, "reduction modified its input", "input modified")
    pts = sorted({r[0] for r in rows})
    require(sorted(res.point_id) == pts, "points differ", "reduce points", got=list(res.point_id))
    exp = []
    for p in pts:
        mine = [r for r in rows if r[0] == p]
        row = res[res.point_id == p].iloc[0]
        require(int(row.samples) == len(mine), "samples differ", "reduce samples", got=row.samples, exp=len(mine))
        if lat:
            e = [mean([r[1] for r in mine])]
            require(close(tds(row.latency), e[0]), "mean latency differs", "reduce latency", got=tds(row.latency), exp=e)
        else:
            e = [mean([r[1] for r in mine]), mean([r[2] for r in mine])]
            require(close(tds(row.access), e[0]), "mean access differs", "reduce access", got=tds(row.access), exp=e)
            require(close(tds(row.revisit), e[1]), "mean revisit differs", "reduce revisit", got=tds(row.revisit), exp=e)
        require(same_point(row.geometry, *XY[p]), "geometry differs", "reduce geometry")
        exp.append([p, len(mine)] + e)
    # the reduced table must be usable by the next stage of the chain
    cells = gpd.GeoDataFrame({"cell_id": [1], "geometry": [box(-180, -90, 180, 90)]}, crs="EPSG:4326")
    g = (grid_latencies if lat else grid_observations)(res, cells)
    require(len(g) == 1 and int(g.iloc[0].samples) == len(rows), "gridding the reduced table", "chain", got=len(g))
    col, k = ("latency", 2) if lat else ("access", 2)
    if all(e[k] is not None for e in exp):
        w = sum(e[1] * e[k] for e in exp) / sum(e[1] for e in exp)
        require(close(tds(g.iloc[0][col]), w), "weighted mean over the chain differs", "chain mean", got=tds(g.iloc[0][col]), exp=w)
    ctx.step(len(rows) + 1)
    ctx.state(exp)
    ctx.trace([lat, exp], {"case": case, "model": exp})


def check_grid(case, ctx, lat):
    tab = case["tab"]
    cells = dict(CELLS)
    for i in range(case.get("n", 0)):
        cells[i] = (1000 + i, box(-170 + i % 100, 50 + i // 100 * 0.5, -169 + i % 100, 50.5 + i // 100 * 0.5))
    if case["over"]:
        cells["C"] = (7, box(0, 0, 4, 2))
    cdf = gpd.GeoDataFrame({"cell_id": [c[0] for c in cells.values()], "geometry": [c[1] for c in cells.values()]}, crs="EPSG:4326")
    cdf = relabel(cdf, case["cidx"])
    pts = [Point(*inside(t[0], i)) for i, t in enumerate(tab)]
    d = {"point_id": pd.Series(range(len(tab)), dtype="int"), "geometry": pts}
    if lat:
        d["latency"] = pd.Series([td(t[3]) for t in tab], dtype="timedelta64[ns]")
    else:
        d["access"] = pd.Series([td(t[2]) for t in tab], dtype="timedelta64[ns]")
        d["revisit"] = pd.Series([td(t[3]) for t in tab], dtype="timedelta64[ns]")
    d["samples"] = pd.Series([t[1] for t in tab], dtype="int")
    df = relabel(gpd.GeoDataFrame(d, geometry="geometry", crs="EPSG:4326"), case["index"])
    b1, b2 = frame_fingerprint(df), frame_fingerprint(cdf)
    res = (grid_latencies if lat else grid_observations)(df, cdf)
    require(frame_fingerprint(df) == b1 and frame_fingerprint(cdf) == b2, "gridding modified its input", "input modified")
    if not tab:
        require(sorted(res.cell_id) == sorted(c[0] for c in cells.values()) and all(int(s) == 0 for s in res.samples),
                "empty result must mark every cell with zero samples", "grid empty")
        for c in (["latency"] if lat else ["access", "revisit"]):
            require(all(tds(x) is None for x in res[c]), "empty result has a statistic", "grid empty value")
        ctx.step(); ctx.state(["empty-grid", lat]); ctx.trace("empty-grid")
        return
    if any(t[0] == "E" for t in tab):
        # a point on the common edge may belong to either cell or none, never to both
        got = {c: int(res[res.cell_id == c].iloc[0].samples) if c in set(res.cell_id) else 0 for c in (5, 2)}
        inner = {c: sum(t[1] for t in tab if t[0] == n) for n, (c, _) in CELLS.items()}
        require(sum(got.values()) <= sum(t[1] for t in tab), "a point on the edge between two cells is counted twice", "grid edge", got=got)
        require(all(got[c] >= inner[c] for c in got), "an inner point is lost", "grid edge inner", got=got)
        ctx.step(); ctx.state([tab, case["index"], lat]); ctx.trace(["edge", lat, sorted(got.items())])
        return
    exp = {}
    for name, (cid, poly) in cells.items():
        mine = [t for t, p in zip(tab, pts) if poly.contains(p)]
        if mine:
            n = sum(t[1] for t in mine)
            e = {"samples": n}
            for col, k in ([("latency", 3)] if lat else [("access", 2), ("revisit", 3)]):
                v = [t[k] for t in mine]
                if all(x is None for x in v):
                    e[col] = None
                elif any(x is None for x in v):
                    e[col] = "any"  # partly undefined: not specified beyond 'undefined or mean of the defined'
                    e[col + "_alt"] = sum(t[k] * t[1] for t in mine if t[k] is not None) / sum(t[1] for t in mine if t[k] is not None)
                else:
                    e[col] = sum(t[k] * t[1] for t in mine) / n
            exp[cid] = (e, poly)
    filled = [c for c in res.cell_id if int(res[res.cell_id == c].iloc[0].samples) > 0]
    require(len(set(res.cell_id)) == len(res), "a cell appears twice", "grid duplicate")
    require(sorted(filled) == sorted(exp), "cells with samples differ", "grid cells", got=filled, exp=sorted(exp))
    for cid, (e, poly) in exp.items():
        row = res[res.cell_id == cid].iloc[0]
        require(int(row.samples) == e["samples"], "cell samples differ", "grid samples", got=row.samples, exp=e)
        require(row.geometry.equals(poly), "cell geometry differs", "grid geometry")
        for col in (["latency"] if lat else ["access", "revisit"]):
            g = tds(row[col])
            if e[col] == "any":
                ctx.skip()
                require(g is None or close(g, e[col + "_alt"]), "partly undefined statistic is neither undefined nor the mean of the defined", "grid partial", got=g, exp=e)
            else:
                require(close(g, e[col]), "sample-weighted mean differs", "grid mean " + col, got=g, exp=e, cell=cid)
    ctx.step(len(tab) + 1)
    m = sorted((c, sorted((k, str(v)) for k, v in e.items())) for c, (e, _) in exp.items())
    ctx.state([m, case["index"]])
    ctx.trace([lat, m], {"case": case, "model": m})


def check(case, ctx):
    k = case["k"]
    case = scaled(case)
    if k.startswith("reduce"):
        check_reduce(case, ctx, k == "reduce_lat")
    else:
        check_grid(case, ctx, k.endswith("_lat"))


def warm():
    reduce_observations(agg_frame([[7, 1.0, 2.0]]))

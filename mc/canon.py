"""Canonical, comparable form of results (floats kept, structure flattened)."""
import math
from datetime import date, datetime, time, timedelta
from enum import Enum

import numpy as np
import pandas as pd
from shapely.geometry.base import BaseGeometry


def canon(x):
    if x is None or x is pd.NaT:
        return None
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, Enum):
        return str(x.value)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return None if math.isnan(x) else float(x)
    if isinstance(x, str):
        return x
    if isinstance(x, (pd.Timestamp, datetime)):
        t = pd.Timestamp(x)
        if t.tzinfo is None:
            return ("naive", t.timestamp())
        return ("utc", t.timestamp())
    if isinstance(x, (pd.Timedelta, timedelta, np.timedelta64)):
        return ("s", pd.Timedelta(x).total_seconds())
    if isinstance(x, (date, time)):
        return str(x)
    if isinstance(x, BaseGeometry):
        return geom(x)
    if isinstance(x, pd.DataFrame):
        return ("frame", tuple(map(str, x.columns)), tuple(canon(i) for i in x.index),
                tuple(tuple(canon(v) for v in x[c].tolist()) for c in x.columns), str(getattr(x, "crs", None)))
    if isinstance(x, pd.Series):
        return ("series", tuple(canon(v) for v in x.tolist()))
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, tuple(canon(v) for v in x.ravel().tolist()))
    if isinstance(x, dict):
        return ("dict", tuple((str(k), canon(v)) for k, v in sorted(x.items(), key=lambda i: str(i[0]))))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if hasattr(x, "model_dump"):
        return (type(x).__name__, canon(x.model_dump()))
    raise TypeError("cannot canonicalize %r" % type(x))


def geom(g):
    if g.is_empty:
        return ("geom", "empty")
    if hasattr(g, "geoms"):
        return ("geom", g.geom_type, tuple(geom(p) for p in g.geoms))
    if g.geom_type == "Polygon":
        rings = [g.exterior] + list(g.interiors)
        return ("geom", "Polygon", tuple(tuple(map(tuple, r.coords)) for r in rings))
    return ("geom", g.geom_type, tuple(map(tuple, g.coords)))


def same(a, b, rel=1e-9, ab=2e-6):
    """None if equal (floats up to rounding), else a short description."""
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            if a == b or abs(a - b) <= ab + rel * max(abs(a), abs(b)):
                return None
        return "%r != %r" % (a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return "length %d != %d: %.120r / %.120r" % (len(a), len(b), a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, rel, ab)
            if d:
                return d if "!=" in d and len(d) > 200 else "[%d] %s" % (i, d)
        return None
    return None if a == b else "%r != %r" % (a, b)

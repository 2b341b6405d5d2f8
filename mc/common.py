"""Helpers shared by the property modules (reference-model side)."""
from datetime import datetime, timedelta, timezone

import geopandas as gpd
import numpy as np
import pandas as pd
from shapely.geometry import Point as SPoint

UTC = timezone.utc
T0 = datetime(2022, 6, 1, tzinfo=UTC)


def dt(seconds, base=T0):
    return base + timedelta(seconds=float(seconds))


def secs(x, base=T0):
    """Timestamp/datetime -> seconds since base (None for NaT)."""
    if x is None or x is pd.NaT or (not isinstance(x, str) and pd.isna(x)):
        return None
    return (pd.Timestamp(x) - pd.Timestamp(base)).total_seconds()


def tds(x):
    """timedelta-like -> seconds (None when undefined)."""
    if x is None or x is pd.NaT:
        return None
    try:
        if pd.isna(x):
            return None
    except (TypeError, ValueError):
        pass
    return pd.Timedelta(x).total_seconds()


def close(a, b, tol=1e-5):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) <= tol


def frame_fingerprint(df):
    """A value that changes if a frame is modified in place."""
    cols = tuple(df.columns)
    return (cols, tuple(map(str, df.index)), tuple(str(d) for d in df.dtypes),
            tuple(tuple(map(_cell, df[c])) for c in cols),
            str(getattr(df, "crs", None)))


def _cell(v):
    return v.wkt if hasattr(v, "wkt") else str(v)


def names(s):
    return sorted(x.strip() for x in str(s).split(","))


def same_point(g, lon, lat, z=None, tol=1e-9):
    if g is None or g.geom_type != "Point":
        return False
    ok = abs(g.x - lon) <= tol and abs(g.y - lat) <= tol
    if z is not None:
        ok = ok and g.has_z and abs(g.z - z) <= 1e-6
    return ok

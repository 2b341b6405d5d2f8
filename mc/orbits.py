"""Menu of orbits and places used by several properties."""
from datetime import datetime, timedelta, timezone
from tatc.schemas import (CircularOrbit, KeplerianOrbit, TwoLineElements,
                          SunSynchronousOrbit, Point)
UTC = timezone.utc
T0 = datetime(2022, 6, 1, tzinfo=UTC)
ISS = ["1 25544U 98067A   21156.30527927  .00003432  00000-0  70541-4 0  9993",
       "2 25544  51.6455  41.4969 0003508  68.0432  78.3395 15.48957534286754"]
NOAA20 = ["1 43013U 17073A   22150.78990200  .00000001  00000-0  21208-4 0  9992",
          "2 43013  98.7192  90.3345 0001380  86.9366 273.1976 14.19547730234783"]


def orbit(name):
    if name == "iss":
        return TwoLineElements(tle=list(ISS))
    spec = {
        "leo98": ("c", 612000, 97.9, 40.0, 15.0),
        "leo30": ("c", 500000, 30.0, 200.0, 300.0),
        "retro": ("c", 850000, 150.0, 10.0, 100.0),
        "polar": ("c", 705000, 90.0, 120.0, 0.0),
        "equat": ("c", 700000, 0.0, 0.0, 0.0),
        "meo": ("c", 20180000, 55.0, 30.0, 0.0),
        "geo": ("c", 35793170, 0.05, 0.0, 0.0),
    }.get(name)
    if spec:
        return CircularOrbit(altitude=spec[1], inclination=spec[2], right_ascension_ascending_node=spec[3],
                             true_anomaly=spec[4], epoch=T0)
    if name == "heo":
        return KeplerianOrbit(altitude=20184000, inclination=63.4, eccentricity=0.7, perigee_argument=270,
                              right_ascension_ascending_node=50.0, true_anomaly=0.0, epoch=T0)
    if name == "ecc":
        return KeplerianOrbit(altitude=1500000, inclination=40.0, eccentricity=0.1, perigee_argument=60,
                              right_ascension_ascending_node=310.0, true_anomaly=200.0, epoch=T0)
    raise KeyError(name)


def base_time(name):
    return datetime(2021, 6, 5, 8, 0, tzinfo=UTC) if name == "iss" else T0


PLACES = {
    "eq": (0.0, 10.0, 0.0), "mid": (40.712776, -74.005974, 0.0), "high": (74.000123, 20.000457, 150.375),
    "anti": (-17.000371, 179.950729, 0.0), "sp": (-89.9, 0.0, 2800.0), "mtn": (-32.000457, -70.000891, 4500.0),
    "low": (-12.000573, 100.500291, -430.0),
}


def point(name, pid=1):
    la, lo, el = PLACES[name]
    return Point(id=pid, latitude=la, longitude=lo, elevation=el)

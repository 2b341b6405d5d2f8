"""Controlled environment for the code under test.

* imports ``tatc`` from /repo/src of the *current working tree*;
* replaces the planetary ephemeris file (absent from this copy of the
  repository, and a download otherwise) by an analytic stand-in that is
  deterministic and offline, so that the solar code paths can be executed;
* pins every source of nondeterminism the library has (BLAS threads, byte code
  caches, warnings, log output).
"""
import os
import sys
import warnings

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS",
           "NUMBA_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

REPO = os.environ.get("MC_REPO", "/repo")
SRC = os.path.join(REPO, "src")
if sys.path[0] != SRC:
    sys.path.insert(0, SRC)

from mc import locks
locks.install(SRC)

import numpy as np
from skyfield.iokit import Loader
from skyfield.vectorlib import VectorFunction

AU_KM = 149597870.7


class _Body(VectorFunction):
    """A body moving on a fixed analytic path about the barycentre."""

    def __init__(self, target, fn, eph):
        self.center = 0
        self.target = target
        self._fn = fn
        self.ephemeris = eph

    def _at(self, t):
        p = self._fn(t.tt)
        h = 0.01
        v = (self._fn(t.tt + h) - self._fn(t.tt - h)) / (2 * h)
        return p, v, None, None


def _sun(tt):
    z = np.zeros_like(np.asarray(tt, dtype=float))
    return np.array([z, z, z])


def sun_direction(tt):
    """Geocentric direction to the stand-in Sun (unit vector, GCRS axes)."""
    n = np.asarray(tt, dtype=float) - 2451545.0
    g = np.radians(357.528 + 0.9856003 * n)
    lam = np.radians(280.460 + 0.9856474 * n) + np.radians(1.915) * np.sin(g)
    eps = np.radians(23.439)
    return np.array([np.cos(lam), np.cos(eps) * np.sin(lam),
                     np.sin(eps) * np.sin(lam)])


def sun_distance_au(tt):
    n = np.asarray(tt, dtype=float) - 2451545.0
    g = np.radians(357.528 + 0.9856003 * n)
    return 1.00014 - 0.01671 * np.cos(g)


def _earth(tt):
    return -sun_direction(tt) * sun_distance_au(tt)


def _far(tt):
    z = np.zeros_like(np.asarray(tt, dtype=float))
    return np.array([z + 5.0, z + 1.0, z + 0.4])


def _far2(tt):
    z = np.zeros_like(np.asarray(tt, dtype=float))
    return np.array([z - 3.0, z + 9.0, z + 0.3])


class StandInEphemeris(object):
    def __init__(self):
        mk = lambda c, f: _Body(c, f, self)
        sun, earth = mk(10, _sun), mk(399, _earth)
        jup, sat = mk(5, _far), mk(6, _far2)
        self._b = {"sun": sun, 10: sun, "earth": earth, 399: earth,
                   "jupiter": jup, "jupiter barycenter": jup, 5: jup,
                   "saturn": sat, "saturn barycenter": sat, 6: sat}

    def __contains__(self, k):
        return (k.lower() if isinstance(k, str) else k) in self._b

    def __getitem__(self, k):
        return self._b[k.lower() if isinstance(k, str) else k]

    def __bool__(self):
        return True


EPH = StandInEphemeris()
_call = Loader.__call__


def _patched(self, filename, *a, **k):
    if filename == "de421.bsp":
        return EPH
    return _call(self, filename, *a, **k)


def install():
    """Install the stand-in; must run before ``import tatc``."""
    Loader.__call__ = _patched
    import tatc  # noqa
    import tatc.config
    where = os.path.realpath(tatc.__file__)
    if not where.startswith(os.path.realpath(SRC)):
        raise RuntimeError("tatc imported from %s, not from %s" % (where, SRC))
    return tatc

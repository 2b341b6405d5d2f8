"""C22: configuration files load fully or fail cleanly.

Crash points: every prefix of the shipped file (a write cut at any byte), every
prefix with a torn tail (NULs or the tail of the old file), every byte
overwritten, every setting with every value of a lattice.  The reference knows
each setting's type and bounds; the loaded settings must equal the file's
values plus defaults, or the library's configuration error must be raised.
"""
import importlib
import itertools
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile
import types
from datetime import timedelta

import numpy as np
import yaml

from tatc import config
from tatc.config import ConfigError, RuntimeConfiguration, load_yaml_config
from tatc.schemas import CircularOrbit, Point, PointedInstrument
from tatc.utils import compute_footprint
from mc import env
from mc.core import require
from mc.common import T0, dt

DEFAULTS = os.path.join(env.SRC, "tatc", "resources", "defaults.yml")
# setting: (type, lower bound, strict, default)
SET = {
    "footprint_points_elliptical": ("int", 4, False, 32),
    "footprint_points_rectangular_side": ("int", 1, False, 8),
    "repeat_cycle_delta_position_m": ("float", 0, True, 10000),
    "repeat_cycle_delta_velocity_m_per_s": ("float", 0, True, 10),
    "repeat_cycle_search_elevation_deg": ("float", 0, True, 88),
    "repeat_cycle_search_duration_days": ("float", None, False, 30),
    "repeat_cycle_lazy_load": ("bool", None, False, True),
    "repeat_cycle_for_orbit_track": ("bool", None, False, True),
    "repeat_cycle_for_observation_events": ("bool", None, False, True),
    "orbit_tle_lazy_load": ("bool", None, False, True),
}
VALUES = ["-1", "0", "1", "2", "3", "4", "5", "32", "1000", "1.5", "0.25", "-0.5", "1e3", ".nan", ".inf", "-.inf", "true", "false", "True", "No", "on", "off", "maybe", "'8'", "\"true\"", "~", "", "[]", "[4]", "{}", "{a: 1}", "2001-01-01", "2001-13-45", "0x", "0b2", "1_000", "1:30", "!!int x", "!!python/object:os.system x", "&a 5", "*a", "|\n  text", "'open", "{open", "\t4", "4 # note", "4: 5", "<<: 3", "\x00", "\xff", "é", "@x", "`x", "%x", "- 1"]
BYTES = [0, 9, 10, 13, 32, 33, 34, 35, 37, 38, 39, 42, 45, 46, 48, 57, 58, 63, 64, 91, 93, 96, 123, 124, 125, 127, 195, 255]
BOUNDS = {
    "quick": "all prefixes of the defaults file and of 3 variants (plain, with NUL tail, with the old file's tail), every byte replaced by each of 28 bytes, 10 settings x 55 values alone and in every position, all pairs of valid values of two settings, 40 non-mapping or undecodable documents, missing file and directory; import with every prefix as shipped defaults; run-time changes of every setting and pair of settings",
    "thorough": "additionally all 256 byte values at every position and all prefix/suffix tears",
}
CHUNK = 4
VALIDATION = "each enumerated file content is written to a scratch directory and loaded by the real loader (or by importing a scratch copy of the package)"

# file variants (key order and comments differ)
VAR = ["\n".join("%s: %s" % (k, v[3]) for k, v in reversed(list(SET.items()))),
       "---\n# tuned\n" + "\n".join('"%s": %s' % (k, {"int": 16, "float": 12.5, "bool": "false"}[v[0]]) for k, v in SET.items()) + "\n...\n",
       "{" + ", ".join("%s: %s" % (k, {"int": 9, "float": 3, "bool": "true"}[v[0]]) for k, v in SET.items()) + "}\n"]


def base():
    with open(DEFAULTS, "rb") as f:
        return f.read()


def docs(v):
    return base() if v == 0 else VAR[v - 1].encode()


def cases(tier):
    q = tier == "quick"
    for v in range(4):
        for tail in range(3):
            yield {"k": "prefix", "v": v, "tail": tail}
    n = len(base())
    for a in range(0, n, 24):
        yield {"k": "byte", "a": a, "b": min(n, a + 24), "all": not q}
    if not q:
        for a in range(0, n, 12):
            yield {"k": "tear", "a": a, "b": min(n, a + 12)}
    for s in SET:
        yield {"k": "value", "s": s}
        yield {"k": "pair", "s": s}
        yield {"k": "runtime", "s": s}
    yield {"k": "document"}
    for v in range(2):
        yield {"k": "shipped", "v": v}
    for i in range(6):
        yield {"k": "import", "i": i}
    for m in itertools.combinations(sorted(SET), 2):
        yield {"k": "two", "s": list(m)}


def judge_value(name, v):
    """'ok' must be accepted as v, 'bad' must be rejected, '?' either."""
    kind, lo, strict, _ = SET[name]
    if kind == "bool":
        return "ok" if isinstance(v, bool) else ("?" if isinstance(v, (int, float, str)) and str(v).strip().lower() in "0 1 0.0 1.0 t f y n true false yes no on off".split() else "bad")
    if isinstance(v, bool):
        return "?"
    if isinstance(v, str):
        try:
            float(v.replace("_", ""))
            return "?"
        except ValueError:
            return "bad"
    if not isinstance(v, (int, float)):
        return "bad"
    if kind == "int" and (isinstance(v, float) and (not math.isfinite(v) or v != int(v))):
        return "bad"
    if lo is not None and not (v > lo if strict else v >= lo):
        return "bad"
    if kind == "int" and isinstance(v, float):
        return "?"
    if isinstance(v, int) and abs(v) > 2 ** 53:
        return "?"
    return "ok"


def equal(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def verdict(content):
    """(must load, must fail, settings in the file)"""
    try:
        d = yaml.safe_load(content.decode("utf-8"))
    except Exception:
        return False, True, None
    if d is None:
        return False, False, {}
    if not isinstance(d, dict):
        return False, True, None
    js = [judge_value(k, v) for k, v in d.items() if k in SET]
    if "bad" in js:
        return False, True, None
    return "?" not in js and all(isinstance(k, str) for k in d), False, d


def judge(content, rc, what):
    """rc: the loaded settings or None for a configuration error."""
    must, never, d = verdict(content)
    if rc is None:
        require(not must, "a valid configuration file is rejected", sig="rejected", content=content[-160:], **what)
        return "error"
    require(not never, "an unusable configuration file is accepted", sig="accepted", content=content[-160:], **what)
    for k, (kind, _, _, dflt) in SET.items():
        v = getattr(rc, k)
        require(type(v) is {"int": int, "float": float, "bool": bool}[kind] or kind == "float" and type(v) in (int, float), "%s loads as %r" % (k, v), sig="type", content=content[-160:], **what)
        if d and k in d:
            if judge_value(k, d[k]) == "ok":
                require(equal(v, d[k]), "%s loads as %r instead of %r" % (k, v, d[k]), sig="value", content=content[-160:], **what)
        else:
            require(v == dflt, "%s is %r instead of its default %r" % (k, v, dflt), sig="default", content=content[-160:], **what)
    return "loaded"


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="mc_c22_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def load(content, ctx, d, what):
    p = os.path.join(d, "c.yml")
    with open(p, "wb") as f:
        f.write(content)
    ctx.step()
    ctx.state(content.hex())
    try:
        rc = load_yaml_config(p)
    except ConfigError:
        rc = None
    except Exception as e:
        require(False, "loading fails with %s instead of the configuration error: %s" % (type(e).__name__, str(e)[:120]), sig="leak", content=content[-160:], **what)
    else:
        require(isinstance(rc, RuntimeConfiguration), "loading returns %r" % type(rc), sig="result", **what)
    with open(p, "rb") as f:
        require(f.read() == content, "loading changed the file", sig="file changed", **what)
    ctx.trace((what.get("kind"), judge(content, rc, what)))


def check(c, ctx):
    with Scratch() as d:
        keep = config.rc
        try:
            globals()["_" + c["k"]](c, ctx, d)
        finally:
            config.rc = keep


def _prefix(c, ctx, d):
    s = docs(c["v"])
    old = (b"# previous version\n" + b"footprint_points_elliptical: 64\n" * 40)
    for n in range(len(s) + 1):
        t = [b"", b"\0" * (len(s) - n), old[n:]][c["tail"]]
        load(s[:n] + t, ctx, d, {"kind": "prefix", "variant": c["v"], "bytes": n, "tail": c["tail"]})


def _byte(c, ctx, d):
    s = base()
    for i in range(c["a"], c["b"]):
        for b in (range(256) if c["all"] else BYTES):
            load(s[:i] + bytes([b]) + s[i + 1:], ctx, d, {"kind": "byte", "position": i, "byte": b})


def _tear(c, ctx, d):
    s = base()
    for i in range(c["a"], c["b"]):
        for j in range(i + 1, len(s)):
            load(s[:i] + s[j:], ctx, d, {"kind": "tear", "from": i, "to": j})


def _value(c, ctx, d):
    lines = ["%s: %s" % (k, v[3]) for k, v in SET.items()]
    for v in VALUES:
        one = ("%s: %s" % (c["s"], v)).encode("latin-1" if v == "\xff" else "utf-8")
        load(one, ctx, d, {"kind": "value"})
        load(one + b"\nunknown_setting: 5\n", ctx, d, {"kind": "value"})
        for pos in (0, 5, 9):
            rest = [x for x in lines if not x.startswith(c["s"] + ":")]
            load("\n".join(rest[:pos]).encode() + (b"\n" if pos else b"") + one + b"\n" + "\n".join(rest[pos:]).encode(), ctx, d, {"kind": "value", "position": pos})


def good(name):
    return {"int": ["5", "17"], "float": ["0.5", "42"], "bool": ["false", "true"]}[SET[name][0]]


def _pair(c, ctx, d):
    for o in SET:
        if o != c["s"]:
            for a, b in itertools.product(good(c["s"]), good(o)):
                load(("%s: %s\n%s: %s\n" % (c["s"], a, o, b)).encode(), ctx, d, {"kind": "pair"})


def _document(c, ctx, d):
    for t in ["", " ", "\n\n", "# only a comment\n", "---\n", "null", "~", "5", "text", "'quoted'", "[]", "[1, 2]", "- a\n- b\n", "{}", "{a}", "? a", "1: 2\n", "true: 1\n", "[a]: 1\n", "? [a]\n: 1\n", "a: 1\na: 2\n", "--- 1\n--- 2\n", "a: 1\n---\nb: 2\n", "%YAML 9.9\n---\na: 1\n", "%TAG ! x\n", "\ufeffa: 1\n", "\t", "a:\n\tb: 1\n", "&a [*a]", "*nope", "!!binary x", "!!set {a}", "!!timestamp x", "!!bool x", "!!float x", "a: !!bool x", "[" * 3000, "{a: " * 2000, "2001-02-30", "a: !unknown 4", "footprint_points_elliptical: 32\n  bad indent: 1\n", "self: 1\n", "model_config: {}\n", "__class__: 1\n"]:
        load(t.encode("utf-8"), ctx, d, {"kind": "document"})
    for raw in (b"\xff\xfe", b"\x80", b"\xc3(", b"\xed\xa0\x80", "footprint_points_elliptical: 16\n".encode("utf-16"), "footprint_points_elliptical: 16\n".encode("utf-32"), bytes(range(256))):
        p = os.path.join(d, "c.yml")
        with open(p, "wb") as f:
            f.write(raw)
        ctx.step()
        try:
            judge(raw, load_yaml_config(p), {"kind": "raw"})
        except ConfigError:
            pass
    for p in (os.path.join(d, "missing.yml"), os.path.join(d, "no", "such", "dir.yml"), d):
        ctx.step()
        try:
            load_yaml_config(p)
        except ConfigError:
            ctx.trace(("missing", p == d))
        else:
            require(False, "loading %s succeeds" % ("a directory" if p == d else "a missing file"), sig="missing")
    require(RuntimeConfiguration() == load_yaml_config(DEFAULTS), "the shipped defaults differ from the built-in defaults", sig="defaults")
    judge(base(), config.rc, {"kind": "active"})


def scratch_config(d, n):
    """Import the package's configuration module from the scratch copy."""
    name = "mcscratch%d_%d" % (os.getpid(), n)
    pkg = types.ModuleType(name)
    pkg.__path__ = [d]
    sys.modules[name] = pkg
    try:
        return importlib.import_module(name + ".config")
    finally:
        for k in [k for k in sys.modules if k == name or k.startswith(name + ".")]:
            del sys.modules[k]


def _shipped(c, ctx, d):
    pk = os.path.join(d, "tatc")
    shutil.copytree(os.path.join(env.SRC, "tatc"), pk, ignore=shutil.ignore_patterns("__pycache__"))
    f = os.path.join(pk, "resources", "defaults.yml")
    s = docs(c["v"])
    for n in range(-1, len(s) + 1):
        if n < 0:
            os.remove(f)
        else:
            with open(f, "wb") as h:
                h.write(s[:n])
        ctx.step()
        ctx.state(("shipped", c["v"], n))
        try:
            m = scratch_config(pk, n)
        except Exception as e:
            require(False, "importing fails with %s when the shipped defaults are cut at byte %d: %s" % (type(e).__name__, n, str(e)[:100]), sig="import", variant=c["v"])
        rc = m.rc
        if n >= 0:
            must, never, st = verdict(s[:n])
            if must:
                judge(s[:n], rc, {"kind": "shipped"})
                continue
        try:
            ok = m.load_yaml_config(f)
        except m.ConfigError:
            ok = None
        want = ok if ok is not None else RuntimeConfiguration()
        require(rc.model_dump() == want.model_dump(), "import does not fall back to the built-in defaults", sig="fallback", bytes=n, got=rc.model_dump(), want=want.model_dump())
        ctx.trace(("shipped", ok is None))


def _import(c, ctx, d):
    """A whole import of the library with damaged defaults, in a new process."""
    pk = os.path.join(d, "src", "tatc")
    shutil.copytree(os.path.join(env.SRC, "tatc"), pk, ignore=shutil.ignore_patterns("__pycache__"))
    f = os.path.join(pk, "resources", "defaults.yml")
    os.remove(f)
    content = [None, b"", b"a: [", b"footprint_points_elliptical: 2\n", b"\xff\x00", b"- 1\n- 2\n"][c["i"]]
    if content is not None:
        with open(f, "wb") as h:
            h.write(content)
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    e = dict(os.environ, MC_REPO=d, PYTHONPATH=root)
    r = subprocess.run([sys.executable, "-c", "from mc import env; env.install(); import tatc.analysis, json; from tatc import config; print('RC ' + json.dumps(config.rc.model_dump()))"],
                       env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    ctx.step()
    ctx.state(("import", c["i"]))
    out = [l for l in r.stdout.decode().splitlines() if l.startswith("RC ")]
    require(r.returncode == 0 and out, "importing the library with damaged defaults fails: %s" % r.stderr.decode()[-300:], sig="import", content=content)
    got = json.loads(out[0][3:])
    require(got == {k: v[3] for k, v in SET.items()}, "settings after the fall-back are %s" % got, sig="fallback")
    ctx.trace(("import", c["i"]))


# ---------------------------------------------------------------- run time

def fresh():
    return CircularOrbit(altitude=561000, inclination=97.6, true_anomaly=0, epoch=T0)


def frozen():
    return CircularOrbit(altitude=35793170, inclination=0.05, true_anomaly=0, epoch=T0).to_tle(lazy_load=False)


def governed(setting, val, ctx, what):
    """The active value governs the computation like the explicit argument."""
    o = frozen()
    ctx.step()
    if setting == "footprint_points_elliptical":
        t = o.get_orbit_track(dt(100), try_repeat=False)
        n = len(compute_footprint(t, 4, 4).exterior.coords)
        require(n == len(compute_footprint(t, 4, 4, number_points=val).exterior.coords) and n in (val, val + 1), "an elliptical footprint has %d vertices with %s=%s" % (n, setting, val), sig="governs", **what)
    elif setting == "footprint_points_rectangular_side":
        t = o.get_orbit_track(dt(100), try_repeat=False)
        n = len(compute_footprint(t, 4, 4, is_rectangular=True).exterior.coords)
        require(n == 4 * val + 1, "a rectangular footprint has %d vertices with %s=%s" % (n, setting, val), sig="governs", **what)
        i = PointedInstrument(name="p", cross_track_field_of_view=4, along_track_field_of_view=4, is_rectangular=True)
        require(len(i.compute_footprint(t).exterior.coords) == n, "the instrument's footprint ignores %s" % setting, sig="governs", **what)
    elif setting == "orbit_tle_lazy_load":
        ob = fresh()
        require((ob.to_tle() is ob.to_tle()) == val, "element sets are %s with %s=%s" % ("not reused" if val else "reused", setting, val), sig="governs", **what)
    elif setting == "repeat_cycle_lazy_load":
        o.get_repeat_cycle(max_delta_position=1e-6, lazy_load=False)
        got = o.get_repeat_cycle()
        want = None if val else frozen().get_repeat_cycle(lazy_load=False)
        require(got == want, "the repeat cycle is %s with %s=%s" % (got, setting, val), sig="governs", want=want, **what)
    elif setting == "repeat_cycle_for_orbit_track":
        a, b = o.get_orbit_track(dt(3.3 * 86400)).position.m, frozen().get_orbit_track(dt(3.3 * 86400), try_repeat=val).position.m
        require(np.abs(a - b).max() < 1e-6, "positions differ from try_repeat=%s" % val, sig="governs", **what)
    elif setting == "repeat_cycle_for_observation_events":
        ob = CircularOrbit(altitude=20180000, inclination=55.0, epoch=T0).to_tle()
        p = Point(id=1, latitude=10, longitude=20)
        a = ob.get_observation_events(p, dt(0), dt(2.6 * 86400), 30)
        b = CircularOrbit(altitude=20180000, inclination=55.0, epoch=T0).to_tle().get_observation_events(p, dt(0), dt(2.6 * 86400), 30, try_repeat=val)
        require(len(a[0]) == len(b[0]) and np.abs(a[0].tt - b[0].tt).max() * 86400 < 1e-3 and list(a[1]) == list(b[1]), "events differ from try_repeat=%s" % val, sig="governs", **what)
    else:
        kw = {"repeat_cycle_delta_position_m": "max_delta_position", "repeat_cycle_delta_velocity_m_per_s": "max_delta_velocity",
              "repeat_cycle_search_elevation_deg": "min_elevation_angle", "repeat_cycle_search_duration_days": "max_search_duration"}[setting]
        v = timedelta(days=val) if "days" in setting else val
        a, b = o.get_repeat_cycle(lazy_load=False), frozen().get_repeat_cycle(lazy_load=False, **{kw: v})
        require(a == b, "the repeat cycle is %s, with the argument %s=%s it is %s" % (a, kw, v, b), sig="governs", **what)
        ctx.trace((setting, val, str(a)))
        return
    ctx.trace((setting, val))


RUN = {
    "footprint_points_elliptical": [4, 5, 12, 40], "footprint_points_rectangular_side": [1, 2, 5, 11],
    "repeat_cycle_delta_position_m": [0.001, 30000.0, 5e6], "repeat_cycle_delta_velocity_m_per_s": [1e-6, 1.0, 500.0],
    "repeat_cycle_search_elevation_deg": [60.0, 89.99], "repeat_cycle_search_duration_days": [0.5, 2.0, 40.0],
    "repeat_cycle_lazy_load": [True, False], "repeat_cycle_for_orbit_track": [True, False],
    "repeat_cycle_for_observation_events": [True, False], "orbit_tle_lazy_load": [True, False],
}


def _runtime(c, ctx, d):
    for v in RUN[c["s"]]:
        for how in range(3):
            if how == 0:  # field of the active settings
                config.rc = RuntimeConfiguration()
                setattr(config.rc, c["s"], v)
            elif how == 1:  # new settings object
                config.rc = RuntimeConfiguration(**{c["s"]: v})
            else:  # from a file
                p = os.path.join(d, "c.yml")
                with open(p, "w") as f:
                    f.write("%s: %s\n" % (c["s"], json.dumps(v)))
                config.rc = load_yaml_config(p)
            ctx.state(("runtime", c["s"], v, how))
            governed(c["s"], v, ctx, {"how": how})
    config.rc = RuntimeConfiguration()
    governed(c["s"], SET[c["s"]][3], ctx, {"how": "restored"})


def _two(c, ctx, d):
    a, b = c["s"]
    for x, y in itertools.product(RUN[a][:2], RUN[b][:2]):
        config.rc = RuntimeConfiguration()
        setattr(config.rc, a, x)
        setattr(config.rc, b, y)
        ctx.state((a, x, b, y))
        governed(a, x, ctx, {"other": (b, y)})
        governed(b, y, ctx, {"other": (a, x)})

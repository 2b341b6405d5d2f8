"""C15: element-set text is validated strictly and read faithfully.

Reference model: a column table of the two-line format (one alphabet per
column), the modulo-10 checksum, and a decoder/encoder of each field written
from the format definition.  Values are also compared with the parser of the
reference propagator (sgp4).
"""
import itertools
from datetime import datetime, timedelta, timezone

import numpy as np
from pydantic import ValidationError
from sgp4.api import Satrec

from tatc.schemas import TwoLineElements, Satellite
from mc.core import Violation, require

D = set("0123456789")
DB = D | {" "}
AL = set("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
A5 = DB | (AL - set("IO"))


def _cols(spec):
    out = []
    for s in spec:
        if isinstance(s, tuple):
            out += [s[0]] * s[1]
        else:
            out.append(s)
    assert len(out) == 69, len(out)
    return out


B, DOT, SG, PM = {" "}, {"."}, set(" +-"), set("+-")
L1 = _cols([{"1"}, B, A5, (DB, 4), AL, B, (DB, 5), (AL | B, 3), B, (DB, 5), DOT, (DB, 8), B,
            (None, 10), B, SG, (DB, 5), PM, DB, B, SG, (DB, 5), PM, DB, B, DB, B, (DB, 4), D])
L2 = _cols([{"2"}, B, A5, (DB, 4), B, (DB, 3), DOT, (DB, 4), B, (DB, 3), DOT, (DB, 4), B, (DB, 7), B,
            (DB, 3), DOT, (DB, 4), B, (DB, 3), DOT, (DB, 4), B, (DB, 2), DOT, (DB, 13), D])
NDOT = [[set(" 0+-"), DOT] + [DB] * 8, [B, SG, DOT] + [DB] * 7]


def ck(line):
    return str(sum(int(c) if c in D else (c == "-") for c in line[:68]) % 10)


def fix(line):
    return line[:68] + ck(line) if len(line) >= 68 else line


def line_ok(line, table):
    if len(line) != 69:
        return False
    for c, a in zip(line, table):
        if a is not None and c not in a:
            return False
    if table is L1 and not any(all(c in a for c, a in zip(line[33:43], t)) for t in NDOT):
        return False
    return line[68] == ck(line)


def epoch_of(l1):
    """datetime of the epoch field, None when the day does not exist, 'x' if not filled in."""
    s = l1[18:32]
    if not s[:2].isdigit():
        return "x"  # a blank in the two-digit year
    try:
        yy, day = int(s[:2]), float(s[2:])
    except ValueError:
        return "x"
    if " " in s[2:].strip():
        return "x"
    year = 1900 + yy if yy >= 57 else 2000 + yy
    if not 1 <= day < 366 + (year % 4 == 0):
        return None
    return datetime(year, 1, 1, tzinfo=timezone.utc) + timedelta(days=day - 1)


def reference(tle):
    """True accept / False reject / None undecided (blank or non-existent epoch)."""
    if not isinstance(tle, (list, tuple)) or len(tle) < 2 or not all(isinstance(x, str) for x in tle):
        return False
    if len(tle) % 2:
        return False
    for i in range(0, len(tle), 2):
        if not line_ok(tle[i], L1) or not line_ok(tle[i + 1], L2):
            return False
    ep = [epoch_of(tle[i]) for i in range(0, len(tle), 2)]
    if any(e is None or e == "x" for e in ep):
        return None
    return all(a <= b for a, b in zip(ep, ep[1:]))


def uint(s):
    """Right-justified unsigned integer; None if blank or not filled in that way."""
    t = s.lstrip(" ")
    return int(t) if t and all(c in D for c in t) else None


def udec(s):
    t = s.lstrip(" ")
    return float(t) if t and " " not in t and t[0] != "." and t.replace(".", "", 1).isdigit() else None


def expo(s):
    if s[6] == " " or s[7] == " " or " " in s[1:6]:
        return None
    v = int(s[1:6]) * 1e-5 * 10.0 ** int(s[6:8])
    return -v if s[0] == "-" else v


def ndot(s):
    t = s.replace(" ", "")
    if " " in s.strip() or not t[-1].isdigit():
        return None
    return float(t)


def satnum(s):
    if s[0] in AL:
        if not s[1:].isdigit():
            return None
        return ("ABCDEFGHJKLMNPQRSTUVWXYZ".index(s[0]) + 10) * 10000 + int(s[1:])
    return uint(s)


def decode(l1, l2):
    yy = l1[9:11]
    des = None
    if yy.isdigit() and l1[11:14].isdigit() and l1[14] != " ":
        des = ("20" if int(yy) < 57 else "19") + yy + "-" + l1[11:14] + l1[14:17].rstrip()
    ecc = l2[26:33]
    e = epoch_of(l1)
    return {
        "get_catalog_number": satnum(l1[2:7]), "get_classification": l1[7],
        "get_international_designator": des,
        "get_epoch": e if isinstance(e, datetime) else None,
        "get_first_derivative_mean_motion": ndot(l1[33:43]),
        "get_second_derivative_mean_motion": expo(l1[44:52]), "get_b_star": expo(l1[53:61]),
        "get_ephemeris_type": uint(l1[62]), "get_element_set_number": uint(l1[64:68]),
        "get_inclination": udec(l2[8:16]), "get_right_ascension_ascending_node": udec(l2[17:25]),
        "get_eccentricity": int(ecc) * 1e-7 if ecc.isdigit() else None,
        "get_perigee_argument": udec(l2[34:42]), "get_mean_anomaly": udec(l2[43:51]),
        "get_mean_motion": udec(l2[52:63]), "get_revolution_number_at_epoch": uint(l2[63:68]),
    }


def same(a, b):
    if isinstance(b, datetime):
        return isinstance(a, datetime) and a.tzinfo is not None and abs((a - b).total_seconds()) < 1e-4
    if isinstance(b, str):
        return a == b
    if isinstance(b, int):
        return a == b and not isinstance(a, (str, float))
    return isinstance(a, float) and abs(a - b) <= 1e-12 + 1e-9 * abs(b)


def accessors(o, tle, ctx, what, sgp=True, only=None):
    n = len(tle) // 2
    require(o.get_tle_count() == n, "number of element sets", **what)
    for i in range(n):
        ref = decode(tle[2 * i], tle[2 * i + 1])
        for name, want in ref.items():
            if want is None or (only and name not in only):
                ctx.skip()
                continue
            m = getattr(o, name)
            got = m(i)
            require(same(got, want), "%s(%d) returned %r, columns say %r" % (name, i, got, want), sig="accessor " + name, tle=tle[2 * i:2 * i + 2])
            if i == 0:
                require(same(m(), want), "%s() returned %r, columns say %r" % (name, m(), want), sig="accessor " + name)
            ctx.step()
        if sgp and all(ref[k] is not None for k in ("get_epoch", "get_mean_motion", "get_eccentricity", "get_b_star", "get_inclination")):
            r = Satrec.twoline2rv(tle[2 * i], tle[2 * i + 1])
            d = np.degrees
            for name, v in (("get_inclination", d(r.inclo)), ("get_right_ascension_ascending_node", d(r.nodeo)),
                            ("get_eccentricity", r.ecco), ("get_perigee_argument", d(r.argpo)), ("get_mean_anomaly", d(r.mo)),
                            ("get_mean_motion", r.no_kozai * 1440 / (2 * np.pi)), ("get_b_star", r.bstar),
                            ("get_second_derivative_mean_motion", r.nddot * 1440.0 ** 3 / (2 * np.pi)),
                            ("get_first_derivative_mean_motion", r.ndot * 1440.0 ** 2 / (2 * np.pi)),
                            ("get_catalog_number", r.satnum), ("get_element_set_number", r.elnum), ("get_revolution_number_at_epoch", r.revnum)):
                if ref[name] is None:
                    continue
                got = getattr(o, name)(i)
                require(abs(got - v) <= 1e-9 + 1e-7 * abs(v), "%s(%d) returned %r, the propagator reads %r" % (name, i, got, float(v)), sig="propagator " + name, tle=tle[2 * i:2 * i + 2])
                ctx.step()
            if ref["get_mean_motion"]:
                mm = o.get_mean_motion(i)
                a = (3.986004418e14 / (mm * 2 * np.pi / 86400) ** 2) ** (1 / 3)
                require(abs(o.get_semimajor_axis(i) - a) < 1e-3 and abs(o.get_altitude(i) - (a - (2 * 6378137.0 + 6356752.314245179) / 3)) < 1e-3,
                        "semimajor axis or altitude", tle=tle[2 * i:2 * i + 2])
                require(abs(o.get_orbit_period(i).total_seconds() - 86400 / mm) < 1e-5, "orbit period", tle=tle[2 * i:2 * i + 2])


BASE = {
    "iss": ["1 25544U 98067A   21156.30527927  .00003432  00000-0  70541-4 0  9993",
            "2 25544  51.6455  41.4969 0003508  68.0432  78.3395 15.48957534286754"],
    "neg": ["1 08195C 57081ABC 99365.99999999 -.00000123 -12345-6 -98765+1 2   170",
            "2 08195 163.4001   5.0001 7000000 270.0000   0.0100  2.00602384    17"],
    "alpha": ["1 Z9999S 24001B   56001.00000000 +.12345678 +00001+0 +11606-9 0 10000",
              "2 Z9999 100.0000 359.9999 0000001   0.0000 359.9999 16.00000000999990"],
}
BASE = {k: [fix(v[0]), fix(v[1])] for k, v in BASE.items()}
for _v in BASE.values():
    assert reference(_v) is True, _v
CHARS = [chr(o) for o in range(32, 127)] + ["\n", "\t", "\u0663", "\u00e9", "\uff11"]

BOUNDS = {
    "quick": "3 base element sets: every column of both lines x 100 characters x checksum repaired or not; every line of a three-set list (18 probe characters); every truncation and extension by up to two characters; every list of up to 5 lines out of 5 (3 905 lists); all 1-3 tuples of 7 epochs; 16 fields x value lattices, single and pairwise",
    "thorough": "the same plus every character pair at every two adjacent columns (probe alphabet), all 1-4 tuples of 9 epochs, full pairwise field lattice",
}
CHUNK = 1
PROBE = list("0159 .+-AIOZa\n") + ["\u0663", "/", ":", "U"]


def cases(tier):
    q = tier == "quick"
    for b in BASE:
        for ln in (0, 1):
            for c0 in range(0, 69, 5):
                yield {"k": "sub", "b": b, "ln": ln, "cols": list(range(c0, min(69, c0 + 5)))}
    for ln in range(6):
        for c0 in range(0, 69, 10):
            yield {"k": "sub2", "ln": ln, "cols": list(range(c0, min(69, c0 + 10)))}
    yield {"k": "len"}
    for f in range(5):
        yield {"k": "lists", "first": f}
    for j in range(7 if q else 9):
        yield {"k": "order", "first": j, "n": 7 if q else 9, "d": 3 if q else 4}
    for j in range(len(FIELDS)):
        yield {"k": "field", "f": j, "pair": not q}
    if not q:
        for b in BASE:
            for ln in (0, 1):
                for c in range(68):
                    yield {"k": "adj", "b": b, "ln": ln, "c": c}


def construct(tle):
    try:
        return TwoLineElements(tle=tle), None
    except ValidationError as e:
        return None, e


def judge(tle, ctx, what, sgp=False, only=None, named=None):
    want = reference(tle)
    ctx.state(tuple(tle) if isinstance(tle, list) else repr(tle))
    keep = list(tle) if isinstance(tle, list) else tle
    try:
        o, err = construct(tle)
    except Exception as e:
        raise Violation("constructing from %r failed with %s: %s instead of a validation error" % (tle, type(e).__name__, e), sig="leak " + type(e).__name__)
    ctx.step()
    if want is None:
        ctx.skip()
    elif want:
        require(o is not None, "a well-formed element set was rejected: %r: %s" % (tle, err), sig="rejected valid")
    else:
        require(o is None, "a malformed element set was accepted: %r" % (tle,), sig="accepted malformed")
        if named:
            require(named in str(err), "the validation error does not name the problem (%s): %s" % (named, err), sig="error text", tle=tle)
    if o is not None:
        require(list(o.tle) == keep, "the element set text was altered", sig="altered", tle=tle)
        if want:
            accessors(o, tle, ctx, what, sgp=sgp, only=only)
    ctx.trace((want, o is not None))
    return o


def check(c, ctx):
    k = c["k"]
    if k == "sub":
        for col in c["cols"]:
            for ch in CHARS:
                t = list(BASE[c["b"]])
                t[c["ln"]] = t[c["ln"]][:col] + ch + t[c["ln"]][col + 1:]
                judge(t, ctx, {})
                if col < 68:
                    u = list(t)
                    u[c["ln"]] = fix(u[c["ln"]])
                    judge(u, ctx, {})
    elif k == "sub2":
        base = list(BASE["neg"]) + list(BASE["iss"]) + list(BASE["alpha"])
        for col in c["cols"]:
            for ch in PROBE:
                t = list(base)
                t[c["ln"]] = t[c["ln"]][:col] + ch + t[c["ln"]][col + 1:]
                judge(t, ctx, {})
                t[c["ln"]] = fix(t[c["ln"]])
                judge(t, ctx, {})
    elif k == "adj":
        for x, y in itertools.product(PROBE, PROBE):
            t = list(BASE[c["b"]])
            s = t[c["ln"]]
            t[c["ln"]] = fix(s[:c["c"]] + x + y + s[c["c"] + 2:])
            judge(t, ctx, {})
    elif k == "len":
        for b in BASE.values():
            for ln in (0, 1):
                for n in range(0, 69):
                    t = list(b)
                    t[ln] = t[ln][:n]
                    judge(t, ctx, {}, named="line %d" % (ln + 1))
                    t = list(b)
                    t[ln] = t[ln][n + 1:]
                    judge(t, ctx, {})
                    t = list(b)
                    t[ln] = t[ln][:n] + t[ln][n + 1:]
                    judge(t, ctx, {})
                    t = list(b)
                    t[ln] = t[ln][:n] + " " + t[ln][n:]
                    judge(t, ctx, {})
                for ext in (" ", "\n", "0", "  ", "3\n", " x"):
                    t = list(b)
                    t[ln] = t[ln] + ext
                    judge(t, ctx, {})
                    t = list(b)
                    t[ln] = ext + t[ln]
                    judge(t, ctx, {})
        # wrong checksum on each line, named with its own number
        two = list(BASE["neg"]) + list(BASE["iss"]) + list(BASE["alpha"])
        for ln in range(6):
            for dgt in "0123456789":
                t = list(two)
                t[ln] = t[ln][:68] + dgt
                judge(t, ctx, {}, named="line %d" % (ln + 1))
        for bad in ([], [""], ["", ""], None, 5, "", BASE["iss"][0], {"a": 1}, [None, None], [1, 2], [BASE["iss"], BASE["iss"]],
                    [BASE["iss"][0], None], [BASE["iss"][0].encode(), 3], "\n".join(BASE["iss"])):
            judge(bad, ctx, {})
    elif k == "lists":
        pool = [BASE["neg"][0], BASE["neg"][1], BASE["iss"][0], BASE["iss"][1], BASE["alpha"][0]]
        for n in range(0, 5):
            for rest in itertools.product(range(5), repeat=n):
                judge([pool[i] for i in (c["first"],) + rest], ctx, {})
        for n in range(0, 4):
            for rest in itertools.product(range(4), repeat=n):
                t = [pool[i % 4] for i in (c["first"],) + rest]
                try:
                    Satellite(name="x", orbit={"type": "tle", "tle": t})
                    got = True
                except ValidationError:
                    got = False
                w = reference(t)
                require(w is None or got == w, "satellite with this orbit accepted=%r expected %r" % (got, w), sig="satellite", tle=t)
                ctx.step()
    elif k == "order":
        eps = ["57001.00000000", "99365.99999999", "00001.00000000", "20366.50000000", "21001.00000000",
               "21001.00000001", "56366.00000000", "69180.25000000", "04060.12345678"][:c["n"]]
        for d in range(1, c["d"] + 1):
            for rest in itertools.product(range(c["n"]), repeat=d - 1):
                t = []
                for i in (c["first"],) + rest:
                    t += [fix(BASE["iss"][0][:18] + eps[i] + BASE["iss"][0][32:]), BASE["iss"][1]]
                judge(t, ctx, {}, only=("get_epoch",))
    else:
        name, ln, c0, c1, vals = FIELDS[c["f"]]
        for b in BASE:
            for v in vals:
                t = list(BASE[b])
                t[ln] = fix(t[ln][:c0] + v + t[ln][c1:])
                if name == "satnum":
                    t[1] = fix(t[1][:c0] + v + t[1][c1:])
                assert len(t[ln]) == 69, (name, v)
                judge(t, ctx, {}, sgp=True)
                for j in range(c["f"] + 1, len(FIELDS)):
                    n2, l2, d0, d1, v2 = FIELDS[j]
                    for w in (v2 if c["pair"] else v2[-2:]):
                        u = list(t)
                        u[l2] = fix(u[l2][:d0] + w + u[l2][d1:])
                        judge(u, ctx, {}, sgp=c["pair"])


EXP = [s + d + e for s in " +-" for d in ("00000", "00001", "12345", "99999") for e in ("-0", "+0", "-9", "+3", "-4")]
DEG = ["  0.0000", " 51.6455", "359.9999", "000.0001", "  5.0000", "090.0000", "180.0000"]
FIELDS = [
    ("satnum", 0, 2, 7, ["00001", "99999", "    5", " 1234", "A0000", "H9999", "J0000", "N9999", "P0000", "Z9999", "B1234", "T0042"]),
    ("class", 0, 7, 8, ["U", "C", "S", "T"]),
    ("intl", 0, 9, 17, ["57001A  ", "56999ZZZ", "00001A  ", "99123AB ", "20456B  "]),
    ("epoch", 0, 18, 32, ["57001.00000000", "56366.99999999", "00001.00000000", "99365.12345678", "20060.50000000", "04366.00000001", "21  1.50000000"]),
    ("ndot", 0, 33, 43, [" .00003432", "-.00003432", "+.00000000", " .99999999", "-.99999999", "0.00000001", "  .1234567", " -.1234567", " +.1234567"]),
    ("nddot", 0, 44, 52, EXP),
    ("bstar", 0, 53, 61, EXP),
    ("ephtype", 0, 62, 63, list("0249")),
    ("elnum", 0, 64, 68, ["   1", " 999", "0000", "9999", "  42"]),
    ("inc", 1, 8, 16, DEG[:-1] + ["180.0000", "098.7192"]),
    ("raan", 1, 17, 25, DEG),
    ("ecc", 1, 26, 33, ["0000000", "0000001", "0003508", "7000000", "9999999"]),
    ("argp", 1, 34, 42, DEG),
    ("ma", 1, 43, 51, DEG),
    ("mm", 1, 52, 63, [" 1.00273791", "15.48957534", "00.99999999", " 2.00602384", "16.99999999"]),
    ("rev", 1, 63, 68, ["    0", "00001", "99999", "  123"]),
]

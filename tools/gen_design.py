"""Writes DESIGN.md from the texts below, the bounds in mc/props, known_findings.json and seeded/."""
import ast
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]

HEAD = '''# Model checking tatc

tatc is a numerical library: no server, no protocol, no own threads or journal. What its users rely on are
guarantees over *inputs and histories*: which intervals are reported for any period boundary, which satellites are
counted at any time, what a memoizing object answers after any sequence of calls, what a configuration file cut at any
byte does. Those are decided here by **bounded exhaustive exploration of the real code**: for each property a finite,
stated space of behaviours (inputs on lattices that visit every phase of the reference model; all operation sequences
up to a depth; all ordered call pairs; all thread schedules up to a preemption bound; all crash points of a file) is
enumerated completely, every element is *executed on the code in /repo/src*, and the observable result is compared with
an independent **reference model** (written from the documentation and from geometry, not from the implementation).
The model *is* bound to the code by construction: there is no trace of a model that is not replayed on the
implementation, the evidence counts them (`traces_validated_against_impl`).

No step samples, no seed changes the verdict, no solver decides anything.

## Machinery

* `check.sh Cxx` -> `mc/run.py`: enumerates `cases(tier)` of `mc/props/cxx.py`, distributes them over 8 forked workers,
  runs `check(case, ctx)` on each, counts distinct model states, transitions (checked calls into the code), complete
  traces, distinct outcomes and don't-care comparisons, writes `evidence/Cxx.json`, and on a violation a replay file
  (`--replay FILE` re-executes exactly that case; `--keep-going` lists all violation classes).
* `mc/env.py` imports tatc from `/repo/src` (never an installed copy), pins thread counts and replaces the planetary
  ephemeris by a deterministic analytic Sun, because `de421.bsp` is not part of this copy of the repository and
  cannot be downloaded. The 19 repository tests that need it fail here for that reason alone; with the stand-in the
  solar code paths *are* explored. The reference models use the same Sun direction but their own lighting geometry.
* `mc/windows.py`: reference model for visibility intervals (dense scan of the elevation function plus bisection;
  passes whose peak is within 0.05 degrees of the threshold are reported as don't-care).
* `mc/iso.py`: runs a function in a forked process, i.e. with module state exactly as after import. Used wherever
  history matters (C11, C12, C23).
* `mc/sched.py`: the controlled scheduler of C12 (`sys.monitoring` line or instruction events on every code object of the
  library; exactly one thread runs; locks created by the library are seen by the scheduler (`mc/locks.py`) and any other
  blocking is detected by lack of progress, so a lock added to the library is not mistaken for a deadlock).
* `mc/canon.py`: canonical, comparable form of results.
* Any exception other than the documented ones, a hang (150 s per case) or a dying worker on a legal input is a violation.

Everything a check judges is observable behaviour (returned frames, geometries, element sets, raised error classes),
with tolerances far above rounding and far below any effect of a wrong formula, so that refactorings stay quiet.
This was tried with 17 behaviour-preserving rewrites (a lock around the memoized values, cached Skyfield satellites,
tracks propagated per element set, loops instead of comprehensions or data-frame operations and the reverse, extracted
helpers in the coverage, latency, occultation, dilution, gridding and point-generation code): all checks named for the code
stayed quiet, after C12 was taught about locks.

Trusted: numpy, pandas, geopandas, shapely, pyproj, skyfield (position of a satellite for an element set; *not* its
event search, which the windows model replaces), sgp4, SPICE. Hooks in /repo: none.

Checks need nothing but `/opt/venv` and this directory; there is no build product (Python is imported from the working
tree; numba compiles in memory).
'''

T = {}
T["C01"] = '''**How.** For each (orbit, place, field of regard) group the reference finds the visibility intervals of three (four)
consecutive passes; every *ordered pair* of period boundaries over the phases before rise / rising / setting / after set
/ between passes is then a case: this is the full set of distinguishable histories "start in phase i, end in phase j".
Each is executed with all combinations of minimum access time, fixed access time and lighting requirement (rotating in
the quick tier). **Oracle:** interval list, clipping, drop rule, epoch = middle, alt/az at the epoch, lighting at the epoch.
**Beyond the tests:** they sample one satellite and one period; boundary phase combinations are where the state machine
over rise/culminate/set events breaks.'''
T["C02"] = '''**How.** Orbits x phases x pointings x fields of view x shapes; for each, points are *placed* in the tangent plane of the view
(15 offsets inside, near the edge, outside, mirrored about the track), so that every side of the outline is visited, polar
and antimeridian footprints included; the observation window is centred on the epoch. **Oracle:** tangent-plane
membership; between the inscribed and circumscribed outline the reference footprint polygon decides. Nested fields of
view are compared for monotonicity.'''
T["C03"] = '''**How.** All lists of up to two, and all ordered triples, from a menu of eight systems. **Oracle:** multiset union of single calls.'''
T["C04"] = '''**How.** All sequences of up to three closed intervals on an instant lattice over two points, all multisets of four and five
(every Allen relation of every pair, nested, touching, equal, instantaneous), in several row orders and index labellings.
**Oracle:** textbook interval union per point, exact.'''
T["C05"] = '''**How.** All record lists up to length three with undefined values; all tables of up to three points x cell membership x
samples x values x index labels. **Oracle:** exact rational means.'''
T["C06"] = '''**How.** Part A: all multisets of up to three downlinks of two satellites on a time lattice against all observation intervals
on the same lattice (every order relation, equality included). Part B: station passes by the C01 method with
all boundary pairs. **Oracle:** definition of "first downlink starting at or after the end".'''
T["C07"] = '''**How.** Sample distances (dividing the circle or not) x about 90 masks in every position relative to the lattice x all
generators. **Oracle:** the global lattice from its definition plus point-in-polygon. One statement had to be weakened:
for masks running past 180 degrees with a spacing that does not divide the circle the lattice past 180 is not a
continuation of the one before it, and the code's choice is as good as any (false alarm, corrected in the property).'''
T["C08"] = '''**How.** Rectangles, triangles, L-shapes, rings around each pole: offset x width x latitude band x longitude convention x
orientation x starting vertex, with holes. **Oracle:** the ring unwrapped to continuous longitudes, cut at every seam and
folded back by isometries; equality by area of the symmetric difference. False alarm corrected: longitudes in 0..360 (edges
of exactly 180 degrees are ambiguous) are not part of the property.'''
T["C09"] = '''**How.** All Walker parameters up to 9 (24) satellites, train and mutual-orbit parameter lattices, street-of-coverage lattices, on
seven kinds of lead orbit. **Oracle:** closed forms from the definitions; two-body relative motion for mutual orbits.'''
T["C10"] = '''**How.** Lattices over all elements of all five orbit types incl. boundary angles and epochs; offsets of several turns in both
directions. **Oracle:** Kepler's equation by bisection, the element-set columns decoded independently, vectors at the epoch.'''
T["C11"] = '''**How.** Explicit-state exploration of operation histories: 13 kinds of objects, alphabet of queries (lazy, not lazy,
with other tolerances), field assignment, model_copy with changed fields, deep copies, work on side copies, spoiling of
generated members, configuration switches. Model state = (field variant, configuration, "cycle computed with other
tolerances"); all sequences up to length 2 (3) are executed, each in a fresh process, then every query is asked.
**Oracle:** the answer of a newly built object with the model's field values in a process without history.
The documented exception (reuse of a computed repeat cycle) is a second allowed answer, only in histories that contain it.'''
T["C12"] = '''**How.** Stateless model checking: two real threads under the controlled scheduler, 60 call pairs on shared objects, all schedules
up to the preemption bound, each in a fresh process (nothing memoized). **Oracle:** result when run alone, arguments unchanged,
and the same answers afterwards. **Beyond the tests:** they are single-threaded.'''
T["C13"] = '''**How.** All chronological tuples of one to four epochs from a lattice x all query times at epochs, midpoints and their
neighbours x all period boundaries. **Oracle:** argmin of the distance in time; positions from sgp4 with that set.'''
T["C14"] = '''**How.** A dense scan of the search span gives all returns of the Earth-fixed state; orbits x tolerance settings; all phases x
cycle offsets (both signs, scalar and list); all (start phase, period length) pairs for events. Tolerance bands of 10 %.'''
T["C15"] = '''**How.** Every position of both lines x every character of the alphabet (checksum repaired and not), deletions, insertions, line
orders, plus value lattices for each field. **Oracle:** a column grammar with an alphabet per column, an independent decoder,
and sgp4's own parser. Exhaustive over single-character faults.'''
T["C16"] = '''**How.** Orbits x time lists (empty, single, unsorted with duplicates, other zones) x masks in four forms x coordinates x
outputs x lighting columns. **Oracle:** instant-by-instant propagation and explicit vectors. False alarm corrected: orbits with a short
repeat cycle are compared with repeat propagation switched off (C14 decides that part).'''
T["C17"] = '''**How.** Orbits x instruments x time lists x plane map/UTM/SPICE x masks x forms; aggregates per orbit and overall, both
methods. **Oracle:** each instant's footprint alone, intersected by plain geometry on the globe. False alarms corrected: the line
method's promise is per orbit and over consecutive *valid* samples; UTM is excluded for views wider than a zone can map;
line method with UTM is not covered.'''
T["C18"] = '''**How.** Orbits x phases x roll x pitch x fields of view x shapes x elevations; a ray lattice; pixel arrays; plain instruments.
**Oracle:** ray/ellipsoid intersection in plain vector algebra, limb point for misses. False alarm corrected: polygons are
compared as regions, not by geometry type.'''
T["C19"] = '''**How.** Altitude x elevation x central angle lattices to the horizon. **Oracle:** dot products of explicit planar vectors, never
the closed forms; inverses and monotonicity over the whole lattice.'''
T["C20"] = '''**How.** Every subset (>= 3) of seven satellites x points x masks x methods x minimum counts. **Oracle:** explicit normal matrix.'''
T["C21"] = '''**How.** Receivers x transmitter lists x time grids (dense, sparse, unsorted, gaps) x yaw and elevation limits. **Oracle:** tangent
points by vectors, maximal runs of the boolean sequence.'''
T["C22"] = '''**How.** Crash points: the shipped file cut at *every byte*, every prefix with torn tail, every byte overwritten; every setting x value
lattice; import of the library in a scratch copy with each damaged default file. **Oracle:** table of types, bounds and defaults;
ConfigError or equality, never anything else. Run-time switches are observed through the computation they govern.'''
T["C23"] = '''**How.** All ordered pairs (f, g) of 56 calls: fork, f, spoil f's result in place, fork per g, g, then f again; arguments
fingerprinted after each. All timed calls in four other zones; all single/list and mask forms. **Oracle:** process without history.'''
T["C24"] = '''**How.** Menu of field variants of every model nested at every level x JSON/dict x validation route; every bounded field x values
below, at, above the bound; default sharing between instances. **Oracle:** recursive snapshot of class and fields, and behaviour
(element sets, members). Assumes field values of the declared types.'''

T["C25"] = '''**How.** Target geometries x orbit, field, step and scaling settings x a lattice of places on the globe plus rings of places around
the outline, all their images (whole turns, over a pole). **Oracle:** projected distance to the target against the reach from plane vector
geometry. Limits: distances along a parallel are those of the projection, as documented; slanted edges have a tolerance of 1.5 km.'''

def bounds(i):
    src = open(os.path.join(R, "mc", "props", i.lower() + ".py")).read()
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "BOUNDS":
            return ast.literal_eval(n.value)
    return {"quick": "", "thorough": ""}


out = [HEAD, "\n## Properties\n"]
COST = json.load(open(os.path.join(R, "tools", "cost.json")))
for p in PROPS:
    i = p["id"]
    b = bounds(i)
    out.append("### %s %s\n\n%s\n\n**Bounds.** quick: %s. thorough: %s. **Cost.** quick about %s, thorough about %s (8 cores).\n"
               % (i, p["title"], T[i], b["quick"], b["thorough"], COST.get(i, ["?", "?"])[0], COST.get(i, ["?", "?"])[1]))
out.append("\nEvery property is decided by model checking; `not_applicable` is empty.\n")
k = json.load(open(os.path.join(R, "known_findings.json")))
out.append("\n## Genuine defects\n\nRepaired (`fix:` commits in /repo; the checks report them again if they return):\n")
for e in k["fixed"]:
    out.append("* " + (e if isinstance(e, str) else e.get("entry", json.dumps(e))))
out.append("\nRecorded, not repaired (the repair would replace the event search of the third-party library):\n")
for e in k["known"]:
    out.append("* %s `%s`: %s" % (e["property"], e["signature"], e["what"]))
out.append('''
The two entries are one cause: `EarthSatellite.find_events` of skyfield looks for culminations on a grid of half the shortest
period between maxima and can lose a set/rise pair on highly eccentric orbits. The signature is attached only to a lost
crossing of such an orbit (another missing, extra or merged window is still a violation).
''')
out.append("\n## Planted bugs\n\n| id | property | needs | caught by |\n|---|---|---|---|")
sd = os.path.join(R, "seeded")
for n in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, n, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
tail = os.path.join(R, "tools", "design_tail.md")
if os.path.exists(tail):
    out.append("\n" + open(tail).read())
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out) + "\n")

"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
A = "src/tatc/analysis/"; S = "src/tatc/schemas/"; G = "src/tatc/generation/"; U = "src/tatc/utils.py"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                    "observe_at": observe or [], "hook_needed": None}})


p("C01", "Observation windows are exactly the visibility intervals",
  "For one satellite instrument, one ground point and one analysis period, the collected observations are exactly the maximal intervals inside the period during which the satellite's elevation seen from the point exceeds the minimum elevation implied by the field of regard at the satellite's altitude at the period start: none missed, none invented, none merged, clipped to the period when the pass is already or still in progress, also when the whole period lies inside one pass. "
  "Passes shorter than the instrument's minimum access time are dropped; each row is stamped with point, satellite and instrument, its epoch is the middle of the pass, the reported satellite altitude and azimuth angles are those at that epoch, and with fixed access time the row spans exactly the minimum access time centred on the epoch. "
  "A fixed lighting requirement of the instrument (satellite or target sunlit or dark) keeps a pass if and only if it holds at the epoch.",
  ["inputs", "histories"],
  "every orbit (LEO, eccentric, HEO, geostationary), point, field of regard, instrument setting and every placement of the period's two boundaries relative to the pass history",
  "Tests use one orbit, one point and a handful of periods; the result depends on where both boundaries fall among all rise/culmination/set events, a history-dependent pairing problem that sampled periods do not cover.",
  [A + "coverage.py", S + "orbit.py", U],
  [("rise/set pairing into intervals", A + "coverage.py:_get_visible_interval_series"),
   ("filtering and record building", A + "coverage.py:collect_observations"),
   ("event search", S + "orbit.py:TwoLineElements.get_observation_events"),
   ("minimum elevation angle", U + ":compute_min_elevation_angle"),
   ("lighting requirement", S + "instrument.py:Instrument.is_valid_observation")],
  ["tatc.analysis.collect_observations"])

p("C02", "Pointed instruments only record what their footprint covers",
  "For an instrument with a pointing direction and its own cross-track and along-track fields of view, a pass over a point is recorded if and only if the point lies inside the instrument's projected footprint at the middle of the pass, for every combination of roll, pitch, field-of-view shape and size and point elevation, including footprints that cross the antimeridian or surround a pole. "
  "Widening both fields of view of an instrument never loses an observation, and a nadir-pointing instrument is the special case of zero roll and pitch.",
  ["inputs"],
  "all passes of a set of orbits over points placed around the ground track x roll/pitch/field-of-view lattice x elliptical/rectangular",
  "Tests check a single pointing configuration over one point; sign errors in roll/pitch or axis swaps only show for points on one side of the track, ascending versus descending or retrograde passes.",
  [A + "coverage.py", S + "instrument.py", U],
  [("footprint containment test at mid pass", A + "coverage.py:collect_observations"),
   ("footprint projection", U + ":compute_footprint")],
  ["tatc.analysis.collect_observations"])

p("C03", "Constellation observations are the time-ordered union over members",
  "Collecting observations of a point by one or several space systems returns exactly the multiset union of the observations that each instrument of each member satellite collects on its own, ordered by start time with a fresh consecutive index. "
  "A single system and a list containing only that system are equivalent, the order in which systems are listed does not matter, and a constellation is equivalent to the list of its members.",
  ["inputs", "configurations"],
  "every list of up to three systems drawn from single satellites, trains, Walker, mutual-orbit and streets-of-coverage constellations with one or two instruments (plain, pointed), in every order, with and without visible passes",
  "Tests use two satellites with one instrument each; duplicated or skipped (member, instrument) combinations and ordering only show on mixed lists.",
  [A + "coverage.py", S + "satellite.py"],
  [("nested loop over members and instruments", A + "coverage.py:collect_multi_observations"),
   ("member generation", S + "satellite.py:generate_members")],
  ["tatc.analysis.collect_multi_observations"])

p("C04", "Aggregated observations are the interval union per point",
  "Aggregating observations yields, for each point separately, one row for every maximal group of overlapping or touching observation intervals, in time order, spanning from the earliest start to the latest end of the group, listing every contributing satellite and instrument, with the mean epoch of the group and the point's geometry. "
  "Access is the duration of the row and revisit the gap since the previous row of the same point (undefined for the first); the result does not depend on the order or index of the input rows, and the input is left unchanged.",
  ["inputs", "histories"],
  "every set of up to four observation intervals on a time lattice (nested, touching, duplicated, zero-length), split over up to three points, in every input order",
  "Tests contain two or three well separated rows; nested intervals, touching ends, ties, unsorted input and interleaved points need exhaustive enumeration of interval arrangements.",
  [A + "coverage.py"],
  [("cumulative-maximum grouping and dissolve", A + "coverage.py:aggregate_observations")],
  ["tatc.analysis.aggregate_observations"])

p("C05", "Reduced and gridded statistics are exact sample-weighted means",
  "Reducing aggregated observations (or latencies) gives one row per point with the number of records and the arithmetic mean of access, revisit (or latency) over the records where they are defined, undefined when there is none. "
  "Gridding reduced results gives one row per cell that contains points, holding the sum of their samples and the sample-weighted mean of their statistics, whatever the row order or index labels of the frames; empty results mark every cell with zero samples. "
  "No statistic ever mixes values of points outside the cell, no point is counted in two cells that share only an edge, and the inputs are left unchanged.",
  ["inputs", "configurations"],
  "every small table of records (values from a lattice including undefined ones), every assignment of up to three points to cells (none, one, several), sample counts and index labelling",
  "Tests grid one point in one cell, where weights cannot matter; the property quantifies over all tables, memberships and index labels.",
  [A + "coverage.py", A + "latency.py"],
  [("dissolve by point", A + "coverage.py:reduce_observations, latency.py:reduce_latencies"),
   ("spatial join and weighted average", A + "coverage.py:grid_observations, latency.py:grid_latencies")],
  ["tatc.analysis.reduce_observations", "tatc.analysis.grid_observations", "tatc.analysis.reduce_latencies", "tatc.analysis.grid_latencies"])

p("C06", "Downlinks are station passes and latency uses the first one afterwards",
  "The downlink opportunities collected for one or several ground stations are exactly the intervals within the period in which the satellite is above each station's minimum elevation angle and which last at least that station's minimum access time, labelled with the station and ordered by start. "
  "The latency of an observation is the time from its epoch to the epoch of the earliest downlink of the same satellite that starts at or after the observation ends; every observation appears exactly once, in order of observation time, and has no station, downlink time or latency if no such downlink exists (without any observation or any downlink at all the result is empty). "
  "Other satellites' downlinks never count.",
  ["inputs", "histories"],
  "every arrangement of up to two observations and three downlinks of two satellites on a time lattice (ties, overlaps, before/after, none), and every period boundary placement for up to three stations",
  "Tests have one satellite and one matching downlink; the selection is an ordering property over all arrangements.",
  [A + "latency.py", A + "coverage.py"],
  [("station passes", A + "latency.py:collect_downlinks"),
   ("forward as-of merge by satellite", A + "latency.py:compute_latencies")],
  ["tatc.analysis.collect_downlinks", "tatc.analysis.compute_latencies"])

p("C07", "Sample grids are complete, uniquely identified and mask-consistent",
  "Generated sample points and cells cover the region evenly with unique identifiers, and generating with a mask returns the same points, with the same identifiers and coordinates, as generating globally and keeping those inside the mask (also for masks that run past 180 degrees longitude, for equally spaced points when the spacing divides the circle). "
  "Unmasked cells form a grid of the nearest whole number of rows and columns without gaps or overlaps and each equally spaced point is the centre of the cell bearing its identifier; strips collapse the other axis to the full extent of the region; masked cells are the cells centred within the mask's bounding box, cut to the mask (as the convex hull of the common part); invalid masks are rejected. "
  "The requested elevation is attached to all coordinates.",
  ["inputs", "configurations"],
  "a lattice of sample distances (dividing and not dividing the circle) x mask shapes and positions (rectangles on all lattice offsets, triangles, multi-part, antimeridian, polar, thin, beyond 180) x elevation x strips",
  "Tests use a few distances and one mask; off-by-one, rounding, identifier collisions and antimeridian handling depend on the relation of mask bounds to the lattice.",
  [G + "points.py", G + "cells.py", U],
  [("index ranges and ids", G + "points.py:_generate_equally_spaced_indices, _compute_equally_spaced_point_id"),
   ("Fibonacci lattice", G + "points.py:generate_fibonacci_lattice_points"),
   ("cell polygons and strips", G + "cells.py:_generate_equally_spaced_cells")],
  ["tatc.generation.generate_fibonacci_lattice_points", "tatc.generation.generate_equally_spaced_points", "tatc.generation.generate_equally_spaced_cells"])

p("C08", "Splitting and normalizing regions preserves the area on the globe",
  "Splitting a polygon that crosses the antimeridian, encloses a pole or reaches past a pole returns valid polygons whose coordinates lie within plus or minus 180 degrees longitude and 90 degrees latitude and which cover exactly the same points of the globe, holes included, whatever the ring orientation and starting vertex, and whether longitudes wrap at the antimeridian (edges of more than 180 degrees cross it) or run on past it; polygons that need no splitting come back equal. "
  "Normalizing accepts polygons, multi-polygons, series and data frames equivalently, rejects invalid shapes, and leaves the caller's object unchanged.",
  ["inputs"],
  "every polygon from a lattice of rings (rectangles, triangles, rings around a pole, with and without hole) at all longitude offsets, orientations and starting vertices",
  "Tests check about ten polygons; the code branches on signs, wraps and vertex order, so correctness has to be shown for every placement relative to the seams.",
  [U],
  [("antimeridian, north and south pole splitting", U + ":split_polygon"),
   ("normalization", U + ":normalize_geometry")],
  ["tatc.utils.split_polygon", "tatc.utils.normalize_geometry"])

p("C09", "Constellation generators place members exactly as specified",
  "Every constellation generates exactly the requested number of satellites with unique, zero-padded (alphabetically sortable) names, each carrying its own independent copy of the instruments, without altering the constellation itself and identically on every call. "
  "Walker members are split over equally spaced planes (360 degrees for delta, 180 for star, divided by the planes), evenly phased within a plane and shifted by relative spacing times 360 over the number of satellites between planes; train members trail each other by the given time interval and, if requested, pass over the same ground track; streets-of-coverage members form a Walker pattern dense enough for the requested footprint packing. "
  "Mutual-orbit members stay, relative to the reference orbit, on an ellipse with the given along-track and cross-track axes, equally phased and circulating in the requested direction (as seen from above), about the position of the reference orbit at its epoch.",
  ["configurations", "inputs"],
  "every (satellites, planes, spacing, configuration) tuple up to 8 satellites, every lead orbit type, train intervals, mutual-orbit axes, inclinations and directions",
  "Tests check two or three tuples (divisible counts, few lead orbits); index arithmetic and modular wrap have to hold for every tuple.",
  [S + "satellite.py", S + "orbit.py", U],
  [("member generation", S + "satellite.py:generate_members"),
   ("derived orbit", S + "orbit.py:get_derived_orbit"),
   ("name padding", U + ":zero_pad")],
  ["generate_members() of Satellite, TrainConstellation, WalkerConstellation, MOGConstellation, SOCConstellation"])

p("C10", "Orbit definitions, element sets and derived orbits agree",
  "Converting any orbit definition (circular, Keplerian, sun-synchronous, Molniya, Tundra) to two-line elements preserves its epoch, inclination, node, perigee, eccentricity, mean anomaly and mean motion to the precision of the format, and the satellite really is at that position at the epoch. "
  "True and mean anomaly conversions satisfy Kepler's equation and invert each other for every eccentricity below one and every angle. "
  "A derived orbit differs from its source by exactly the requested mean-anomaly and node offsets (modulo a full turn) and in no other orbital element, for every offset and orbit type, with the source unchanged.",
  ["inputs", "configurations"],
  "every orbit type on a lattice of altitude, inclination, node, perigee, eccentricity, anomaly, epoch and offsets including wrap-around values",
  "Tests check small eccentricities and a few offsets; wrap-around, high eccentricity and forgotten fields only show over the full lattice.",
  [S + "orbit.py", U],
  [("to two-line elements", S + "orbit.py:to_tle"), ("derived orbits", S + "orbit.py:get_derived_orbit"),
   ("anomaly conversions", U + ":mean_anomaly_to_true_anomaly, true_anomaly_to_mean_anomaly")],
  ["to_tle, get_derived_orbit, get_mean_anomaly and element accessors of all orbit classes"])

p("C11", "Results never depend on an object's call history",
  "What an orbit, satellite or constellation answers (elements, repeat cycle, propagated positions, closest element set, observation events, members, observations) depends only on its current field values, the arguments and the active configuration, never on which calls were made before: memoized values are never stale after a field is reassigned, after copying with changed fields, after deep copies, or after configuration switches, and computing on a copy never affects the original. "
  "The one documented exception is that a repeat cycle already computed may be reused while its reuse is enabled.",
  ["histories", "configurations"],
  "every sequence of up to three operations (queries with and without lazy loading, field reassignment, copies with updates, configuration toggles) on every orbit type, followed by every query",
  "Unit tests call each method once on a fresh object; staleness needs a specific operation sequence.",
  [S + "orbit.py", S + "satellite.py", "src/tatc/config.py"],
  [("lazy caches kept in the instance dictionary", S + "orbit.py:to_tle, get_repeat_cycle, get_closest_tle_index")],
  ["all orbit classes, Satellite"],
  [("tle, repeat_cycle, tle_epochs", "memoized derived values", S + "orbit.py __dict__ entries")])

p("C12", "Concurrent analyses on shared objects equal sequential ones",
  "When two threads run analyses or orbit queries on the same satellite, orbit or constellation object at the same time, every call returns what it returns when run alone, under every interleaving. "
  "No call raises or observes a half-initialized memoized value.",
  ["schedules"],
  "all interleavings, at source-line granularity inside the library, of two threads with up to two preemptions for every pair of a menu of operations that share memoized state",
  "Tests are single-threaded; a race needs a preemption at a particular line between check and use of the shared caches.",
  [S + "orbit.py", S + "satellite.py", A + "coverage.py", A + "track.py"],
  [("check-then-act lazy caches", S + "orbit.py:to_tle, get_repeat_cycle, get_closest_tle_index"),
   ("module-level objects", "src/tatc/constants.py, src/tatc/config.py")],
  ["orbit queries and analysis functions"],
  [("tle, repeat_cycle, tle_epochs", "memoized derived values shared by threads", S + "orbit.py __dict__ entries")])

p("C13", "Multiple element sets: the one nearest in time is always used",
  "For an orbit given by several element sets, every position, event, observation and index query at a time uses the element set whose epoch is closest to that time, for scalar and list arguments alike, before the first, between and after the last epoch. "
  "Partitioning a period returns increasing times from start to end such that on every part a single element set, the reported one, is the closest; observation windows agree with the positions computed this way. "
  "Element sets out of chronological order are rejected.",
  ["inputs", "histories"],
  "all sets of one to four element-set epochs from a lattice of spacings x all query times and period boundaries on a lattice containing midpoints, epochs and outside times",
  "Tests use two or three element sets and a few times; the selection is a property of every relative order of epochs, midpoints and boundaries.",
  [S + "orbit.py", U],
  [("nearest-epoch search", S + "orbit.py:get_closest_tle_index"), ("partition", S + "orbit.py:partition_by_tle_index"),
   ("use in propagation and events", S + "orbit.py:get_orbit_track, get_observation_events")],
  ["TwoLineElements.get_closest_tle_index, partition_by_tle_index, get_orbit_track, get_observation_events"])

p("C14", "Repeat cycles are genuine and replayed consistently",
  "A reported repeat cycle is the first return after the epoch, within the search duration, at which Earth-fixed position and velocity come back within the given tolerances, and none is reported when no such return exists. "
  "With repeat propagation enabled, Earth-fixed positions and velocities at any time equal those one or several whole cycles earlier or later, before or after the epoch, for scalar and list arguments, and agree with plain propagation within the first cycle; observation events over a long period are those of the first cycle repeated every cycle, cut at the period end. "
  "With it disabled, plain propagation is used.",
  ["inputs", "configurations", "histories"],
  "a family of repeating and non-repeating orbits x tolerances x search durations x times at every phase of several cycles around the epoch x configuration switches",
  "Tests check one orbit for existence of a cycle; modular arithmetic on times, signs and frames must hold at every offset.",
  [S + "orbit.py", "src/tatc/config.py"],
  [("repeat search", S + "orbit.py:get_repeat_cycle"), ("time folding", S + "orbit.py:get_orbit_track"),
   ("event replication", S + "orbit.py:get_observation_events")],
  ["TwoLineElements.get_repeat_cycle, get_orbit_track, get_observation_events"])

p("C15", "Element-set text is validated strictly and read faithfully",
  "An element set is accepted if and only if every line has the standard length, column layout and correct checksum, lines come in pairs and the epochs exist and are in order; everything else is rejected with a validation error naming the problem, never another failure. "
  "For every accepted set, each accessor returns the value encoded in its columns (signs, implied decimal points, exponents, two-digit years, letters in extended catalog numbers included), in agreement with the reference propagator's own parser.",
  ["inputs", "fault_sequences"],
  "every single-character substitution at every column of valid line pairs, truncations, extensions, swaps, odd or empty lists, and a lattice of field values including negatives and exponents",
  "Tests try a few malformed lines; the format has 138 columns with a legal alphabet each, and faults can occur in any of them.",
  [S + "orbit.py", U],
  [("validators", U + ":is_valid_tle, is_even_length_list, is_chronological_tle"), ("column accessors", S + "orbit.py:TwoLineElements")],
  ["TwoLineElements construction and accessors"])

p("C16", "Orbit tracks report the true state at every requested time",
  "An orbit track has exactly one row per requested time, in order, carrying that time, the satellite and instrument names, the propagated position (and velocity) in the requested coordinate system - geodetic, Earth-fixed or inertial, all describing the same state - and the swath width for the satellite's height; requested lighting columns describe the same instants. "
  "With a mask (polygon, multi-polygon, series or data frame, all equivalent) the rows are exactly those whose sub-satellite point lies inside the mask, unchanged and in time order; an empty time list or no match gives an empty table.",
  ["inputs", "configurations"],
  "orbits x time lists (empty, one, several, repeated, unsorted) x coordinate system x output x instrument x mask form and placement x optional columns",
  "Tests compare one orbit with default options; alignment of rows, masks, columns and scalar-versus-list handling need the cross product.",
  [A + "track.py", S + "orbit.py", S + "instrument.py"],
  [("record building and masking", A + "track.py:collect_orbit_track")],
  ["tatc.analysis.collect_orbit_track"])

p("C17", "Ground tracks and pixels with a mask equal the masked full result",
  "Collected ground tracks hold one instantaneous footprint per requested time, in time order and labelled with that time, and with a mask of any supported form they are exactly the unmasked footprints intersected with the mask, dropping only those that do not meet it; the same holds for ground pixels. "
  "The aggregated ground track is the union of the valid footprints, per orbit or overall, and the line method covers the swath along the path joining the consecutive valid samples of each orbit, on both sides of the antimeridian and over the poles. "
  "Different ways to pass the same mask region give the same result.",
  ["inputs", "configurations"],
  "orbits x time lists x instruments (plain, pointed) x distance reference system (default, UTM, SPICE) x mask region, form and placement including antimeridian and polar x method and dissolve options",
  "Tests use one orbit and one mask form; pre-filtering shortcuts must never drop an intersecting footprint for any mask.",
  [A + "track.py", U, S + "instrument.py"],
  [("culling with buffered mask and clip", A + "track.py:collect_ground_track, collect_ground_pixels"),
   ("dissolve and line splitting", A + "track.py:compute_ground_track"), ("buffers", U + ":buffer_target, buffer_footprint")],
  ["tatc.analysis.collect_ground_track", "tatc.analysis.compute_ground_track", "tatc.analysis.collect_ground_pixels"])

p("C18", "Footprints and pixels lie where the line of sight meets the ground",
  "For every satellite state, pointing, field of view and elevation, each footprint vertex, footprint centre and pixel lies where the corresponding line of sight (in the frame of Earth-fixed velocity, velocity cross nadir, and nadir, the tangents of pointing and view offset adding up) first meets the ellipsoid raised to that elevation, or, when it misses, on the visible limb in the direction of the line of sight. "
  "Positive roll tilts the view towards velocity cross nadir and positive pitch forward; pixels fill the field of view symmetrically, the cross-track index increasing towards velocity cross nadir and the along-track index from fore to aft. "
  "Evaluating many times at once equals evaluating each time alone, and a plain instrument equals a circular nadir-pointing view of its field of regard.",
  ["inputs", "configurations"],
  "satellite states at all orbit phases (poles, nodes, antimeridian, eccentric, retrograde) x roll x pitch x field-of-view pairs x shape x elevation x number of points x pixel counts",
  "Tests compare one or two footprints; sign, axis and corner errors appear only for asymmetric pointing at specific phases.",
  [U, S + "instrument.py"],
  [("ray construction and surface intersection", U + ":compute_projected_ray_position"), ("footprint", U + ":compute_footprint, compute_limb"),
   ("pixels", S + "instrument.py:PointedInstrument")],
  ["tatc.utils.compute_footprint", "tatc.utils.compute_projected_ray_position", "tatc.utils.compute_limb", "Instrument and PointedInstrument footprint methods"])

p("C19", "Viewing-geometry conversions are exact, monotone and mutually inverse",
  "Conversions between altitude, elevation angle, field of regard or view, swath width, access time, along-track distance, orbit period and ground velocity follow spherical viewing geometry at every altitude and elevation: each pair of opposite conversions inverts the other over the visible range, wider fields of regard give wider swaths and lower minimum elevations saturating at the horizon (up to the full 360 degrees), and ground velocity subtracts the Earth's rotation projected by the inclination in degrees. "
  "The number of global samples decreases with the sample distance.",
  ["inputs"],
  "a lattice of altitudes (100 km to geostationary) x angles (0 to 360 degrees) x inclinations (0 to 180) x elevations x look angles",
  "Tests assert a few values; units errors and saturation only show across the range (for example inclinations other than the tested one).",
  [U, S + "instrument.py"],
  [("closed-form conversions", U + ":swath_width_to_field_of_regard ... access_time_to_along_track_distance")],
  ["tatc.utils numeric functions", "Instrument.get_swath_width, get_min_elevation_angle"])

p("C20", "Dilution of precision uses exactly the visible satellites",
  "At every requested time the dilution of precision equals the value obtained from the unit line-of-sight vectors, seen from the point at its elevation, of exactly those satellites at or above the minimum elevation angle, and is undefined when fewer than four or fewer than the given minimum of them are visible. "
  "Geometric squared equals position squared plus time squared, position squared equals horizontal squared plus vertical squared, the order of satellites does not matter, adding a visible satellite never worsens it, and each row carries the time and the point's longitude and latitude.",
  ["inputs", "configurations"],
  "subsets and orders of a constellation x points x elevation masks x methods x minimum counts x time lists",
  "Tests check a few values for a single constellation; visibility masks and row alignment vary with time, subset and order.",
  [A + "dop.py"],
  [("visibility mask and matrix inversion", A + "dop.py:compute_dop")],
  ["tatc.analysis.compute_dop"])

p("C21", "Radio occultations are the maximal runs of valid geometry",
  "For a receiver and transmitters on a time grid, the reported occultations are exactly the maximal runs of consecutive times at which the line of sight passes the Earth between the two satellites with its tangent point within the elevation range and the transmitter within the maximum yaw angle of the receiver's fore or aft direction. "
  "Each lists the tangent points of its run in order, its first and last times, the attributes at the time whose tangent elevation is closest to the sampling elevation, and whether it is rising (fore) or setting (aft); one transmitter and a list with one transmitter are equivalent, results are ordered by sample time.",
  ["inputs", "histories"],
  "receiver/transmitter orbits x time grids (steps, offsets, lengths, including runs open at either end and gaps from one constraint only) x yaw and elevation limits x sample elevations",
  "Tests run one pair and check a summary; run segmentation depends on how the two constraints switch along the grid.",
  [A + "ro_coverage.py"],
  [("run segmentation", A + "ro_coverage.py:_collect_ro_series"), ("sampling and assembly", A + "ro_coverage.py:collect_ro_observations")],
  ["tatc.analysis.collect_ro_observations"])

p("C22", "Configuration files load fully or fail cleanly",
  "Loading a configuration file either returns settings equal to the file's valid values (with defaults for the rest) or raises the library's configuration error, for every file content: missing, empty, truncated at any byte, malformed, of the wrong type or out of range. "
  "If the shipped defaults cannot be loaded the library still imports with built-in defaults equal to them, and a setting that is changed at run time takes effect in the computations it governs.",
  ["fault_sequences", "crash_points", "configurations"],
  "every prefix and every torn tail of the defaults file and of variants, every setting x value lattice, missing file; every subset of two settings changed at run time",
  "Tests load one good and a few bad files; a partially written file can end at any byte.",
  ["src/tatc/config.py", "src/tatc/resources/defaults.yml", S + "orbit.py", U],
  [("loader and error mapping", "src/tatc/config.py:load_yaml_config"), ("import fall-back", "src/tatc/config.py")],
  ["tatc.config.load_yaml_config", "tatc.config.rc"])

p("C23", "Analyses leave inputs untouched and do not influence each other",
  "Every analysis, generation and geometry function leaves its arguments (frames, masks, satellites, points, lists of times) unchanged and returns the same result whenever it is called again with equal arguments, regardless of which other calls were made in between, of the time zone in which equal instants are expressed, and of whether a sequence is given as list or single object where both are allowed. "
  "Results do not share mutable state with inputs or with each other.",
  ["histories", "inputs"],
  "every ordered pair of calls from a menu covering the public functions, on shared arguments, with equal instants written in several time zones",
  "Tests call each function in isolation on fresh arguments.",
  [A + "coverage.py", A + "latency.py", A + "track.py", G + "points.py", G + "cells.py", U],
  [("copies before aggregation", A + "coverage.py, latency.py"), ("time conversion to UTC", A + "coverage.py")],
  ["all public functions"])

p("C24", "Mission models survive serialization unchanged",
  "Every mission model (orbit, instrument, satellite, constellation, ground station, point, architecture) validated by the library survives a round trip through its JSON or dictionary form: the reloaded object has the same type, equal fields at every level (including pointed-instrument settings and orbit type inside satellites and architectures) and the same behaviour. "
  "Out-of-range field values are rejected with a validation error, and default values are never shared between objects.",
  ["inputs", "configurations"],
  "every orbit type x instrument type x space-system type x nesting in an architecture, and every bounded field at, just inside and just outside its bounds",
  "Tests build a few schemas and compare attributes; type confusion between alternatives depends on the combination.",
  [S + "satellite.py", S + "instrument.py", S + "orbit.py", S + "architecture.py", S + "point.py"],
  [("discriminated unions and field bounds", S + "satellite.py:SpaceSystem, architecture.py:Architecture")],
  ["model_dump_json / model_validate_json / model_dump / model_validate"])

p("C25", "Buffered targets are exactly the surroundings within reach",
  "Buffering a target (point, line, polygon or several parts) for culling returns a valid region, with coordinates within plus or minus 180 degrees longitude and 90 degrees latitude, that contains exactly the places whose distance to the target in the given projection is at most the scaled reach - the ground distance flown in one time step plus half of the swath - also across the antimeridian and over the poles. "
  "No place within reach is lost, so that culling with the region never drops one, and the target itself is not modified.",
  ["inputs"],
  "targets of every geometry type, at the antimeridian and poles and with holes, x altitudes, inclinations, fields of regard, time steps and scalings, x a lattice of places on the globe",
  "Tests buffer one or two targets far from the poles and the antimeridian and look at few coordinates.",
  [U],
  [("reach, projection and wrapping", U + ":buffer_target, split_polygon")],
  ["tatc.utils.buffer_target"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
print(len(P))

From 5daa3bc2e23fe42698ea5e60f48b68e0db5a0b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:51 +0000
Subject: [PATCH 01/46] fix: keep undefined revisit and latency columns as time
 differences

When no point has a defined revisit (or latency) the reduced column became a
datetime column, so gridding the reduced table raised a TypeError.
---
 src/tatc/analysis/coverage.py | 8 ++------
 src/tatc/analysis/latency.py  | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 856f86f..d5d8aa8 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -403,9 +403,7 @@ def reduce_observations(aggregated_observations: gpd.GeoDataFrame) -> gpd.GeoDat
     ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
-    gdf["revisit"] = gdf["revisit"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["revisit"] = pd.to_timedelta(gdf["revisit"], unit="s")
     return gdf
 
 
@@ -447,7 +445,5 @@ def grid_observations(
     )
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
-    gdf["revisit"] = gdf["revisit"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["revisit"] = pd.to_timedelta(gdf["revisit"], unit="s")
     return gdf
diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index 50528fa..43333f4 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -245,9 +245,7 @@ def reduce_latencies(latency_observations: gpd.GeoDataFrame) -> gpd.GeoDataFrame
         },
     ).reset_index()
     # convert latency from numeric values after aggregation
-    gdf["latency"] = gdf["latency"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["latency"] = pd.to_timedelta(gdf["latency"], unit="s")
     return gdf
 
 
@@ -285,7 +283,5 @@ def grid_latencies(
         .reset_index()
     )
     # convert latency from numeric values after aggregation
-    gdf["latency"] = gdf["latency"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["latency"] = pd.to_timedelta(gdf["latency"], unit="s")
     return gdf
-- 
2.43.0


From 45a85c8e31707c6c81dc228e8ce8850113c7f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:51 +0000
Subject: [PATCH 02/46] fix: weight gridded statistics by the samples of the
 points in each cell

The weights were looked up with the cell index in the point table, which
selected the samples of unrelated points or raised a KeyError.
---
 src/tatc/analysis/coverage.py | 23 +++++++++++------------
 src/tatc/analysis/latency.py  | 21 ++++++++++-----------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index d5d8aa8..8f2d42f 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -431,18 +431,17 @@ def grid_observations(
     # convert access and revisit to numeric values before aggregation
     gdf["access"] = gdf["access"] / timedelta(seconds=1)
     gdf["revisit"] = gdf["revisit"] / timedelta(seconds=1)
-    gdf = (
-        cells.sjoin(gdf, how="inner", predicate="contains")
-        .dissolve(
-            by="cell_id",
-            aggfunc={
-                "samples": "sum",
-                "access": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-                "revisit": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-            },
-        )
-        .reset_index()
-    )
+    # assign a unique index to each (cell, point) pair to look up sample weights
+    gdf = cells.sjoin(gdf, how="inner", predicate="contains").reset_index(drop=True)
+    samples = gdf["samples"]
+    gdf = gdf.dissolve(
+        by="cell_id",
+        aggfunc={
+            "samples": "sum",
+            "access": lambda r: np.average(r, weights=samples.loc[r.index]),
+            "revisit": lambda r: np.average(r, weights=samples.loc[r.index]),
+        },
+    ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
     gdf["revisit"] = pd.to_timedelta(gdf["revisit"], unit="s")
diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index 43333f4..05d4d63 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -271,17 +271,16 @@ def grid_latencies(
     gdf = reduced_latencies.copy()
     # convert latency to numeric values before aggregation
     gdf["latency"] = gdf["latency"] / timedelta(seconds=1)
-    gdf = (
-        cells.sjoin(gdf, how="inner", predicate="contains")
-        .dissolve(
-            by="cell_id",
-            aggfunc={
-                "samples": "sum",
-                "latency": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-            },
-        )
-        .reset_index()
-    )
+    # assign a unique index to each (cell, point) pair to look up sample weights
+    gdf = cells.sjoin(gdf, how="inner", predicate="contains").reset_index(drop=True)
+    samples = gdf["samples"]
+    gdf = gdf.dissolve(
+        by="cell_id",
+        aggfunc={
+            "samples": "sum",
+            "latency": lambda r: np.average(r, weights=samples.loc[r.index]),
+        },
+    ).reset_index()
     # convert latency from numeric values after aggregation
     gdf["latency"] = pd.to_timedelta(gdf["latency"], unit="s")
     return gdf
-- 
2.43.0


From 4455a4789934d493195efef16d2aee7ba8b82dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:01 +0000
Subject: [PATCH 03/46] fix: report a pass that lasts throughout the analysis
 period

A period that lies inside one pass and does not contain its culmination has
no rise, culminate or set event and was reported as not visible.
---
 src/tatc/analysis/coverage.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 8f2d42f..7141360 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -63,8 +63,20 @@ def _get_visible_interval_series(
 
     # build the observation periods
     obs_periods = []
-    if len(events) > 0 and np.all(events == 1):
-        # if all events are type 1 (culminate), create a period from start to end
+    if len(events) == 0:
+        # if there are no events, the satellite is visible throughout or not at all
+        topos = wgs84.latlon(point.latitude, point.longitude, point.elevation)
+        is_visible = start < end and (
+            (satellite.orbit.to_tle().get_orbit_track(start) - topos.at(t_0))
+            .altaz()[0]
+            .degrees
+            > min_elevation_angle
+        )
+    else:
+        # if all events are type 1 (culminate), the satellite is visible throughout
+        is_visible = np.all(events == 1)
+    if is_visible:
+        # create a period from start to end
         obs_periods += [
             pd.Interval(
                 left=pd.Timestamp(start.astimezone(tz=timezone.utc)),
-- 
2.43.0


From da107d0399f1d10d209ec61225bcf9637880dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:37 +0000
Subject: [PATCH 04/46] fix: report passes longer than twice the nominal access
 time

The access time estimated from the altitude at the start of the period is too
short for eccentric orbits, so that long passes were dropped; pair each rise
with the set that follows it instead.
---
 src/tatc/analysis/coverage.py | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 7141360..e0387aa 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -20,7 +20,6 @@ from ..schemas.satellite import Satellite
 
 from ..utils import (
     compute_min_elevation_angle,
-    compute_max_access_time,
     compute_footprint,
 )
 from ..constants import de421, timescale
@@ -46,16 +45,8 @@ def _get_visible_interval_series(
     Returns:
         pandas.Series: Series of observation intervals.
     """
-    # define starting and ending points
+    # define starting point
     t_0 = timescale.from_datetime(start)
-    # build skyfield objects
-    sat = satellite.orbit.to_tle().as_skyfield()
-    # compute the initial satellite altitude
-    satellite_altitude = wgs84.geographic_position_of(sat.at(t_0)).elevation.m
-    # compute the maximum access time to filter bad data
-    max_access_time = timedelta(
-        seconds=compute_max_access_time(satellite_altitude, min_elevation_angle)
-    )
     # find the set of observation events
     times, events = satellite.orbit.to_tle().get_observation_events(
         point, start, end, min_elevation_angle
@@ -100,25 +91,18 @@ def _get_visible_interval_series(
                 )
             ]
         # create an observation period to match with each rise event if
-        # there is a following set event within twice the maximum access time
+        # there is a following set event before the next rise event
         obs_periods += [
             pd.Interval(
                 left=pd.Timestamp(rise.utc_datetime()),
-                right=pd.Timestamp(
-                    sets[
-                        np.logical_and(
-                            rise.utc_datetime() < sets.utc_datetime(),
-                            sets.utc_datetime()
-                            < rise.utc_datetime() + 2 * max_access_time,
-                        )
-                    ][0].utc_datetime()
-                ),
+                right=pd.Timestamp(sets[following_sets][0].utc_datetime()),
             )
-            for rise in rises
+            for i, rise in enumerate(rises)
             if np.any(
-                np.logical_and(
+                following_sets := np.logical_and(
                     rise.utc_datetime() < sets.utc_datetime(),
-                    sets.utc_datetime() < rise.utc_datetime() + 2 * max_access_time,
+                    i + 1 == len(rises)
+                    or sets.utc_datetime() < rises[i + 1].utc_datetime(),
                 )
             )
         ]
-- 
2.43.0


From 9f0c4086249cd04dcbe6a40e841897ffc2b19041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:37 +0000
Subject: [PATCH 05/46] fix: treat fields of regard beyond 180 degrees as
 unrestricted

The sine of the half angle decreases beyond 180 degrees, so that a field of
regard of 360 degrees observed nothing.
---
 src/tatc/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 04f2202..00d818e 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -188,7 +188,8 @@ def field_of_regard_to_swath_width(
         constants.EARTH_MEAN_RADIUS + altitude
     )
     # eta is the angular radius of the region viewable by the satellite
-    sin_eta = min(sin_rho, np.sin(np.radians(field_of_regard) / 2))
+    # (a field of regard beyond 180 degrees does not restrict the view)
+    sin_eta = min(sin_rho, np.sin(np.radians(min(field_of_regard, 180)) / 2))
     # epsilon is the min satellite elevation for obs (grazing angle)
     cos_epsilon = sin_eta / sin_rho
     # lambda is the Earth central angle
@@ -238,7 +239,8 @@ def compute_min_elevation_angle(
         float: The minimum elevation angle (degrees) for observation.
     """
     # eta is the angular radius of the region viewable by the satellite
-    sin_eta = np.sin(np.radians(field_of_regard) / 2)
+    # (a field of regard beyond 180 degrees does not restrict the view)
+    sin_eta = np.sin(np.radians(min(field_of_regard, 180)) / 2)
     # rho is the angular radius of the earth viewed by the satellite
     sin_rho = (constants.EARTH_MEAN_RADIUS + elevation) / (
         constants.EARTH_MEAN_RADIUS + altitude
-- 
2.43.0


From 81634cd2c43971a56f76ed2cca6374828370dc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:27 +0000
Subject: [PATCH 06/46] fix: use the later element set after the midpoint
 between two epochs

The partition of a period assigned the part that follows a midpoint to the
element set before it, so that events were computed with a distant one.
---
 src/tatc/schemas/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index f9f80c1..84103ca 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -466,7 +466,7 @@ class TwoLineElements(BaseModel):
             [start] + list(epoch_midpoints[midpoint_indices]) + [end],
             (
                 [self.get_closest_tle_index(start)]
-                + list(map(int, tle_i[midpoint_indices]))
+                + [int(tle_i[i + 1]) for i in midpoint_indices]
                 + [self.get_closest_tle_index(end)]
             ),
         )
-- 
2.43.0


From 4aa94e97aa55fe1a0f4ed481b35e8d08f94be791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:27 +0000
Subject: [PATCH 07/46] fix: allow periods without events for multiple element
 sets

Skyfield cannot build a time array from an empty list of datetimes, so that
collecting observations failed when the point was not visible.
---
 src/tatc/schemas/orbit.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 84103ca..9012e1f 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -653,9 +653,7 @@ class TwoLineElements(BaseModel):
                 for i in range(len(part_ts) - 1)
             ]
             return (
-                constants.timescale.from_datetimes(
-                    [t.utc_datetime() for e in events for t in e[0]]
-                ),
+                constants.timescale.tt_jd(np.concatenate([e[0].tt for e in events])),
                 np.array([v for e in events for v in e[1]]),
             )
         # create skyfield Time
-- 
2.43.0


From 42ed89e4f9c54939f6cdaabe52a1bc513b0f9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:13 +0000
Subject: [PATCH 08/46] fix: replay repeat cycles in the Earth-fixed frame

A repeat ground track recurs in Earth-fixed coordinates; inertial coordinates
of an earlier time at the requested time shift the track in longitude.
---
 src/tatc/schemas/orbit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 9012e1f..9a822b3 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -609,8 +609,9 @@ class TwoLineElements(BaseModel):
                         * np.mod(np.abs(offset), repeat_cycle)
                     )
                 repeat_track = self.as_skyfield().at(repeat_times)
-                return Geocentric(
-                    repeat_track.position.au, repeat_track.velocity.au_per_d, ts_times
+                # the orbit repeats in the Earth-fixed frame
+                return Geocentric.from_time_and_frame_vectors(
+                    ts_times, itrs, *repeat_track.frame_xyz_and_velocity(itrs)
                 )
         # compute satellite positions
         return self.as_skyfield().at(ts_times)
-- 
2.43.0


From 2f497a54b8c35c94986dd19253929dc633e838ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:22 +0000
Subject: [PATCH 09/46] fix: convert between mean and true anomaly with
 Kepler's equation

The truncated series expansions are wrong by many degrees for eccentric
orbits (Molniya, Tundra) and do not invert each other.
---
 src/tatc/utils.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 00d818e..9cf8582 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -46,11 +46,28 @@ def mean_anomaly_to_true_anomaly(mean_anomaly: float, eccentricity: float = 0) -
         float: The true anomaly (degrees).
     """
     mean_anomaly_rad = np.radians(mean_anomaly)
+    # solve Kepler's equation for the eccentric anomaly within one revolution
+    revolutions_rad = 2 * np.pi * np.floor(mean_anomaly_rad / (2 * np.pi))
+    reduced_anomaly_rad = mean_anomaly_rad - revolutions_rad
+    eccentric_anomaly_rad = reduced_anomaly_rad if eccentricity < 0.5 else np.pi
+    for _ in range(50):
+        delta_rad = (
+            eccentric_anomaly_rad
+            - eccentricity * np.sin(eccentric_anomaly_rad)
+            - reduced_anomaly_rad
+        ) / (1 - eccentricity * np.cos(eccentric_anomaly_rad))
+        eccentric_anomaly_rad = eccentric_anomaly_rad - delta_rad
+        if np.abs(delta_rad) < 1e-15:
+            break
+    beta = eccentricity / (1 + np.sqrt(1 - eccentricity**2))
     true_anomaly_rad = (
-        mean_anomaly_rad
-        + (2 * eccentricity - (1 / 4) * eccentricity**3) * np.sin(mean_anomaly_rad)
-        + (5 / 4) * eccentricity**2 * np.sin(2 * mean_anomaly_rad)
-        + (13 / 12) * eccentricity**3 * np.sin(3 * mean_anomaly_rad)
+        eccentric_anomaly_rad
+        + revolutions_rad
+        + 2
+        * np.arctan2(
+            beta * np.sin(eccentric_anomaly_rad),
+            1 - beta * np.cos(eccentric_anomaly_rad),
+        )
     )
     return np.degrees(true_anomaly_rad)
 
@@ -68,13 +85,14 @@ def true_anomaly_to_mean_anomaly(true_anomaly: float, eccentricity: float = 0) -
         float: The mean anomaly (degrees).
     """
     true_anomaly_rad = np.radians(true_anomaly)
-    mean_anomaly_rad = (
-        true_anomaly_rad
-        - 2 * eccentricity * np.sin(true_anomaly_rad)
-        + ((3 / 4) * eccentricity**2 + (1 / 8) * eccentricity**4)
-        * np.sin(2 * true_anomaly_rad)
-        - (1 / 3) * eccentricity**3 * np.sin(3 * true_anomaly_rad)
-        + (5 / 32) * eccentricity**4 * np.sin(4 * true_anomaly_rad)
+    # compute the eccentric anomaly and apply Kepler's equation
+    beta = eccentricity / (1 + np.sqrt(1 - eccentricity**2))
+    eccentric_anomaly_rad = true_anomaly_rad - 2 * np.arctan2(
+        beta * np.sin(true_anomaly_rad),
+        1 + beta * np.cos(true_anomaly_rad),
+    )
+    mean_anomaly_rad = eccentric_anomaly_rad - eccentricity * np.sin(
+        eccentric_anomaly_rad
     )
     return np.degrees(mean_anomaly_rad)
 
-- 
2.43.0


From 4ebcf984a8aa242c64e29095e22cb830a4c5f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:27 +0000
Subject: [PATCH 10/46] fix: keep the orbital period of derived Molniya and
 Tundra orbits

---
 src/tatc/schemas/orbit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 9a822b3..ca6ef5f 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -1094,6 +1094,7 @@ class MolniyaOrbit(OrbitBase):
             right_ascension_ascending_node=raan,
             eccentricity=self.get_eccentricity(),
             perigee_argument=self.perigee_argument,
+            orbital_period=self.orbital_period,
         )
 
     def to_tle(self, lazy_load: bool = None) -> TwoLineElements:
@@ -1179,4 +1180,5 @@ class TundraOrbit(MolniyaOrbit):
             right_ascension_ascending_node=raan,
             eccentricity=self.eccentricity,
             perigee_argument=self.perigee_argument,
+            orbital_period=self.orbital_period,
         )
-- 
2.43.0


From d4bd7ad5cc9c0229a47f86a1abc42de6cac05d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:08 +0000
Subject: [PATCH 11/46] fix: wrap derived anomalies and nodes that round to 360
 degrees

The modulo of a small negative angle can be exactly 360, which is out of the
range of the fields, so that deriving the orbit failed.
---
 src/tatc/schemas/orbit.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index ca6ef5f..340677b 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -780,10 +780,10 @@ class CircularOrbit(OrbitBase):
         raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
         return CircularOrbit(
             altitude=self.altitude,
-            true_anomaly=true_anomaly,
+            true_anomaly=true_anomaly % 360,
             epoch=self.epoch,
             inclination=self.inclination,
-            right_ascension_ascending_node=raan,
+            right_ascension_ascending_node=raan % 360,
         )
 
     def to_tle(self, lazy_load: bool = None) -> TwoLineElements:
@@ -893,10 +893,10 @@ class SunSynchronousOrbit(OrbitBase):
         # For now, simply return a circular orbit with the correct parameters.
         return CircularOrbit(
             altitude=self.altitude,
-            true_anomaly=true_anomaly,
+            true_anomaly=true_anomaly % 360,
             epoch=self.epoch,
             inclination=self.get_inclination(),
-            right_ascension_ascending_node=raan,
+            right_ascension_ascending_node=raan % 360,
         )
 
     def to_tle(self, lazy_load: bool = None) -> TwoLineElements:
@@ -970,10 +970,10 @@ class KeplerianOrbit(CircularOrbit):
         raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
         return KeplerianOrbit(
             altitude=self.altitude,
-            true_anomaly=true_anomaly,
+            true_anomaly=true_anomaly % 360,
             epoch=self.epoch,
             inclination=self.inclination,
-            right_ascension_ascending_node=raan,
+            right_ascension_ascending_node=raan % 360,
             eccentricity=self.eccentricity,
             perigee_argument=self.perigee_argument,
         )
@@ -1088,10 +1088,10 @@ class MolniyaOrbit(OrbitBase):
         raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
         return MolniyaOrbit(
             altitude=self.altitude,
-            true_anomaly=true_anomaly,
+            true_anomaly=true_anomaly % 360,
             epoch=self.epoch,
             inclination=self.inclination,
-            right_ascension_ascending_node=raan,
+            right_ascension_ascending_node=raan % 360,
             eccentricity=self.get_eccentricity(),
             perigee_argument=self.perigee_argument,
             orbital_period=self.orbital_period,
@@ -1174,10 +1174,10 @@ class TundraOrbit(MolniyaOrbit):
         raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
         return TundraOrbit(
             altitude=self.altitude,
-            true_anomaly=true_anomaly,
+            true_anomaly=true_anomaly % 360,
             epoch=self.epoch,
             inclination=self.inclination,
-            right_ascension_ascending_node=raan,
+            right_ascension_ascending_node=raan % 360,
             eccentricity=self.eccentricity,
             perigee_argument=self.perigee_argument,
             orbital_period=self.orbital_period,
-- 
2.43.0


From d13257a2756037a34a165075151a996635cd7fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:08 +0000
Subject: [PATCH 12/46] fix: project the Earth's rotation by the inclination in
 radians

---
 src/tatc/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 9cf8582..ced9b32 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -323,7 +323,7 @@ def compute_ground_velocity(altitude: float, inclination: float) -> float:
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     return constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
 
 
@@ -346,7 +346,7 @@ def along_track_distance_to_access_time(
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     ground_velocity = constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
     return along_track / ground_velocity
 
@@ -370,7 +370,7 @@ def access_time_to_along_track_distance(
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     ground_velocity = constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
     return ground_velocity * access_time
 
-- 
2.43.0


From 6366353e53fac336970153c1512d61db297684fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:13 +0000
Subject: [PATCH 13/46] fix: use the whole look angle to the center of an
 off-nadir view

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index ced9b32..9bb2629 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -169,7 +169,7 @@ def swath_width_to_field_of_view(
         constants.EARTH_MEAN_RADIUS + altitude
     )
     # eta is the angular radius from sub-satellite point to center of view
-    sin_eta = min(sin_rho, np.sin(np.radians(look_angle) / 2))
+    sin_eta = min(sin_rho, np.sin(np.radians(look_angle)))
     # epsilon is the satellite elevation from the center of view
     cos_epsilon = sin_eta / sin_rho
     # lambda is the Earth central angle to the center of view
-- 
2.43.0


From 6d6f8c489fcc6b2282d13788fa1c819bfa61b355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:20 +0000
Subject: [PATCH 14/46] fix: validate element set pairs and layout before their
 order

---
 src/tatc/schemas/orbit.py | 4 ++--
 src/tatc/utils.py         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 340677b..6aa637a 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -32,9 +32,9 @@ class TwoLineElements(BaseModel):
     type: Literal["tle"] = Field("tle", description="Orbit type discriminator.")
     tle: Annotated[
         List[str],
-        AfterValidator(utils.is_chronological_tle),
-        AfterValidator(utils.is_valid_tle),
         AfterValidator(utils.is_even_length_list),
+        AfterValidator(utils.is_valid_tle),
+        AfterValidator(utils.is_chronological_tle),
     ] = Field(
         ...,
         description="Two line elements. Multiple TLEs must be in chronological order.",
diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 9bb2629..b812cbf 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1274,7 +1274,7 @@ def is_valid_tle(v: List[str]) -> List[str]:
         if int(v[i][68]) != checksum(v[i]):
             raise ValueError(f"Invalid tle: line {i+1} checksum failed.")
         if int(v[i + 1][68]) != checksum(v[i + 1]):
-            raise ValueError(f"Invalid tle: line {1+2} checksum failed.")
+            raise ValueError(f"Invalid tle: line {i+2} checksum failed.")
     return v
 
 
-- 
2.43.0


From cd7d8506efebda81fd8173bd646d90e1998ebb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:24 +0000
Subject: [PATCH 15/46] fix: read signed element set coefficients and extended
 catalog numbers

---
 src/tatc/schemas/orbit.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 6aa637a..1a978ae 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -14,6 +14,7 @@ import numpy as np
 from pydantic import AfterValidator, BaseModel, Field
 from sgp4.api import Satrec, WGS72
 from sgp4 import exporter
+from sgp4.alpha5 import from_alpha5
 from sgp4.conveniences import sat_epoch_datetime
 from skyfield.api import EarthSatellite, Time, wgs84
 from skyfield.positionlib import Geocentric
@@ -24,6 +25,20 @@ from .point import Point
 from .. import config, constants, utils
 
 
+def _parse_exponential(value: str) -> float:
+    """
+    Parses a two line element value in exponential notation (e.g., `-11606-4`): a
+    sign, five digits following an implied decimal point, and a signed exponent.
+
+    Args:
+        value (str): the encoded value.
+
+    Returns:
+        float: the decoded value
+    """
+    return float(value[0] + "0." + value[1:6].replace(" ", "0")) * 10 ** int(value[6:])
+
+
 class TwoLineElements(BaseModel):
     """
     Orbit defined with standard two line elements.
@@ -67,7 +82,7 @@ class TwoLineElements(BaseModel):
             int: the catalog number
         """
         # pylint: disable=E1136
-        return int(self.tle[2 * tle_i][2:7])
+        return from_alpha5(self.tle[2 * tle_i][2:7])
 
     def get_classification(self, tle_i=0) -> str:
         """
@@ -143,9 +158,7 @@ class TwoLineElements(BaseModel):
             float: the second derivative of mean motion
         """
         # pylint: disable=E1136
-        return float("0." + self.tle[2 * tle_i][44:50].strip()) * 10 ** (
-            int(self.tle[2 * tle_i][50:52])
-        )
+        return _parse_exponential(self.tle[2 * tle_i][44:52])
 
     def get_b_star(self, tle_i=0) -> float:
         """
@@ -158,9 +171,7 @@ class TwoLineElements(BaseModel):
             float: the b-star term
         """
         # pylint: disable=E1136
-        return float("0." + self.tle[2 * tle_i][53:59].strip()) * 10 ** (
-            int(self.tle[2 * tle_i][59:61])
-        )
+        return _parse_exponential(self.tle[2 * tle_i][53:61])
 
     def get_ephemeris_type(self, tle_i=0) -> int:
         """
-- 
2.43.0


From c0fadb05bc16c6a116ff98b522fe604a3a66e564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:42 +0000
Subject: [PATCH 16/46] fix: place mutual orbiters about the true anomaly of
 the reference orbit

---
 src/tatc/schemas/satellite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tatc/schemas/satellite.py b/src/tatc/schemas/satellite.py
index 66e8146..e7ba25f 100644
--- a/src/tatc/schemas/satellite.py
+++ b/src/tatc/schemas/satellite.py
@@ -363,6 +363,9 @@ class MOGConstellation(Satellite):
                 s * np.dot(t, np.array([1, 0, 0])),
                 s * np.dot(t, np.cross(l_0, np.array([1, 0, 0]))),
             )
+            # account for the position of the circular orbiter at epoch
+            # pylint: disable=E1101
+            n = n + np.radians(self.orbit.true_anomaly)
 
             # eccentric anomaly (radians) implicit equation [Eq. (32) in Leroy et al. (2020)]
             psi_ = 0
-- 
2.43.0


From 6371aaf1a042710c5227d64be981af817d676413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:10 +0000
Subject: [PATCH 17/46] fix: identify equally spaced points by the number of
 points generated per row

---
 src/tatc/generation/points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tatc/generation/points.py b/src/tatc/generation/points.py
index 8151d85..5a4535f 100644
--- a/src/tatc/generation/points.py
+++ b/src/tatc/generation/points.py
@@ -194,7 +194,9 @@ def _compute_equally_spaced_point_id(
     Returns:
         int: The id of this point.
     """
-    return int(j * int(360 / theta_j) + np.mod(i, int(360 / theta_i)))
+    # number of points along a full circle of latitude
+    count = int(np.round(360 / theta_i))
+    return int(j * count + np.mod(i, count))
 
 
 def _get_bounds(mask: Union[Polygon, MultiPolygon]) -> tuple:
-- 
2.43.0


From 11cdf531f1b39332c9c7b2a6fdca464ff7060800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:15 +0000
Subject: [PATCH 18/46] fix: keep Fibonacci points west of the prime meridian
 in masks past 180 degrees

---
 src/tatc/generation/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/generation/points.py b/src/tatc/generation/points.py
index 5a4535f..754c34f 100644
--- a/src/tatc/generation/points.py
+++ b/src/tatc/generation/points.py
@@ -111,7 +111,7 @@ def generate_fibonacci_lattice_points(
                 <= (
                     _compute_fibonacci_lattice_point_longitude(i) + 360
                     if max_longitude > 180
-                    and _compute_fibonacci_lattice_point_longitude(i) < 0
+                    and _compute_fibonacci_lattice_point_longitude(i) < min_longitude
                     else _compute_fibonacci_lattice_point_longitude(i)
                 )
                 <= max_longitude
@@ -127,7 +127,7 @@ def generate_fibonacci_lattice_points(
                         _compute_fibonacci_lattice_point_longitude(i) + 360
                         if mask is not None
                         and max_longitude > 180
-                        and _compute_fibonacci_lattice_point_longitude(i) < 0
+                        and _compute_fibonacci_lattice_point_longitude(i) < min_longitude
                         else _compute_fibonacci_lattice_point_longitude(i)
                     ),
                     _compute_fibonacci_lattice_point_latitude(i, samples),
-- 
2.43.0


From 17b555b3970de094e3594cfb06d723c213aaa315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:49 +0000
Subject: [PATCH 19/46] fix: split polygons whose longitudes run past the
 antimeridian

---
 src/tatc/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index b812cbf..d6f70b9 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1086,12 +1086,13 @@ def _split_polygon_antimeridian(
         lon = np.array([c[0] for c in polygon.exterior.coords])
         # check if any longitudes cross the anti-meridian
         # (adjacent coordinate longitude differs by more than 180 degrees)
-        if all(np.abs(np.diff(lon)) < 180):
+        is_crossing = any(np.abs(np.diff(lon)) >= 180)
+        if not is_crossing and all(np.abs(lon) <= 180):
             return polygon
         # check if this polygon contains a pole
-        if Polygon(zip(np.cos(np.radians(lon)), np.sin(np.radians(lon)))).contains(
-            Point(0, 0)
-        ):
+        if is_crossing and Polygon(
+            zip(np.cos(np.radians(lon)), np.sin(np.radians(lon)))
+        ).contains(Point(0, 0)):
             # extract and sort coords by longitude
             coords = polygon.exterior.coords[0:-1]
             coords.sort(key=lambda r: r[0])
@@ -1136,8 +1137,8 @@ def _split_polygon_antimeridian(
                 for i in polygon.interiors
             ],
         )
-        # split along the anti-meridian (-180 for shift > 0; 180 for shift < 0)
-        shift_dir = -180 if shift.max() >= 1 else 180
+        # split along the anti-meridian (-180 or 180, whichever is crossed)
+        shift_dir = -180 if pgon.bounds[0] < -180 else 180
         parts = split(pgon, LineString([(shift_dir, -180), (shift_dir, 180)]))
         # convert to multi polygon
         if isinstance(parts, GeometryCollection):
-- 
2.43.0


From 8595bc4445faed1ce2acdb14f427d9159c0dca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:49 +0000
Subject: [PATCH 20/46] fix: interpolate the antimeridian latitude of polar
 polygons over the whole gap

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index d6f70b9..288d5db 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1100,7 +1100,7 @@ def _split_polygon_antimeridian(
             n_s = 1 if np.array(coords)[:, 1].mean() > 0 else -1
             # interpolate latitude at antimeridian
             lat = np.interp(
-                180, [coords[-1][0], coords[0][0] + 180], [coords[-1][1], coords[0][1]]
+                180, [coords[-1][0], coords[0][0] + 360], [coords[-1][1], coords[0][1]]
             )
             # reconstruct polygon (ccw) with added coords on antimeridian
             # TODO potential problem if provided polygon has z-dimension
-- 
2.43.0


From 6925b27ba7d05c535fad309785068f0c53010dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:50 +0000
Subject: [PATCH 21/46] fix: wrap polygons with holes over the south pole

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 288d5db..183d6ee 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -928,7 +928,7 @@ def _wrap_polygon_over_south_pole(
             [
                 [
                     [
-                        (c[0] + lat_shift if c[1] <= -90 else c[0],),
+                        c[0] + lat_shift if c[1] <= -90 else c[0],
                         -180 - c[1] if c[1] <= -90 else c[1],
                     ]
                     for c in i.coords
-- 
2.43.0


From bd543adcc2d2bf4c4ba71aa6004c750fdff58486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:50 +0000
Subject: [PATCH 22/46] fix: leave the caller's data frame unchanged when
 normalizing

---
 src/tatc/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 183d6ee..2202e62 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1204,6 +1204,8 @@ def normalize_geometry(
     elif isinstance(geometry, gpd.GeoSeries):
         geometry = gpd.GeoDataFrame(geometry=geometry, crs="EPSG:4326")
     if isinstance(geometry, gpd.GeoDataFrame):
+        # do not modify the provided data frame
+        geometry = geometry.copy()
         geometry["geometry"] = geometry.apply(
             lambda r: split_polygon(r.geometry),
             axis=1,
-- 
2.43.0


From 4b86e899ff5ad921655d5151f5f9cdf3dd6529dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:57 +0000
Subject: [PATCH 23/46] fix: project rays that miss the surface to the limb in
 their own direction

---
 src/tatc/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 2202e62..b74881f 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -515,13 +515,12 @@ def compute_projected_ray_position(
                 constants.EARTH_POLAR_RADIUS + elevation,
                 _position,
             )
-            # find the two intersection points between orthogonal plane and limb ellipse
-            _v = v[:, i].copy() if i >= 0 else v
-            _n = n[:, i].copy() if i >= 0 else n
+            # find the two intersection points between the plane containing the
+            # projected ray and Earth center and limb ellipse
             _, pt_1, pt_2 = inelpl(
                 limb,
                 nvp2pl(
-                    _v * np.sin(np.pi / 2 + angle) + _n * np.cos(np.pi / 2 + angle),
+                    np.cross(_ray, _position),
                     _position,
                 ),
             )
-- 
2.43.0


From 55d6924c1c4cae8acac93300fec456438ba8995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:02 +0000
Subject: [PATCH 24/46] fix: meet the sides of rectangular views in their
 corners

---
 src/tatc/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index b74881f..0796332 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -420,12 +420,12 @@ def compute_projected_ray_position(
         n = np.cross(v, b)
     # construct projected ray
     if is_rectangular:
-        # find orientation of rectangle corner
-        theta = np.arctan(along_track_field_of_view / cross_track_field_of_view)
         # along track half width
         tan_a_2 = np.tan(np.radians(along_track_field_of_view / 2))
         # cross track half width
         tan_c_2 = np.tan(np.radians(cross_track_field_of_view / 2))
+        # find orientation of rectangle corner
+        theta = np.arctan(tan_a_2 / tan_c_2)
         # compose the ray with different equations for each side
         ray = (
             b
@@ -583,7 +583,11 @@ def compute_footprint(
         else:
             number_points = config.rc.footprint_points_elliptical
     if is_rectangular:
-        theta = np.arctan(along_track_field_of_view / cross_track_field_of_view)
+        # find orientation of rectangle corner
+        theta = np.arctan(
+            np.tan(np.radians(along_track_field_of_view / 2))
+            / np.tan(np.radians(cross_track_field_of_view / 2))
+        )
         angles = np.concatenate(
             (
                 np.linspace(-theta, theta, number_points, endpoint=False),
-- 
2.43.0


From c01d0a99abe53c0f2cfacaf4a04b7fea842b51c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:21 +0000
Subject: [PATCH 25/46] fix: return an empty footprint for views that collapse
 to a line

---
 src/tatc/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 0796332..166a252 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1185,6 +1185,9 @@ def split_polygon(
         polygon = make_valid(polygon)
         if isinstance(polygon, GeometryCollection):
             polygon = _convert_collection_to_polygon(polygon)
+        elif not isinstance(polygon, (Polygon, MultiPolygon)):
+            # collapsed to a point or line without any interior
+            polygon = Polygon()
     return polygon
 
 
-- 
2.43.0


From 52b5ab9efa9e6ce08d7177f50179639ce877d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:21 +0000
Subject: [PATCH 26/46] fix: place pixels over the whole field of view

---
 src/tatc/schemas/instrument.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/instrument.py b/src/tatc/schemas/instrument.py
index 073633e..6b5bb05 100644
--- a/src/tatc/schemas/instrument.py
+++ b/src/tatc/schemas/instrument.py
@@ -324,8 +324,8 @@ class PointedInstrument(Instrument):
 
         return compute_projected_ray_position(
             orbit_track=orbit_track,
-            cross_track_field_of_view=cone,
-            along_track_field_of_view=cone,
+            cross_track_field_of_view=2 * cone,
+            along_track_field_of_view=2 * cone,
             roll_angle=self.roll_angle,
             pitch_angle=self.pitch_angle,
             is_rectangular=False,
-- 
2.43.0


From 19f92ff69b660bcdd178352548ae918fed395e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:27 +0000
Subject: [PATCH 27/46] fix: see the whole limb with fields of regard beyond
 180 degrees

---
 src/tatc/schemas/instrument.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/instrument.py b/src/tatc/schemas/instrument.py
index 6b5bb05..a64db7a 100644
--- a/src/tatc/schemas/instrument.py
+++ b/src/tatc/schemas/instrument.py
@@ -101,8 +101,9 @@ class Instrument(BaseModel):
         """
         return compute_footprint(
             orbit_track=orbit_track,
-            cross_track_field_of_view=self.field_of_regard,
-            along_track_field_of_view=self.field_of_regard,
+            # fields of regard beyond 180 degrees are only limited by the limb
+            cross_track_field_of_view=min(self.field_of_regard, 180),
+            along_track_field_of_view=min(self.field_of_regard, 180),
             roll_angle=0,
             pitch_angle=0,
             is_rectangular=False,
-- 
2.43.0


From f439b03b7a74d6436c3d9ca3a4aaceb53938d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:33 +0000
Subject: [PATCH 28/46] fix: report dilution of precision at the point's
 longitude and latitude

---
 src/tatc/analysis/dop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index fab7deb..7d274d2 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -126,7 +126,7 @@ def compute_dop(
         "dop": pd.Series(dop, dtype="float", index=times),
         "geometry": pd.Series(
             gpd.points_from_xy(
-                [point.latitude] * len(dop), [point.longitude] * len(dop)
+                [point.longitude] * len(dop), [point.latitude] * len(dop)
             ),
             dtype="object",
             index=times,
-- 
2.43.0


From f5d6d11a4123159c3879f8654677ab2686f32227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:33 +0000
Subject: [PATCH 29/46] fix: compute dilution of precision at the point's
 elevation

---
 src/tatc/analysis/dop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index 7d274d2..e83b62f 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -68,7 +68,7 @@ def compute_dop(
     sk_times = timescale.from_datetimes(times)
 
     # construct skyfield geodetic position for user
-    sk_position = wgs84.latlon(point.latitude, point.longitude)
+    sk_position = wgs84.latlon(point.latitude, point.longitude, point.elevation)
 
     # compute elevation/azimuth angles and range
     altazs = [(sk_sat - sk_position).at(sk_times).altaz() for sk_sat in sk_sats]
-- 
2.43.0


From b8b072be8f127b9658f6e96beef558c2c7a082fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:33 +0000
Subject: [PATCH 30/46] fix: accept the minimum number of visible satellites
 for dilution of precision

---
 src/tatc/analysis/dop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index e83b62f..31408e6 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -88,7 +88,8 @@ def compute_dop(
         """
         Compute the dilution of precision value for time index i.
         """
-        if n[i] <= min_count_visible:
+        # four unknowns (position and time) require at least four satellites
+        if n[i] < max(min_count_visible, 4):
             return np.nan
         mask = el[:, i] >= np.deg2rad(min_elevation)
         # H is a nx4 matrix where n is the number of visible satellites
-- 
2.43.0


From 0cbf51c3a7e0ea43051e3f1495b8f5f6d7297b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:02 +0000
Subject: [PATCH 31/46] fix: use the closest element set for dilution of
 precision

---
 src/tatc/analysis/dop.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index 31408e6..2d62e43 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -13,7 +13,7 @@ from typing import List
 import pandas as pd
 import numpy as np
 import geopandas as gpd
-from skyfield.api import wgs84, EarthSatellite
+from skyfield.api import wgs84
 
 from ..constants import timescale
 from ..schemas import Point, Satellite
@@ -54,14 +54,9 @@ def compute_dop(
     - geopandas.GeoDataFrame: the dop for the given user location and satellite.
 
     """
-    # construct skyfield satellites for each satellite
-    sk_sats = [
-        EarthSatellite(
-            satellite.orbit.to_tle().tle[0],
-            satellite.orbit.to_tle().tle[1],
-            satellite.name,
-        )
-        for satellite in satellites
+    # propagate the orbit of each satellite
+    orbit_tracks = [
+        satellite.orbit.to_tle().get_orbit_track(times) for satellite in satellites
     ]
 
     # construct skyfield times for each datetime
@@ -71,7 +66,9 @@ def compute_dop(
     sk_position = wgs84.latlon(point.latitude, point.longitude, point.elevation)
 
     # compute elevation/azimuth angles and range
-    altazs = [(sk_sat - sk_position).at(sk_times).altaz() for sk_sat in sk_sats]
+    altazs = [
+        (orbit_track - sk_position.at(sk_times)).altaz() for orbit_track in orbit_tracks
+    ]
     el = np.array(list(map(lambda i: i[0].radians, altazs)))
     az = np.array(list(map(lambda i: i[1].radians, altazs)))
     r = np.array(list(map(lambda i: i[2].m, altazs)))
-- 
2.43.0


From cca7ee449f8d0c788d580fc32b1aad35a2386f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:05 +0000
Subject: [PATCH 32/46] fix: keep the masked orbit track in time order and in
 any coordinate system

---
 src/tatc/analysis/track.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 3ff3274..7e4b07f 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -231,8 +231,6 @@ def collect_orbit_track(
         sun = de421["earth"].at(orbit_track.t).observe(de421["sun"]).position.m
         beta = np.pi / 2 - angle_between(plane_normal, sun)
         track["solar_beta"] = np.degrees(beta)
-    if mask is not None:
-        track = gpd.clip(track, mask).reset_index(drop=True)
     return track
 
 
-- 
2.43.0


From 40b387a725b4e65ef38f09b1b2688b5fc7e99c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:08 +0000
Subject: [PATCH 33/46] fix: compute the footprint and pixels of a track with a
 single time

---
 src/tatc/schemas/instrument.py | 4 +++-
 src/tatc/utils.py              | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/instrument.py b/src/tatc/schemas/instrument.py
index a64db7a..b9cf6b2 100644
--- a/src/tatc/schemas/instrument.py
+++ b/src/tatc/schemas/instrument.py
@@ -407,7 +407,9 @@ class PointedInstrument(Instrument):
         return MultiPoint(
             [
                 Point(
-                    point.longitude.degrees, point.latitude.degrees, point.elevation.m
+                    np.ravel(point.longitude.degrees)[0],
+                    np.ravel(point.latitude.degrees)[0],
+                    np.ravel(point.elevation.m)[0],
                 )
                 for point in points
             ]
diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 166a252..a6000db 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -633,7 +633,13 @@ def compute_footprint(
     return project_polygon_to_elevation(
         split_polygon(
             Polygon(
-                [(point.longitude.degrees, point.latitude.degrees) for point in points]
+                [
+                    (
+                        np.ravel(point.longitude.degrees)[0],
+                        np.ravel(point.latitude.degrees)[0],
+                    )
+                    for point in points
+                ]
             )
         ),
         elevation,
-- 
2.43.0


From 5aa34b42c588c43d99ca46d4c26d2965d54f9ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:57 +0000
Subject: [PATCH 34/46] fix: never cull footprints that meet the mask

---
 src/tatc/analysis/track.py | 139 ++++++++++++++++++-------------------
 1 file changed, 66 insertions(+), 73 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 7e4b07f..7204e0b 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -6,7 +6,7 @@ Methods to generate coverage statistics.
 """
 
 from typing import List, Union, Optional
-from datetime import datetime, timedelta
+from datetime import datetime
 from enum import Enum
 
 import pandas as pd
@@ -15,12 +15,14 @@ import geopandas as gpd
 from skyfield.api import wgs84
 from skyfield.framelib import itrs
 from skyfield.functions import angle_between
+from skyfield.positionlib import Geocentric
 
 from shapely.geometry import (
     Polygon,
     MultiPolygon,
     Point,
     LineString,
+    box,
 )
 from shapely.ops import clip_by_rect, split
 import pyproj
@@ -29,7 +31,6 @@ from ..schemas.instrument import PointedInstrument
 from ..schemas.satellite import Satellite
 from ..utils import (
     buffer_footprint,
-    buffer_target,
     field_of_regard_to_swath_width,
 )
 from ..constants import de421, EARTH_MEAN_RADIUS, timescale
@@ -282,6 +283,56 @@ def _get_utm_epsg_code(point: Point, swath_width: float) -> str:
     )
 
 
+def _get_mask_in_view(
+    orbit_track: Geocentric,
+    field_of_regard: float,
+    elevation: float,
+    mask: Union[Polygon, MultiPolygon, gpd.GeoDataFrame, gpd.GeoSeries],
+) -> List[bool]:
+    """
+    Determine when a mask may be in view to support culling operations. Compares
+    the mask to the bounding box of the area visible within the field of regard
+    (180 degrees for the limb) with a margin for map projections.
+
+    Args:
+        orbit_track (skyfield.positionlib.Geocentric): The satellite position/velocity.
+        field_of_regard (float): The angular width (degrees) of observation.
+        elevation (float): The elevation (meters) above the datum in the
+                WGS 84 coordinate system to observe.
+        mask (Polygon, MultiPolygon, geopandas.GeoDataFrame, geopandas.GeoSeries):
+                The mask to view.
+
+    Returns:
+        List[bool]: `True`, if the mask may be in view.
+    """
+    ssp = wgs84.geographic_position_of(orbit_track)
+    results = []
+    for longitude, latitude, altitude in zip(
+        ssp.longitude.degrees, ssp.latitude.degrees, ssp.elevation.m
+    ):
+        # angular radius (degrees) of the view, including margin
+        radius = 0.5 + 1.05 * np.degrees(
+            field_of_regard_to_swath_width(altitude, field_of_regard, elevation)
+            / 2
+            / (EARTH_MEAN_RADIUS + elevation)
+        )
+        south, north = max(latitude - radius, -90), min(latitude + radius, 90)
+        if np.abs(latitude) + radius >= 90:
+            # the view includes a pole and, hence, all longitudes
+            views = [box(-180, south, 180, north)]
+        else:
+            width = np.degrees(
+                np.arcsin(np.sin(np.radians(radius)) / np.cos(np.radians(latitude)))
+            )
+            # repeat the view on the other side of the antimeridian
+            views = [
+                box(longitude + i - width, south, longitude + i + width, north)
+                for i in (-360, 0, 360)
+            ]
+        results.append(any(np.any(mask.intersects(view)) for view in views))
+    return results
+
+
 def collect_ground_track(
     satellite: Satellite,
     times: List[datetime],
@@ -330,36 +381,17 @@ def collect_ground_track(
     # select the observing instrument
     instrument = satellite.instruments[instrument_index]
     if mask is not None and len(times) > 1:
-        ssp = wgs84.geographic_position_of(orbit_track)
-        buffered_mask = buffer_target(
-            geometry=(
-                mask
-                if isinstance(mask, (Polygon, MultiPolygon))
-                else (
-                    mask.dissolve().iloc[0].geometry
-                    if isinstance(mask, gpd.GeoDataFrame)
-                    else mask.iloc[0]
-                )
-            ),
-            altitude=satellite.orbit.to_tle().get_altitude(),
-            inclination=satellite.orbit.to_tle().get_inclination(),
-            field_of_regard=instrument.field_of_regard,
-            time_step=np.diff(times).mean() / timedelta(seconds=1),
+        # cull orbit track to times with the mask in view
+        mask_in_view = _get_mask_in_view(
+            orbit_track,
+            180 if crs == "spice" else instrument.field_of_regard,
+            elevation,
+            mask,
         )
-        # cull orbit track with buffered mask
-        buffered_mask_contains_ssp = [
-            (
-                any(buffered_mask.contains(Point(longitude, latitude)))
-                if isinstance(buffered_mask, (gpd.GeoDataFrame, gpd.GeoSeries))
-                else buffered_mask.contains(Point(longitude, latitude))
-            )
-            for (longitude, latitude) in zip(
-                ssp.longitude.degrees, ssp.latitude.degrees
-            )
-        ]
-        if not any(buffered_mask_contains_ssp):
+        if not any(mask_in_view):
             return _get_empty_ground_track()
-        orbit_track = orbit_track[buffered_mask_contains_ssp]
+        orbit_track = orbit_track[mask_in_view]
+    if mask is not None and len(times) > 1 and crs == "spice":
         # compute footprint for culling
         footprint = instrument.compute_footprint(orbit_track, elevation=elevation)
         # cull orbit track to observable footprint
@@ -651,50 +683,11 @@ def collect_ground_pixels(
             "Ground pixels are only compatible with rectangular PointedInstrument instances"
         )
     if mask is not None and len(times) > 1:
-        ssp = wgs84.geographic_position_of(orbit_track)
-        buffered_mask = buffer_target(
-            geometry=(
-                mask
-                if isinstance(mask, (Polygon, MultiPolygon))
-                else (
-                    mask.dissolve().iloc[0].geometry
-                    if isinstance(mask, gpd.GeoDataFrame)
-                    else mask.iloc[0]
-                )
-            ),
-            altitude=satellite.orbit.to_tle().get_altitude(),
-            inclination=satellite.orbit.to_tle().get_inclination(),
-            field_of_regard=instrument.field_of_regard,
-            time_step=np.diff(times).mean() / timedelta(seconds=1),
-        )
-        # cull orbit track with buffered mask
-        buffered_mask_contains_ssp = [
-            (
-                any(buffered_mask.contains(Point(longitude, latitude)))
-                if isinstance(buffered_mask, (gpd.GeoDataFrame, gpd.GeoSeries))
-                else buffered_mask.contains(Point(longitude, latitude))
-            )
-            for (longitude, latitude) in zip(
-                ssp.longitude.degrees, ssp.latitude.degrees
-            )
-        ]
-        if not any(buffered_mask_contains_ssp):
+        # cull orbit track to times with the mask in view
+        mask_in_view = _get_mask_in_view(orbit_track, 180, elevation, mask)
+        if not any(mask_in_view):
             return _get_empty_ground_track()
-        orbit_track = orbit_track[buffered_mask_contains_ssp]
-        # compute footprint for culling
-        footprint = instrument.compute_footprint(orbit_track, elevation=elevation)
-        # cull orbit track to observable footprint
-        mask_intersects_footprint = [
-            (
-                any(mask.intersects(f))
-                if isinstance(mask, (gpd.GeoDataFrame, gpd.GeoSeries))
-                else mask.intersects(f)
-            )
-            for f in (footprint if isinstance(footprint, list) else [footprint])
-        ]
-        if not any(mask_intersects_footprint):
-            return _get_empty_ground_track()
-        orbit_track = orbit_track[mask_intersects_footprint]
+        orbit_track = orbit_track[mask_in_view]
     # compute the footprint pixel array
     geometries = instrument.compute_footprint_pixel_array(
         orbit_track,
-- 
2.43.0


From 891fb92960814ed94340a9a0b6ccd5bb6ef02cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:26 +0000
Subject: [PATCH 35/46] fix: keep masked ground tracks and pixels in time order

---
 src/tatc/analysis/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 7204e0b..4cdea3b 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -494,7 +494,7 @@ def collect_ground_track(
         track["solar_az"] = solar_altaz[1].degrees
 
     if mask is not None:
-        track = gpd.clip(track, mask).reset_index(drop=True)
+        track = gpd.clip(track, mask).sort_index().reset_index(drop=True)
     return track
 
 
@@ -632,7 +632,7 @@ def compute_ground_track(
         # and replace the geometry with the union of computed polygons
         track.geometry = polygons
         if mask is not None:
-            track = gpd.clip(track, mask).reset_index(drop=True)
+            track = gpd.clip(track, mask).sort_index().reset_index(drop=True)
         if dissolve_orbits:
             track = track.dissolve()
         return track
@@ -743,5 +743,5 @@ def collect_ground_pixels(
         gdf["solar_az"] = list(map(lambda altaz: altaz[1].degrees, solar_altaz))
 
     if mask is not None:
-        gdf = gpd.clip(gdf, mask).reset_index(drop=True)
+        gdf = gpd.clip(gdf, mask).sort_index().reset_index(drop=True)
     return gdf
-- 
2.43.0


From d34813e8239d8cd692f4bf055fb7e34b7cf48f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:02 +0000
Subject: [PATCH 36/46] fix: cover the whole path with the line method across
 the antimeridian

---
 src/tatc/analysis/track.py | 88 +++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 48 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 4cdea3b..72abe05 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -22,9 +22,11 @@ from shapely.geometry import (
     MultiPolygon,
     Point,
     LineString,
+    MultiLineString,
     box,
 )
-from shapely.ops import clip_by_rect, split
+from shapely.affinity import translate
+from shapely.ops import clip_by_rect, split, unary_union
 import pyproj
 
 from ..schemas.instrument import PointedInstrument
@@ -573,60 +575,50 @@ def compute_ground_track(
         )
         # filter to valid observations
         track = track[track.valid_obs].reset_index(drop=True)
-        segments = []
-        swath_widths = []
+        to_crs = pyproj.Transformer.from_crs(track.crs, pyproj.CRS(crs), always_xy=True)
+        from_crs = pyproj.Transformer.from_crs(
+            pyproj.CRS(crs), track.crs, always_xy=True
+        )
+        # meridians to split lines into pieces of at most 180 degrees
+        meridians = MultiLineString(
+            [[(lon, -180), (lon, 180)] for lon in range(-720, 721, 180)]
+        )
+        polygons = []
         for _, sub_track in track.groupby(["orbit_id", "track_id"]):
-            # project points to specified elevation
-            points = sub_track.geometry.apply(lambda p: Point(p.x, p.y, elevation))
             # extract longitudes
             lon = sub_track.geometry.apply(lambda p: p.x)
-            # extract average swath width
-            swath_widths.append(sub_track.swath_width.mean())
-            # no anti-meridian crossings if all absolute longitude differences
-            # are less than 180 deg
-            if np.all(np.abs(np.diff(lon)) < 180):
-                segments.append(LineString(points))
-            else:
-                # find anti-meridian crossings and calculate shift direction
-                # coords from W -> E (shift < 0) will add 360 degrees to E component
-                # coords from E -> W (shift > 0) will subtract 360 degrees from W component
-                shift = np.insert(np.cumsum(np.around(np.diff(lon) / 360)), 0, 0)
-                points = [
-                    Point(p.x - 360 * shift[i], p.y, p.z) for i, p in enumerate(points)
-                ]
-                # split along the anti-meridian (-180 for shift > 0; 180 for shift < 0)
-                shift_dir = -180 if shift.max() >= 1 else 180
-                collection = split(
-                    LineString(points),
-                    LineString([(shift_dir, -180), (shift_dir, 180)]),
-                )
-                # map longitudes from (-540, -180] to (-180, 180] and from [180, 540) to [-180, 180)
-                segments.extend(
+            # find anti-meridian crossings and calculate shift direction
+            # coords from W -> E (shift < 0) will add 360 degrees to E component
+            # coords from E -> W (shift > 0) will subtract 360 degrees from W component
+            shift = np.insert(np.cumsum(np.around(np.diff(lon) / 360)), 0, 0)
+            # project points to specified elevation
+            points = [
+                Point(p.x - 360 * shift[i], p.y, elevation)
+                for i, p in enumerate(sub_track.geometry)
+            ]
+            # split along the meridians
+            pieces = (
+                split(LineString(points), meridians).geoms
+                if len(points) > 1
+                else points
+            )
+            # map the pieces to longitudes in [-180, 180] and buffer
+            polygons.append(
+                unary_union(
                     [
-                        (
-                            LineString([(c[0] + 360, c[1], c[2]) for c in line.coords])
-                            if np.all([c[0] <= -180 for c in line.coords])
-                            else (
-                                LineString(
-                                    [(c[0] - 360, c[1], c[2]) for c in line.coords]
-                                )
-                                if np.all([c[0] >= 180 for c in line.coords])
-                                else LineString(
-                                    [(c[0], c[1], c[2]) for c in line.coords]
-                                )
-                            )
+                        buffer_footprint(
+                            translate(
+                                piece, -360 * np.floor((piece.centroid.x + 180) / 360)
+                            ),
+                            to_crs,
+                            from_crs,
+                            sub_track.swath_width.mean(),
+                            elevation,
                         )
-                        for line in collection.geoms
+                        for piece in pieces
                     ]
                 )
-        to_crs = pyproj.Transformer.from_crs(track.crs, pyproj.CRS(crs), always_xy=True)
-        from_crs = pyproj.Transformer.from_crs(
-            pyproj.CRS(crs), track.crs, always_xy=True
-        )
-        polygons = [
-            buffer_footprint(segment, to_crs, from_crs, swath_width, elevation)
-            for segment, swath_width in zip(segments, swath_widths)
-        ]
+            )
         # dissolve the original track
         track = track.dissolve(by=["orbit_id", "track_id"]).reset_index(drop=True)
         # and replace the geometry with the union of computed polygons
-- 
2.43.0


From f6e7a4d1310bcaa61e4bfeeb33f0ed7c0ac7e39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:04 +0000
Subject: [PATCH 37/46] fix: merge polygon parts that overlap after wrapping
 over a pole

---
 src/tatc/utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index a6000db..702e00e 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -21,7 +21,7 @@ from shapely.geometry import (
     GeometryCollection,
     LineString,
 )
-from shapely.ops import split, transform
+from shapely.ops import split, transform, unary_union
 from skyfield.api import wgs84
 from skyfield.framelib import itrs
 from skyfield.toposlib import GeographicPosition
@@ -1187,8 +1187,15 @@ def split_polygon(
     )
     # invalid polygons can arise from narrow sensor geometries in polar regions
     if not polygon.is_valid:
-        # try to fix geometry
-        polygon = make_valid(polygon)
+        # try to fix geometry, merging parts that overlap after wrapping
+        polygon = unary_union(
+            [
+                make_valid(p)
+                for p in (
+                    polygon.geoms if isinstance(polygon, MultiPolygon) else [polygon]
+                )
+            ]
+        )
         if isinstance(polygon, GeometryCollection):
             polygon = _convert_collection_to_polygon(polygon)
         elif not isinstance(polygon, (Polygon, MultiPolygon)):
-- 
2.43.0


From a61640ca7be37449d3652e090de2a71085d20eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:49 +0000
Subject: [PATCH 38/46] fix: accept any maximum yaw angle for radio
 occultations

---
 src/tatc/analysis/ro_coverage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index f68639b..b53061f 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -124,7 +124,10 @@ def _collect_ro_series(
     # occultation arc
     occ_arc = None
     # valid if tangent point intersects and yaw angle below maximum
-    valid = np.logical_and(tp_sign < 0, np.abs(rx_tx_yaw) % (180 - max_yaw) < max_yaw)
+    valid = np.logical_and(
+        tp_sign < 0,
+        np.minimum(np.abs(rx_tx_yaw), 180 - np.abs(rx_tx_yaw)) < max_yaw,
+    )
     # events occur when validity changes value
     is_event = np.diff(valid)
     # loop over valid times
-- 
2.43.0


From ad67d42beb968ca13f1ee3bc721df4fe227ee514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:49 +0000
Subject: [PATCH 39/46] fix: return no radio occultations for no times

---
 src/tatc/analysis/ro_coverage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index b53061f..bd48893 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -223,6 +223,8 @@ def collect_ro_observations(
         max_yaw (float): the maximum transmitter yaw angle (from receiver body-fixed frame) for a valid obsevation.
         range_elevation: (typing.Tuple[float]): the lower and upper bound on tangent point elevation (m) for a valid observation.
     """
+    if len(times) == 0:
+        return _get_empty_ro_frame()
     # receiver position, velocity
     rx_pv = receiver.orbit.to_tle().get_orbit_track(times)
     # unit vector tangent to receiver orbit plane (VNB x-axis)
-- 
2.43.0


From 7782085192560bc57acb4388ebd96fe824cb8e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:49 +0000
Subject: [PATCH 40/46] fix: compute the transmitter azimuth from the
 propagated transmitter position

---
 src/tatc/analysis/ro_coverage.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index bd48893..96a540f 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -155,10 +155,7 @@ def _collect_ro_series(
 
             # azimuth of transmitter from geodetic tangent point (clockwise from North)
             tp_tx_azmimuth = (
-                (transmitter.orbit.to_tle().as_skyfield() - tpp_geo)
-                .at(timescale.from_datetime(times[j]))
-                .altaz()[1]
-                .degrees
+                (tx_pv[j] - tpp_geo.at(tpp_pv.t)).altaz()[1].degrees
             )
 
             occ_arc["points"].append(
-- 
2.43.0


From 78dc61334b67c3f35d158e69c807755f51352458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:50 +0000
Subject: [PATCH 41/46] fix: report every unusable configuration file as
 configuration error

---
 src/tatc/config.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/tatc/config.py b/src/tatc/config.py
index 86aeaee..13e9623 100644
--- a/src/tatc/config.py
+++ b/src/tatc/config.py
@@ -9,7 +9,6 @@ import os
 import pathlib
 
 import yaml
-from yaml.parser import ParserError
 from pydantic import BaseModel, Field, ValidationError
 
 
@@ -72,13 +71,16 @@ def load_yaml_config(path: pathlib.Path):
     """
     if not os.path.exists(path):
         raise ConfigError("Couldn't load config file (not found)")
-    with open(path, "r", encoding="utf-8") as f:
-        try:
+    try:
+        with open(path, "r", encoding="utf-8") as f:
             config = yaml.safe_load(f)
-        except ParserError as err:
-            raise ConfigError(f"Couldn't parse config file - {err}") from err
+    except OSError as err:
+        raise ConfigError(f"Couldn't load config file - {err}") from err
+    except Exception as err:  # pylint: disable=W0718
+        # malformed content raises errors other than YAMLError
+        raise ConfigError(f"Couldn't parse config file - {err}") from err
     try:
-        return RuntimeConfiguration(**config)
+        return RuntimeConfiguration.model_validate(config)
     except ValidationError as err:
         raise ConfigError(f"Couldn't validate config file - {err}") from err
 
-- 
2.43.0


From 96f5a70e830d676b1090ed6a4045ee0dbe05d11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:09 +0000
Subject: [PATCH 42/46] fix: keep pointed instrument settings when serializing
 space systems

---
 src/tatc/schemas/satellite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/satellite.py b/src/tatc/schemas/satellite.py
index e7ba25f..7b7f94d 100644
--- a/src/tatc/schemas/satellite.py
+++ b/src/tatc/schemas/satellite.py
@@ -22,7 +22,7 @@ from tatc.utils import (
     compute_min_elevation_angle,
 )
 from ..constants import EARTH_MEAN_RADIUS
-from .instrument import Instrument
+from .instrument import Instrument, PointedInstrument
 from .orbit import TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit
 
 
@@ -39,7 +39,7 @@ class SpaceSystem(BaseModel):
     orbit: Union[
         TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit
     ] = Field(..., description="Orbit specification.")
-    instruments: List[Instrument] = Field(
+    instruments: List[Union[PointedInstrument, Instrument]] = Field(
         [Instrument()], min_length=1, description="List of assigned instruments."
     )
 
-- 
2.43.0


From 41d86b35ec9b768ab28f428c52a1245232247d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:09 +0000
Subject: [PATCH 43/46] fix: keep streets-of-coverage constellations in
 architectures

---
 src/tatc/schemas/architecture.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/architecture.py b/src/tatc/schemas/architecture.py
index e82f4ab..e22a543 100644
--- a/src/tatc/schemas/architecture.py
+++ b/src/tatc/schemas/architecture.py
@@ -14,6 +14,7 @@ from .satellite import (
     TrainConstellation,
     WalkerConstellation,
     MOGConstellation,
+    SOCConstellation,
 )
 from .point import GroundStation
 
@@ -25,7 +26,13 @@ class Architecture(BaseModel):
 
     name: str = Field(..., description="Name of this mission.")
     satellites: List[
-        Union[Satellite, TrainConstellation, WalkerConstellation, MOGConstellation]
+        Union[
+            Satellite,
+            TrainConstellation,
+            WalkerConstellation,
+            MOGConstellation,
+            SOCConstellation,
+        ]
     ] = Field([], description="List of member space systems.")
     stations: List[GroundStation] = Field(
         [], description="List of member ground stations."
-- 
2.43.0


From f8d0b1b4ddc182870fd2130157ccc8d4e7910549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:53 +0000
Subject: [PATCH 44/46] fix: discard lazy-loaded orbit values when fields
 change

---
 src/tatc/schemas/orbit.py | 58 +++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 1a978ae..ae01ba7 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -39,7 +39,37 @@ def _parse_exponential(value: str) -> float:
     return float(value[0] + "0." + value[1:6].replace(" ", "0")) * 10 ** int(value[6:])
 
 
-class TwoLineElements(BaseModel):
+class _LazyLoadModel(BaseModel):
+    """
+    Base class for models which lazy-load computed values. A value is only loaded
+    while the fields from which it was computed have not changed.
+    """
+
+    def _get_lazy_loaded(self, name: str):
+        """
+        Gets a previously-computed value, if still valid for the current fields.
+
+        Args:
+            name (str): the name of the computed value.
+
+        Returns:
+            Any: the computed value (or None)
+        """
+        fields, value = self.__dict__.get(name, (None, None))
+        return value if fields == self.model_dump() else None
+
+    def _set_lazy_loaded(self, name: str, value) -> None:
+        """
+        Sets a computed value to be lazy-loaded for the current fields.
+
+        Args:
+            name (str): the name of the computed value.
+            value (Any): the computed value.
+        """
+        self.__dict__[name] = (self.model_dump(), value)
+
+
+class TwoLineElements(_LazyLoadModel):
     """
     Orbit defined with standard two line elements.
     """
@@ -415,13 +445,13 @@ class TwoLineElements(BaseModel):
         if at_times is None:
             return 0
         # lazy-load epochs
-        tle_epochs = self.__dict__.get("tle_epochs")
+        tle_epochs = self._get_lazy_loaded("tle_epochs")
         if tle_epochs is None:
             # extract the orbit epoch time
             tle_epochs = np.array(
                 [self.get_epoch(i) for i in range(self.get_tle_count())]
             )
-            self.__dict__["tle_epochs"] = tle_epochs
+            self._set_lazy_loaded("tle_epochs", tle_epochs)
         # handle scalar
         if isinstance(at_times, datetime):
             idx = np.searchsorted(tle_epochs, at_times, side="left")
@@ -518,7 +548,7 @@ class TwoLineElements(BaseModel):
             lazy_load = config.rc.repeat_cycle_lazy_load
 
         if lazy_load:
-            repeat_cycle = self.__dict__.get("repeat_cycle")
+            repeat_cycle = self._get_lazy_loaded("repeat_cycle")
         else:
             repeat_cycle = None
         if repeat_cycle is None:
@@ -557,7 +587,7 @@ class TwoLineElements(BaseModel):
             else:
                 # assign zero repeat cycle value to avoid recalculation
                 repeat_cycle = timedelta(0)
-            self.__dict__["repeat_cycle"] = repeat_cycle
+            self._set_lazy_loaded("repeat_cycle", repeat_cycle)
         if repeat_cycle > timedelta(0):
             return repeat_cycle
         return None
@@ -709,7 +739,7 @@ class TwoLineElements(BaseModel):
         return self
 
 
-class OrbitBase(BaseModel):
+class OrbitBase(_LazyLoadModel):
     """
     Base class for orbits.
     """
@@ -810,7 +840,7 @@ class CircularOrbit(OrbitBase):
         if lazy_load is None:
             lazy_load = config.rc.orbit_tle_lazy_load
         if lazy_load:
-            tle = self.__dict__.get("tle")
+            tle = self._get_lazy_loaded("tle")
         else:
             tle = None
         if tle is None:
@@ -821,7 +851,7 @@ class CircularOrbit(OrbitBase):
                 inclination=self.inclination,
                 right_ascension_ascending_node=self.right_ascension_ascending_node,
             ).to_tle()
-            self.__dict__["tle"] = tle
+            self._set_lazy_loaded("tle", tle)
         return tle
 
 
@@ -923,7 +953,7 @@ class SunSynchronousOrbit(OrbitBase):
         if lazy_load is None:
             lazy_load = config.rc.orbit_tle_lazy_load
         if lazy_load:
-            tle = self.__dict__.get("tle")
+            tle = self._get_lazy_loaded("tle")
         else:
             tle = None
         if tle is None:
@@ -934,7 +964,7 @@ class SunSynchronousOrbit(OrbitBase):
                 true_anomaly=self.true_anomaly,
                 epoch=self.epoch,
             ).to_tle()
-            self.__dict__["tle"] = tle
+            self._set_lazy_loaded("tle", tle)
         return tle
 
 
@@ -1002,7 +1032,7 @@ class KeplerianOrbit(CircularOrbit):
         if lazy_load is None:
             lazy_load = config.rc.orbit_tle_lazy_load
         if lazy_load:
-            tle = self.__dict__.get("tle")
+            tle = self._get_lazy_loaded("tle")
         else:
             tle = None
         if tle is None:
@@ -1025,7 +1055,7 @@ class KeplerianOrbit(CircularOrbit):
             )
             tle1, tle2 = exporter.export_tle(satrec)
             tle = TwoLineElements(tle=[tle1.replace("\x00", "U"), tle2])
-            self.__dict__["tle"] = tle
+            self._set_lazy_loaded("tle", tle)
         return tle
 
 
@@ -1121,7 +1151,7 @@ class MolniyaOrbit(OrbitBase):
         if lazy_load is None:
             lazy_load = config.rc.orbit_tle_lazy_load
         if lazy_load:
-            tle = self.__dict__.get("tle")
+            tle = self._get_lazy_loaded("tle")
         else:
             tle = None
         if tle is None:
@@ -1144,7 +1174,7 @@ class MolniyaOrbit(OrbitBase):
             )
             tle1, tle2 = exporter.export_tle(satrec)
             tle = TwoLineElements(tle=[tle1.replace("\x00", "U"), tle2])
-            self.__dict__["tle"] = tle
+            self._set_lazy_loaded("tle", tle)
         return tle
 
 
-- 
2.43.0


From 5ed539f7b240c3eba5f40ac9880e23f999d91aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:23 +0000
Subject: [PATCH 45/46] fix: match observations and downlinks with different
 time resolutions

---
 src/tatc/analysis/latency.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index 05d4d63..216214f 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -137,9 +137,18 @@ def compute_latencies(
         return _get_empty_latency_frame()
 
     # merge observations with downlinks to find matching satellite downlinks
+    # (merge keys must have the same time zone and resolution)
     obs = pd.merge_asof(
-        observations.sort_values(by="end"),
-        downlinks.sort_values(by="start"),
+        observations.assign(
+            end=pd.to_datetime(observations["end"], utc=True).astype(
+                "datetime64[ns, UTC]"
+            )
+        ).sort_values(by="end"),
+        downlinks.assign(
+            start=pd.to_datetime(downlinks["start"], utc=True).astype(
+                "datetime64[ns, UTC]"
+            )
+        ).sort_values(by="start"),
         by="satellite",
         left_on="end",
         right_on="start",
-- 
2.43.0


From 48771a71d716be5f92094aac2209b8cbd25cf715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:00 +0000
Subject: [PATCH 46/46] fix: preserve region of pole-enclosing polygons with
 re-entrant rings and holes

---
 src/tatc/utils.py | 69 ++++++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 27 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 702e00e..064c65d 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -14,12 +14,14 @@ from pyproj import Transformer
 from sgp4.conveniences import sat_epoch_datetime
 from sgp4.api import Satrec
 from shapely import Geometry, make_valid, simplify
+from shapely.affinity import translate
 from shapely.geometry import (
     Point,
     Polygon,
     MultiPolygon,
     GeometryCollection,
     LineString,
+    box,
 )
 from shapely.ops import split, transform, unary_union
 from skyfield.api import wgs84
@@ -1098,37 +1100,50 @@ def _split_polygon_antimeridian(
         is_crossing = any(np.abs(np.diff(lon)) >= 180)
         if not is_crossing and all(np.abs(lon) <= 180):
             return polygon
-        # check if this polygon contains a pole
-        if is_crossing and Polygon(
-            zip(np.cos(np.radians(lon)), np.sin(np.radians(lon)))
-        ).contains(Point(0, 0)):
-            # extract and sort coords by longitude
-            coords = polygon.exterior.coords[0:-1]
-            coords.sort(key=lambda r: r[0])
-            # determine if contains north or south pole based on sign of mean latitude
-            n_s = 1 if np.array(coords)[:, 1].mean() > 0 else -1
-            # interpolate latitude at antimeridian
-            lat = np.interp(
-                180, [coords[-1][0], coords[0][0] + 360], [coords[-1][1], coords[0][1]]
-            )
-            # reconstruct polygon (ccw) with added coords on antimeridian
-            # TODO potential problem if provided polygon has z-dimension
-            pgon = Polygon(
-                [(-180, 90 * n_s), (-180, lat)]
-                + coords
-                + [(180, lat), (180, 90 * n_s), (-180, 90 * n_s)],
-                polygon.interiors,
-            )
-            # return polygon split down prime meridian to improve handling
-            parts = split(pgon, LineString([(0, -180), (0, 180)]))
-            # convert to multi polygon
-            if isinstance(parts, GeometryCollection):
-                parts = _convert_collection_to_polygon(parts)
-            return parts
         # find anti-meridian crossings and calculate shift direction
         # coords from W -> E (shift < 0) will add 360 degrees to E component
         # coords from E -> W (shift > 0) will subtract 360 degrees from W component
         shift = np.insert(np.cumsum(np.around(np.diff(lon) / 360)), 0, 0)
+        # check if this polygon contains a pole (runs around the full globe)
+        if shift[-1] != 0:
+            # extract coords with continuous longitudes
+            coords = [
+                (c[0] - 360 * shift[i], c[1])
+                for i, c in enumerate(polygon.exterior.coords)
+            ]
+            # determine if contains north or south pole based on sign of mean latitude
+            n_s = 1 if np.array(coords[:-1])[:, 1].mean() > 0 else -1
+            # reorder coords to start and end at the closest approach to the pole
+            start = np.argmax([c[1] * n_s for c in coords])
+            coords = coords[start:] + [
+                (c[0] - 360 * shift[-1], c[1]) for c in coords[1 : start + 1]
+            ]
+            # reconstruct polygon with added coords on pole
+            pgon = make_valid(
+                Polygon(coords + [(coords[-1][0], 90 * n_s), (coords[0][0], 90 * n_s)])
+            )
+            # return polygon split down antimeridian and prime meridian to improve handling
+            parts = [
+                unary_union(
+                    [
+                        translate(pgon, 360 * i).intersection(
+                            box(left, -180, left + 180, 180)
+                        )
+                        for i in range(-3, 4)
+                    ]
+                )
+                for left in (-180, 0)
+            ]
+            # remove interiors, which can also cross the antimeridian or contain the pole
+            for i in polygon.interiors:
+                hole = make_valid(_split_polygon_antimeridian(Polygon(i)))
+                parts = [part.difference(hole) for part in parts]
+            # convert to multi polygon
+            return _convert_collection_to_polygon(
+                GeometryCollection(
+                    [g for part in parts for g in getattr(part, "geoms", [part])]
+                )
+            )
         pgon = Polygon(
             [
                 (c[0] - 360 * shift[i], c[1])
-- 
2.43.0


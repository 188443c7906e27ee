From 8d75531babdac9d24c8549bbb3a767b39349f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 01/44] fix: do not turn zero fluxes into NaN in stability
 correction

---
 src/wam2layers/tracking/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index ab99bda..dbda23d 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -154,8 +154,8 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         progress_tracker.track_stability_correction(fy_stable, fy_abs, config, t)
 
         # Get rid of any nan values
-        fx_stable.fillna(0)
-        fy_stable.fillna(0)
+        fx_stable = fx_stable.fillna(0)
+        fy_stable = fy_stable.fillna(0)
 
         # Re-instate the sign and convert back to flux instead of accumulation
         F["fx_" + level] = np.sign(fx) * fx_stable / config.timestep
-- 
2.43.0


From 8054421e4ba8fa1811c1ffe950a6fc5b36776156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 02/44] fix: use the latitude spacing for the meridional extent
 of grid cells

---
 src/wam2layers/utils/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 812eb15..6f14f95 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -51,8 +51,8 @@ def get_grid_info(ds):
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-    lat_n = np.minimum(90.0, latitude + 0.5 * dx_deg)
-    lat_s = np.maximum(-90.0, latitude - 0.5 * dx_deg)
+    lat_n = np.minimum(90.0, latitude + 0.5 * dy_deg)
+    lat_s = np.maximum(-90.0, latitude - 0.5 * dy_deg)
 
     a = (
         np.pi
@@ -64,8 +64,8 @@ def get_grid_info(ds):
 
     # Calculate faces
     dy = dy_deg * dg  # [m] grid spacing in meridional direction
-    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dx_deg / 2) * np.pi / 180)
-    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dx_deg / 2) * np.pi / 180)
+    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dy_deg / 2) * np.pi / 180)
+    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dy_deg / 2) * np.pi / 180)
     dx = 0.5 * (dx_n_gridcell + dx_s_gridcell)  # [m] grid spacing in zonal direction
     return a, dy, dx[:, None]
 
-- 
2.43.0


From ce5cef5a58344028c817fa87669a86627ba932ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 03/44] fix: grid spacing if the antimeridian lies between the
 first two columns

---
 src/wam2layers/utils/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 6f14f95..14bd6e3 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -48,6 +48,7 @@ def get_grid_info(ds):
     latitude = ds.latitude.values
     longitude = ds.longitude.values
     dx_deg = np.abs(longitude[1] - longitude[0])  # [degrees]
+    dx_deg = np.minimum(dx_deg, 360.0 - dx_deg)  # may cross the antimeridian
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-- 
2.43.0


From 9f1bf1b539e925ee86675613068503c0c3ea5163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 04/44] fix: vertical flux closure across the seam of periodic
 domains

---
 src/wam2layers/tracking/backtrack.py    |  4 +++-
 src/wam2layers/tracking/core.py         | 15 ++++++++++-----
 src/wam2layers/tracking/forwardtrack.py |  4 +++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index c81d5f7..c9b5695 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -194,7 +194,9 @@ def run_experiment(config_file: Config):
         stabilize_fluxes(F, S1, progress_tracker, config, t1)
 
         # Determine the vertical moisture flux
-        F["f_vert"] = calculate_fz(F, S0, S1, config.timestep, config.kvf)
+        F["f_vert"] = calculate_fz(
+            F, S0, S1, config.timestep, config.kvf, config.periodic_boundary
+        )
 
         # Inside backtrack the "output" dictionary is updated
         backtrack(F, S1, S0, tagging_mask, output, config)
diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index dbda23d..4864072 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -162,12 +162,16 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         F["fy_" + level] = np.sign(fy) * fy_stable / config.timestep
 
 
-def divergence(fx, fy):
+def divergence(fx, fy, periodic_x=False):
     # Note: latitude decreasing, hence negative fy gradient is divergence
-    return np.gradient(fx, axis=-1) - np.gradient(fy, axis=-2)
+    if periodic_x:
+        dfx = np.gradient(pad_x_wrap(fx), axis=-1)[:, 1:-1]
+    else:
+        dfx = np.gradient(fx, axis=-1)
+    return dfx - np.gradient(fy, axis=-2)
 
 
-def calculate_fz(F, S0, S1, dt, kvf):
+def calculate_fz(F, S0, S1, dt, kvf, periodic_x=False):
     """Calculate the vertical fluxes.
 
     The vertical flux is calculated as a closure term. Residuals are distributed
@@ -182,6 +186,7 @@ def calculate_fz(F, S0, S1, dt, kvf):
         dt: timestep
         kvf: net to gross vertical flux multiplication parameter. With the a value of 0,
             the net and gross fluxes are equal.
+        periodic_x: whether the domain is periodic in the zonal direction
 
     Returns:
         fz: vertical flux, positive downward
@@ -226,10 +231,10 @@ def calculate_fz(F, S0, S1, dt, kvf):
 
     # Evaluate all terms in the moisture balance execpt the unknown Fz and err
     foo_upper = (S1 - S0).s_upper + dt * (
-        divergence(F.fx_upper, F.fy_upper) + F.precip.values * s_rel.s_upper
+        divergence(F.fx_upper, F.fy_upper, periodic_x) + F.precip.values * s_rel.s_upper
     ) / a[:, None]
     foo_lower = (S1 - S0).s_lower + dt * (
-        divergence(F.fx_lower, F.fy_lower) + F.precip.values * s_rel.s_lower - F.evap
+        divergence(F.fx_lower, F.fy_lower, periodic_x) + F.precip.values * s_rel.s_lower - F.evap
     ) / a[:, None]
 
     # compute the resulting vertical moisture flux; the vertical velocity so
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index c3cf2ae..046b3e5 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -202,7 +202,9 @@ def run_experiment(config_file: Config):
         stabilize_fluxes(F, S0, progress_tracker, config, t0)
 
         # Determine the vertical moisture flux
-        F["f_vert"] = calculate_fz(F, S0, S1, config.timestep, config.kvf)
+        F["f_vert"] = calculate_fz(
+            F, S0, S1, config.timestep, config.kvf, config.periodic_boundary
+        )
 
         # TODO: consider changing signature to F, S0, S1
         # Inside forwardtrack the "output" dictionary is updated
-- 
2.43.0


From 9379744118949af42b7b2ea0673010d0783f7de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 05/44] fix: accept the documented daily frequency '1d'

---
 src/wam2layers/utils/calendar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/utils/calendar.py b/src/wam2layers/utils/calendar.py
index 5246a64..5ad18ee 100644
--- a/src/wam2layers/utils/calendar.py
+++ b/src/wam2layers/utils/calendar.py
@@ -96,6 +96,7 @@ def fix_deprecated_frequency(freq: str) -> str:
     deprecated_map = {
         r"(?i)^(\d*)CBH$": r"\1cbh",
         r"(?i)^(\d*)BH$": r"\1bh",
+        r"(?i)^(\d*)D$": r"\1D",
         r"(?i)^(\d*)H$": r"\1h",
         r"(?i)^(\d*)T$": r"\1min",
         r"(?i)^(\d*)S$": r"\1s",
-- 
2.43.0


From e3dedac7b663188b85cf9a5099da063f9756559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 06/44] fix: restart from the single time in the output file

---
 src/wam2layers/tracking/backtrack.py    | 7 ++++---
 src/wam2layers/tracking/forwardtrack.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index c9b5695..f8fe194 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -138,9 +138,10 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     if config.restart:
         # Reload last state from existing output
         date = config.tracking_end_date
-        ds = xr.open_dataset(output_path(date, config))
-        output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
-        output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
+        with xr.open_dataset(output_path(date, config)) as ds:
+            last = ds.isel(time=0)  # output files contain a single time
+            output["s_track_upper_restart"].values = last.s_track_upper_restart.values
+            output["s_track_lower_restart"].values = last.s_track_lower_restart.values
 
     logger.info(f"Output will be written to {config.output_folder.absolute()}.")
     return config, output, grid
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index 046b3e5..e68c6c1 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -141,9 +141,10 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     if config.restart:
         # Reload last state from existing output
         date = config.tracking_start_date
-        ds = xr.open_dataset(output_path(date, config))
-        output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
-        output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
+        with xr.open_dataset(output_path(date, config)) as ds:
+            last = ds.isel(time=0)  # output files contain a single time
+            output["s_track_upper_restart"].values = last.s_track_upper_restart.values
+            output["s_track_lower_restart"].values = last.s_track_lower_restart.values
 
     logger.info(f"Output will be written to {config.output_folder.absolute()}.")
     return config, output, grid
-- 
2.43.0


From c8c0f5c8e45eabdf85e3bc94c0c7a17f1cfe4e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 07/44] fix: include cells on the edges of domains across the
 antimeridian

---
 src/wam2layers/tracking/io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index ba93247..7d9e74e 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -54,12 +54,11 @@ def select_subdomain(ds: xr.Dataset, bbox: str):
         )
     else:
         # Need to roll coordinates to maintain a continuous longitude
-        # Roll the first lon that's NOT in the bbox to the front of the array
+        # Roll the first lon east of the western edge to the front of the array
         # That way, all values that ARE in the bbox, must be contiguous.
-        in_bbox = (ds.longitude < east) | (ds.longitude > west)
-        n_roll = in_bbox.argmin().item()  # first false value
+        n_roll = (ds.longitude < west).sum().item()
         ds_rolled = ds.roll(longitude=-n_roll, roll_coords=True)
-        in_bbox = (ds_rolled.longitude < east) | (ds_rolled.longitude > west)
+        in_bbox = (ds_rolled.longitude <= east) | (ds_rolled.longitude >= west)
         return ds_rolled.sel(longitude=in_bbox, latitude=slice(north, south))
 
 
-- 
2.43.0


From 6fbf9c6012588b30a435029fc3f4cc852be0e7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 08/44] fix: subtract numerically gained moisture in the
 tagging closure

---
 src/wam2layers/utils/profiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index 1c2ef64..df635f8 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -106,7 +106,7 @@ class ProgressTracker:
             tracked_percentage
             + in_atmos_percentage
             + lost_percentage
-            + gained_percentage
+            - gained_percentage
             + boundary_percentage
         )
 
-- 
2.43.0


From a6d15b8ec8d4d52903182cd93da8994920ca185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 09/44] fix: time bounds of output intervals shorter than the
 output frequency

---
 src/wam2layers/tracking/backtrack.py    |  4 +++-
 src/wam2layers/tracking/forwardtrack.py |  4 +++-
 src/wam2layers/tracking/io.py           | 14 +++++---------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index f8fe194..a3ca604 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -162,6 +162,7 @@ def run_experiment(config_file: Config):
     )
 
     t0, th, t1, dt = initialize_time(config, direction="backward")
+    t_previous = t1  # start of the current output interval
 
     if isinstance(config.tagging_region, Path):
         tagging_region = load_tagging_region(config)
@@ -211,7 +212,8 @@ def run_experiment(config_file: Config):
         if is_output_time or is_final_step:
             progress_tracker.print_progress(t1, output)
             progress_tracker.store_intermediate_states(output)
-            write_output(output, t1, config)
+            write_output(output, t_previous, t1, config)
+            t_previous = t1
             # Flush previous outputs
             output[["e_track", "tagged_precip", "losses", "gains"]] *= 0
 
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index e68c6c1..d78c0b3 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -165,6 +165,7 @@ def run_experiment(config_file: Config):
     )
 
     t0, th, t1, dt = initialize_time(config, direction="forward")
+    t_previous = t0  # start of the current output interval
 
     if isinstance(config.tagging_region, Path):
         tagging_region = load_tagging_region(config)
@@ -220,7 +221,8 @@ def run_experiment(config_file: Config):
         if is_output_time or is_final_step:
             progress_tracker.print_progress(t0, output)
             progress_tracker.store_intermediate_states(output)
-            write_output(output, t0, config)
+            write_output(output, t_previous, t0, config)
+            t_previous = t0
             # Flush previous outputs
             output[
                 ["p_track_upper", "p_track_lower", "tagged_evap", "losses", "gains"]
diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 7d9e74e..f75f6f4 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -8,7 +8,6 @@ from pathlib import Path
 from typing import Optional
 
 import numpy as np
-import pandas as pd
 import xarray as xr
 
 from wam2layers import __version__
@@ -154,13 +153,9 @@ def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
     return tagging_region
 
 
-def add_time_bounds(ds: xr.Dataset, t: CfDateTime, config: Config):
-    """Compute the time bounds and add them to the output dataset."""
-    dt = pd.Timedelta(config.output_frequency)
-    if config.tracking_direction == "forward":
-        ds["time_bnds"] = (("time", "bnds"), np.array(((t - dt, t),)))
-    else:
-        ds["time_bnds"] = (("time", "bnds"), np.array(((t + dt, t),)))
+def add_time_bounds(ds: xr.Dataset, t_previous: CfDateTime, t: CfDateTime):
+    """Add the bounds of the period since the previous output to the dataset."""
+    ds["time_bnds"] = (("time", "bnds"), np.array(((t_previous, t),)))
 
 
 def get_main_attrs(attrs: dict, config: Config):
@@ -188,6 +183,7 @@ def get_main_attrs(attrs: dict, config: Config):
 
 def write_output(
     output: xr.Dataset,
+    t_previous: CfDateTime,
     t: CfDateTime,
     config: Config,
 ) -> None:
@@ -202,7 +198,7 @@ def write_output(
         output[var].attrs.update(DATA_ATTRIBUTES[str(var)])
 
     add_bounds(output)
-    add_time_bounds(output, t, config)
+    add_time_bounds(output, t_previous, t)
     output.attrs = get_main_attrs(output.attrs, config)
 
     comp = dict(zlib=True, complevel=8)
-- 
2.43.0


From ac60978d2dc912e3d1ef66d5d55a38452884baee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 10/44] fix: keep the seconds of dates when writing the
 configuration

---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 5c67480..36f7999 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -605,5 +605,5 @@ class Config(BaseModel):
         jsondict = json.loads(jsonconfig)
 
         for date in dates:
-            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M")
+            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M:%S")
         return json.dumps(jsondict)
-- 
2.43.0


From bb6896c4c116efefbf842826eeb3317f981190d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 11/44] fix: do not reuse cached input slices of an earlier run

---
 src/wam2layers/tracking/backtrack.py    | 2 ++
 src/wam2layers/tracking/forwardtrack.py | 2 ++
 src/wam2layers/tracking/io.py           | 5 +++++
 3 files changed, 9 insertions(+)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index a3ca604..c2bac09 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -14,6 +14,7 @@ from wam2layers.tracking.core import (
     vertical_dispersion,
 )
 from wam2layers.tracking.io import (
+    clear_cache,
     load_data,
     load_tagging_region,
     output_path,
@@ -119,6 +120,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     logger.info(f"Initializing experiment with config file {config_file}")
 
     config = Config.from_yaml(config_file)
+    clear_cache()
 
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_end_date
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index d78c0b3..c5fa837 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -14,6 +14,7 @@ from wam2layers.tracking.core import (
     vertical_dispersion,
 )
 from wam2layers.tracking.io import (
+    clear_cache,
     load_data,
     load_tagging_region,
     output_path,
@@ -121,6 +122,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     logger.info(f"Initializing experiment with config file {config_file}")
 
     config = Config.from_yaml(config_file)
+    clear_cache()
 
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_start_date
diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index f75f6f4..0a37d6b 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -109,6 +109,11 @@ def _load_slice_with_cache(filename, time, subset: str, bbox: Optional[str] = No
     return fully_load_and_detach(ds)
 
 
+def clear_cache() -> None:
+    """Forget slices loaded during earlier runs, the files may have changed since."""
+    _load_slice_with_cache.cache_clear()
+
+
 def load_slice(t: CfDateTime, subset: str, config: Config) -> xr.Dataset:
     filename = input_path(t, config.preprocessed_data_folder)
     time = t.strftime("%Y-%m-%dT%H:%M:%S")
-- 
2.43.0


From f6edf716abd497cb9855eca0e6e57ae73e80b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 12/44] fix: longitude bounds on small domains across the
 antimeridian

---
 src/wam2layers/preprocessing/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/utils.py b/src/wam2layers/preprocessing/utils.py
index 50b6bb6..ae62ad3 100644
--- a/src/wam2layers/preprocessing/utils.py
+++ b/src/wam2layers/preprocessing/utils.py
@@ -206,7 +206,8 @@ def add_bounds(ds: xr.Dataset) -> None:
     lats = ds["latitude"].to_numpy()
     lons = ds["longitude"].to_numpy()
     res_lat = np.median((np.diff(lats)))  # infer resolution
-    res_lon = np.median((np.diff(lons)))
+    # longitude may jump across the antimeridian
+    res_lon = np.median((np.diff(lons) + 180) % 360 - 180)
 
     ds["latitude_bnds"] = (
         ("latitude", "bnds"),
-- 
2.43.0


From b6f130c982c443c731e45c69661c45227e410b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 13/44] fix: expand ~ in configured output and preprocessing
 folders

---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 36f7999..469ce64 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -526,7 +526,7 @@ class Config(BaseModel):
     def _expanduser(cls, path):
         """Resolve ~ in input paths."""
         if isinstance(path, Path):
-            return path.absolute()
+            return path.expanduser().absolute()
         return path  # Leave URLs untouched
 
     @field_validator("preprocessed_data_folder", "output_folder")
-- 
2.43.0


From 8044e14e90842e125c90e360e66d3fb71a36855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 14/44] fix: write non-BMP characters of the configuration so
 that YAML can read them

---
 src/wam2layers/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 469ce64..718e021 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -606,4 +606,5 @@ class Config(BaseModel):
 
         for date in dates:
             jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M:%S")
-        return json.dumps(jsondict)
+        # YAML does not combine the surrogate pairs of ASCII-only JSON
+        return json.dumps(jsondict, ensure_ascii=False)
-- 
2.43.0


From 52b6575e4a26c2da8210538f97f83fff6c9edae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 15/44] fix: accept and apply the documented shorthand for all
 levels

---
 src/wam2layers/config.py             | 2 +-
 src/wam2layers/preprocessing/arco.py | 3 ++-
 src/wam2layers/preprocessing/era5.py | 5 ++++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 718e021..97bed62 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -383,7 +383,7 @@ class Config(BaseModel):
 
     """
 
-    levels: "Union[List[int], Literal['All']]"
+    levels: "Union[List[int], Literal['All', 'all']]"
     """Which levels to use from the raw input data.
 
     A list of integers corresponding to the levels in the input data, or a
diff --git a/src/wam2layers/preprocessing/arco.py b/src/wam2layers/preprocessing/arco.py
index 9f8d713..4cb7cc8 100644
--- a/src/wam2layers/preprocessing/arco.py
+++ b/src/wam2layers/preprocessing/arco.py
@@ -73,7 +73,8 @@ def get_input_data(datetime: CfDateTime, config: Config):
     ds = open_arco_pl()
     data = ds.sel(time=datetime).compute()
 
-    data = data.sel(level=config.levels)  # Only select wanted levels
+    if isinstance(config.levels, list):
+        data = data.sel(level=config.levels)  # Only select wanted levels
 
     data["qs"] = calculate_humidity(
         data["2m_dewpoint_temperature"], data["surface_pressure"]
diff --git a/src/wam2layers/preprocessing/era5.py b/src/wam2layers/preprocessing/era5.py
index 513ad57..5f2a4f7 100644
--- a/src/wam2layers/preprocessing/era5.py
+++ b/src/wam2layers/preprocessing/era5.py
@@ -155,7 +155,7 @@ def get_edges(era5_modellevels):
     """Get the values of a and b at the edges of a subset of ERA5 modellevels."""
     a, b = load_era5_ab()
 
-    if era5_modellevels == "all":
+    if isinstance(era5_modellevels, str):  # shorthand for all levels
         return a, b
 
     # With python indexing starting at 0 and 137 full levels,
@@ -181,6 +181,9 @@ def get_dp_modellevels(sp, levels):
     """Calculate pressure jump over subset of era5 modellevels."""
     a, b = get_edges(levels)
 
+    if isinstance(levels, str):  # shorthand for all levels
+        levels = np.arange(1, len(a))
+
     # Use dummy level -1 to avoid collision with existing levels
     # first coord will be discarded anyway on taking the diff below.
     a = xr.DataArray(a, coords={"level": np.insert(levels, 0, -1)})
-- 
2.43.0


From 288be2f704e2ab6172853836abbeb12fb0f0f609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 16/44] fix: write preprocessed data with decreasing latitude
 and increasing longitude

---
 src/wam2layers/preprocessing/shared.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index 0c60073..2ddd84d 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -216,6 +216,8 @@ def preprocess(
         )
 
         ds = shift_longitude(ds)
+        # Tracking needs decreasing latitudes and increasing longitudes
+        ds = ds.sortby("latitude", ascending=False).sortby("longitude")
         add_bounds(ds)
 
         # Add attributes
-- 
2.43.0


From 6b7bc1ba16a6e9a43787fbe82305f4247485f83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 17/44] fix: bring input variables in the same dimension order
 before integrating

---
 src/wam2layers/preprocessing/shared.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index 2ddd84d..56343bc 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -82,6 +82,8 @@ def get_input_data(
         raise NotImplementedError(msg)
 
     validate_input(data, config)
+    # The vertical integration combines arrays by position
+    data = data.transpose("level", "latitude", "longitude", ...)
     return data, input_data_attrs
 
 
-- 
2.43.0


From 98fd317f10f460b37227f39ad9f395b0377a4196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 18/44] fix: model levels may be listed in any order

---
 src/wam2layers/preprocessing/era5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wam2layers/preprocessing/era5.py b/src/wam2layers/preprocessing/era5.py
index 5f2a4f7..6a11f17 100644
--- a/src/wam2layers/preprocessing/era5.py
+++ b/src/wam2layers/preprocessing/era5.py
@@ -179,6 +179,8 @@ def get_edges(era5_modellevels):
 
 def get_dp_modellevels(sp, levels):
     """Calculate pressure jump over subset of era5 modellevels."""
+    if not isinstance(levels, str):
+        levels = sorted(levels)  # the edges follow from the order of the levels
     a, b = get_edges(levels)
 
     if isinstance(levels, str):  # shorthand for all levels
-- 
2.43.0


From 6d18f33bbd3fd365addc3e1839eaed55e2769530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 19/44] fix: count dew in CMIP data as precipitation instead of
 subtracting it

---
 src/wam2layers/preprocessing/cmip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index cd1935e..2cc5055 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -55,7 +55,8 @@ def get_input_data(datetime: CfDateTime, config: Config):
     data["precip"] = load_cmip_var("tp", datetime, config)
     data["evap"] = load_cmip_var("e", datetime, config)
 
-    data["precip"] = np.maximum(data["precip"], 0) + np.minimum(data["evap"], 0)
+    # Transfer negative evap (dew) to precip
+    data["precip"] = np.maximum(data["precip"], 0) - np.minimum(data["evap"], 0)
     data["evap"] = np.abs(np.maximum(data["evap"], 0))
 
     return data
-- 
2.43.0


From da5aaf400ea016f0211192e6dbac0dc3639fc1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 20/44] fix: CMIP files may be found in any order

---
 src/wam2layers/preprocessing/cmip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index 2cc5055..7b7da9e 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -83,7 +83,7 @@ def open_var(files: tuple[Path], var: str) -> xr.DataArray:
     ]
 
     ds = xr.concat(datasets, dim="time") if len(datasets) > 0 else datasets[0]
-    return ds[var]
+    return ds[var].sortby("time")  # the files may be listed in any order
 
 
 def load_cmip_var(variable: str, datetime: CfDateTime, config: Config):
-- 
2.43.0


From fcaa5a22553ab7c6cb8da88a2d380beb7d2f59b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 21/44] fix: say which variable is missing if no CMIP files are
 found

---
 src/wam2layers/utils/calendar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/calendar.py b/src/wam2layers/utils/calendar.py
index 5ad18ee..3f32823 100644
--- a/src/wam2layers/utils/calendar.py
+++ b/src/wam2layers/utils/calendar.py
@@ -80,7 +80,10 @@ def validate_calendar_type(config: "Config") -> None:
 
 def template_to_files(config: "Config", var: str) -> list[Path]:
     template = Path(config.filename_template.format(variable=var))
-    return list(template.parent.glob(template.name))
+    files = list(template.parent.glob(template.name))
+    if not files:
+        raise FileNotFoundError(f"No files found for variable '{var}': {template}")
+    return files
 
 
 def fix_deprecated_frequency(freq: str) -> str:
-- 
2.43.0


From 01b2088ac28f0d625a4b51e538a54f9fd168bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 22/44] fix: validate the dimensions of total column water too

---
 src/wam2layers/preprocessing/input_validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wam2layers/preprocessing/input_validation.py b/src/wam2layers/preprocessing/input_validation.py
index af55fe3..e859640 100644
--- a/src/wam2layers/preprocessing/input_validation.py
+++ b/src/wam2layers/preprocessing/input_validation.py
@@ -45,6 +45,9 @@ def validate_vars(data: xr.Dataset, config: Config) -> None:
             )
             raise ValidationError(msg)
 
+    if "tcw" in data.data_vars:  # optional
+        expected_surface_vars.append("tcw")
+
     # Make sure surface variables have correct dims
     for var in expected_surface_vars:
         if set(data[var].dims) != {"latitude", "longitude"}:
-- 
2.43.0


From 6fd1a59889b6199198b8e19685021b76bf63efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 23/44] fix: check the dimensions of surface variables before
 combining them

---
 src/wam2layers/preprocessing/arco.py          |  4 ++++
 src/wam2layers/preprocessing/cmip.py          |  6 ++++-
 src/wam2layers/preprocessing/era5.py          |  4 ++++
 .../preprocessing/input_validation.py         | 23 +++++++++++++------
 4 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/wam2layers/preprocessing/arco.py b/src/wam2layers/preprocessing/arco.py
index 4cb7cc8..0d734bb 100644
--- a/src/wam2layers/preprocessing/arco.py
+++ b/src/wam2layers/preprocessing/arco.py
@@ -8,6 +8,7 @@ import xarray as xr
 
 from wam2layers import __version__
 from wam2layers.config import Config
+from wam2layers.preprocessing.input_validation import validate_surface_dims
 from wam2layers.preprocessing.utils import accumulation_to_flux, calculate_humidity
 from wam2layers.utils.calendar import CfDateTime
 
@@ -76,6 +77,9 @@ def get_input_data(datetime: CfDateTime, config: Config):
     if isinstance(config.levels, list):
         data = data.sel(level=config.levels)  # Only select wanted levels
 
+    for var in REQUIRED_VARS[3:]:
+        validate_surface_dims(data[var], var)
+
     data["qs"] = calculate_humidity(
         data["2m_dewpoint_temperature"], data["surface_pressure"]
     )
diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index 7b7da9e..faf59d1 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -6,6 +6,7 @@ import pandas as pd
 import xarray as xr
 
 from wam2layers.config import Config
+from wam2layers.preprocessing.input_validation import validate_surface_dims
 from wam2layers.utils.calendar import CfDateTime, template_to_files
 
 WAM2CMIP = {  # wam2layers name -> cmip name
@@ -112,7 +113,10 @@ def load_cmip_var(variable: str, datetime: CfDateTime, config: Config):
         if old_name in data.coords:
             data = data.rename({old_name: new_name})
 
-    return data.sel(time=datetime)
+    data = data.sel(time=datetime)
+    if variable not in ["q", "u", "v"]:
+        validate_surface_dims(data, var)
+    return data
 
 
 def resample_3hr_var(data: xr.DataArray) -> xr.DataArray:
diff --git a/src/wam2layers/preprocessing/era5.py b/src/wam2layers/preprocessing/era5.py
index 6a11f17..c66efb1 100644
--- a/src/wam2layers/preprocessing/era5.py
+++ b/src/wam2layers/preprocessing/era5.py
@@ -11,6 +11,7 @@ import xarray as xr
 from wam2layers import __version__
 from wam2layers.config import Config
 from wam2layers.preprocessing import logger
+from wam2layers.preprocessing.input_validation import validate_surface_dims
 from wam2layers.preprocessing.utils import (
     accumulation_to_flux,
     calculate_humidity,
@@ -119,6 +120,9 @@ def load_data(variable: str, datetime: CfDateTime, config: Config) -> xr.DataArr
     if variable in ["u", "v", "q"] and isinstance(config.levels, list):
         return da.sel(level=config.levels)
 
+    if variable not in ["u", "v", "q"]:
+        validate_surface_dims(da, variable)
+
     return da
 
 
diff --git a/src/wam2layers/preprocessing/input_validation.py b/src/wam2layers/preprocessing/input_validation.py
index e859640..0a0e43a 100644
--- a/src/wam2layers/preprocessing/input_validation.py
+++ b/src/wam2layers/preprocessing/input_validation.py
@@ -50,13 +50,7 @@ def validate_vars(data: xr.Dataset, config: Config) -> None:
 
     # Make sure surface variables have correct dims
     for var in expected_surface_vars:
-        if set(data[var].dims) != {"latitude", "longitude"}:
-            msg = (
-                "Surface variables should only have the dimensions latitude, "
-                "longitude.\n"
-                f" Var {var} has dimensions: {data[var].dims}."
-            )
-            raise ValidationError(msg)
+        validate_surface_dims(data[var], var)
 
     for var in expected_level_vars:
         if set(data[var].dims) != {"level", "latitude", "longitude"}:
@@ -68,6 +62,21 @@ def validate_vars(data: xr.Dataset, config: Config) -> None:
             raise ValidationError(msg)
 
 
+def validate_surface_dims(data: xr.DataArray, var: str) -> None:
+    """Check the dimensions of a surface variable.
+
+    Variables that are combined with others need to be checked beforehand, as missing
+    dimensions would be filled in by broadcasting.
+    """
+    if set(data.dims) != {"latitude", "longitude"}:
+        msg = (
+            "Surface variables should only have the dimensions latitude, "
+            "longitude.\n"
+            f" Var {var} has dimensions: {data.dims}."
+        )
+        raise ValidationError(msg)
+
+
 def check_nans(data: xr.Dataset):
     for var in data.data_vars:
         nans = data[var].isnull()
-- 
2.43.0


From 5d2f84d6f7b193653b63bd679f76fa435658c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:04 +0000
Subject: [PATCH 24/44] fix: do not average CMIP fluxes around a gap in the
 data

---
 src/wam2layers/preprocessing/cmip.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index faf59d1..aca5fce 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -122,6 +122,7 @@ def load_cmip_var(variable: str, datetime: CfDateTime, config: Config):
 def resample_3hr_var(data: xr.DataArray) -> xr.DataArray:
     """Resample 3-hour flux variables to 6 hour intervals."""
     assert_correct_starttime(data)
+    assert_complete_pairs(data)
     data = data.copy(deep=True)
 
     data["time"] = np.repeat(
@@ -140,6 +141,19 @@ def assert_correct_starttime(data: xr.DataArray):
         raise ValueError(msg)
 
 
+def assert_complete_pairs(data: xr.DataArray):
+    first, second = data["time"].to_numpy()[::2], data["time"].to_numpy()[1::2]
+    complete = len(first) == len(second) and np.all(
+        second - first == pd.Timedelta("3h").to_pytimedelta()
+    )
+    if not complete:
+        msg = (
+            f"Missing time values for 3 hour variable '{data.name}'.\n"
+            "Every two values should be 3 hours apart to be combined to 6 hours."
+        )
+        raise ValueError(msg)
+
+
 def common_levels(*levels: xr.DataArray) -> np.ndarray:
     """Find common pressure/model levels between multiple variables."""
     lvs = iter(levels)
-- 
2.43.0


From 364f25d5c28db4af775705016a4db534dd2dc932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:44 +0000
Subject: [PATCH 25/44] fix: accept input frequencies without a number when
 preprocessing

---
 src/wam2layers/preprocessing/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wam2layers/preprocessing/utils.py b/src/wam2layers/preprocessing/utils.py
index ae62ad3..f0cddb2 100644
--- a/src/wam2layers/preprocessing/utils.py
+++ b/src/wam2layers/preprocessing/utils.py
@@ -186,6 +186,8 @@ def accumulation_to_flux(data, input_frequency):
     that the times should be shifted. A good fix for this is welcome.
     """
     density = 1000  # [kg/m3]
+    if not input_frequency[0].isdigit():  # e.g. "h" is short for "1h"
+        input_frequency = f"1{input_frequency}"
     timestep = pd.Timedelta(input_frequency)
     nseconds = timestep.total_seconds()
 
-- 
2.43.0


From 914ed357a5e329c7876020b7e18a56cd7009b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 26/44] fix: infer the resolution for shapefile masks from
 sorted coordinates

---
 src/wam2layers/utils/shapefile_mask.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/utils/shapefile_mask.py b/src/wam2layers/utils/shapefile_mask.py
index b7f6938..95eb62a 100644
--- a/src/wam2layers/utils/shapefile_mask.py
+++ b/src/wam2layers/utils/shapefile_mask.py
@@ -60,9 +60,10 @@ def create_mask(ds: xr.Dataset, shape: Union[str, Path]):
     """Create a tagging region mask from a shapefile."""
     poly = load_shapefile(shape)
     minx, miny, maxx, maxy = poly.bounds
-    resolution = infer_resolution(ds)
+    sorted_ds = ensure_monotonic(ds)
+    resolution = infer_resolution(sorted_ds)
 
-    subset = ensure_monotonic(ds).sel(
+    subset = sorted_ds.sel(
         latitude=slice(miny - resolution.lat, maxy + resolution.lat),
         longitude=slice(minx - resolution.lon, maxx + resolution.lon),
     )
-- 
2.43.0


From df62ab7c400bc8c3208b0c47b6bb4b81de6654b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:19 +0000
Subject: [PATCH 27/44] fix: make an empty mask if the shapefile's polygon is
 outside of the data

---
 src/wam2layers/utils/shapefile_mask.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/shapefile_mask.py b/src/wam2layers/utils/shapefile_mask.py
index 95eb62a..c0c915d 100644
--- a/src/wam2layers/utils/shapefile_mask.py
+++ b/src/wam2layers/utils/shapefile_mask.py
@@ -67,6 +67,16 @@ def create_mask(ds: xr.Dataset, shape: Union[str, Path]):
         latitude=slice(miny - resolution.lat, maxy + resolution.lat),
         longitude=slice(minx - resolution.lon, maxx + resolution.lon),
     )
+    dim_order = [dim for dim in ds.dims if dim in ("latitude", "longitude")]
+    if subset["latitude"].size == 0 or subset["longitude"].size == 0:
+        # The shape is outside of the data
+        return xr.DataArray(
+            np.zeros([ds.sizes[dim] for dim in dim_order]),
+            {dim: ds[dim] for dim in dim_order},
+            dim_order,
+            name="tagging_region",
+        )
+
     stack = subset.stack(loc=("longitude", "latitude"))
     boxes = generate_boxes(stack["loc"], resolution)
 
@@ -83,6 +93,5 @@ def create_mask(ds: xr.Dataset, shape: Union[str, Path]):
         {"latitude": ds["latitude"].data, "longitude": ds["longitude"].data},
         method="nearest",
     )
-    dim_order = [dim for dim in ds.dims if dim in ("latitude", "longitude")]
     mask = mask.transpose(*dim_order)  # make sure the dims are correctly ordered.
     return mask.fillna(0)
-- 
2.43.0


From 26e4ba206ff910dcc8d01d709af278f58b704fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 28/44] fix: select the requested tagging regions also if
 others are outside of the grid

---
 src/wam2layers/utils/tagging_region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index 3cd74e2..9ec2390 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -65,7 +65,7 @@ def mask_with_regionmask(region_source, regions, input_file, output_dir, return_
             )
 
     # create (a) mask(s) of the required region(s):
-    mask = getattr(available_regions, "mask_3D")(longitude, latitude)
+    mask = getattr(available_regions, "mask_3D")(longitude, latitude, drop=False)
 
     # Specify region ID - what to store
     region_ids = np.array(regions)
@@ -182,7 +182,7 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
     ds = gpd.read_file(shapefile)  # load shape file
 
     # Generate mask
-    mask = regionmask.mask_3D_geopandas(ds, longitude, latitude)
+    mask = regionmask.mask_3D_geopandas(ds, longitude, latitude, drop=False)
 
     # Specify region ID - what to store
     if regions != False:
-- 
2.43.0


From d0cb22c4a271baedb8bada923f0c14457f30b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 29/44] fix: do not divide tagging regions by the number of
 selected regions

---
 src/wam2layers/utils/tagging_region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index 9ec2390..da07a8a 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -94,7 +94,7 @@ def mask_with_regionmask(region_source, regions, input_file, output_dir, return_
     new_masks = np.where(
         new_masks == False, 0, 1
     )  # Replace True and False by 1 and 0's
-    new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+    new_masks = np.max(new_masks, axis=0)  # Multiple masks into one
 
     # Export as tagging region for WAM2layers
 
@@ -200,7 +200,7 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
         new_masks = np.where(
             new_masks == False, 0, 1
         )  # Replace True and False by 1 and 0's
-        new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+        new_masks = np.max(new_masks, axis=0)  # Multiple masks into one
     else:
         new_masks = mask.isel(region=[0]).values
 
@@ -208,7 +208,7 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
         new_masks = np.where(
             new_masks == False, 0, 1
         )  # Replace True and False by 1 and 0's
-        new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+        new_masks = np.max(new_masks, axis=0)  # Multiple masks into one
 
     # Export as tagging region for WAM2layers
 
-- 
2.43.0


From c664f2fb9ccc07f6e346580071304934e6799a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 30/44] fix: tagging regions around points across the edge of
 the longitudes

---
 src/wam2layers/utils/tagging_region.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index da07a8a..9fac78a 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -340,6 +340,12 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
         return ax, ax2
 
 
+def longitude_distance(longitude, center_lon):
+    """Distance in degrees, irrespective of how often the longitudes go around."""
+    distance = np.abs(longitude - center_lon) % 360
+    return np.minimum(distance, 360 - distance)
+
+
 def mask_around_point(
     centerpoint,
     radius,
@@ -378,7 +384,7 @@ def mask_around_point(
 
     # Set the square region of value 1 in the mask
     mask = (np.abs(latitude - center_lat) <= radius) & (
-        np.abs(longitude - center_lon) <= radius
+        longitude_distance(longitude, center_lon) <= radius
     )
 
     new_masks = np.where(mask == False, 0, 1)  # Replace True and False by 1 and 0's
@@ -507,7 +513,7 @@ def mask_around_track(
 
         # Set the square region of value 1 in the mask
         mask = (np.abs(latitude - center_lat) <= radius) & (
-            np.abs(longitude - center_lon) <= radius
+            longitude_distance(longitude, center_lon) <= radius
         )
 
         new_masks[t, ::] = np.where(
-- 
2.43.0


From a94bcf3ee27053416f92db30a4bd5c68d973f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:56 +0000
Subject: [PATCH 31/44] fix: visualize all inputs of the tagging period, in any
 calendar

---
 src/wam2layers/analysis/visualization.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index 68df185..a5a6361 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -5,7 +5,6 @@ from pathlib import Path
 
 import cmocean
 import matplotlib.pyplot as plt
-import pandas as pd
 import xarray as xr
 
 from wam2layers.config import Config
@@ -17,6 +16,7 @@ from wam2layers.tracking.io import (
     write_output,
 )
 from wam2layers.tracking.shared import initialize_tagging_region
+from wam2layers.utils.calendar import round_cftime
 from wam2layers.utils.grid import get_boundary, get_grid_info
 
 logger = logging.getLogger(__name__)
@@ -82,19 +82,18 @@ def _plot_input(config: Config, ax):
     # Load data
     start = config.tagging_start_date
     end = config.tagging_end_date
-    dates = pd.date_range(
-        start=start,
-        end=end,
-        freq=config.output_frequency,
-        inclusive="left",
-    )
+    dates = xr.cftime_range(
+        start=round_cftime(start, "D", "floor"), end=end, freq="D"
+    )  # there is one input file per day
 
     input_files = []
-    for date in dates[:-1]:
+    for date in dates:
         input_files.append(
             input_path(date, config.preprocessed_data_folder)
         )  # takes current directory but needs a better fix
-    ds = xr.open_mfdataset(input_files, combine="nested", concat_dim="time")
+    ds = xr.open_mfdataset(
+        input_files, combine="nested", concat_dim="time", use_cftime=True
+    )
     if config.tracking_direction == "backward":
         subset = ds.precip.sel(time=slice(start, end))
     else:
-- 
2.43.0


From 3748ecdcb4f110e8716dc3764f653d0d53ef06e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:56 +0000
Subject: [PATCH 32/44] fix: visualize inputs at other frequencies than hourly

---
 src/wam2layers/analysis/visualization.py |  4 +++-
 src/wam2layers/preprocessing/utils.py    | 12 ++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index a5a6361..219ba69 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -8,6 +8,7 @@ import matplotlib.pyplot as plt
 import xarray as xr
 
 from wam2layers.config import Config
+from wam2layers.preprocessing.utils import frequency_to_seconds
 from wam2layers.tracking.io import (
     input_path,
     load_data,
@@ -100,7 +101,8 @@ def _plot_input(config: Config, ax):
         subset = ds.evap.sel(time=slice(start, end))
 
     # TODO: check if backtrack files or forwardtrack files were in output
-    input = (subset * region * 3600).sum("time").compute()
+    seconds = frequency_to_seconds(config.input_frequency)
+    input = (subset * region * seconds).sum("time").compute()
 
     # Make figure
     input.plot(ax=ax, cmap=cmocean.cm.rain, cbar_kwargs=dict(fraction=0.05, shrink=0.5))
diff --git a/src/wam2layers/preprocessing/utils.py b/src/wam2layers/preprocessing/utils.py
index f0cddb2..b59cf80 100644
--- a/src/wam2layers/preprocessing/utils.py
+++ b/src/wam2layers/preprocessing/utils.py
@@ -177,6 +177,13 @@ def calculate_humidity(dewpoint, pressure):
     return spec_hum
 
 
+def frequency_to_seconds(frequency: str) -> float:
+    """Return the number of seconds in a (fixed) frequency such as "3h"."""
+    if not frequency[0].isdigit():  # e.g. "h" is short for "1h"
+        frequency = f"1{frequency}"
+    return pd.Timedelta(frequency).total_seconds()
+
+
 def accumulation_to_flux(data, input_frequency):
     """Convert precip and evap from accumulations to fluxes.
 
@@ -186,10 +193,7 @@ def accumulation_to_flux(data, input_frequency):
     that the times should be shifted. A good fix for this is welcome.
     """
     density = 1000  # [kg/m3]
-    if not input_frequency[0].isdigit():  # e.g. "h" is short for "1h"
-        input_frequency = f"1{input_frequency}"
-    timestep = pd.Timedelta(input_frequency)
-    nseconds = timestep.total_seconds()
+    nseconds = frequency_to_seconds(input_frequency)
 
     fluxdata = (density * data / nseconds).assign_attrs(units="kg m-2 s-1")
 
-- 
2.43.0


From 77cd1f9e7bf5f78d636caa7be3c8c8fdce89da5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:16 +0000
Subject: [PATCH 33/44] fix: visualize runs with moving tagging regions

---
 src/wam2layers/analysis/visualization.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index 219ba69..1308042 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -100,9 +100,16 @@ def _plot_input(config: Config, ax):
     else:
         subset = ds.evap.sel(time=slice(start, end))
 
+    weights = region
+    if "time" in region.dims:  # moving region
+        times = subset.time.values
+        regions = [region.sel(time=t, method="nearest", drop=True) for t in times]
+        region = region.max("time")
+        weights = xr.concat(regions, dim=subset.time) if regions else region
+
     # TODO: check if backtrack files or forwardtrack files were in output
     seconds = frequency_to_seconds(config.input_frequency)
-    input = (subset * region * seconds).sum("time").compute()
+    input = (subset * weights * seconds).sum("time").compute()
 
     # Make figure
     input.plot(ax=ax, cmap=cmocean.cm.rain, cbar_kwargs=dict(fraction=0.05, shrink=0.5))
@@ -167,6 +174,8 @@ def _plot_output(config: Config, ax):
     ax.set_title("Accumulated tracked moisture [mm]", loc="left")
 
     # Add source/tagged region outline
+    if "time" in region.dims:  # moving region
+        region = region.max("time")
     region.plot.contour(ax=ax, levels=[0.5], colors="k")
     polish(ax, region)
 
-- 
2.43.0


From e527fce206902ac6c58ebe3794c39e24d0b54e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 34/44] fix: visualize domains across the antimeridian

---
 src/wam2layers/analysis/visualization.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index 1308042..eb4050f 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -14,6 +14,7 @@ from wam2layers.tracking.io import (
     load_data,
     load_tagging_region,
     output_path,
+    select_subdomain,
     write_output,
 )
 from wam2layers.tracking.shared import initialize_tagging_region
@@ -59,6 +60,12 @@ def polish(ax, region):
     ax.set_ylim(region.latitude.min(), region.latitude.max())
 
 
+def unwrap_longitude(da: xr.DataArray) -> xr.DataArray:
+    """Let longitudes increase across the antimeridian (179, 180, 181, ...)."""
+    lon = da["longitude"]
+    return da.assign_coords(longitude=lon.where(lon >= lon[0], lon + 360))
+
+
 def _plot_input(config: Config, ax):
     """
     Return subplot with input.
@@ -95,6 +102,8 @@ def _plot_input(config: Config, ax):
     ds = xr.open_mfdataset(
         input_files, combine="nested", concat_dim="time", use_cftime=True
     )
+    if config.tracking_domain is not None:
+        ds = select_subdomain(ds, str(config.tracking_domain))
     if config.tracking_direction == "backward":
         subset = ds.precip.sel(time=slice(start, end))
     else:
@@ -110,6 +119,8 @@ def _plot_input(config: Config, ax):
     # TODO: check if backtrack files or forwardtrack files were in output
     seconds = frequency_to_seconds(config.input_frequency)
     input = (subset * weights * seconds).sum("time").compute()
+    input = unwrap_longitude(input)
+    region = unwrap_longitude(region)
 
     # Make figure
     input.plot(ax=ax, cmap=cmocean.cm.rain, cbar_kwargs=dict(fraction=0.05, shrink=0.5))
@@ -162,6 +173,9 @@ def _plot_output(config: Config, ax):
     else:
         out_track = ds.p_track_lower.sum("time") + ds.p_track_upper.sum("time")
 
+    out_track = unwrap_longitude(out_track)
+    region = unwrap_longitude(region)
+
     # Make figure
     out_track.plot(
         ax=ax,
-- 
2.43.0


From 3ef1f89ee72c1a66d1b7fb3d84bc4388ad4f5033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 35/44] fix: the configuration file may lie in the output
 folder

---
 src/wam2layers/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/cli.py b/src/wam2layers/cli.py
index 6c6cf71..357d541 100644
--- a/src/wam2layers/cli.py
+++ b/src/wam2layers/cli.py
@@ -63,7 +63,10 @@ def setup_logging(log_path: Union[str, Path], debug: bool):
 
 def _copy_config_yaml(yaml_path, target_path):
     """Copy config file to the output path."""
-    shutil.copy(yaml_path, target_path)
+    try:
+        shutil.copy(yaml_path, target_path)
+    except shutil.SameFileError:
+        pass  # it is there already
 
 
 def get_wam_version():
-- 
2.43.0


From 394f60b936b696a6f892bc4a0add3f8e9c395f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 36/44] fix: do not save error pages as downloaded files

---
 src/wam2layers/download.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index a55d4b1..4a84f7e 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -69,6 +69,7 @@ def download(url, destination, local_filename=None):
 
     logging.info(f"Downloading {local_filename}")
     with requests.get(url, stream=True) as r:
+        r.raise_for_status()
         with open(local_path, "wb") as f:
             shutil.copyfileobj(r.raw, f)
 
-- 
2.43.0


From 8a1ef8bf5b3f528b8ea73e661e05dcef070a7183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 37/44] fix: decode downloaded files that were compressed for
 the transfer

---
 src/wam2layers/download.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index 4a84f7e..47b3908 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -2,7 +2,6 @@
 
 import logging
 import re
-import shutil
 from pathlib import Path
 
 import requests
@@ -71,7 +70,9 @@ def download(url, destination, local_filename=None):
     with requests.get(url, stream=True) as r:
         r.raise_for_status()
         with open(local_path, "wb") as f:
-            shutil.copyfileobj(r.raw, f)
+            # also decodes responses that are compressed for the transfer
+            for chunk in r.iter_content(chunk_size=2**20):
+                f.write(chunk)
 
 
 def get_4tu_id(doi):
-- 
2.43.0


From 656afd965f3943f11b8d32baa3f2a8ecdf30e166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:13 +0000
Subject: [PATCH 38/44] fix: do not find DOIs inside of other numbers or words

---
 src/wam2layers/download.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index 47b3908..bc2b1ef 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -30,7 +30,7 @@ def parse_doi(doi_string):
     For more info, see
     https://www.crossref.org/documentation/member-setup/constructing-your-dois/
     """
-    regex = r"(?P<prefix>10.\d{4,9})\/(?P<suffix>[-._;()\/:A-Z0-9]+$)"
+    regex = r"(?<![\w.])(?P<prefix>10\.\d{4,9})\/(?P<suffix>[-._;()\/:A-Z0-9]+$)"
     matches = re.search(regex, doi_string, re.IGNORECASE)
 
     if matches:
-- 
2.43.0


From d0d91a43567e57b8a66699f0269612a9d5180077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:22 +0000
Subject: [PATCH 39/44] fix: do not repeat the stability warning for the same
 correction

---
 src/wam2layers/utils/profiling.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index df635f8..1f4d22d 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -147,17 +147,23 @@ class ProgressTracker:
 
         warn = False
         if strongest_correction < self.stability_correction_previous_factor / 1.1:
-            self.stability_correction_previous_factor = strongest_correction
             warn = True
 
         elif (
             corrected_percent > 5  # at least 5 percent of the grid should be corrected
             and corrected_percent > self.stability_correction_previous_grid * 1.1
         ):
-            self.stability_correction_previous_grid = corrected_percent
             warn = True
 
         if warn:
+            # Compare next corrections to this one, whichever criterion was met
+            self.stability_correction_previous_factor = min(
+                strongest_correction, self.stability_correction_previous_factor
+            )
+            self.stability_correction_previous_grid = max(
+                corrected_percent, self.stability_correction_previous_grid
+            )
+
             # Write correction field to output debug file
             # TODO: doesn't feel like the right place to do this.
             # a model object could improve the code structure.
-- 
2.43.0


From 63ef6c21dbc81e8d868cb20d0a80138eb74aa393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:30 +0000
Subject: [PATCH 40/44] fix: report stability corrections of purely zonal
 fluxes too

---
 src/wam2layers/tracking/core.py   | 10 +++++++++-
 src/wam2layers/utils/profiling.py |  8 ++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index 4864072..f80333a 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -1,6 +1,7 @@
 from functools import partial
 
 import numpy as np
+import xarray as xr
 
 from wam2layers.config import Config
 from wam2layers.utils.grid import get_grid_info
@@ -151,7 +152,14 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         fy_limit = 1 / 2 * fy_abs / ft_abs * s.values
         fy_stable = np.minimum(fy_abs, fy_limit)
 
-        progress_tracker.track_stability_correction(fy_stable, fy_abs, config, t)
+        # Both components are corrected by the same factor, but either may be zero
+        zonal = fx_abs > fy_abs
+        progress_tracker.track_stability_correction(
+            xr.where(zonal, fx_stable, fy_stable),
+            xr.where(zonal, fx_abs, fy_abs),
+            config,
+            t,
+        )
 
         # Get rid of any nan values
         fx_stable = fx_stable.fillna(0)
diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index 1f4d22d..2186894 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -126,8 +126,8 @@ class ProgressTracker:
 
     def track_stability_correction(
         self,
-        fy_corrected: xr.DataArray,
-        fy_abs: xr.DataArray,
+        flux_corrected: xr.DataArray,
+        flux_abs: xr.DataArray,
         config: Config,
         t: pd.Timestamp,
     ) -> None:
@@ -140,9 +140,9 @@ class ProgressTracker:
         2. At least 10% more of the grid is corrected compared to the last warning
         3. Previous strongest correction factor is exceeded by 10%
         """
-        corrected_area = fy_corrected < fy_abs
+        corrected_area = flux_corrected < flux_abs
         corrected_percent = corrected_area.sum() / corrected_area.count() * 100
-        correction_factor = fy_corrected / fy_abs
+        correction_factor = flux_corrected / flux_abs
         strongest_correction = correction_factor.min()
 
         warn = False
-- 
2.43.0


From 74375d467d6de0b720c41d249f27cdba1d1c48ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:42 +0000
Subject: [PATCH 41/44] fix: swapped descriptions of the latitude and longitude
 bounds

---
 src/wam2layers/reference/variables.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wam2layers/reference/variables.py b/src/wam2layers/reference/variables.py
index e2e4279..5b6bf3d 100644
--- a/src/wam2layers/reference/variables.py
+++ b/src/wam2layers/reference/variables.py
@@ -81,12 +81,12 @@ DATA_ATTRIBUTES: dict[str, dict[str, str]] = {
     "latitude_bnds": {
         "long_name": "latitude bounds",
         "units": "degrees_north",
-        "description": "Left and right bounds of the grid cells.",
+        "description": "Top and bottom bounds of the grid cells.",
     },
     "longitude_bnds": {
         "long_name": "longitude bounds",
         "units": "degrees_east",
-        "description": "Top and bottom bounds of the grid cells",
+        "description": "Left and right bounds of the grid cells.",
     },
 }
 
@@ -144,7 +144,7 @@ PREPROCESSED_DATA_ATTRIBUTES: dict[str, dict[str, str]] = {
         "long_name": "Moisture flux from the surface into the atmosphere",
         "units": "kg m-2 s-1",
         "description": (
-            "The total moisture flux from the surface to the surface. "
+            "The total moisture flux from the surface to the atmosphere. "
             "Accumulated parameter: accumulated from the previous time coordinate to "
             "the current time coordinate. "
             "The values of this variable are only positive."
@@ -172,11 +172,11 @@ PREPROCESSED_DATA_ATTRIBUTES: dict[str, dict[str, str]] = {
     "latitude_bnds": {
         "long_name": "latitude bounds",
         "units": "degrees_north",
-        "description": "Left and right bounds of the grid cells.",
+        "description": "Top and bottom bounds of the grid cells.",
     },
     "longitude_bnds": {
         "long_name": "longitude bounds",
         "units": "degrees_east",
-        "description": "Top and bottom bounds of the grid cells",
+        "description": "Left and right bounds of the grid cells.",
     },
 }
-- 
2.43.0


From 947c22d2fa01e7767e1bbf5f8bac7047f483cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:42 +0000
Subject: [PATCH 42/44] fix: describe the coordinates and their bounds in
 output files

---
 src/wam2layers/tracking/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 0a37d6b..6b0a5be 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -199,10 +199,11 @@ def write_output(
     output = output.assign_coords({"time": t})
     output = output.expand_dims(dim="time")
 
-    for var in output.data_vars:
-        output[var].attrs.update(DATA_ATTRIBUTES[str(var)])
-
     add_bounds(output)
+    for var in DATA_ATTRIBUTES:
+        if var in output.variables:
+            output[var].attrs.update(DATA_ATTRIBUTES[var])
+
     add_time_bounds(output, t_previous, t)
     output.attrs = get_main_attrs(output.attrs, config)
 
-- 
2.43.0


From 9454bff8ffc4b9ca36cabc96699f13de4cf52866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:57 +0000
Subject: [PATCH 43/44] fix: mention the history and source of the input data
 in output files

---
 src/wam2layers/tracking/backtrack.py    | 6 ++++--
 src/wam2layers/tracking/forwardtrack.py | 6 ++++--
 src/wam2layers/tracking/io.py           | 3 ++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index c2bac09..beb737e 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -124,7 +124,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
 
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_end_date
-    grid = load_data(t, config, "states").coords
+    states = load_data(t, config, "states")
+    grid = states.coords
     output = xr.Dataset(
         {
             # Keep last state for a restart
@@ -134,7 +135,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
             "tagged_precip": xr.DataArray(0, coords=grid).astype("float32"),
             "losses": xr.DataArray(0, coords=grid).astype("float32"),
             "gains": xr.DataArray(0, coords=grid).astype("float32"),
-        }
+        },
+        attrs=states.attrs,  # the history and source of the input data
     )
 
     if config.restart:
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index c5fa837..3a9e0f8 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -126,7 +126,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
 
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_start_date
-    grid = load_data(t, config, "states").coords
+    states = load_data(t, config, "states")
+    grid = states.coords
     output = xr.Dataset(
         {
             # Keep last state for a restart
@@ -137,7 +138,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
             "tagged_evap": xr.DataArray(0, coords=grid).astype("float32"),
             "losses": xr.DataArray(0, coords=grid).astype("float32"),
             "gains": xr.DataArray(0, coords=grid).astype("float32"),
-        }
+        },
+        attrs=states.attrs,  # the history and source of the input data
     )
 
     if config.restart:
diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 6b0a5be..17ebafc 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -134,7 +134,8 @@ def load_data(t: CfDateTime, config: Config, subset: str = "fluxes") -> xr.Datas
 
     da0 = load_slice(t0, subset, config)
     da1 = load_slice(t1, subset, config)
-    return da0 + (t - t0) / (t1 - t0) * (da1 - da0)
+    da = da0 + (t - t0) / (t1 - t0) * (da1 - da0)
+    return da.assign_attrs(da0.attrs)
 
 
 def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
-- 
2.43.0


From 878444a5f8f889c5e6a56e5daf5e901a22e93de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:57 +0000
Subject: [PATCH 44/44] fix: do not preprocess files kept open from an earlier
 run

---
 src/wam2layers/preprocessing/shared.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index 56343bc..c9a40ff 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -87,6 +87,12 @@ def get_input_data(
     return data, input_data_attrs
 
 
+def clear_caches() -> None:
+    """Forget files opened during earlier runs, they may have changed since."""
+    era5.open_da.cache_clear()
+    cmip.open_var.cache_clear()
+
+
 def prep_experiment(
     config_file: Union[str, Path], data_source: Literal["ERA5", "CMIP"]
 ):
@@ -111,6 +117,7 @@ def prep_experiment(
       FloodCase_202107_sp.nc
     """
     config = Config.from_yaml(config_file)
+    clear_caches()
 
     if data_source == "CMIP":
         validate_calendar_type(config)
-- 
2.43.0


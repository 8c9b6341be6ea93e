From 33b8c04700b1fba644a780760a34854ac7155c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 01/31] fix: write and plot mapped data in the float's own
 sub-directory, where it is looked for

---
 pyowc/calibration.py    | 2 +-
 pyowc/plot/dashboard.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 9aabe35..40f61f0 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -362,7 +362,7 @@ def update_salinity_mapping(float_dir, config, float_name):
     data['selected_hist'] = selected_hist_1
 
     # define the saving location
-    save_location = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
+    save_location = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'], float_dir,
                                       config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
 
     # save the data
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 3dadf17..f0d2143 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -27,7 +27,7 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
         Nothing, but will save the plots as PDFs
     """
 
-    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
+    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'], float_dir,
                                       config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
     float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                        float_name + config['FLOAT_SOURCE_POSTFIX']])
-- 
2.43.0


From ac2219d6fd0858d01edfbe6cd79d286a136a6086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 02/31] fix: read calibration files with the postfix they are
 written with

---
 pyowc/calibration.py    | 2 +-
 pyowc/plot/dashboard.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 40f61f0..1dd98b3 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -450,7 +450,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     # load the calibration settings
     float_calseries_path = os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,
                                              system_config['FLOAT_CALSERIES_PREFIX'] + float_name +
-                                             system_config['FLOAT_MAPPED_POSTFIX']])
+                                             system_config['FLOAT_CALIB_POSTFIX']])
     float_calseries = loadmat(float_calseries_path)
 
     calseries = float_calseries['calseries']
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index f0d2143..9d89e9d 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -32,9 +32,9 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                        float_name + config['FLOAT_SOURCE_POSTFIX']])
     cal_data_loc = os.path.sep.join([config['FLOAT_CALIB_DIRECTORY'], float_dir,
-                                     config['FLOAT_CALIB_PREFIX'] + float_name + config['FLOAT_SOURCE_POSTFIX']])
+                                     config['FLOAT_CALIB_PREFIX'] + float_name + config['FLOAT_CALIB_POSTFIX']])
     cal_series_loc = os.path.sep.join([config['FLOAT_CALIB_DIRECTORY'], float_dir,
-                                       config['FLOAT_CALSERIES_PREFIX'] + float_name + config['FLOAT_SOURCE_POSTFIX']])
+                                       config['FLOAT_CALSERIES_PREFIX'] + float_name + config['FLOAT_CALIB_POSTFIX']])
 
     grid_data = loadmat(grid_data_loc)
     float_data = loadmat(float_data_loc)
-- 
2.43.0


From bf2ccb05a57666094f0d36a05044fffc06668fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 03/31] fix: extend reloaded mapping parameters (arrays) when
 adding a profile

---
 pyowc/calibration.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 1dd98b3..3b0ec00 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -138,18 +138,18 @@ def update_salinity_mapping(float_dir, config, float_name):
         # Construct elements for this profile
 
         # initialise matrices to hold and save parameter settings
-        data['scale_long_large'].append(np.nan)
-        data['scale_lat_large'].append(np.nan)
-        data['scale_long_small'].append(np.nan)
-        data['scale_lat_small'].append(np.nan)
-        data['scale_phi_large'].append(np.nan)
-        data['scale_phi_small'].append(np.nan)
-        data['scale_age_large'].append(np.nan)
-        data['scale_age_small'].append(np.nan)
-        data['use_pv'].append(np.nan)
-        data['use_saf'].append(np.nan)
-        data['p_delta'].append(np.nan)
-        data['p_exclude'].append(np.nan)
+        data['scale_long_large'] = np.append(data['scale_long_large'], np.nan)
+        data['scale_lat_large'] = np.append(data['scale_lat_large'], np.nan)
+        data['scale_long_small'] = np.append(data['scale_long_small'], np.nan)
+        data['scale_lat_small'] = np.append(data['scale_lat_small'], np.nan)
+        data['scale_phi_large'] = np.append(data['scale_phi_large'], np.nan)
+        data['scale_phi_small'] = np.append(data['scale_phi_small'], np.nan)
+        data['scale_age_large'] = np.append(data['scale_age_large'], np.nan)
+        data['scale_age_small'] = np.append(data['scale_age_small'], np.nan)
+        data['use_pv'] = np.append(data['use_pv'], np.nan)
+        data['use_saf'] = np.append(data['use_saf'], np.nan)
+        data['p_delta'] = np.append(data['p_delta'], np.nan)
+        data['p_exclude'] = np.append(data['p_exclude'], np.nan)
 
         # helper method 1
         data = process_profiles_la_variables(data, float_level_count, profile_index)
-- 
2.43.0


From f4f06fcc840b10635acf1226df323c15f9b3c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 04/31] fix: supply use_saf for old mapped files before it is
 read

---
 pyowc/helper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index 9672e85..4ec4688 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -34,6 +34,10 @@ def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
             float_mapped_data['la_map_sal_errors'] = float_mapped_data['la_mapsalerrors']
             float_mapped_data.pop('la_mapsalerrors')
 
+        # Check to see if this is an older version run without the saf constraint
+        if not "use_saf" in float_mapped_data:
+            float_mapped_data["use_saf"] = np.zeros(float_mapped_data['use_pv'].shape)
+
         # flatten the data
         float_mapped_data["la_profile_no"] = float_mapped_data['la_profile_no'].flatten()
         float_mapped_data["scale_long_large"] = float_mapped_data['scale_long_large'].flatten()
@@ -49,10 +53,6 @@ def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
         float_mapped_data["p_delta"] = float_mapped_data['p_delta'].flatten()
         float_mapped_data["p_exclude"] = float_mapped_data['p_exclude'].flatten()
 
-        # Check to see if this is an older version run without the saf constraint
-        if not "use_saf" in float_mapped_data:
-            float_mapped_data["use_saf"] = np.zeros(float_mapped_data['use_pv'].shape)
-
         # Get mapped data shape
         float_mapped_data["profile_index"] = float_mapped_data["la_mapped_sal"].shape[1]
         max_depth = float_mapped_data["la_mapped_sal"].shape[0]
-- 
2.43.0


From 6e14e085b26838971ba96d855ea69c3e730d30a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 05/31] fix: sort the mapped profiles once, not twice

---
 pyowc/calibration.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 3b0ec00..aa581eb 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -343,10 +343,6 @@ def update_salinity_mapping(float_dir, config, float_name):
     # sort the data by profile number
     sorted_profile_index = data['la_profile_no'].argsort()
 
-    # finalise the data sorted by profile number, make data type numpy arrays
-    data = sort_numpy_array(data, sorted_profile_index, ['la_ptmp', 'la_mapped_sal',
-                                                         'la_map_sal_errors', 'la_noise_sal',
-                                                         'la_signal_sal'])
     # check is numpy array
     data = check_and_make_numpy_arry(data)
 
-- 
2.43.0


From 5d1b6a62c8908f3bd027076a418b99943ebb0835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 06/31] fix: save an empty selected_hist when no cast was
 selected

---
 pyowc/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index aa581eb..ee5876f 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -348,6 +348,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
     # remove problem element from dic before genral sort
     selected_hist = data.pop('selected_hist')
+    selected_hist_1 = selected_hist
 
     if len(selected_hist) > 0:
         selected_hist_1 = np.array(sorted(selected_hist, key=lambda x: x[2]))
-- 
2.43.0


From fb3d03f5f5383308d2feeab90be45e27cd4e76e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 07/31] fix: add profiles to mapped data that has more levels
 than the source

---
 pyowc/helper.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index 4ec4688..d4e18af 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -158,24 +158,24 @@ def process_profiles_la_variables(data, float_level_count, profile_index):
     """
     # if we are inserting changing a column in existing data
     if profile_index < data['la_ptmp'].shape[1]:
-        data['la_ptmp'][:, profile_index] = np.nan * np.ones(float_level_count)
-        data['la_mapped_sal'][:, profile_index] = np.nan * np.ones(float_level_count)
-        data['la_map_sal_errors'][:, profile_index] = np.nan * np.ones(float_level_count)
-        data['la_noise_sal'][:, profile_index] = np.nan * np.ones(float_level_count)
-        data['la_signal_sal'][:, profile_index] = np.nan * np.ones(float_level_count)
+        data['la_ptmp'][:, profile_index] = np.nan * np.ones(data['la_ptmp'].shape[0])
+        data['la_mapped_sal'][:, profile_index] = np.nan * np.ones(data['la_mapped_sal'].shape[0])
+        data['la_map_sal_errors'][:, profile_index] = np.nan * np.ones(data['la_map_sal_errors'].shape[0])
+        data['la_noise_sal'][:, profile_index] = np.nan * np.ones(data['la_noise_sal'].shape[0])
+        data['la_signal_sal'][:, profile_index] = np.nan * np.ones(data['la_signal_sal'].shape[0])
 
     # if we are adding a new column
     else:
         data['la_ptmp'] = np.hstack((data['la_ptmp'],
-                                     np.nan * np.ones((float_level_count, 1))))
+                                     np.nan * np.ones((data['la_ptmp'].shape[0], 1))))
         data['la_mapped_sal'] = np.hstack((data['la_mapped_sal'],
-                                           np.nan * np.ones((float_level_count, 1))))
+                                           np.nan * np.ones((data['la_mapped_sal'].shape[0], 1))))
         data['la_map_sal_errors'] = np.hstack((data['la_map_sal_errors'],
-                                               np.nan * np.ones((float_level_count, 1))))
+                                               np.nan * np.ones((data['la_map_sal_errors'].shape[0], 1))))
         data['la_noise_sal'] = np.hstack((data['la_noise_sal'],
-                                          np.nan * np.ones((float_level_count, 1))))
+                                          np.nan * np.ones((data['la_noise_sal'].shape[0], 1))))
         data['la_signal_sal'] = np.hstack((data['la_signal_sal'],
-                                           np.nan * np.ones((float_level_count, 1))))
+                                           np.nan * np.ones((data['la_signal_sal'].shape[0], 1))))
     return data
 
 
-- 
2.43.0


From 93b21c5874cc78d839272a5e0a42dd8e172ed49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 08/31] fix: default use_percent_gt when an older calseries
 file lacks it

---
 pyowc/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 474fc36..84fee05 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -176,7 +176,7 @@ def set_calseries(float_dir, float_name, system_config):
         try:
             use_percent_gt = calseries_data['use_percent_gt']
 
-        except NameError:
+        except KeyError:
             use_percent_gt = 0.5
 
         print("Using parameters found in ", calseries_filename,
-- 
2.43.0


From 3f705f6c4f1a97ec4b47cd5d35d54d7c103f244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 09/31] fix: extend the calseries with profiles missing from it

---
 pyowc/configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 84fee05..26f54e3 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -230,9 +230,9 @@ def set_calseries(float_dir, float_name, system_config):
     # Add the missing profiles to the data set
     for i in range(missing_profiles_index.__len__()):
         missing = missing_profiles_index[i]
-        calib_profile_no.append(profile_no[missing])
+        calib_profile_no = np.append(calib_profile_no, profile_no[missing])
         # set flag as the same as previous entry
-        calseries = np.append(calseries, calseries(max(missing - 1, 1)))
+        calseries = np.append(calseries, calseries[max(missing - 1, 0)])
 
     # sort the calseries file by profile number
 
-- 
2.43.0


From 000356302ffad14bfbb82e1d4045fe31bbbc5cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 10/31] fix: flag the bad profile itself, not the calseries
 entry at its position

---
 pyowc/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 26f54e3..f63d4d3 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -255,7 +255,7 @@ def set_calseries(float_dir, float_name, system_config):
         if sal_nan.__len__() == 0 or \
                 temp_nan.__len__() == 0 or \
                 pres_nan.__len__() == 0:
-            calseries[i] = 0
+            calseries[calib_profile_no == profile_no[i]] = 0
 
     savemat(calseries_filename, {'breaks': breaks,
                                  'max_breaks': max_breaks,
-- 
2.43.0


From 00fa802ce380fd02fee934af63cb2574e376d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 11/31] fix: give each retrieved cast the ocean depth of its
 own position

---
 pyowc/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index ee5876f..a2880ae 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -213,7 +213,8 @@ def update_salinity_mapping(float_dir, config, float_name):
                 # we can get the rest of the data from these casts
                 best_hist_data = get_region_data(wmo_numbers, float_name, config, index, float_data['float_pres'])
 
-                best_hist_data['grid_z'] = grid_data['grid_z'][index]
+                # depth of the ocean at the casts that were actually retrieved
+                best_hist_data = process_profiles_grid_variables(best_hist_data, config)
 
                 # If we are near the Subantarctic Front we need to figure out if
                 # the profile is north or south of it. Then we should remove data not on
-- 
2.43.0


From 2bad3a649d65f64fe8d1fb86461769f2e0e5d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 12/31] fix: pass float positions to build_cov as latitude,
 longitude, depth

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index a2880ae..28809d1 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -443,7 +443,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
             z_grid.append(grid_interp(long_1[0][i], lat[0][i]))
 
         z_grid = -np.array(z_grid)
-        coord_float = np.column_stack((long.T, lat.T, z_grid))
+        coord_float = np.column_stack((lat.T, long.T, z_grid))
 
     # load the calibration settings
     float_calseries_path = os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,
-- 
2.43.0


From 528ffbcadaae9b1e49a0a42cb33ef1380b880643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 13/31] fix: test repeated pressures by their number, not the
 truth of an index array

---
 pyowc/data/fetchers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index dc8e8a8..44a405c 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -547,7 +547,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
         # Calculations for Argo float
         isok = np.argwhere((~np.isnan(float_pres)) & (~np.isnan(float_tmp)))
 
-        if not np.argwhere(np.diff(float_pres[isok].T) == 0) and (isok.__len__() > 2) and (
+        if np.argwhere(np.diff(float_pres[isok].T) == 0).size == 0 and (isok.__len__() > 2) and (
                 np.min(float_pres[isok].T) < 300 < np.max(float_pres[isok].T)):
 
             # SAF:
@@ -629,7 +629,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
                     np.argwhere(~np.isnan(grid_pres[:, i]) & ~np.isnan(grid_sal[:, i]) & ~np.isnan(grid_ptmp[:, i])),
                     np.argwhere((np.diff(grid_pres[:, i])) != 0))
 
-                if not np.argwhere(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
+                if np.argwhere(np.diff(grid_pres[isok, i]) == 0).size == 0 and (isok.__len__() > 2) and (
                         np.min(grid_pres[isok, i]) < 300 < np.max(grid_pres[isok, i])):
                     t300 = np.interp(300, grid_pres[isok, i], grid_tmp[isok, i], left=np.nan, right=np.nan)
 
-- 
2.43.0


From 21acb423dbb80160efe42631303cb683574592d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 14/31] fix: store time derivatives of prescribed-break fits in
 the segment's columns

---
 pyowc/calibration.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 28809d1..47a9899 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -653,7 +653,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
             else:
                 breaks_in = breaks[i, :]
-                breaks_in = breaks_in[np.argwhere(np.isfinite(breaks_in))]
+                breaks_in = breaks_in[np.argwhere(np.isfinite(breaks_in))].flatten()
 
                 if max_breaks[i]:
                     (xfit, condslope, condslope_err,
@@ -667,8 +667,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                                       max_breaks[i][0])
                     pcond_factor[0][calindex] = condslope
                     pcond_factor_err[0][calindex] = condslope_err
-                    time_deriv[calindex] = time_deriv_temp
-                    time_deriv_err[calindex] = time_deriv_err_temp
+                    time_deriv[0][calindex] = time_deriv_temp.flatten()
+                    time_deriv_err[0][calindex] = time_deriv_err_temp.flatten()
                     sta_mean[0][calindex], = sta_mean_temp
                     sta_rms[0][calindex] = sta_rms_temp
 
@@ -682,8 +682,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                                       breaks_in)
                     pcond_factor[0][calindex] = condslope
                     pcond_factor_err[0][calindex] = condslope_err
-                    time_deriv[calindex] = time_deriv_temp
-                    time_deriv_err[calindex] = time_deriv_err_temp
+                    time_deriv[0][calindex] = time_deriv_temp.flatten()
+                    time_deriv_err[0][calindex] = time_deriv_err_temp.flatten()
                     sta_mean[0][calindex], = sta_mean_temp
                     sta_rms[0][calindex] = sta_rms_temp
 
-- 
2.43.0


From c337cf7758b5a0de2ab980050da8f19fce7e8394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 15/31] fix: save an empty calibration for every inconsistent
 break specification

---
 pyowc/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 47a9899..c3e98f4 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -491,6 +491,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         print("Error in specificying number of possible break points")
         print(str(max_breaks), " specified, should be ",
               str([max_breaks.__len__(), n_seq]))
+        sstatus = 0
 
     # we have multiple cal series, make sure that break information is provideed for all segments
     elif n_seq > 1:
@@ -516,7 +517,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
             sstatus = 0
 
-        for n in range(n_seq):
+        for n in range(n_seq if sstatus == 1 else 0):
             nb = np.argwhere(np.isfinite(breaks[n, :])).__len__()
 
             if nb > max_breaks[n]:
-- 
2.43.0


From 757a3d20b8ca6164d2bfd47c76f43d4e3d8b147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 16/31] fix: close the topography file when reading it fails

---
 pyowc/data/fetchers.py | 63 +++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 34 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 44a405c..b787caf 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -111,51 +111,46 @@ def get_topo_grid(min_long, max_long, min_lat, max_lat, config):
     decoder = [llong, rlong, 90 * 12 - blat, 90 * 12 - tlat]
 
     # Open the binary file
-    # TODO: this should use a with statement to avoid holding on to an open handle in the event of an exception
-    elev_file = open(os.path.sep.join([config['CONFIG_DIRECTORY'], "tbase.int"]), "rb")  # pylint: disable=consider-using-with
+    with open(os.path.sep.join([config['CONFIG_DIRECTORY'], "tbase.int"]), "rb") as elev_file:
+        if decoder[1] > 4319:
+            nlat = int(round(decoder[2] - decoder[3])) + 1  # get the amount of elevation values we need
+            nlgr = int(round(decoder[1] - 4320)) + 1
+            nlgl = int(4320 - decoder[0])
 
-    if decoder[1] > 4319:
-        nlat = int(round(decoder[2] - decoder[3])) + 1  # get the amount of elevation values we need
-        nlgr = int(round(decoder[1] - 4320)) + 1
-        nlgl = int(4320 - decoder[0])
+            # initialise matrix to hold z values
+            topo_end = np.zeros((nlat, nlgr))
 
-        # initialise matrix to hold z values
-        topo_end = np.zeros((nlat, nlgr))
+            # decode the file, and get values
+            for i in range(nlat):
+                elev_file.seek((i + decoder[3]) * 360 * 12 * 2)
+                for j in range(nlgr):
+                    topo_end[i, j] = struct.unpack('h', elev_file.read(2))[0]
 
-        # decode the file, and get values
-        for i in range(nlat):
-            elev_file.seek((i + decoder[3]) * 360 * 12 * 2)
-            for j in range(nlgr):
-                topo_end[i, j] = struct.unpack('h', elev_file.read(2))[0]
+            topo_beg = np.zeros((nlat, nlgl))
 
-        topo_beg = np.zeros((nlat, nlgl))
+            for i in range(nlat):
+                elev_file.seek((i + decoder[3]) * 360 * 12 * 2 + decoder[0] * 2)
+                for j in range(nlgl):
+                    topo_beg[i, j] = struct.unpack('h', elev_file.read(2))[0]
 
-        for i in range(nlat):
-            elev_file.seek((i + decoder[3]) * 360 * 12 * 2 + decoder[0] * 2)
-            for j in range(nlgl):
-                topo_beg[i, j] = struct.unpack('h', elev_file.read(2))[0]
-
-        topo = np.concatenate([topo_beg, topo_end], axis=1)
-    else:
-        # get the amount of elevation values we need
-        nlat = int(round(decoder[2] - decoder[3])) + 1
-        nlong = int(round(decoder[1] - decoder[0])) + 1
+            topo = np.concatenate([topo_beg, topo_end], axis=1)
+        else:
+            # get the amount of elevation values we need
+            nlat = int(round(decoder[2] - decoder[3])) + 1
+            nlong = int(round(decoder[1] - decoder[0])) + 1
 
-        # initialise matrix to hold z values
-        topo = np.zeros((nlat, nlong))
+            # initialise matrix to hold z values
+            topo = np.zeros((nlat, nlong))
 
-        # decode the file, and get values
-        for i in range(nlat):
-            elev_file.seek((i + decoder[3]) * 360 * 12 * 2 + decoder[0] * 2)
-            for j in range(nlong):
-                topo[i, j] = struct.unpack('h', elev_file.read(2))[0]
+            # decode the file, and get values
+            for i in range(nlat):
+                elev_file.seek((i + decoder[3]) * 360 * 12 * 2 + decoder[0] * 2)
+                for j in range(nlong):
+                    topo[i, j] = struct.unpack('h', elev_file.read(2))[0]
 
     # make the grid
     longs, lats = np.meshgrid(lgs, lts)
 
-    # close the file
-    elev_file.close()
-
     return topo, longs, lats
 
 
-- 
2.43.0


From b469e53914e32e3e93de8db9669418f913c2dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 17/31] fix: do not change cached reference data when
 unwrapping 3d arrays

---
 pyowc/data/fetchers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index b787caf..56279fb 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -326,6 +326,9 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
                 data = get_data(wmo_box, data_type, config, pa_float_name)
 
                 if data:
+                    # the data is shared with the cache, so never change it in place
+                    data = dict(data)
+
                     # Sometimes the data comes in wrapped in as a 3d array, so convert to 2d
                     if data['pres'].__len__() == 1:
                         data['pres'] = data['pres'][0]
-- 
2.43.0


From d34919b98e8392489d39dad0b4ecd693e2077fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 18/31] fix: blank only the excluded samples, not whole rows,
 in the salinity variance plot

---
 pyowc/plot/plots.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 7f9d62b..4b2b0c1 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -353,7 +353,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_theta_lt.__len__() == 0 and use_theta_gt.__len__() > 0:
-        good = np.argwhere(ptmp < use_theta_gt)
+        good = ptmp < use_theta_gt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -368,10 +368,10 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
         if use_theta_lt < use_theta_gt:
             # exclude middle band
-            good = np.argwhere(np.logical_and(theta_range_lt, theta_range_gt))
+            good = np.logical_and(theta_range_lt, theta_range_gt)
 
         else:
-            good = np.argwhere(np.logical_or(theta_range_gt, theta_range_lt))
+            good = np.logical_or(theta_range_gt, theta_range_lt)
 
         pres[good] = np.nan
         sal[good] = np.nan
@@ -382,7 +382,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_pres_lt.__len__() > 0 and use_pres_gt.__len__() == 0:
-        good = np.argwhere(pres > use_pres_lt)
+        good = pres > use_pres_lt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -392,7 +392,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_pres_lt.__len__() == 0 and use_pres_gt.__len__() > 0:
-        good = np.argwhere(pres < use_pres_gt)
+        good = pres < use_pres_gt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -407,10 +407,10 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
         if use_pres_lt < use_pres_gt:
             # exclude middle band
-            good = np.argwhere(np.logical_and(pres_range_lt, pres_range_gt))
+            good = np.logical_and(pres_range_lt, pres_range_gt)
 
         else:
-            good = np.argwhere(np.logical_or(pres_range_gt, pres_range_lt))
+            good = np.logical_or(pres_range_gt, pres_range_lt)
 
         pres[good] = np.nan
         sal[good] = np.nan
-- 
2.43.0


From 125f86012df6c1a7a06a3ff5e87d9497cff4c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 19/31] fix: draw and save every diagnostic plot in a figure of
 its own

---
 pyowc/plot/plots.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 4b2b0c1..1e83cce 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -52,6 +52,7 @@ def trajectory_plot(bath, reef, floats, climatology, float_name, config):
         Nothing
     """
 
+    plt.figure()
     axes = plt.gca()
     axes.set_aspect(1)
 
@@ -224,8 +225,7 @@ def t_s_profile_plot(sal, ptmp, pres, sal_var, theta_levels, tlevels, plevels, f
         Nothing
     """
 
-    #plt.figure(1)
-    plt.figure(1, figsize=(7, 9))
+    plt.figure(figsize=(7, 9))
     # plot t-s profile
     plt.subplot(222)
 
@@ -630,7 +630,6 @@ def cal_sal_curve_plot(sal, cal_sal, cal_sal_err, sta_sal, sta_sal_err, sta_mean
 
         # vertically averaged salinity plot
         plt.subplot(212)
-        plt.figure(1)
 
         plt.plot(profile_no[0], avg_sal_offset, color=(0, 1, 0), linestyle='-', linewidth=2)
         good = np.argwhere(np.isfinite(avg_sta_offset))
-- 
2.43.0


From cf0e2cf34ae103bd445c6c267454d1f39f24bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 20/31] fix: pass the vorticity terms to the ranking distance
 in the order it takes them

---
 pyowc/core/finders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 1e67149..7ff67ed 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -190,7 +190,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         correlation_large = spatial_correlation_vec(remain_hist_long, long, longitude_large,
                                                     remain_hist_lat, lat, latitude_large,
                                                     remain_hist_dates, date, age_large,
-                                                    pv_hist, pv_float, phi_large)
+                                                    phi_large, pv_hist, pv_float)
 
         correlation_large_sorted = correlation_large.argsort()
 
@@ -235,7 +235,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
                                                     lat, latitude_small,
                                                     s_remain_hist_dates,
                                                     date, age_small,
-                                                    pv_hist, pv_float, phi_small)
+                                                    phi_small, pv_hist, pv_float)
 
         correlation_small_sorted = correlation_small.argsort()
 
-- 
2.43.0


From dafaa9ad1d9e0b174826a0f94dbd5da0724df568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 21/31] fix: shift only longitudes beyond 180 when looking up
 the topography of the profiles

---
 pyowc/calibration.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index c3e98f4..9a5a170 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -426,11 +426,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         if lat.shape[0] > 1:
             lat = lat.flatten()
 
-        if np.any(long > 180):
-            long_1 = copy.deepcopy(long) - 360
-
-        else:
-            long_1 = copy.deepcopy(long)
+        long_1 = copy.deepcopy(long)
+        long_1[long_1 > 180] -= 360
 
         elev, x_grid, y_grid = get_topo_grid(np.nanmin(long_1) - 1, np.nanmax(long_1) + 1,
                                              np.nanmin(lat) - 1, np.nanmax(lat) + 1, system_config)
-- 
2.43.0


From 4122298707ee91264af2d3718066dca920157009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 22/31] fix: continue the float longitude also when the
 reference data reach exactly 360

---
 pyowc/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 9a5a170..c168985 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -198,7 +198,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
                 # make sure that the grid and float longitudes match at the 0-360 mark
                 float_long_0 = float_data['float_long']
-                if np.argwhere(grid_long > 360).__len__() > 0:
+                if np.argwhere(grid_long >= 360).__len__() > 0:
                     if 0 <= float_data['float_long'] <= 20:
                         float_long_0 += 360
 
@@ -227,7 +227,7 @@ def update_salinity_mapping(float_dir, config, float_name):
                         best_hist_data.update(best_hist_data_2)
 
                 # make the float longitude wrap around the 0-360 mark if the historical data has
-                if np.argwhere(best_hist_data['grid_long'] > 360).__len__() > 0:
+                if np.argwhere(best_hist_data['grid_long'] >= 360).__len__() > 0:
                     if 0 <= float_data['float_long'] <= 20:
                         float_data['float_long'] += 360
 
-- 
2.43.0


From 0ddf06a27527ccd082ceb91fbc5d903312db850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 23/31] fix: interpolation to casts with a single good level
 gives missing values instead of failing

---
 pyowc/data/wrangling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyowc/data/wrangling.py b/pyowc/data/wrangling.py
index f8daee4..799ab9d 100644
--- a/pyowc/data/wrangling.py
+++ b/pyowc/data/wrangling.py
@@ -143,6 +143,9 @@ def interp_climatology(grid_sal, grid_theta, grid_pres, float_sal, float_theta,
         # no sign changes between consecutive values for a station means there are no values to interpolate
         stations_with_possible_interp = np.unique(sign_changes[1])
 
+        if stations_with_possible_interp.size == 0:
+            continue
+
         # find the interpolated pres value which is closest to the float pres for each station
         min_pres = np.nanargmin(np.abs(output_placeholder[:, stations_with_possible_interp] - float_pres[index]), axis=0)
 
-- 
2.43.0


From 9c096716462db83ec28c8cb20eef125bf34fd5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 24/31] fix: casts of constant temperature give missing values
 instead of failing

---
 pyowc/data/wrangling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/data/wrangling.py b/pyowc/data/wrangling.py
index 799ab9d..0b34d75 100644
--- a/pyowc/data/wrangling.py
+++ b/pyowc/data/wrangling.py
@@ -172,7 +172,8 @@ def calculate_interpolation_weights(value, reference_values, reference_values_di
     diffs = reference_values - value
 
     # boolean array which is true if a sign change occurred between rows in a column
-    sign_changes = find_sign_changes_in_columns(diffs)
+    # (two equal values bracket nothing, there is no weight between them)
+    sign_changes = find_sign_changes_in_columns(diffs) & (reference_values_diff != 0.0)
 
     # now convert to indices as we will be using it often
     sign_changes = np.nonzero(sign_changes)
-- 
2.43.0


From 5bc459375712031746822a2aa1efd80aa1595b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 25/31] fix: order values, errors and covariance of the fit
 with their profile numbers

---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index ac39a12..4197675 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -178,10 +178,11 @@ def fit_cond(x, y, n_err, lvcov, *args):
     # condition the series so that the fit is well behaved
     # sort by the independent variable
 
-    x = np.sort(x)
     sorted_index = np.argsort(x, kind='stable')
+    x = x[sorted_index]
     y = y[sorted_index]
     n_err = n_err[sorted_index]
+    lvcov = lvcov[np.ix_(sorted_index, sorted_index)]
 
     # scale x from -1 to 1
 
-- 
2.43.0


From 29015bf950802ad4dca8f4e4bf99e5fd203f6a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:52 +0000
Subject: [PATCH 26/31] fix: report the rms error of the slopes, not their
 variance in scaled units

---
 pyowc/core/stats.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 4197675..ba8892d 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -615,11 +615,9 @@ def fit_cond(x, y, n_err, lvcov, *args):
         break_pts = breaks * x_scale + x_0
 
     A[0] = A[0] * y_scale + y_0
-    P[0] = P[0] * y_scale
 
     if A.__len__() > 1:
         A[1:best] = A[1:best] * y_scale / x_scale
-        P[1:best] = P[1:best] * y_scale / x_scale
 
     yfit = yfit * y_scale + y_0
     err = np.sqrt(err) * y_scale
@@ -628,7 +626,8 @@ def fit_cond(x, y, n_err, lvcov, *args):
     sta_mean = sta_mean * y_scale + y_0
     sta_rms = sta_rms * y_scale
 
-    # get time derivatives and time derivatives errors
+    # get time derivatives and time derivatives errors (P_2 holds variances of the scaled fit)
+    coef_err = np.sqrt(P_2) * y_scale / x_scale
     ixb = sorter(np.concatenate(([np.min(xfit)], break_pts)), xfit)
 
     if best == 1:
@@ -637,7 +636,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
     elif best == 2:
         time_deriv = A[1] * np.ones((nfit, 1))
-        time_deriv_err = P_2[1] * np.ones((nfit, 1))
+        time_deriv_err = coef_err[1] * np.ones((nfit, 1))
 
     else:
         time_deriv = np.ones((nfit, 1)) * np.nan
@@ -645,7 +644,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
         for j in range(best - 1):
             ib = np.argwhere(ixb == j)
             time_deriv[ib] = A[j + 1]
-            time_deriv_err[ib] = P_2[j + 1]
+            time_deriv_err[ib] = coef_err[j + 1]
 
     condslope = yfit.T
     condslope_err = yerr.T
-- 
2.43.0


From d031f1eae78075cc1321e3cc6ff6a590e2e43f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:39 +0000
Subject: [PATCH 27/31] fix: estimate the error of fits with free break points
 instead of failing

np.concatenate was given the breaks as its axis, and the initial guess grew
with every Monte Carlo loop, so any best fit with a break point failed.
---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index ba8892d..db13d03 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -547,6 +547,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 nbr = real_breaks.__len__()
                 b_g = np.concatenate(([-1], real_breaks))
 
+                ubrk_g = []
                 for n in range(nbr):
                     ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[nbr])))
 
@@ -556,7 +557,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk = optim['x'][0]
                 residual = optim['fun']
 
-                btem = np.concatenate([xfit[0]], breaks)
+                btem = np.concatenate(([xfit[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
                 ixb = sorter(btem, xfit)
-- 
2.43.0


From 794829a250f025a67c15c5e4bb8f901bb6474a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:43 +0000
Subject: [PATCH 28/31] fix: evaluate the fit from the first fitted point,
 where its intercept is

Profiles before the first one with good data shifted the whole curve, because
the trends were counted from the first profile instead.
---
 pyowc/core/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index db13d03..d43b298 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -494,7 +494,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
     P_2 = np.diag(P)
 
     # reduce matrix to have only one value per profile
-    btem = np.concatenate(([xfit[0]], breaks))
+    btem = np.concatenate(([xf[0]], breaks))
     E = np.zeros((xfit.__len__(), best))
     E[:, 0] = np.ones((xfit.__len__(), 1)).T
     ixb = sorter(btem, xfit)
@@ -557,7 +557,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk = optim['x'][0]
                 residual = optim['fun']
 
-                btem = np.concatenate(([xfit[0]], breaks))
+                btem = np.concatenate(([xf[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
                 ixb = sorter(btem, xfit)
-- 
2.43.0


From 3b992b0ecb91726feb891ed1944c185150d21947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 29/31] fix: start the search for 2 or 4 break points from an
 exact guess

The evenly spaced guess is zero but for rounding errors, from which the
optimiser derived its step limit: it stopped at the guess.
---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index d43b298..dac54e6 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -387,7 +387,8 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
             nbr = int(nbr)
             for n in range(nbr):
-                ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[nbr])))
+                # without rounding errors: the optimiser takes its first step size from the guess
+                ubrk_g.append(np.round(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[nbr])), 10))
 
             if setbreaks != 0:
                 # break points are already set
-- 
2.43.0


From 373ea828cc1d134e2bbd93962a67095a9426adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:05 +0000
Subject: [PATCH 30/31] fix: fit given break points without a limit instead of
 failing

---
 pyowc/core/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index dac54e6..091d52d 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -281,6 +281,10 @@ def fit_cond(x, y, n_err, lvcov, *args):
             else:
                 raise ValueError("Paramater " + param + " not found in parameter list") from None
 
+    # without a limit, fit only the break points that are set, or search up to the default
+    if isinstance(max_brk_in, list):
+        max_brk_in = breaks.__len__() if setbreaks else max_brk_dflt
+
     # intialise variable for search over number of break points
     max_brk_in = int(max_brk_in)
 
-- 
2.43.0


From 8671a7528899d65d53f6f329b4cfc63067d39fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:25 +0000
Subject: [PATCH 31/31] fix: keep a limit of no break points where other
 segments prescribe some

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index c168985..8303df4 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -653,7 +653,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                 breaks_in = breaks[i, :]
                 breaks_in = breaks_in[np.argwhere(np.isfinite(breaks_in))].flatten()
 
-                if max_breaks[i]:
+                if np.isfinite(max_breaks[i]):
                     (xfit, condslope, condslope_err,
                      time_deriv_temp, time_deriv_err_temp,
                      sta_mean_temp, sta_rms_temp, ndf,
-- 
2.43.0


"""Larger behaviour-preserving rewrites: helpers extracted, loops over names, statements regrouped."""
import re


def sub(*pairs):
    def f(s, _o):
        for a, b in pairs:
            new, k = re.subn(a, lambda m, b=b: m.expand(b), s, flags=re.M | re.S)
            assert k, a
            s = new
        return s
    return f


def rep(*pairs):
    def f(s, _o):
        for a, b in pairs:
            assert a in s, a
            s = s.replace(a, b)
        return s
    return f


def register(same, C, H, G, F, W, P, D, U, T, N, S):
    three = r"^( +)for i in (\w+):\n+ +pres\[i\[0\], i\[1\]\] = np\.nan\n +sal\[i\[0\], i\[1\]\] = np\.nan\n +ptmp\[i\[0\], i\[1\]\] = np\.nan\n"
    same('rf-blank-helper', (N, '', sub((three, r"\1_blank(\2, pres, sal, ptmp)\n"),
         (r"^def find_10thetas", "def _blank(positions, *arrays):\n    for row, col in positions:\n        for array in arrays:\n            array[row, col] = np.nan\n\n\ndef find_10thetas"))))
    same('rf-blank-mask', (N, '', sub((three, r"\1for array in (pres, sal, ptmp):\n\1    array[tuple(\2.T)] = np.nan\n"))))
    same('rf-nearest-helper', (N, '', rep(("                theta_level_indices[level, depth] = np.min(np.argwhere(theta_diff ==\n                                                                       np.nanmin(theta_diff)))",
         "                theta_level_indices[level, depth] = _first_smallest(theta_diff)"),
         ("def find_10thetas", "def _first_smallest(values):\n    return np.argwhere(values == np.nanmin(values)).min()\n\n\ndef find_10thetas"))))
    same('rf-window-flags', (N, '', sub((r"if use_theta_lt\.__len__\(\) > 0 and use_theta_gt\.__len__\(\) == 0:", "if has_lt and not has_gt:"),
         (r"if use_theta_lt\.__len__\(\) == 0 and use_theta_gt\.__len__\(\) > 0:", "if has_gt and not has_lt:"),
         (r"if use_theta_lt\.__len__\(\) > 0 and use_theta_gt\.__len__\(\) > 0:", "if has_lt and has_gt:"),
         (r"    # only use theta and pressure from specified range\n", "    has_lt = len(use_theta_lt) > 0\n    has_gt = len(use_theta_gt) > 0\n"))))
    same('rf-levels-helper', (N, '', sub((r"        # get pressure levels\n.*?pres_levels = np\.arange\(min_pres, max_pres, increment\)\n.*?pres_levels = np\.arange\(min_pres, max_pres, increment\)\n",
         "        pres_levels = _pressure_levels(pres, no_levels)\n"),
         (r"^def find_10thetas", "def _pressure_levels(pres, wanted):\n    top, bottom = np.nanmin(pres), np.nanmax(pres)\n    levels = np.arange(top, bottom, 50)\n    if len(levels) < wanted:\n"
          "        levels = np.arange(top, bottom, np.floor((bottom - top) / wanted))\n    return levels\n\n\ndef find_10thetas"))))
    same('rf-pick-levels', (N, '', rep(("        if np.all(np.isnan(var_sal_tlevels)):\n            continue\n        min_theta_index = np.argwhere(var_sal_tlevels == np.nanmin(var_sal_tlevels))[0, 0]\n",
         "        if np.all(np.isnan(var_sal_tlevels)):\n            break\n        min_theta_index = int(np.nanargmin(var_sal_tlevels))\n"))))
    same('rf-remain-fancy', (N, '', sub((r"        for i in index_remain:\n.*?remain_hist_dates = np\.append\(remain_hist_dates, hist_dates\[int\(i\)\]\)\n",
         "        remain_hist_lat = np.array([hist_lat[i] for i in index_remain]).flatten()\n        remain_hist_long = np.array([hist_long[i] for i in index_remain]).flatten()\n"
         "        remain_hist_z_value = np.array([hist_z_value[i] for i in index_remain]).flatten()\n        remain_hist_dates = np.array([hist_dates[i] for i in index_remain]).flatten()\n"))))
    same('rf-sorted-fancy', (N, '', sub((r"        z_remain_lat = \[\]\n.*?z_remain_dates = np\.append\(z_remain_dates, remain_hist_dates\[int\(i\)\]\)\n",
         "        z_remain_lat = remain_hist_lat[correlation_large_sorted]\n        z_remain_long = remain_hist_long[correlation_large_sorted]\n"
         "        z_remain_z_value = remain_hist_z_value[correlation_large_sorted]\n        z_remain_dates = remain_hist_dates[correlation_large_sorted]\n"))))
    same('rf-third', (N, '', sub((r"        # pick max_casts/3 random points\n", "        third = math.ceil(max_casts / 3)\n"), (r"np\.random\.rand\(math\.ceil\(max_casts / 3\)\)", "np.random.rand(third)"),
         (r"lsegment2 = math\.ceil\(max_casts / 3\) \+ math\.ceil\(max_casts / 3\) - index_rand\.__len__\(\)", "lsegment2 = 2 * third - len(index_rand)"))))
    same('rf-boxes-wrap', (N, '', sub((r"    # wrap longitudinal values\n    if ln_x\[2\] < 0:.*?ln_x\[3\] -= 360\n", "    ln_x = [x + 360 if x < 0 else x - 360 if x >= 360 else x for x in ln_x]\n"))))
    same('rf-boxes-offsets', (N, '', sub((r"    ln_x = \[\]\n    ln_y = \[\]\n.*?ln_y\.append\(pn_float_lat - 19\.99\)\n",
         "    offsets = (.01, 10.01, -9.99, 20.01, -19.99)\n    ln_x = [pn_float_long + d for d in offsets]\n    ln_y = [pn_float_lat + d for d in offsets]\n"))))
    # archive
    same('rf-archive-fields', (F, '', rep(("    data['sal'] = np.array(np.delete(data['sal'], not_use, axis=1))\n    data['ptmp'] = np.array(np.delete(data['ptmp'], not_use, axis=1))\n    data['pres'] = np.array(np.delete(data['pres'], not_use, axis=1))\n",
         "    for name in ('sal', 'ptmp', 'pres'):\n        data[name] = np.array(np.delete(data[name], not_use, axis=1))\n"))))
    same('rf-archive-path', (F, '', sub((r"read_mat_ctd\(\n +os\.path\.sep\.join\(\[config\['HISTORICAL_DIRECTORY'\], config\['HISTORICAL_CTD_PREFIX'\] \+ box_name \+ '\.mat'\]\)\n +\)", "read_mat_ctd(_archive(config, 'HISTORICAL_CTD_PREFIX', box_name))"),
         (r"read_mat_bottle\(\n +os\.path\.sep\.join\(\[config\['HISTORICAL_DIRECTORY'\], config\['HISTORICAL_BOTTLE_PREFIX'\] \+ box_name \+ '\.mat'\]\)\n +\)", "read_mat_bottle(_archive(config, 'HISTORICAL_BOTTLE_PREFIX', box_name))"),
         (r"^def get_data", "def _archive(config, prefix, box_name):\n    return os.path.sep.join([config['HISTORICAL_DIRECTORY'], config[prefix] + box_name + '.mat'])\n\n\ndef get_data"))))
    same('rf-archive-return', (F, '', sub((r"    if wmo_box\[data_type\] == 1 and data_type == 1:\n        data = read_mat_ctd\(", "    if wmo_box[data_type] != 1:\n        return data\n    if data_type == 1:\n        data = read_mat_ctd("),
         (r"    if wmo_box\[data_type\] == 1 and data_type == 2:", "    elif data_type == 2:"), (r"\n    if wmo_box\[data_type\] == 1 and data_type == 3:", "\n    elif data_type == 3:"))))
    same('rf-pad-helper', (F, '', sub((r"np\.append\(grid_(pres|ptmp|sal), np\.ones\(\n +\(how_many_cols, new_depth - max_depth\)\) \* np\.nan, axis=1\n +\)\.reshape\(\(how_many_cols, how_many_rows\)\)", r"_deeper(grid_\1, new_depth)"),
         (r"^def _sync_nans", "def _deeper(grid, depth):\n    extra = np.full((grid.shape[0], depth - grid.shape[1]), np.nan)\n    return np.hstack((grid, extra))\n\n\ndef _sync_nans"))))
    same('rf-drop-casts', (F, '', sub((r"    nans = 0\n    for column in range\(grid_sal\.shape\[1\]\):\n.*?            nans \+= 1\n",
         "    empty = np.isnan(grid_sal).all(axis=0) | np.isnan(grid_pres).all(axis=0)\n    nans = np.count_nonzero(empty)\n    if nans > 0:\n        keep = ~empty\n        grid_sal = grid_sal[:, keep]\n        grid_ptmp = grid_ptmp[:, keep]\n"
         "        grid_pres = grid_pres[:, keep]\n        grid_lat = grid_lat[keep]\n        grid_long = grid_long[keep]\n        grid_dates = grid_dates[keep]\n"))))
    same('rf-sync-joint', (F, '', sub((r"    # make sure salinity, pressure, and potential temperature data have all the same NaNs\n.*?    grid_sal\[ptmp_nans\] = np\.nan\n    grid_pres\[ptmp_nans\] = np\.nan\n",
         "    grids = (grid_sal, grid_pres, grid_ptmp)\n    missing = np.isnan(grid_sal) | np.isnan(grid_pres) | np.isnan(grid_ptmp)\n    for grid in grids:\n        grid[missing] = np.nan\n"))))
    same('rf-saf-trim', (F, '', sub((r"    s_mean_s = np\.delete\(s_mean_s, \[0, 1\], 1\)\n.*?    deph = np\.delete\(deph, \[0, 1\], 1\)\n",
         "    (s_mean_s, s_mean_n, s_std_s, t_std_s, s_std_n,\n     t_std_n, t_mean_s, t_mean_n, deph) = [np.delete(x, [0, 1], 1) for x in\n                                           (s_mean_s, s_mean_n, s_std_s, t_std_s, s_std_n,\n                                            t_std_n, t_mean_s, t_mean_n, deph)]\n"))))
    same('rf-saf-side', (F, '', sub((r"                    if t300 > 5:\n                        grid_crit_saf\[i\] = 1\n                    elif t300 < 3:\n                        grid_crit_saf\[i\] = -1\n                    else:\n                        grid_crit_saf\[i\] = 0\n",
         "                    grid_crit_saf[i] = _side(t300)\n"),
         (r"            if t300 or t300 == 0:\n                if t300 > 5:\n.*?            else:\n                crit_saf = 0\n\n", "            crit_saf = _side(t300)\n\n"),
         (r"^def frontal_constraint_saf", "def _side(temperature):\n    if temperature > 5:\n        return 1\n    if temperature < 3:\n        return -1\n    return 0\n\n\ndef frontal_constraint_saf"))))
    same('rf-saf-select', (F, '', sub((r"        grid_crit_saf = np\.array\(\[grid_crit_saf\]\)\n        crit_saf = np\.array\(\[crit_saf\]\)\n        is_select = np\.argwhere\(grid_crit_saf == crit_saf\)\n        is_select = is_select\[:, 1\]\n",
         "        is_select = np.flatnonzero(np.asarray(grid_crit_saf) == crit_saf)\n"))))
    same('rf-topo-unpack', (F, '', rep(("        decoder = [llong", "        decoder = [llong"),) if False else sub((r"    decoder = \[llong, rlong, 90 \* 12 - blat, 90 \* 12 - tlat\]\n", "    bottom, top = 90 * 12 - blat, 90 * 12 - tlat\n"),
         (r"decoder\[0\]", "llong"), (r"decoder\[1\]", "rlong"), (r"decoder\[2\]", "bottom"), (r"decoder\[3\]", "top"))))
    same('rf-topo-value', (F, '', sub((r"struct\.unpack\('h', elev_file\.read\(2\)\)\[0\]", "_next_value(elev_file)"), (r"^def get_topo_grid", "def _next_value(handle):\n    return struct.unpack('h', handle.read(2))[0]\n\n\ndef get_topo_grid"))))
    # helper
    same('rf-load-flatten', (H, '', sub((r"        # flatten the data\n.*?float_mapped_data\[\"p_exclude\"\] = float_mapped_data\['p_exclude'\]\.flatten\(\)\n",
         "        for name in ('la_profile_no', 'scale_long_large', 'scale_lat_large', 'scale_long_small', 'scale_lat_small',\n                     'scale_phi_large', 'scale_phi_small', 'scale_age_large', 'scale_age_small',\n                     'use_pv', 'use_saf', 'p_delta', 'p_exclude'):\n            float_mapped_data[name] = float_mapped_data[name].flatten()\n"))))
    same('rf-load-extend', (H, '', sub((r"        if new_depth > max_depth != 0:\n.*?axis=0\)\n\n        print",
         "        if new_depth > max_depth != 0:\n            extra = np.full((new_depth - max_depth, how_many_cols), np.nan)\n            for name in ('la_mapped_sal', 'la_map_sal_errors', 'la_noise_sal', 'la_signal_sal', 'la_ptmp'):\n                float_mapped_data[name] = np.vstack((float_mapped_data[name], extra))\n\n        print"))))
    same('rf-columns', (H, '', sub((r"    # if we are inserting changing a column in existing data\n.*?    return data\n\n\ndef process_profiles_grid",
         "    for name in ('la_ptmp', 'la_mapped_sal', 'la_map_sal_errors', 'la_noise_sal', 'la_signal_sal'):\n        values = data[name]\n        if profile_index < values.shape[1]:\n            values[:, profile_index] = np.nan\n"
         "        else:\n            data[name] = np.hstack((values, np.full((values.shape[0], 1), np.nan)))\n    return data\n\n\ndef process_profiles_grid"))))
    same('rf-hist-dict', (H, '', sub((r"    hist_sal = hist_interp_sal\[n_level, max_hist_casts\]\n.*?'hist_dates': hist_dates, 'hist_z': hist_z\}\n",
         "    hist_data = {'hist_sal': hist_interp_sal[n_level, max_hist_casts], 'hist_pres': hist_interp_pres[n_level, max_hist_casts]}\n    for name in ('long', 'lat', 'dates', 'z'):\n        hist_data['hist_' + name] = grid_data['grid_' + name][max_hist_casts]\n\n"
         "    near = np.argwhere(np.abs(hist_data['hist_pres'] - float_pres[n_level]) < map_p_delta)[:, 0]\n    return {name: values[near] for name, values in hist_data.items()}\n"))))
    same('rf-outlier-early', (H, '', sub((r"    if outlier\.__len__\(\) > 0:\n.*?    return hist_data\n\n\ndef check_and",
         "    if len(outlier) == 0:\n        return hist_data\n\n    for name in ('hist_sal', 'hist_pres'):\n        hist_data[name] = np.delete(hist_data[name], outlier)\n    for name in ('hist_long', 'hist_lat', 'hist_dates', 'hist_z'):\n        hist_data[name] = np.delete(hist_data[name], outlier).reshape((-1, 1))\n\n    return hist_data\n\n\ndef check_and"))))
    same('rf-selected', (H, '', sub((r"    count = len\(hist_data\['hist_long'\]\)\n\n    for j in range\(count\):.*?    return data\n",
         "    profile = data['la_profile_no'][profile_index]\n    for lon, lat in zip(hist_data['hist_long'][:, 0], hist_data['hist_lat'][:, 0]):\n        known = data['selected_hist']\n        close = (np.abs(known[:, 0] - lon) < 1 / 60) & (np.abs(known[:, 1] - lat) < 1 / 60)\n"
         "        if not close.any():\n            data['selected_hist'] = np.vstack((known, np.array([lon, lat, profile])))\n\n    return data\n"))))
    # mapping
    names = r"^( +)data\['scale_long_large'\]\[profile_index\] = long_large\n.*?data\['p_exclude'\]\[profile_index\] = map_p_exclude\n"
    same('rf-record', (C, '', sub((names, r"\1_record_settings(data, profile_index, {\n\1    'scale_long_large': long_large, 'scale_lat_large': lat_large, 'scale_long_small': long_small,\n\1    'scale_lat_small': lat_small, 'scale_phi_large': phi_large, 'scale_phi_small': phi_small,\n\1    'scale_age_large': map_age_large, 'scale_age_small': map_age_small, 'use_pv': map_use_pv,\n\1    'use_saf': map_use_saf, 'p_delta': map_p_delta, 'p_exclude': map_p_exclude})\n"),
         (r"^def update_salinity_mapping", "def _record_settings(data, column, settings):\n    for name, value in settings.items():\n        data[name][column] = value\n\n\ndef update_salinity_mapping"))))
    same('rf-append-names', (C, '', sub((r"        data\['scale_long_large'\] = np\.append\(data\['scale_long_large'\], np\.nan\)\n.*?data\['p_exclude'\] = np\.append\(data\['p_exclude'\], np\.nan\)\n",
         "        for name in ('scale_long_large', 'scale_lat_large', 'scale_long_small', 'scale_lat_small', 'scale_phi_large',\n                     'scale_phi_small', 'scale_age_large', 'scale_age_small', 'use_pv', 'use_saf', 'p_delta', 'p_exclude'):\n            data[name] = np.append(data[name], np.nan)\n"))))
    same('rf-float-depth', (C, '', sub((r"            # tbase\.int file requires longitudes from 0 to \+/-180\n            float_long_tbase = .*?float_data\['float_z'\] = -float_interp\(float_long_tbase, float_data\['float_lat'\]\)\[0\]\n",
         "            float_data['float_z'] = _float_depth(float_data['float_long'], float_data['float_lat'], config)\n"),
         (r"^def update_salinity_mapping", "def _float_depth(longitude, latitude, config):\n    if longitude > 180:\n        longitude = longitude - 360\n    elev, x_grid, y_grid = get_topo_grid(longitude - 1, longitude + 1, latitude - 1, latitude + 1, config)\n"
          "    interp = interpolate.interp2d(x_grid[0, :], y_grid[:, 0], elev, kind='linear')\n    return -interp(longitude, latitude)[0]\n\n\ndef update_salinity_mapping"))))
    same('rf-clean-outliers', (C, '', sub((r"                            # Need to check for statistical outliers\n.*?hist_data = remove_statical_outliers\(outlier, hist_data\)\n",
         "                            hist_data = _without_outliers(hist_data)\n"),
         (r"^def update_salinity_mapping", "def _without_outliers(hist_data):\n    sal = hist_data['hist_sal']\n    spread = np.sqrt(signal_variance(sal))\n    far = np.argwhere(np.abs(sal - np.mean(sal)) / spread > 3)[:, 0]\n    return remove_statical_outliers(far, hist_data)\n\n\ndef update_salinity_mapping"))))
    same('rf-two-scales', (C, '', sub((r"                            mapped_values = map_data_grid\(.*?map_use_pv\)\n.*?phi_small, map_use_pv\)\n",
         "                            mapped_values, mapped_residuals = _map_two_scales(\n                                hist_sal_flatten, float_data_array, hist_data_array, signal_sal, noise_sal, config)\n"),
         (r"^def update_salinity_mapping", "def _map_two_scales(sal, float_pos, hist_pos, signal, noise, config):\n    large = map_data_grid(sal, float_pos, hist_pos, config['MAPSCALE_LONGITUDE_LARGE'], config['MAPSCALE_LATITUDE_LARGE'],\n"
          "                          config['MAPSCALE_AGE_LARGE'], signal, noise, config['MAPSCALE_PHI_LARGE'], config['MAP_USE_PV'])\n    residual = sal - large[2]\n    small = map_data_grid(residual, float_pos, hist_pos, config['MAPSCALE_LONGITUDE_SMALL'], config['MAPSCALE_LATITUDE_SMALL'],\n"
          "                          config['MAPSCALE_AGE_SMALL'], signal_variance(residual), noise, config['MAPSCALE_PHI_SMALL'], config['MAP_USE_PV'])\n    return large, small\n\n\ndef update_salinity_mapping"))))
    same('rf-implausible', (C, '', sub((r"    bad_sal_30 = .*?data\['la_mapped_sal'\]\[sal\[0\], sal\[1\]\] = np\.nan\n",
         "    data['la_mapped_sal'] = _plausible(data['la_mapped_sal'])\n"),
         (r"^def update_salinity_mapping", "def _plausible(sal, low=30, high=40):\n    sal[(sal < low) | (sal > high)] = np.nan\n    return sal\n\n\ndef update_salinity_mapping"))))
    # fit
    same('rf-fit-call', (C, '', sub((r"            # if no break points are set\n            if breaks\.__len__\(\) == 0:\n.*?            # apply calibrations to float data\n",
         "            args = []\n            if len(breaks) > 0:\n                breaks_in = breaks[i, :]\n                args += ['breaks', breaks_in[np.argwhere(np.isfinite(breaks_in))].flatten()]\n            if len(breaks) == 0 or np.isfinite(max_breaks[i]):\n"
         "                args += ['max_no_breaks', max_breaks[i][0]]\n            (xfit, condslope, condslope_err, time_deriv_temp, time_deriv_err_temp,\n             sta_mean_temp, sta_rms_temp, ndf, fit_coef, fit_breaks) = fit_cond(x, y, err, covariance, *args)\n"
         "            pcond_factor[0][calindex] = condslope\n            pcond_factor_err[0][calindex] = condslope_err\n            time_deriv[0][calindex] = time_deriv_temp.flatten()\n            time_deriv_err[0][calindex] = time_deriv_err_temp.flatten()\n"
         "            sta_mean[0][calindex], = sta_mean_temp\n            sta_rms[0][calindex] = sta_rms_temp\n            # apply calibrations to float data\n"))))
    same('rf-cond', (C, '', sub((r"gsw\.conversions\.C_from_SP\((.*?),\s+(\w+),\s*0\)", r"_conductivity(\1, \2)"),
         (r"^def calc_piecewisefit", "def _conductivity(sal, ptmp):\n    return gsw.conversions.C_from_SP(sal, ptmp, 0)\n\n\ndef calc_piecewisefit"))))
    same('rf-save-once', (C, '', sub((r"        savemat\(float_calib_filename,\n                \{(.*?)\}\)\n\n        return\n", r"        _save_calibration(system_config, float_dir, float_name, {\1})\n\n        return\n"),
         (r"    savemat\(float_calib_name, \{(.*?)\}\)", r"    _save_calibration(system_config, float_dir, float_name, {\1})"),
         (r"^def calc_piecewisefit", "def _save_calibration(system_config, float_dir, float_name, values):\n    path = os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,\n                             system_config['FLOAT_CALIB_PREFIX'] + float_name + system_config['FLOAT_CALIB_POSTFIX']])\n    savemat(path, values)\n\n\ndef calc_piecewisefit"))))
    same('rf-ten', (C, '', sub((r"            for ipr in range\(k\):\n                jj = .*?(?=            # calculate potential conductivites)",
         "            for ipr in range(k):\n                levels = index[:, ipr][index[:, ipr] >= 0]\n                for target, values in ((ten_sal, unique_sal), (ten_ptmp, unique_ptmp), (ten_pres, unique_pres),\n"
         "                                       (ten_mapped_sal, unique_mapped_sal), (ten_mapsalerrors, unique_mapsalerrors)):\n                    target[:len(levels), ipr] = values[levels, ipr]\n"))))
    same('rf-depths', (C, '', sub((r"        z_grid = \[\]\n.*?        z_grid = -np\.array\(z_grid\)\n", "        z_grid = np.array([-grid_interp(x, y) for x, y in zip(long_1[0], lat[0])])\n"))))
    # settings
    same('rf-limits', (G, '', sub((r"    if use_theta_lt\.__len__\(\) > 1:\n.*?use_pres_gt = \[\]\n", "    use_theta_lt = _single(use_theta_lt, 'potential temperature')\n    use_theta_gt = _single(use_theta_gt, 'potential temperature')\n    use_pres_lt = _single(use_pres_lt, 'pressure')\n    use_pres_gt = _single(use_pres_gt, 'pressure')\n"),
         (r"^def set_calseries", "def _single(limit, what):\n    if len(limit) > 1:\n        print('More than one', what, 'boundary used, removing boundary...')\n        return []\n    return limit\n\n\ndef set_calseries"))) if False else
         (G, '', sub((r"    # ensure values are in a realistic range\n.*?    # Check that there are no missing profiles", "    use_theta_lt = _single(use_theta_lt, 'potential temperature')\n    use_theta_gt = _single(use_theta_gt, 'potential temperature')\n    use_pres_lt = _single(use_pres_lt, 'pressure')\n    use_pres_gt = _single(use_pres_gt, 'pressure')\n\n    # Check that there are no missing profiles"),
         (r"^def set_calseries", "def _single(limit, what):\n    if len(limit) > 1:\n        print('More than one', what, 'boundary used, removing boundary...')\n        return []\n    return limit\n\n\ndef set_calseries"))))
    same('rf-valid', (G, '', sub((r"        sal_nan = np\.argwhere.*?            calseries\[calib_profile_no == profile_no\[i\]\] = 0\n",
         "        if any(np.isnan(values[:, i]).all() for values in (sal, temp, pres)):\n            calseries[calib_profile_no == profile_no[i]] = 0\n"))))
    same('rf-missing', (G, '', sub((r"    missing_profiles_index = \[\]\n\n    for i in range\(no_profiles\):\n.*?missing_profiles_index\.append\(i\)\n", "    missing_profiles_index = [i for i in range(no_profiles) if profile_no[i] not in calib_profile_no]\n"),
         (r"    for i in range\(missing_profiles_index\.__len__\(\)\):\n        missing = missing_profiles_index\[i\]\n", "    for missing in missing_profiles_index:\n"))))
    # dates
    same('rf-date-parse', (T, '', sub((r"        try:\n            # select the separate.*?        except ValueError:\n            print\(\"Date is incorrect length or format\"\)\n            continue\n",
         "        try:\n            dec_dates[i] = _decimal(cal_dates_string[i])\n        except ValueError:\n            print(\"Date is incorrect length or format\")\n            continue\n"),
         (r"^def change_dates", "def _decimal(text):\n    year, month, day = int(text[0:4]), int(text[4:6]), int(text[6:8])\n    hour = int(text[8:10]) if len(text) > 9 else 0\n    minute = int(text[10:12]) if len(text) > 11 else 0\n"
          "    if not 0 < month < 13 or not 0 < day < 32:\n        return 0\n    return year + cal2dec(month - 1, day, hour, minute) / 365\n\n\ndef change_dates"))))
    same('rf-wrap', (T, '', sub((r"    neg_long = np\.argwhere\(grid_long < 0\)\n.*?    return grid_long\n", "    grid_long[grid_long < 0] += 360\n    if (grid_long >= 320).any():\n        grid_long[grid_long <= 40] += 360\n    return grid_long\n"))))

"""Edits used while developing the checks.  BUGS: (name, property, [(file, old, new)]).
SAME: (name, [(file, old, new)]) behaviour preserving."""
C = 'pyowc/calibration.py'
H = 'pyowc/helper.py'
G = 'pyowc/configuration.py'
F = 'pyowc/data/fetchers.py'
W = 'pyowc/data/wrangling.py'
P = 'pyowc/plot/plots.py'
D = 'pyowc/plot/dashboard.py'
U = 'pyowc/plot/utils.py'
T = 'pyowc/utilities.py'
N = 'pyowc/core/finders.py'
S = 'pyowc/core/stats.py'
BUGS, SAME = [], []


def bug(prop, name, *edits):
    BUGS.append((name, prop, [tuple(e) for e in edits]))


def same(name, *edits):
    SAME.append((name, [tuple(e) for e in edits]))


def nth(k, new):
    """Replace only the k-th occurrence."""
    def f(s, o):
        parts = s.split(o)
        return o.join(parts[:k + 1]) + new + o.join(parts[k + 1:])
    return f


# ---- C08
bug('C08', 'dash-postfix', (D, "config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])", "config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_SOURCE_POSTFIX']])"))
bug('C08', 'calib-nodir', (C, "    float_mapped_data_path = os.path.sep.join([system_config['FLOAT_MAPPED_DIRECTORY'], float_dir,", "    float_mapped_data_path = os.path.sep.join([system_config['FLOAT_MAPPED_DIRECTORY'],"))
bug('C08', 'rename-var', (C, "               'sta_rms': sta_rms,", nth(1, "               'sta_RMS': sta_rms,\n 'sta_mean_': 1,")), (C, "'sta_mean': sta_mean,", nth(1, "'sta_Mean': sta_mean,")))
bug('C08', 'cond-pop', (C, "    data['la_mapsalerrors'] = data.pop('la_map_sal_errors')\n", "    if len(missing_profile_index) > 0:\n        data['la_mapsalerrors'] = data.pop('la_map_sal_errors')\n"))
bug('C08', 'early-exit-missing-key', (C, "                 'sta_mean': sta_mean,\n", ""))
# ---- C16
bug('C16', 'open-noclose', (F, "    with open(os.path.sep.join([config['CONFIG_DIRECTORY'], \"tbase.int\"]), \"rb\") as elev_file:\n", "    elev_file = open(os.path.sep.join([config['CONFIG_DIRECTORY'], \"tbase.int\"]), \"rb\")\n    if True:\n"))
bug('C16', 'shape-noclose', (P, "    with shapefile.Reader(coastline) as shp:", "    shp = shapefile.Reader(coastline)\n    if True:"))
# ---- C17
bug('C17', 'anom-name', (P, 'str(bounds) + "."', 'str(bounds[0]) + "."'))
bug('C17', 'var-name', (P, '"_salinity_variance_" + str(i + 1)', '"_salinity_variance_" + str(i // 2)'))
bug('C17', 'var-noname', (P, '"_salinity_variance_" + str(i + 1) + "."', '"_salinity_variance" + "."'))
bug('C17', 'untitled', (D, 'profile_no[0], config, float_name, "calibrated")', 'profile_no[0], config, float_name)'))
bug('C17', 'nofloat', (P, 'plt.savefig(plot_loc + "_salinity_curve."', 'plt.savefig(config["FLOAT_PLOTS_DIRECTORY"] + "/salinity_curve."'))
bug('C17', 'after-show', (P, '    plt.savefig(plot_loc + "_salinity_profile." + save_format, format=save_format, bbox_inches=\'tight\')\n\n    plt.show()', '    plt.show()\n    plt.savefig(plot_loc + "_salinity_profile." + save_format, format=save_format, bbox_inches=\'tight\')'))
bug('C17', 'fmt', (P, "plt.savefig(plot_loc + \"_trajectory.\" + save_format, format=save_format)", "plt.savefig(plot_loc + \"_trajectory.\" + save_format, format='eps')"))
bug('C17', 'fig-outside', (P, "    for bounds in config['THETA_BOUNDS']:\n        plt.figure(figsize=(10, 6))\n", "    plt.figure(figsize=(10, 6))\n    for bounds in config['THETA_BOUNDS']:\n"))
# ---- C18
bug('C18', 'overwrite-src', (C, "    data['la_mapsalerrors'] = data.pop('la_map_sal_errors')\n", "    savemat(filename, float_source_data)\n    data['la_mapsalerrors'] = data.pop('la_map_sal_errors')\n"))
bug('C18', 'nofloat', (G, "system_config['FLOAT_CALSERIES_PREFIX'] +\n                                            float_name +", "system_config['FLOAT_CALSERIES_PREFIX'] +"))
bug('C18', 'remove', (C, "        if max_breaks.__len__() == 1:", "        os.remove(float_calseries_path)\n        if max_breaks.__len__() == 1:"))
bug('C18', 'openmode', (F, '"tbase.int"]), "rb")', '"tbase.int"]), "r+b")'))
# ---- C19
bug('C19', 'dropkey', (G, "        'MAP_P_DELTA': 250,\n", ""))
bug('C19', 'typo', (C, "config['MAPSCALE_AGE_SMALL']", "config['MAPSCALE_AGE_SML']"))
bug('C19', 'text', (G, "'MAP_P_EXCLUDE': 100", "'MAP_P_EXCLUDE': '100'"))
bug('C19', 'cached', (G, "def load():", "import functools\n@functools.lru_cache()\ndef load():"))
bug('C19', 'shared', (G, "        'THETA_BOUNDS': [[0, 5], [5, 20]]", "        'THETA_BOUNDS': BOUNDS"), (G, "def load():", "BOUNDS = [[0, 5], [5, 20]]\n\n\ndef load():"))

# ------------------------------------------------------------------ behaviour preserving
same('osjoin', (C, "    save_location = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'], float_dir,\n                                      config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])", "    save_location = mapped_data_path"))
same('osjoin2', (C, "    save_location = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'], float_dir,\n                                      config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])", "    save_location = os.path.join(config['FLOAT_MAPPED_DIRECTORY'], float_dir, '{}{}{}'.format(config['FLOAT_MAPPED_PREFIX'], float_name, config['FLOAT_MAPPED_POSTFIX']))"))
same('fstr', (D, "    float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,\n                                       float_name + config['FLOAT_SOURCE_POSTFIX']])", "    float_data_loc = f\"{config['FLOAT_SOURCE_DIRECTORY']}/{float_dir}/{float_name}{config['FLOAT_SOURCE_POSTFIX']}\""))
same('helper-save', (C, "def calc_piecewisefit(", "def _cal_path(cfg, fdir, name):\n    return os.path.sep.join([cfg['FLOAT_CALIB_DIRECTORY'], fdir, cfg['FLOAT_CALIB_PREFIX'] + name + cfg['FLOAT_CALIB_POSTFIX']])\n\n\ndef calc_piecewisefit("),
     (C, "    float_calib_name = (os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,\n                                          system_config['FLOAT_CALIB_PREFIX'] + float_name\n                                          + system_config['FLOAT_CALIB_POSTFIX']]))", "    float_calib_name = _cal_path(system_config, float_dir, float_name)"))
same('plot-helper', (P, "    save_format = config['FLOAT_PLOTS_FORMAT']\n    plot_loc = os.path.sep.join([config['FLOAT_PLOTS_DIRECTORY'], float_name])\n    plt.savefig(plot_loc + \"_trajectory.\" + save_format, format=save_format)", "    _save(config, float_name, '_trajectory')"),
     (P, "def trajectory_plot(", "def _save(config, name, what, **kw):\n    fmt = config['FLOAT_PLOTS_FORMAT']\n    plt.savefig(os.path.join(config['FLOAT_PLOTS_DIRECTORY'], f'{name}{what}.{fmt}'), format=fmt, **kw)\n\n\ndef trajectory_plot("))
same('plot-enum', (P, "    for i in range(levels):\n        #plt.figure(1)\n", "    for n_plot in range(1, levels + 1):\n        i = n_plot - 1\n"), (P, 'str(i + 1) + "."', 'str(n_plot) + "."'))
same('tryfinally', (F, "    with open(os.path.sep.join([config['CONFIG_DIRECTORY'], \"tbase.int\"]), \"rb\") as elev_file:\n", "    elev_file = open(os.path.sep.join([config['CONFIG_DIRECTORY'], \"tbase.int\"]), \"rb\")\n    try:\n"), (F, "    # make the grid\n    longs", "    finally:\n        elev_file.close()\n\n    # make the grid\n    longs"))
same('cfg-module', (G, "    return collections.OrderedDict(sorted(cfg.items()))", "    out = collections.OrderedDict()\n    for key in sorted(cfg):\n        out[key] = cfg[key]\n    return out"))

# ---- C10
LOOP10 = """    bad_sal_30 = np.argwhere(data['la_mapped_sal'] < 30)
    bad_sal_40 = np.argwhere(data['la_mapped_sal'] > 40)
    bad_sal = np.concatenate((bad_sal_30, bad_sal_40))

    for sal in bad_sal:
        data['la_mapped_sal'][sal[0], sal[1]] = np.nan
"""
bug('C10', 'thr', (C, "data['la_mapped_sal'] > 40", "data['la_mapped_sal'] > 41"))
bug('C10', 'only30', (C, "np.concatenate((bad_sal_30, bad_sal_40))", "np.concatenate((bad_sal_30, bad_sal_30))"))
bug('C10', 'eq', (C, "data['la_mapped_sal'] < 30", "data['la_mapped_sal'] <= 30"))
bug('C10', 'other', (C, LOOP10, LOOP10.replace("la_mapped_sal'] > 40", "la_ptmp'] > 40")))
bug('C10', 'gone', (C, LOOP10, ""))
bug('C10', 'target', (C, "data['la_mapped_sal'][sal[0], sal[1]] = np.nan", "data['la_ptmp'][sal[0], sal[1]] = np.nan"))
bug('C10', 'swap', (C, "data['la_mapped_sal'][sal[0], sal[1]] = np.nan", "data['la_mapped_sal'][sal[0], sal[0]] = np.nan"))
bug('C10', 'cond', (C, LOOP10, "    if len(missing_profile_index) > 1:\n" + '\n'.join('    ' + l if l else l for l in LOOP10.split('\n'))))
bug('C10', 'mask-and', (C, LOOP10, "    x = data['la_mapped_sal']\n    x[(x < 30) & (x > 40)] = np.nan\n"))
bug('C10', 'indent', (C, LOOP10, "    for sal in np.argwhere(data['la_mapped_sal'] < 30):\n        if data['la_noise_sal'][sal[0], sal[1]] > 0:\n            data['la_mapped_sal'][sal[0], sal[1]] = np.nan\n    for sal in np.argwhere(data['la_mapped_sal'] > 40):\n        data['la_mapped_sal'][sal[0], sal[1]] = np.nan\n"))
bug('C10', 'copy', (C, LOOP10, LOOP10.replace("    for sal", "    checked = data['la_mapped_sal'].copy()\n    for sal").replace("        data['la_mapped_sal'][sal", "        checked[sal")))
same('c10-mask', (C, LOOP10, "    x = data['la_mapped_sal']\n    x[(x < 30) | (x > 40)] = np.nan\n"))
same('c10-where', (C, LOOP10, "    x = data['la_mapped_sal']\n    data['la_mapped_sal'] = np.where((x >= 30) & (x <= 40), x, np.nan)\n"))
same('c10-two', (C, LOOP10, "    for bad in (data['la_mapped_sal'] < 30, data['la_mapped_sal'] > 40):\n        data['la_mapped_sal'][bad] = np.nan\n"))
same('c10-helper', (C, LOOP10, "    _blank_implausible(data['la_mapped_sal'], 30, 40)\n"), (C, "def update_salinity_mapping(", "def _blank_implausible(sal, low, high):\n    rows, cols = np.nonzero(np.logical_or(sal < low, sal > high))\n    sal[rows, cols] = np.nan\n\n\ndef update_salinity_mapping("))
same('c10-loops', (C, LOOP10, "    for i in range(data['la_mapped_sal'].shape[0]):\n        for j in range(data['la_mapped_sal'].shape[1]):\n            if data['la_mapped_sal'][i, j] < 30 or data['la_mapped_sal'][i, j] > 40:\n                data['la_mapped_sal'][i, j] = np.nan\n"))
same('c10-percol', (C, LOOP10, "    for col in range(data['la_mapped_sal'].shape[1]):\n        bad = np.argwhere((data['la_mapped_sal'][:, col] < 30) | (data['la_mapped_sal'][:, col] > 40))\n        data['la_mapped_sal'][bad, col] = np.nan\n"))
same('c10-view', (C, LOOP10, "    for col in range(data['la_mapped_sal'].shape[1]):\n        level = data['la_mapped_sal'][:, col]\n        level[level < 30] = np.nan\n        level[level > 40] = np.nan\n"))
same('c10-flat', (C, LOOP10, "    flat = data['la_mapped_sal'].ravel()\n    flat = np.where(np.logical_or(flat < 30, flat > 40), np.nan, flat)\n    data['la_mapped_sal'] = flat.reshape(data['la_mapped_sal'].shape)\n"))
same('c10-inline', (C, LOOP10, ""), (C, "    savemat(save_location, data)", "    sal = data['la_mapped_sal']\n    data['la_mapped_sal'] = np.where((sal < 30) | (sal > 40), np.nan, sal)\n    savemat(save_location, data)"))
same('c10-const', (C, LOOP10, LOOP10.replace('< 30', '< MIN_SAL').replace('> 40', '> MAX_SAL')), (C, "# pylint: disable=too-many-lines\n", "# pylint: disable=too-many-lines\nMIN_SAL = 30\nMAX_SAL = 40\n"))
same('c10-ge', (C, LOOP10, "    ok = np.isnan(data['la_mapped_sal']) | ((data['la_mapped_sal'] >= 30) & (data['la_mapped_sal'] <= 40))\n    data['la_mapped_sal'][~ok] = np.nan\n"))
same('c10-put', (C, LOOP10, "    np.putmask(data['la_mapped_sal'], (data['la_mapped_sal'] < 30) | (data['la_mapped_sal'] > 40), np.nan)\n"))
same('c10-mult', (C, LOOP10, "    for low, high in ((None, 30), (40, None)):\n        if low is None:\n            data['la_mapped_sal'][data['la_mapped_sal'] < high] = np.nan\n        else:\n            data['la_mapped_sal'][data['la_mapped_sal'] > low] = np.nan\n"))
same('c10-guard', (C, "    for sal in bad_sal:\n        data", "    if bad_sal.size > 0:\n      for sal in bad_sal:\n        data"))
same('c10-after-sort', (C, LOOP10, ""), (C, "    # define the saving location\n    save_location", LOOP10 + "    # define the saving location\n    save_location"))
same('c10-unpack', (C, "    for sal in bad_sal:\n        data['la_mapped_sal'][sal[0], sal[1]] = np.nan", "    for row, col in bad_sal:\n        data['la_mapped_sal'][row, col] = np.nan"))

# ---- C02
bug('C02', 'argo-dates', (F, "data['dates'] = np.array(np.delete(data['dates'], not_use))", "data['dates'] = np.array(np.delete(data['dates'], not_use[1:]))"))
bug('C02', 'argo-skip', (F, "    data['ptmp'] = np.array(np.delete(data['ptmp'], not_use, axis=1))\n", ""))
bug('C02', 'bottle-skip', (F, "        data['ptmp'] = data['ptmp'].T\n", ""))
bug('C02', 'region-nan', (F, "            grid_dates = np.delete(grid_dates, column - nans)\n", ""))
bug('C02', 'region-nan2', (F, "            grid_lat = np.delete(grid_lat, column - nans)", "            grid_lat = np.delete(grid_lat, column)"))
bug('C02', 'region-notnan', (F, "sal = data['sal'][not_nan, i]", "sal = data['sal'][np.argwhere(np.isnan(data['sal'][:, i]) == 0), i]"))
bug('C02', 'region-deep', (F, "ptmp = np.delete(ptmp, too_deep[:, 0])", "ptmp = ptmp.flatten()[:pres.__len__()]"))
bug('C02', 'region-date-i', (F, "grid_dates = np.append(grid_dates, data['dates'][i])", "grid_dates = np.append(grid_dates, data['dates'][0])"))
bug('C02', 'region-3d', (F, "                        data['ptmp'] = data['ptmp'][0]\n", "                        data['ptmp'] = data['ptmp'][-1]\n"))
bug('C02', 'list-longs', (F, "                    grid_long = np.concatenate([grid_long, data['long']])", "                    grid_long = np.concatenate([data['long'], grid_long])"))
bug('C02', 'list-unique', (F, "                    grid_long = np.concatenate([grid_long, data['long']])", "                    grid_long = np.concatenate([grid_long, np.unique(data['long'])])"))
bug('C02', 'hist-window', (H, "    hist_dates = hist_dates[delta_index]\n", "    hist_dates = hist_dates[:delta_index.size]\n"))
bug('C02', 'hist-first', (H, "    hist_z = grid_data['grid_z'][max_hist_casts]", "    hist_z = grid_data['grid_z'][:max_hist_casts.size]"))
bug('C02', 'outlier', (H, "        hist_data['hist_z'] = np.delete(hist_data['hist_z'], outlier).reshape((-1, 1))\n", "        hist_data['hist_z'] = hist_data['hist_z'][:hist_data['hist_sal'].size].reshape((-1, 1))\n"))
bug('C02', 'outlier-lat', (H, "        hist_data['hist_lat'] = np.delete(hist_data['hist_lat'], outlier).reshape((-1, 1))\n", "        hist_data['hist_lat'] = hist_data['hist_lat'][outlier.size:].reshape((-1, 1))\n"))
bug('C02', 'saf-update', (C, "                        best_hist_data.update(best_hist_data_2)", "                        best_hist_data.update({k: v for k, v in best_hist_data_2.items() if k != 'grid_z'})"))
bug('C02', 'saf-sal', (C, "                        best_hist_data.update(best_hist_data_2)", "                        best_hist_data['grid_sal'] = best_hist_data_2['grid_sal']\n                        best_hist_data['grid_ptmp'] = best_hist_data_2['grid_ptmp']\n                        best_hist_data['grid_pres'] = best_hist_data_2['grid_pres']"))
bug('C02', 'z-wrong', (C, "                best_hist_data = process_profiles_grid_variables(best_hist_data, config)\n", "                best_hist_data['grid_z'] = grid_data['grid_z'][:best_hist_data['grid_lat'].size]\n"))
bug('C02', 'float-prof', (H, "data['float_date'] = float_source_data['DATES'][0, missing_profile]", "data['float_date'] = float_source_data['DATES'][0, 0]"))
bug('C02', 'swap-lat', (F, "grid_lat = np.append(grid_lat, data['lat'][i])", "grid_lat = np.append(grid_lat, data['long'][i])"))
same('c02-mask', (H, "    max_hist_casts = np.argwhere(np.isnan(hist_interp_sal[n_level, :]) == 0)\n", "    max_hist_casts = np.nonzero(~np.isnan(hist_interp_sal[n_level, :]))[0].reshape(-1, 1)\n"))
same('c02-loop', (H, """    hist_sal = hist_sal[delta_index]
    hist_pres = hist_pres[delta_index]
    hist_long = hist_long[delta_index]
    hist_lat = hist_lat[delta_index]
    hist_dates = hist_dates[delta_index]
    hist_z = hist_z[delta_index]
    return {'hist_sal': hist_sal, 'hist_pres': hist_pres, 'hist_long': hist_long,
            'hist_lat': hist_lat, 'hist_dates': hist_dates, 'hist_z': hist_z}
""", """    out = {'hist_sal': hist_sal, 'hist_pres': hist_pres, 'hist_long': hist_long,
           'hist_lat': hist_lat, 'hist_dates': hist_dates, 'hist_z': hist_z}
    return {key: value[delta_index] for key, value in out.items()}
"""))
same('c02-outl', (H, """        hist_data['hist_long'] = np.delete(hist_data['hist_long'], outlier).reshape((-1, 1))
        hist_data['hist_lat'] = np.delete(hist_data['hist_lat'], outlier).reshape((-1, 1))
        hist_data['hist_dates'] = np.delete(hist_data['hist_dates'], outlier).reshape((-1, 1))
        hist_data['hist_z'] = np.delete(hist_data['hist_z'], outlier).reshape((-1, 1))
""", """        for key in ('hist_long', 'hist_lat', 'hist_dates', 'hist_z'):
            hist_data[key] = np.delete(hist_data[key], outlier).reshape((-1, 1))
"""))
same('c02-keep', (F, """            grid_lat = np.delete(grid_lat, column - nans)
            grid_long = np.delete(grid_long, column - nans)
            grid_dates = np.delete(grid_dates, column - nans)
            nans += 1
""", """            grid_lat, grid_long, grid_dates = (np.delete(x, column - nans) for x in (grid_lat, grid_long, grid_dates))
            nans = nans + 1
"""))
same('c02-argo', (F, """    data['lat'] = np.array(np.delete(data['lat'], not_use))
    data['long'] = np.array(np.delete(data['long'], not_use))
    data['dates'] = np.array(np.delete(data['dates'], not_use))
    data['sal'] = np.array(np.delete(data['sal'], not_use, axis=1))
    data['ptmp'] = np.array(np.delete(data['ptmp'], not_use, axis=1))
    data['pres'] = np.array(np.delete(data['pres'], not_use, axis=1))
""", """    for name in ['lat', 'long', 'dates']:
        data[name] = np.delete(data[name], not_use)
    for name in ['sal', 'ptmp', 'pres']:
        data[name] = np.delete(data[name], not_use, 1)
"""))
same('c02-argo2', (F, """    not_use = []
    for i in range(0, data['lat'].__len__()):
        if str(data['source'][i]).find(pa_float_name) != -1:
            not_use.append(i)
""", """    not_use = [i for i in range(len(data['lat'])) if pa_float_name in str(data['source'][i])]
"""))
same('c02-append', (F, "                    grid_lat = np.concatenate([grid_lat, data['lat']])", "                    grid_lat = np.append(grid_lat, data['lat'])"))
same('c02-extract', (F, "                            # save the latitude, longitude, and date of the new data\n                            grid_lat = np.append(grid_lat, data['lat'][i])\n                            grid_long = np.append(grid_long, data['long'][i])\n                            grid_dates = np.append(grid_dates, data['dates'][i])\n", "                            grid_lat, grid_long, grid_dates = _add_position(data, i, grid_lat, grid_long, grid_dates)\n"), (F, "def _sync_nans(", "def _add_position(data, i, lats, longs, dates):\n    return np.append(lats, data['lat'][i]), np.append(longs, data['long'][i]), np.append(dates, data['dates'][i])\n\n\ndef _sync_nans("))
# ---- C01
ARGO = s_argo = """    not_use = []
    for i in range(0, data['lat'].__len__()):
        if str(data['source'][i]).find(pa_float_name) != -1:
            not_use.append(i)
"""
DELS = """    data['lat'] = np.array(np.delete(data['lat'], not_use))
    data['long'] = np.array(np.delete(data['long'], not_use))
    data['dates'] = np.array(np.delete(data['dates'], not_use))
    data['sal'] = np.array(np.delete(data['sal'], not_use, axis=1))
    data['ptmp'] = np.array(np.delete(data['ptmp'], not_use, axis=1))
    data['pres'] = np.array(np.delete(data['pres'], not_use, axis=1))
"""
FT = "str(data['source'][i]).find(pa_float_name) != -1"
bug('C01', 'gt0', (F, FT, "str(data['source'][i]).find(pa_float_name) > 0"))
bug('C01', 'eq', (F, FT, "str(data['source'][i]) == pa_float_name"))
bug('C01', 'starts', (F, FT, "str(data['source'][i]).startswith(pa_float_name)"))
bug('C01', 'rev', (F, FT, "str(data['source'][i]) in pa_float_name"))
bug('C01', 'split', (F, FT, "pa_float_name in str(data['source'][i]).split('_')[0]"))
bug('C01', 'trunc', (F, FT, "pa_float_name[:6] in str(data['source'][i])"))
bug('C01', 'range1', (F, "    for i in range(0, data['lat'].__len__()):\n        if str", "    for i in range(1, data['lat'].__len__()):\n        if str"))
bug('C01', 'rangem', (F, "    for i in range(0, data['lat'].__len__()):\n        if str", "    for i in range(0, data['lat'].__len__() - 1):\n        if str"))
bug('C01', 'break', (F, "            not_use.append(i)\n", "            not_use.append(i)\n            break\n"))
bug('C01', 'pres-undropped', (F, "    data['pres'] = np.array(np.delete(data['pres'], not_use, axis=1))\n", ""))
bug('C01', 'list-other', (F, "                data = get_data(wmo_box, data_type, config, pa_float_name)\n                # if we", "                data = get_data(wmo_box, data_type, config, '')\n                # if we"))
bug('C01', 'dir', (C, "get_region_hist_locations(wmo_numbers, float_name, config)", "get_region_hist_locations(wmo_numbers, float_dir, config)"))
bug('C01', 'bypass', (F, "    return data\n\n\n# pylint: disable=bare-except\ndef get_region_hist", "    if wmo_box[data_type] == 1 and data_type == 3 and len(data['lat']) == 0:\n        data = read_mat_ctd(os.path.sep.join([config['HISTORICAL_DIRECTORY'], config['HISTORICAL_ARGO_PREFIX'] + box_name + '.mat']))\n    return data\n\n\n# pylint: disable=bare-except\ndef get_region_hist"))
bug('C01', 'keep', (F, FT, "str(data['source'][i]).find(pa_float_name) == -1"))
same('c01-in', (F, FT, "pa_float_name in str(data['source'][i])"))
same('c01-enum', (F, ARGO, "    not_use = [k for k, name in enumerate(data['source']) if pa_float_name in str(name)]\n"))
same('c01-mask', (F, ARGO + '\n' + DELS, "    keep = np.array([pa_float_name not in str(s) for s in data['source']])\n    for key in ('lat', 'long', 'dates'):\n        data[key] = data[key][keep]\n    for key in ('sal', 'ptmp', 'pres'):\n        data[key] = data[key][:, keep]\n"))
same('c01-helper', (F, ARGO, "    not_use = _own_casts(data['source'], pa_float_name)\n"), (F, "@lru_cache()\ndef read_mat_argo", "def _own_casts(sources, name):\n    own = []\n    for i, source in enumerate(sources):\n        if str(source).find(name) >= 0:\n            own.append(i)\n    return own\n\n\n@lru_cache()\ndef read_mat_argo"))
same('c01-loop', (F, DELS, "    for key in ('lat', 'long', 'dates', 'sal', 'ptmp', 'pres'):\n        data[key] = np.delete(data[key], not_use, axis=-1)\n"))
same('c01-keep', (F, ARGO + '\n' + DELS, "    use = []\n    for i in range(len(data['lat'])):\n        if pa_float_name in str(data['source'][i]):\n            continue\n        use.append(i)\n    for key in ('lat', 'long', 'dates'):\n        data[key] = data[key][use]\n    for key in ('sal', 'ptmp', 'pres'):\n        data[key] = data[key][:, use]\n"))
same('c01-return', (F, "        data = read_mat_argo(\n            os.path.sep.join([config['HISTORICAL_DIRECTORY'], config['HISTORICAL_ARGO_PREFIX'] + box_name + '.mat']),\n            pa_float_name,\n        )", "        path = os.path.sep.join([config['HISTORICAL_DIRECTORY'], config['HISTORICAL_ARGO_PREFIX'] + box_name + '.mat'])\n        return read_mat_argo(path, str(pa_float_name))"))
same('c01-npfind', (F, ARGO, "    found = np.char.find(np.array(data['source']).astype(str), pa_float_name)\n    not_use = np.argwhere(found >= 0).flatten()\n"))
# ---- C03
ADV = "                    starting_index = starting_index + data_length\n"
GI = "                        good_indices = np.argwhere(index == data_indices[i])\n\n                        if good_indices.__len__() > 0:\n"
IDX = "                    data_indices = np.arange(0, data_length) + starting_index\n"
bug('C03', 'advance-selected', (F, ADV, "                    if np.any(np.isin(data_indices, index)):\n                        starting_index = starting_index + data_length\n"))
bug('C03', 'advance-first', (F, IDX, ""), (F, ADV, ADV + IDX))
bug('C03', 'skip-bottle', (F, "            # get the data\n            try:\n                data = get_data(wmo_box, data_type, config, pa_float_name)\n\n", "            # get the data\n            try:\n                data = get_data(wmo_box, (1, 3, 3)[data_type - 1], config, pa_float_name)\n\n"))
bug('C03', 'order', (F, "        for data_type in range(1, 4):\n\n            # get the data\n            try:\n                data = get_data(wmo_box, data_type, config, pa_float_name)\n\n", "        for data_type in (1, 3, 2):\n\n            # get the data\n            try:\n                data = get_data(wmo_box, data_type, config, pa_float_name)\n\n"))
bug('C03', 'gt1', (F, "if good_indices.__len__() > 0:", "if good_indices.__len__() > 1:"))
bug('C03', 'reset', (F, "        # go through each of the columns denoting whether we should use CTD, bottle, and/or argo\n", "        starting_index = 0\n"))
bug('C03', 'plus1', (F, "np.argwhere(index == data_indices[i])", "np.argwhere(index == data_indices[i] + 1)"))
bug('C03', 'presrows', (F, ADV, "                    starting_index = starting_index + data['pres'].shape[0]\n"))
bug('C03', 'start1', (F, "    starting_index = 0\n\n    # go", "    starting_index = 1\n\n    # go"))
bug('C03', 'list-prepend', (F, "grid_lat = np.concatenate([grid_lat, data['lat']])", "grid_lat = np.concatenate([data['lat'], grid_lat])"))
bug('C03', 'list-skip', (F, "                if data:\n                    grid_lat = np.conc", "                if data and data_type != 2:\n                    grid_lat = np.conc"))
bug('C03', 'caller-index', (C, "wmo_numbers, float_name, config, index,", "wmo_numbers, float_name, config, index + 1,"))
bug('C03', 'ret-skip', (F, "                if data:\n                    # the data is shared", "                if data and len(data['lat']) > 1:\n                    # the data is shared"))
same('c03-any', (F, GI, "                        if np.any(index == data_indices[i]):\n"))
same('c03-in', (F, GI, "                        if data_indices[i] in index:\n"))
same('c03-noarr', (F, IDX, ""), (F, "                    # remember location of last entry\n" + ADV, ""), (F, GI, "                        if starting_index + i in index:\n"), (F, "                            how_many_cols = grid_pres.shape[0]\n", "                            how_many_cols = grid_pres.shape[0]\n                    starting_index += data_length\n"))
same('c03-first', (F, IDX, "                    first = starting_index\n"), (F, GI, "                        good_indices = np.argwhere(index == first + i)\n\n                        if len(good_indices) >= 1:\n"))
same('c03-arange2', (F, IDX, "                    data_indices = np.arange(starting_index, starting_index + data_length)\n"))
same('c03-tuple', (F, "        for data_type in range(1, 4):", "        for data_type in (1, 2, 3):"))
same('c03-size', (F, "                    data_length = data['lat'].__len__()\n", "                    data_length = data['pres'].shape[1]\n"))
same('c03-enumerate', (F, "                    for i in range(0, data_length):\n\n                        good_indices = np.argwhere(index == data_indices[i])\n\n                        if good_indices.__len__() > 0:\n", "                    for i, number in enumerate(data_indices):\n                        if np.count_nonzero(index == number) > 0:\n"))
same('c03-continue', (F, "                if data:\n                    grid_lat = np.concatenate([grid_lat, data['lat']])\n                    grid_long = np.concatenate([grid_long, data['long']])\n                    grid_dates = np.concatenate([grid_dates, data['dates']])\n                    data = []\n", "                if not data:\n                    continue\n                grid_lat = np.append(grid_lat, data['lat'])\n                grid_long = np.append(grid_long, data['long'])\n                grid_dates = np.append(grid_dates, data['dates'])\n"))
same('c03-product', (F, "    # go through each of the WMO boxes\n    for wmo_box in pa_wmo_numbers:\n\n        # go through each of the columns denoting whether we should use CTD (1)", "    for wmo_box in pa_wmo_numbers:\n        box = wmo_box\n        # go through (1)"), (F, "get_data(wmo_box, data_type, config, pa_float_name)\n                # if", "get_data(box, data_type, config, pa_float_name)\n                # if"))
# ---- C34
LC = "    long_covar = ((points1[:, np.newaxis, 0] - points2[np.newaxis, :, 0]) / long)**2\n"
LA = "    lat_covar = ((points1[:, np.newaxis, 1] - points2[np.newaxis, :, 1]) / lat)**2\n"
bug('C34', 'sameScale', (S, LC, LC.replace('/ long', '/ lat')))
bug('C34', 'age-gt1', (S, "    if age != 0:\n        age_covar", "    if age > 1:\n        age_covar"))
bug('C34', 'pv-col', (S, "points2[:, 0], points2[:, 3]", "points2[:, 1], points2[:, 3]"))
bug('C34', 'pv-noscale', (S, "pv_lat2[np.newaxis, :]**2) / phi)**2", "pv_lat2[np.newaxis, :]**2))**2 / phi"))
bug('C34', 'abs-not-square', (S, "    if age != 0:\n        age_covar = ((points1[:, np.newaxis, 2] - points2[np.newaxis, :, 2]) / age)**2", "    if age != 0:\n        age_covar = np.abs((points1[:, np.newaxis, 2] - points2[np.newaxis, :, 2]) / age)"))
bug('C34', 'half', (S, "    return np.exp(-(lat_covar + long_covar + age_covar + p_v_covar))", "    return np.exp(-(lat_covar + long_covar + age_covar + p_v_covar) / 2)"))
bug('C34', 'pv-only-far', (S, "    if map_pv_use == 1:\n", "    if map_pv_use == 1 and age != 0:\n"))
bug('C34', 'spatial-noage', (T, "((dates_1 - dates_2) ** 2 / (ellipse_age ** 2))", "((dates_1 - dates_2) ** 2 / ellipse_age)"))
bug('C34', 'spatial-pv-or', (T, "    if pv_1 != 0 and pv_2 != 0:\n        pv_corr", "    if pv_1 != 0 or pv_2 != 0:\n        pv_corr"))
bug('C34', 'ellipse-pvsq', (N, "                        total_pv ** 2)", "                        total_pv)"))
bug('C34', 'args-order', (N, "phi_small, pv_hist, pv_float)", "pv_hist, pv_float, phi_small)"))
bug('C34', 'small-large', (N, "                                                    lat, latitude_small,\n", "                                                    lat, latitude_large,\n"))
bug('C34', 'cov-pv', (S, "np.sin(latitude * np.pi / 180)) / depth)", "np.sin(latitude)) / depth)"))
bug('C34', 'axes', (S, LC, LC.replace("points1[:, np.newaxis, 0] - points2[np.newaxis, :, 0]", "points2[:, np.newaxis, 0] - points1[np.newaxis, :, 0]")), (S, LA, LA.replace("points1[:, np.newaxis, 1] - points2[np.newaxis, :, 1]", "points2[:, np.newaxis, 1] - points1[np.newaxis, :, 1]")))
same('c34-square', (S, LC, "    long_covar = np.square(points1[:, None, 0] - points2[None, :, 0]) / long**2\n"), (S, LA, "    diff = np.subtract(points1[:, [1]], points2[:, 1])\n    lat_covar = ((points1[:, np.newaxis, 1] - points2[np.newaxis, :, 1]) / lat)**2\n"))
same('c34-total', (S, "    age_covar = 0.0\n    p_v_covar = 0.0\n", "    total = lat_covar + long_covar\n"), (S, "        age_covar = ((points1", "        total = total + ((points1"), (S, "        p_v_covar = ((pv_lat1", "        total = total + ((pv_lat1"), (S, "-(lat_covar + long_covar + age_covar + p_v_covar)", "-total"))
same('c34-helper', (S, LC, "    long_covar = _term(points1, points2, 0, long)\n"), (S, LA, "    lat_covar = _term(points1, points2, 1, lat)\n"), (S, "def covar_xyt_pv(", "def _term(first, second, k, scale):\n    return ((first[:, k][:, np.newaxis] - second[:, k][np.newaxis, :]) / scale)**2\n\n\ndef covar_xyt_pv("))
same('c34-spatial', (T, "    correlation = ((longitude_1 - longitude_2) ** 2 / (ellipse_longitude ** 2)) + \\\n                  ((latitude_1 - latitude_2) ** 2 / (ellipse_latitude ** 2)) + \\\n                  ((dates_1 - dates_2) ** 2 / (ellipse_age ** 2))\n", "    pairs = ((longitude_1, longitude_2, ellipse_longitude), (latitude_1, latitude_2, ellipse_latitude),\n             (dates_1, dates_2, ellipse_age))\n    correlation = sum(((a - b) / s) ** 2 for a, b, s in pairs)\n"))
same('c34-hypot', (N, "(ellipse_pv - data_pv) / math.sqrt(ellipse_pv ** 2 + data_pv ** 2) / phi", "(data_pv - ellipse_pv) / (phi * math.hypot(data_pv, ellipse_pv))"))
same('c34-radians', (T, "lat * math.pi / 180", "math.radians(lat)"))
# ---- C31
LG = "                    if not np.isnan(float_data['float_sal'][n_level]) \\\n                            and float_data['float_pres'][n_level] >= map_p_exclude:\n"
LR = "                for n_level in range(float_level_count):\n"
OUT = "                            outlier1 = np.argwhere(np.abs(hist_data['hist_sal'] - mean_sal) /\n                                                   np.sqrt(signal_sal) > 3)\n"
WIN = "    delta_index = np.argwhere(np.abs(hist_pres - float_pres[n_level]) < map_p_delta)[:, 0]\n"
CNT = "                        if hist_data['hist_sal'].__len__() > 5:\n"
bug('C31', 'or', (C, "                            and float_data['float_pres'][n_level] >= map_p_exclude:", "                            or float_data['float_pres'][n_level] >= map_p_exclude:"))
bug('C31', 'le', (C, "[n_level] >= map_p_exclude", "[n_level] <= map_p_exclude"))
bug('C31', 'notlt', (C, "and float_data['float_pres'][n_level] >= map_p_exclude", "and not float_data['float_pres'][n_level] < map_p_exclude"))
bug('C31', 'ptmp-nan', (C, LG, LG.replace("np.isnan(float_data['float_sal']", "np.isnan(float_data['float_ptmp']")))
bug('C31', 'first-level', (C, LG, LG.replace("float_data['float_pres'][n_level] >=", "float_data['float_pres'][0] >=")))
bug('C31', 'ge5', (C, CNT, CNT.replace('> 5', '>= 5')))
bug('C31', 'count-before', (C, CNT, "                        if np.sum(~np.isnan(hist_interp_sal[n_level, :])) > 5 and len(hist_data['hist_sal']) > 1:\n"))
bug('C31', 'sigma-once', (C, "np.sqrt(signal_sal) > 3)", "signal_sal > 3)"))
bug('C31', 'sigma2', (C, "np.sqrt(signal_sal) > 3)", "np.sqrt(signal_sal) > 2)"))
bug('C31', 'noabs', (C, "np.argwhere(np.abs(hist_data['hist_sal'] - mean_sal) /", "np.argwhere((hist_data['hist_sal'] - mean_sal) /"))
bug('C31', 'win-noabs', (H, WIN, WIN.replace("np.abs(hist_pres - float_pres[n_level])", "(hist_pres - float_pres[n_level])")))
bug('C31', 'win-level', (H, WIN, WIN.replace("float_pres[n_level]", "float_pres[0]")))
bug('C31', 'win-exclude', (C, "map_p_delta=map_p_delta", "map_p_delta=map_p_exclude"))
bug('C31', 'win-double', (H, WIN, WIN.replace("< map_p_delta", "< 2 * map_p_delta")))
bug('C31', 'outlier-gt1', (H, "    if outlier.__len__() > 0:", "    if outlier.__len__() > 1:"))
bug('C31', 'ptmp-early', (C, LG, LG + "                        data['la_ptmp'][n_level, profile_index] = float_data['float_ptmp'][n_level]\n"))
bug('C31', 'row', (H, "    hist_pres = hist_interp_pres[n_level, max_hist_casts]", "    hist_pres = hist_interp_pres[n_level - 1, max_hist_casts]"))
bug('C31', 'mean-all', (C, "mean_sal = np.mean(hist_data['hist_sal'])", "mean_sal = np.nanmean(hist_interp_sal[n_level, :])"))
bug('C31', 'no-outlier', (C, "                            hist_data = remove_statical_outliers(outlier, hist_data)\n", "                            if len(outlier) < 5:\n                                hist_data = remove_statical_outliers(outlier, hist_data)\n"))
same('c31-comp', (C, LR, "                levels = [n for n in range(float_level_count) if not np.isnan(float_data['float_sal'][n])\n                          and float_data['float_pres'][n] >= map_p_exclude]\n                for n_level in levels:\n"), (C, LG, "                    if True:\n"))
same('c31-argwhere', (C, LR, "                usable = np.argwhere(~np.isnan(float_data['float_sal']) & (float_data['float_pres'] >= map_p_exclude))\n                for n_level in usable.flatten():\n"), (C, LG, "                    if True:\n"))
same('c31-continue', (C, LG, "                    if np.isnan(float_data['float_sal'][n_level]):\n                        continue\n                    if float_data['float_pres'][n_level] >= map_p_exclude:\n"))
same('c31-mask', (C, LR, "                usable = np.logical_and(~np.isnan(float_data['float_sal']), float_data['float_pres'] >= map_p_exclude)\n" + LR), (C, LG, "                    if usable[n_level]:\n"))
same('c31-window', (H, WIN, "    low, high = float_pres[n_level] - map_p_delta, float_pres[n_level] + map_p_delta\n    delta_index = np.argwhere((hist_pres > low) & (hist_pres < high))[:, 0]\n"))
same('c31-sigma', (C, OUT, "                            outlier1 = np.argwhere(np.abs(mean_sal - hist_data['hist_sal']) > 3 * np.sqrt(signal_sal))\n"))
same('c31-size', (C, CNT, "                        if hist_data['hist_sal'].size >= 6:\n"))
same('c31-always', (H, "    if outlier.__len__() > 0:\n", "    if outlier is not None:\n"))
same('c31-finite', (C, LG, "                    if np.isfinite(float_data['float_sal'][n_level]) and map_p_exclude <= float_data['float_pres'][n_level]:\n"))
same('c31-keep', (H, "    hist_sal = hist_sal[delta_index]\n", "    hist_sal = np.take(hist_sal, delta_index, axis=0)\n"))
same('c31-enum', (C, LR, "                for n_level, salinity in enumerate(float_data['float_sal'][:float_level_count]):\n"), (C, LG, "                    if not np.isnan(salinity) \\\n                            and float_data['float_pres'][n_level] >= map_p_exclude:\n"))
# ---- C04
ST2 = "                                                             long_small, lat_small,\n                                                             map_age_small,\n"
bug('C04', 'swap-latlong', (C, ST2, ST2.replace("long_small, lat_small", "lat_small, long_small")))
bug('C04', 'age-large2', (C, ST2, ST2.replace('map_age_small', 'map_age_large')))
bug('C04', 'phi2', (C, "phi_small, map_use_pv)\n\n                            data", "phi_large, map_use_pv)\n\n                            data"))
bug('C04', 'resid-grid', (C, "hist_sal_flatten - mapped_values[2]", "hist_sal_flatten - mapped_values[0]"))
bug('C04', 'stage2-data', (C, "mapped_residuals = map_data_grid(sal_residual,", "mapped_residuals = map_data_grid(hist_sal_flatten,"))
bug('C04', 'err-sum', (C, "mapped_residuals[1] *\n\n                                                                                        mapped_residuals[1])", "mapped_residuals[1])"))
bug('C04', 'err-idx', (C, "dot_map_values = np.dot(mapped_values[1], mapped_values[1])", "dot_map_values = np.dot(mapped_values[1], mapped_residuals[1])"))
bug('C04', 'rec-swap', (C, "data['scale_long_small'][profile_index] = long_small", "data['scale_long_small'][profile_index] = long_large"))
bug('C04', 'rec-delta', (C, "data['p_delta'][profile_index] = map_p_delta", "data['p_delta'][profile_index] = map_p_exclude"))
bug('C04', 'best-swap', (C, "lat_large, lat_small, long_large, long_small,\n", "lat_large, long_large, lat_small, long_small,\n"))
bug('C04', 'best-age', (C, "phi_large, phi_small, map_age_large, map_age_small,", "phi_large, phi_small, map_age_small, map_age_large,"))
bug('C04', 'config-read', (C, "lat_small = config['MAPSCALE_LATITUDE_SMALL']", "lat_small = config['MAPSCALE_LATITUDE_LARGE']"))
bug('C04', 'signal2', (C, "sal_signal_residual = signal_variance(sal_residual)", "sal_signal_residual = signal_sal"))
bug('C04', 'cols', (C, "np.column_stack((hist_data['hist_lat'], hist_data['hist_long'],\n", "np.column_stack((hist_data['hist_long'], hist_data['hist_lat'],\n"))
bug('C04', 'bothcols', (C, "np.array([float_data['float_lat'], float_data['float_long'],\n", "np.array([float_data['float_long'], float_data['float_lat'],\n"), (C, "np.column_stack((hist_data['hist_lat'], hist_data['hist_long'],\n", "np.column_stack((hist_data['hist_long'], hist_data['hist_lat'],\n"))
bug('C04', 'inner-age', (W, "    grid_data_covar = (signal_variance * covar_xyt_pv(data_pos, grid_pos, lat, long,\n                                                      age, phi, map_pv_use)).transpose()", "    grid_data_covar = (signal_variance * covar_xyt_pv(data_pos, grid_pos, lat, long,\n                                                      phi, age, map_pv_use)).transpose()"))
bug('C04', 'usepv0', (C, "data['use_pv'][profile_index] = map_use_pv", "data['use_pv'][profile_index] = map_use_saf"))
bug('C04', 'signal-rec', (C, "data['la_signal_sal'][n_level, profile_index] = signal_sal", "data['la_signal_sal'][n_level, profile_index] = noise_sal"))
same('c04-bothswap', (S, "    long_covar = ((points1[:, np.newaxis, 0] - points2[np.newaxis, :, 0]) / long)**2\n    lat_covar = ((points1[:, np.newaxis, 1] - points2[np.newaxis, :, 1]) / lat)**2\n", "    long_covar = ((points1[:, np.newaxis, 0] - points2[np.newaxis, :, 0]) / lat)**2\n    lat_covar = ((points1[:, np.newaxis, 1] - points2[np.newaxis, :, 1]) / long)**2\n"), (W, "lat, long, age, phi, map_pv_use)\n", "long, lat, age, phi, map_pv_use)\n"), (W, "covar_xyt_pv(data_pos, grid_pos, lat, long,", "covar_xyt_pv(data_pos, grid_pos, long, lat,"))
same('c04-err', (C, "                            dot_map_values = np.dot(mapped_values[1], mapped_values[1])\n", ""), (C, "np.sqrt(dot_map_values +\n                                                                                        mapped_residuals[1] *\n\n                                                                                        mapped_residuals[1])", "np.hypot(mapped_values[1], mapped_residuals[1])"))
same('c04-unpack', (C, "sal_residual = hist_sal_flatten - mapped_values[2]", "_, _, explained, _ = mapped_values\n                            sal_residual = -(explained - hist_sal_flatten)"))
same('c04-record', (C, "                            data['p_delta'][profile_index] = map_p_delta\n                            data['p_exclude'][profile_index] = map_p_exclude\n", "                            for name, value in (('p_delta', map_p_delta), ('p_exclude', map_p_exclude)):\n                                data[name][profile_index] = value\n"))
same('c04-helper', (C, "sal_residual = hist_sal_flatten - mapped_values[2]", "sal_residual = _left(hist_sal_flatten, mapped_values)"), (C, "def update_salinity_mapping(", "def _left(observed, mapped):\n    return observed - mapped[2]\n\n\ndef update_salinity_mapping("))
same('c04-direct', (C, "lat_small = config['MAPSCALE_LATITUDE_SMALL']", "lat_small = config.get('MAPSCALE_LATITUDE_SMALL')"))

# -- C14
b14 = lambda name, old, new: bug('C14', name, (N, old, new))
b14('no-unique', "        index_rand = np.unique(index_rand)\n", "")
b14('no-minus1', "        index_rand[index_rand == -1] = 0\n", "")
b14('ceil-rand', "np.round(np.random.rand(math.ceil(max_casts / 3)) * (index_ellipse.__len__())-1)", "np.ceil(np.random.rand(math.ceil(max_casts / 3)) * (index_ellipse.__len__()))")
b14('off-by-one-rand', "(index_ellipse.__len__())-1)", "(index_ellipse.__len__() + 1)-1)")
b14('large-not-full', "        for i in i2_remain:\n            i2_ellipse.append(index_ellipse[int(i)])", "        for i in i2_remain:\n            i2_ellipse.append(np.array([int(i)]))")
b14('large-from-ellipse', "            i2_remain.append(index_remain[int(i)])", "            i2_remain.append(int(i))")
b14('small-no-z', "            i3_z.append(index_z[int(i)])", "            i3_z.append(int(i))")
b14('small-no-large', "        for i in i3_z:\n            i3_large.append(correlation_large_sorted[int(i)])", "        for i in i3_z:\n            i3_large.append(int(i))")
b14('z-start', "np.arange(lsegment2, int(len(z_remain_long)))", "np.arange(lsegment2 - 1, int(len(z_remain_long)))")
b14('z-start0', "np.arange(lsegment2, int(len(z_remain_long)))", "np.arange(index_rand.__len__(), int(len(z_remain_long)))")
b14('small-src', "            s_remain_hist_lat = np.append(s_remain_hist_lat, z_remain_lat[int(i)])", "            s_remain_hist_lat = np.append(s_remain_hist_lat, remain_hist_lat[int(i)])")
b14('worst', "correlation_large_sorted[:lsegment2]", "correlation_large_sorted[-lsegment2:]")
b14('descend', "correlation_large.argsort()", "(-correlation_large).argsort()")
b14('leftover', "max_casts - index_rand.__len__() - lsegment2", "max_casts - lsegment2")
b14('le-ellipse', "np.argwhere(ellipse < 1)", "np.argwhere(ellipse <= 1)")
b14('ellipse-2', "np.argwhere(ellipse < 1)", "np.argwhere(ellipse < 1.5)")
b14('ellipse-small', "find_ellipse_vec(grid_long, long, longitude_large, grid_lat, lat, latitude_large,", "find_ellipse_vec(grid_long, long, longitude_large, grid_lat, lat, latitude_small,")
b14('cond', "if index_ellipse.__len__() > max_casts:", "if index_ellipse.__len__() > max_casts + 50:")
b14('rand-large', "            i1_ellipse.append(index_ellipse[int(i)])", "            i1_ellipse.append(index_ellipse[int(index_remain[int(i)])])")
b14('pv-stale', "            pv_hist = potential_vorticity_vec(\n                s_remain_hist_lat, s_remain_hist_z_value)", "            pv_hist = potential_vorticity_vec(\n                z_remain_lat, z_remain_z_value)")
b14('remain-depth', "            remain_hist_z_value = np.append(remain_hist_z_value, hist_z_value[int(i)])", "            remain_hist_z_value = np.append(remain_hist_z_value, grid_z_value[int(i)])")
same('c14-listcomp', (N, "        for i in range(0, len(hist_lat)):\n            if i not in index_rand:\n                index_remain.append(i)\n", "        index_remain = [i for i in range(index_ellipse.shape[0]) if i not in index_rand]\n"))
same('c14-setdiff', (N, "        for i in range(0, len(hist_lat)):\n            if i not in index_rand:\n                index_remain.append(i)\n", "        index_remain = np.setdiff1d(np.arange(len(hist_lat)), index_rand)\n"))
same('c14-mask', (N, "        for i in range(0, len(hist_lat)):\n            if i not in index_rand:\n                index_remain.append(i)\n", "        left = np.ones(len(hist_lat), dtype=bool)\n        left[index_rand.astype(int)] = False\n        index_remain = np.flatnonzero(left)\n"))
same('c14-fancy', (N, "        i1_ellipse = []\n        for i in index_rand.flatten():\n            i1_ellipse.append(index_ellipse[int(i)])\n        index_rand_ellipse = np.concatenate(np.array(i1_ellipse))", "        index_rand_ellipse = index_ellipse[index_rand.astype(int)].flatten()"),
     (N, "        i3_z = []\n        for i in i3_small.flatten():\n            i3_z.append(index_z[int(i)])\n\n        i3_large = []\n        for i in i3_z:\n            i3_large.append(correlation_large_sorted[int(i)])\n", "        i3_large = correlation_large_sorted[index_z[i3_small]]\n"))
same('c14-floor', (N, "        index_rand = np.round(np.random.rand(math.ceil(max_casts / 3)) * (index_ellipse.__len__())-1)\n        index_rand[index_rand == -1] = 0\n", "        index_rand = np.round(np.random.rand(math.ceil(max_casts / 3)) * index_ellipse.shape[0] - 1)\n        index_rand = np.maximum(index_rand, 0)\n"))
same('c14-slices', (N, "        for i in index_z:\n            s_remain_hist_lat = np.append(s_remain_hist_lat, z_remain_lat[int(i)])", "        s_remain_hist_lat = z_remain_lat[lsegment2:]\n        for i in index_z:\n            pass"))
same('c14-helper', (N, "        for i in index_remain:\n            remain_hist_lat = np.append(remain_hist_lat, hist_lat[int(i)])", "        remain_hist_lat = _pick(hist_lat, index_remain)\n        for i in index_remain:\n            pass"),
     (N, "#pylint: disable=fixme\n", "def _pick(values, places):\n    out = []\n    for i in places:\n        out = np.append(out, values[int(i)])\n    return out\n\n\n#pylint: disable=fixme\n"))
same('c14-early-return', (N, "    index = index_ellipse\n    # check to see if too many data points were found\n    if index_ellipse.__len__() > max_casts:\n", "    index = index_ellipse\n    if not index_ellipse.__len__() > max_casts:\n        return index.flatten().astype(int)\n    if True:\n"))
same('c14-2ceil', (N, "lsegment2 = math.ceil(max_casts / 3) + math.ceil(max_casts / 3) - index_rand.__len__()", "third = math.ceil(max_casts / 3)\n        lsegment2 = 2 * third - len(index_rand)"))
same('c14-hist-fancy', (N, "    for i in index_ellipse:\n        hist_long.append(grid_long[i])\n        hist_lat.append(grid_lat[i])\n        hist_dates.append(grid_dates[i])\n        hist_z_value.append(grid_z_value[i])\n", "    inside = ellipse < 1\n    hist_long = grid_long[inside]\n    hist_lat = grid_lat[inside]\n    hist_dates = grid_dates[index_ellipse.ravel()]\n    hist_z_value = grid_z_value[inside]\n"))

# -- C13
b13 = lambda name, *e: bug('C13', name, *e)
SEED = "        np.random.seed(index_ellipse.__len__())\n"
b13('no-seed', (N, SEED, ""))
b13('seed-none', (N, "np.random.seed(index_ellipse.__len__())", "np.random.seed()"))
b13('seed-time', (N, "np.random.seed(index_ellipse.__len__())", "np.random.seed(int(time.time()))"), (N, "import math\n", "import math\nimport time\n"))
b13('seed-cond', (N, SEED, "        if map_pv_use == 1:\n            np.random.seed(index_ellipse.__len__())\n"))
b13('seed-once', (N, SEED, ""), (C, "        start_time = time.time()\n", "        start_time = time.time()\n        np.random.seed(1)\n"))
b13('seed-late', (N, SEED, ""), (N, "        index_rand = np.unique(index_rand)\n", "        index_rand = np.unique(index_rand)\n        np.random.seed(index_ellipse.__len__())\n"))
b13('seed-other', (N, "np.random.seed(index_ellipse.__len__())", "random.seed(index_ellipse.__len__())"), (N, "import math\n", "import math\nimport random\n"))
b13('seed-hash', (N, "np.random.seed(index_ellipse.__len__())", "np.random.seed(hash(str(lat)) % 2 ** 32)"))
b13('seed-rand', (N, "np.random.seed(index_ellipse.__len__())", "np.random.seed(np.random.randint(0, 99999))"))
b13('rng-unseeded', (N, "np.round(np.random.rand(math.ceil(max_casts / 3))", "np.round(np.random.default_rng().random(math.ceil(max_casts / 3))"))
b13('seed-module', (N, SEED, ""), (N, "#pylint: disable=fixme\n", "np.random.seed(0)\n\n\n#pylint: disable=fixme\n"))
b13('noise', (S, "    index = np.argwhere((sal != 0) & (~np.isnan(sal)))", "    sal = sal + 1e-9 * np.random.randn(*np.shape(sal))\n    index = np.argwhere((sal != 0) & (~np.isnan(sal)))") if False else (W, "    if 0 in sal.shape", "    sal = sal + np.random.rand() * 1e-9\n    if 0 in sal.shape") if False else (N, "    total_pv = 0\n    if data_pv", "    data_long = data_long + 1e-9 * np.random.rand()\n    total_pv = 0\n    if data_pv"))
b13('clock-age', (N, "correlation_small_sorted = correlation_small.argsort()", "correlation_small_sorted = (correlation_small + 0 * time.time()).argsort()"), (N, "import math\n", "import math\nimport time\n"))
b13('state-cache', (N, SEED, "        _SEEN.append(index_ellipse.__len__())\n        np.random.seed(len(_SEEN))\n"), (N, "#pylint: disable=fixme\n", "_SEEN = []\n\n\n#pylint: disable=fixme\n"))
b13('rounded-cond', (N, SEED, "        if index_ellipse.__len__() < 2 * max_casts:\n            np.random.seed(index_ellipse.__len__())\n"))
same('c13-rng', (N, SEED, "        generator = np.random.RandomState(index_ellipse.__len__())\n"), (N, "np.random.rand(math.ceil(max_casts / 3))", "generator.rand(math.ceil(max_casts / 3))"))
same('c13-helper', (N, SEED, ""), (N, "        index_rand = np.round(np.random.rand(math.ceil(max_casts / 3)) * (index_ellipse.__len__())-1)\n", "        index_rand = np.round(_random(math.ceil(max_casts / 3), len(index_ellipse)) * (index_ellipse.__len__())-1)\n"),
     (N, "#pylint: disable=fixme\n", "def _random(number, inside):\n    np.random.seed(inside)\n    return np.random.rand(number)\n\n\n#pylint: disable=fixme\n"))
same('c13-seed-early', (N, SEED, ""), (N, "    # check to see if too many data points were found\n", "    np.random.seed(index_ellipse.__len__())\n"))
same('c13-log-time', (N, SEED, "        started = time.time()\n        np.random.seed(index_ellipse.__len__())\n        print('selecting', round(time.time() - started, 2))\n"), (N, "import math\n", "import math\nimport time\n"))

# -- C07
b7 = lambda name, *e: bug('C07', name, *e)
b7('nocopy', (F, "                    data = dict(data)\n", ""))
b7('copy-late', (F, "                    data = dict(data)\n", ""), (F, "                        data['lat'] = data['lat'][0].reshape(-1, 1)\n", "                        data['lat'] = data['lat'][0].reshape(-1, 1)\n                        data = dict(data)\n"))
b7('hist-inplace', (F, "                if data:\n                    grid_lat = np.concatenate([grid_lat, data['lat']])", "                if data:\n                    data['long'] = wrap_longitude(data['long'])\n                    grid_lat = np.concatenate([grid_lat, data['lat']])"))
b7('hist-flag', (F, "                if data:\n                    grid_lat = np.concatenate([grid_lat, data['lat']])", "                if data:\n                    data['lat'][np.abs(data['lat']) > 90] = np.nan\n                    grid_lat = np.concatenate([grid_lat, data['lat']])"))
b7('deep-inplace', (F, "                            not_nan = np.argwhere(np.isnan(data['pres'][:, i]) == 0)\n", "                            column = data['pres'][:, i]\n                            column[column > max_pres] = np.nan\n                            not_nan = np.argwhere(np.isnan(data['pres'][:, i]) == 0)\n"))
b7('view-sync', (F, "                            not_nan = np.argwhere(np.isnan(data['pres'][:, i]) == 0)\n", "                            _sync_nans(data['sal'][:, i], data['pres'][:, i], data['ptmp'][:, i])\n                            not_nan = np.argwhere(np.isnan(data['pres'][:, i]) == 0)\n"))
b7('manual-box', (F, "    data = []\n    box_name = str(int(wmo_box[0]))\n", "    data = []\n    box_name = str(int(wmo_box[0]))\n    if (box_name, data_type) in _BOXES:\n        return _BOXES[(box_name, data_type)]\n"),
   (F, "            pa_float_name,\n        )\n\n    return data\n", "            pa_float_name,\n        )\n\n    _BOXES[(box_name, data_type)] = data\n    return data\n"), (F, "@lru_cache()\n", "_BOXES = {}\n\n\n@lru_cache()\n"))
b7('argo-shared', (F, "            pa_float_name,\n        )\n\n    return data\n", "            pa_float_name,\n        )\n        data['source'] = np.array(data['source'])\n\n    return data\n"))
b7('dates-inplace', (F, "                    grid_dates = np.concatenate([grid_dates, data['dates']])\n                    data = []", "                    data['dates'] //= 100\n                    grid_dates = np.concatenate([grid_dates, data['dates']])\n                    data = []"))
b7('sort-inplace', (F, "                    grid_lat = np.concatenate([grid_lat, data['lat']])\n                    grid_long", "                    data['lat'].sort()\n                    grid_lat = np.concatenate([grid_lat, data['lat']])\n                    grid_long"))
b7('pop-key', (F, "                    # Sometimes the data comes in wrapped", "                    data = get_data(wmo_box, data_type, config, pa_float_name)\n                    data.pop('source', None)\n                    # Sometimes the data comes in wrapped"))
b7('clip-out', (F, "                    data = dict(data)\n", "                    data = dict(data)\n                    np.clip(data['sal'], 0, 50, out=data['sal'])\n"))
same('c07-copycopy', (F, "                    data = dict(data)\n", "                    data = data.copy()\n"))
same('c07-comp', (F, "                    data = dict(data)\n", "                    data = {key: value for key, value in data.items()}\n"))
same('c07-deep', (F, "                    data = dict(data)\n", "                    data = copy.deepcopy(data)\n"), (F, "import struct\n", "import copy\nimport struct\n"))
same('c07-path-cache', (F, "    data = read_mat(path_to_data)\n" if False else "@lru_cache()\n", "@lru_cache(maxsize=None)\n"))
same('c07-newvar', (F, "                    grid_lat = np.concatenate([grid_lat, data['lat']])\n                    grid_long", "                    lat = np.array(data['lat'])\n                    lat = lat + 0\n                    grid_lat = np.concatenate([grid_lat, lat])\n                    grid_long"))

# -- C06
b6 = lambda name, *e: bug('C06', name, *e)
T10 = "find_10thetas(copy.deepcopy(unique_sal),\n                                                      copy.deepcopy(unique_ptmp),\n                                                      copy.deepcopy(unique_pres),"
b6('nocopy-calib', (C, T10, T10.replace('copy.deepcopy(unique_sal)', 'unique_sal')))
b6('nocopy-ptmp', (C, T10, T10.replace('copy.deepcopy(unique_ptmp)', 'unique_ptmp')))
b6('dash-nocopy', (D, "thetas = find_10thetas(copy.deepcopy(sal), copy.deepcopy(ptmp),", "thetas = find_10thetas(sal, copy.deepcopy(ptmp),"))
b6('dash-pres', (D, "copy.deepcopy(ptmp), copy.deepcopy(pres),\n", "copy.deepcopy(ptmp), pres,\n"))
b6('var-nocopy', (D, "sal_var_plot(levels, copy.deepcopy(sal), copy.deepcopy(pres),", "sal_var_plot(levels, sal, copy.deepcopy(pres),"))
b6('var-calsal', (D, "                 copy.deepcopy(cal_sal), copy.deepcopy(cal_sal_err),\n                 boundaries", "                 cal_sal, copy.deepcopy(cal_sal_err),\n                 boundaries"))
b6('var-mapsal', (D, "copy.deepcopy(ptmp), copy.deepcopy(map_sal),\n", "copy.deepcopy(ptmp), map_sal,\n") if False else (D, "    map_sal = grid_data['la_mapped_sal']\n", "    map_sal = grid_data['la_mapped_sal']\n    map_sal[map_sal > 40] = np.nan\n"))
b6('shared-view', (C, "        unique_sal_1 = copy.deepcopy(unique_sal)\n", "        unique_sal_1 = unique_sal\n"), (C, T10, T10.replace('copy.deepcopy(unique_sal)', 'unique_sal')))
b6('blank-before', (C, "        theta, p, index, var_s_th, th = find_10thetas(", "        unique_sal[np.isnan(unique_mapped_sal)] = np.nan\n        theta, p, index, var_s_th, th = find_10thetas("))
b6('shallow', (C, T10, T10.replace('copy.deepcopy(unique_sal)', 'unique_sal.view()')))
b6('anom-scale', (P, "    # get data from the calibrated", "    # get data from the calibrated") if False else (D, "    sal = np.array(float_data['SAL'])\n", "    sal = np.array(float_data['SAL'])\n    sal[sal > 42] = np.nan\n"))
same('c06-inside', (C, T10, T10.replace('copy.deepcopy(unique_sal)', 'unique_sal.copy()').replace('copy.deepcopy(unique_ptmp)', 'np.array(unique_ptmp)')))
same('c06-inner-copy', (C, T10, "find_10thetas(unique_sal,\n                                                      unique_ptmp,\n                                                      unique_pres,"), (N, "    # We only want 10 theta levels\n", "    sal, ptmp, pres = sal.copy(), ptmp.copy(), pres.copy()\n    # We only want 10 theta levels\n"))
same('c06-dash-np', (D, "copy.deepcopy(cal_sal).transpose()", "np.array(cal_sal).transpose()"))

# -- C11
b11 = lambda name, *e: bug('C11', name, *e)
CALI = "        calindex = np.argwhere(calseries == unique_cal[i])[:, 1]\n"
BADZ = "    if bad.__len__() > 0:\n        unique_cal = np.delete(unique_cal, bad)\n"
b11('keep-zero', (C, BADZ, ""))
b11('zero-gt1', (C, "    bad = np.argwhere(unique_cal == 0)\n", "    bad = np.argwhere(unique_cal < 0)\n"))
b11('le1', (C, "    bad = np.argwhere(unique_cal == 0)\n", "    bad = np.argwhere(unique_cal <= 1)\n"))
b11('zero-first-only', (C, BADZ, "    if n_zero > 1:\n        unique_cal = np.delete(unique_cal, bad)\n"), (C, "    bad = np.argwhere(unique_cal == 0)\n", "    bad = np.argwhere(unique_cal == 0)\n    n_zero = np.argwhere(calseries == 0).__len__()\n"))
b11('ge', (C, CALI, CALI.replace('==', '>=')))
b11('index-i', (C, CALI, "        calindex = np.argwhere(calseries == i + 1)[:, 1]\n"))
b11('col0', (C, CALI, CALI.replace('[:, 1]', '[:, 0]')))
b11('xall', (C, "            x = x_in[:, calindex]\n", "            x = x_in[:, 0:k]\n"))
b11('coord-all', (C, "        unique_coord_float = coord_float[calindex, :]\n", "        unique_coord_float = coord_float[0:k, :]\n"))
b11('mapped-all', (C, "        unique_mapped_sal = mapped_sal[:, calindex]\n", "        unique_mapped_sal = mapped_sal[:, np.arange(k)]\n"))
b11('err-src', (C, "        unique_mapsalerrors = mapsalerror[:, calindex]\n", "        unique_mapsalerrors = mapsalerror\n"))
b11('breaks-first', (C, "                breaks_in = breaks[i, :]\n", "                breaks_in = breaks[0, :]\n"))
b11('breaks-flat', (C, "                breaks_in = breaks[i, :]\n                breaks_in = breaks_in[", "                breaks_in = breaks.flatten()\n                breaks_in = breaks_in["))
b11('max-first', (C, "                                                  'max_no_breaks',\n                                                  max_breaks[i][0])", "                                                  'max_no_breaks',\n                                                  max_breaks[0][0])"))
b11('max-all', (C, "                                                      max_breaks[i][0])", "                                                      np.max(max_breaks))"))
b11('store-k', (C, "                pcond_factor[0][calindex] = condslope\n", nth(0, "                pcond_factor[0][0:k] = condslope\n")))
b11('start-raw', (C, "    cal_sal = np.ones((m, n)) * np.nan\n", "    cal_sal = copy.deepcopy(sal)\n"))
b11('start-one', (C, "    pcond_factor = np.ones((1, n)) * np.nan\n", "    pcond_factor = np.ones((1, n))\n"))
b11('skip-last', (C, "    for i in range(n_seq):\n        calindex", "    for i in range(max(n_seq - 1, 1)):\n        calindex"))
b11('cond-all', (C, "                sta_cond = np.dot(np.ones((m, 1)), sta_mean[:, calindex]) * unique_cond\n", "                sta_cond = np.dot(np.ones((m, 1)), sta_mean[:, 0:k]) * unique_cond\n"))
b11('tile-noidx', (C, "        unique_ptmp = ptmp[:, calindex]\n", "        unique_ptmp = ptmp[calindex, :]\n"))
same('c11-where', (C, CALI, "        calindex = np.where(calseries == unique_cal[i])[1]\n"))
same('c11-flat', (C, CALI, "        calindex = np.flatnonzero(calseries.flatten() == unique_cal[i])\n"))
same('c11-enum', (C, "    for i in range(n_seq):\n        calindex = np.argwhere(calseries == unique_cal[i])[:, 1]\n", "    for i, segment in enumerate(unique_cal):\n        calindex = np.argwhere(calseries == segment)[:, 1]\n"))
same('c11-mask', (C, "    # bad profiles are flagged as zero\n    bad = np.argwhere(unique_cal == 0)\n\n" + BADZ, "    unique_cal = unique_cal[unique_cal != 0]\n"))
same('c11-breaks', (C, "                breaks_in = breaks_in[np.argwhere(np.isfinite(breaks_in))].flatten()\n", "                breaks_in = breaks_in[np.isfinite(breaks_in)]\n"))
same('c11-full', (C, "    cal_sal = np.ones((m, n)) * np.nan\n", "    cal_sal = np.full((m, n), np.nan)\n"))
same('c11-slice', (C, "                pcond_factor[0][calindex] = condslope\n", nth(0, "                pcond_factor[0, calindex] = condslope\n")))
same('c11-helper', (C, CALI, "        calindex = _columns_of(calseries, unique_cal[i])\n"), (C, "def calc_piecewisefit(", "def _columns_of(flags, number):\n    return np.argwhere(flags == number)[:, 1]\n\n\ndef calc_piecewisefit("))
same('c11-limit', (C, "                if np.isfinite(max_breaks[i]):\n", "                limit = max_breaks[i][0]\n                if np.isfinite(limit):\n"), (C, "                                                      max_breaks[i][0])", "                                                      limit)"))

# -- C12
b12 = lambda name, *e: bug('C12', name, *e)
b12('nseq1', (C, "    if n_seq == 1 and max_breaks.__len__() > 1:\n", "    if n_seq == 1 and max_breaks.__len__() > 2:\n"))
b12('len-lt', (C, "        elif max_breaks.__len__() != n_seq:\n", "        elif max_breaks.__len__() < n_seq:\n"))
b12('rows-lt', (C, "        if ns != n_seq:\n", "        if ns < n_seq:\n"))
b12('range-all', (C, "        for n in range(n_seq if sstatus == 1 else 0):\n", "        for n in range(n_seq):\n"))
b12('reset', (C, "                print(str(nb), \"fixed breaks prescribed\")\n", "                print(str(nb), \"fixed breaks prescribed\")\n                sstatus = 1\n"))
b12('no-return', (C, "                 'fbreaks': fbreaks})\n\n        return\n", "                 'fbreaks': fbreaks})\n"))
b12('status-lost', (C, "            print(\"Have \", str(n_seq), \" or \", str(ns), \" sets of breaks\")\n\n            sstatus = 0\n", "            print(\"Have \", str(n_seq), \" or \", str(ns), \" sets of breaks\")\n"))
b12('max-status', (C, "                      str(max_breaks[n]), \" less than \", str(nb), \"prescribed breaks\")\n                sstatus = 0\n", "                      str(max_breaks[n]), \" less than \", str(nb), \"prescribed breaks\")\n"))
b12('ge', (C, "            if nb > max_breaks[n]:\n", "            if nb > max_breaks[n] + 1:\n"))
b12('early-return', (C, "            print(\"Have \", str(n_seq), \" or \", str(ns), \" sets of breaks\")\n\n            sstatus = 0\n", "            print(\"Have \", str(n_seq), \" or \", str(ns), \" sets of breaks\")\n            return\n"))
b12('raise', (C, "        elif max_breaks.__len__() != n_seq:\n", "        elif max_breaks.__len__() > n_seq:\n            raise ValueError('too many break limits')\n\n        elif max_breaks.__len__() != n_seq:\n"))
b12('missing-key', (C, "                 'sta_rms': sta_rms,\n                 'sta_SAL': sta_sal,\n", "                 'sta_SAL': sta_sal,\n"))
b12('other-place', (C, "                                                  system_config['FLOAT_CALIB_PREFIX'] + float_name +\n                                                  system_config['FLOAT_CALIB_POSTFIX']]))", "                                                  float_name +\n                                                  system_config['FLOAT_CALIB_POSTFIX']]))"))
b12('raw-sal', (C, "        savemat(float_calib_filename,\n                {'cal_SAL': cal_sal,", "        savemat(float_calib_filename,\n                {'cal_SAL': sal,"))
b12('all-reject', (C, "    elif n_seq > 1:\n", "    elif n_seq >= 1:\n"), (C, "        elif max_breaks.__len__() != n_seq:\n", "        if max_breaks.__len__() == n_seq:\n"))
b12('zero-status', (C, "    if sstatus == 0:\n        float_calib", "    if sstatus < 0:\n        float_calib"))
same('c12-len', (C, "    if n_seq == 1 and max_breaks.__len__() > 1:\n", "    if n_seq == 1 and len(max_breaks) >= 2:\n"))
same('c12-in', (C, "        elif max_breaks.__len__() != n_seq:\n", "        elif len(max_breaks) not in (1, n_seq):\n"))
same('c12-not', (C, "    if sstatus == 0:\n        float_calib", "    if not sstatus:\n        float_calib"))
same('c12-empty', (C, "                {'cal_SAL': cal_sal,\n                 'cal_SAL_err': cal_sal_err,\n                 'pcond", "                {'cal_SAL': np.full((m, pres.shape[1]), np.nan),\n                 'cal_SAL_err': cal_sal_err,\n                 'pcond"))
same('c12-if', (C, "        for n in range(n_seq if sstatus == 1 else 0):\n", "        for n in range(min(n_seq, ns)) if sstatus == 1 else []:\n"))

# -- C32
b32 = lambda name, *e: bug('C32', name, *e)
b32('cal-ptmp', (C, "            unique_cond = gsw.conversions.C_from_SP(unique_sal_1, unique_ptmp_1, 0)\n" if False else "                unique_cond = gsw.conversions.C_from_SP(unique_sal_1, unique_ptmp_1, 0)\n", "                unique_cond = gsw.conversions.C_from_SP(unique_sal_1, unique_mapped_ptmp, 0)\n"))
b32('cond-pres', (C, "                unique_cond = gsw.conversions.C_from_SP(unique_sal_1, unique_ptmp_1, 0)\n", "                unique_cond = gsw.conversions.C_from_SP(unique_sal_1, unique_ptmp_1, unique_pres_1)\n"))
b32('pres-both', (C, "                unique_cond = gsw.conversions.C_from_SP(unique_sal_1, unique_ptmp_1, 0)\n", "                unique_cond = gsw.conversions.C_from_SP(unique_sal_1, unique_ptmp_1, 10)\n"))
b32('err-factor', (C, "                                                   pcond_factor_err[:, calindex]) * unique_cond\n", "                                                   pcond_factor_err[:, calindex]) * cal_cond[:, calindex]\n"))
b32('sta-mean', (C, "                sta_cond_err = np.dot(np.ones((m, 1)), sta_rms[:, calindex]) * unique_cond\n", "                sta_cond_err = np.dot(np.ones((m, 1)), sta_mean[:, calindex]) * unique_cond\n"))
b32('sal1-noabs', (C, "                cal_sal_err[:, calindex] = np.abs(cal_sal[:, calindex] - cal_sal1[:, calindex])\n", "                cal_sal_err[:, calindex] = cal_sal[:, calindex] - cal_sal1[:, calindex]\n"))
b32('inv-ratio', (C, "            y = mapped_cond / icond\n", "            y = icond / mapped_cond\n"))
b32('ten-mapped', (C, "ten_mapped_sal[0:jj.__len__(), ipr] = unique_mapped_sal[index[jj, ipr],\n", "ten_mapped_sal[0:jj.__len__(), ipr] = unique_sal[index[jj, ipr],\n"))
b32('mapped-theta', (C, "            mapped_cond = gsw.conversions.C_from_SP(ten_mapped_sal,\n                                                    ten_ptmp,\n                                                    0)", "            mapped_cond = gsw.conversions.C_from_SP(ten_mapped_sal,\n                                                    ten_ptmp,\n                                                    ten_pres)"))
b32('jj-row', (C, "ten_mapped_sal[0:jj.__len__(), ipr] = unique_mapped_sal[index[jj, ipr],\n", "ten_mapped_sal[0:jj.__len__(), ipr] = unique_mapped_sal[jj,\n"))
b32('err-row', (C, "ten_mapsalerrors[0:jj.__len__(), ipr] = unique_mapsalerrors[index[jj, ipr],\n", "ten_mapsalerrors[0:jj.__len__(), ipr] = unique_mapsalerrors[index[0:jj.__len__(), ipr],\n"))
b32('err-div', (C, "            err = mapconderrors / icond\n", "            err = mapconderrors / mapped_cond\n"))
b32('err-100', (C, "            mapconderrors = 100 * np.abs", "            mapconderrors = 10 * np.abs"))
b32('sta-swap', (C, "                 sta_mean_temp, sta_rms_temp, ndf,\n                 fit_coef, fit_breaks) = fit_cond(x, y, err,\n                                                  covariance,\n                                                  'max_no", "                 sta_rms_temp, sta_mean_temp, ndf,\n                 fit_coef, fit_breaks) = fit_cond(x, y, err,\n                                                  covariance,\n                                                  'max_no"))
b32('slope-err', (C, "                pcond_factor_err[0][calindex] = condslope_err\n", "                pcond_factor_err[0][calindex] = sta_rms_temp\n") if False else (C, "                    pcond_factor_err[0][calindex] = condslope_err\n", nth(1, "                    pcond_factor_err[0][calindex] = condslope\n")))
b32('save-swap', (C, "                               'sta_SAL': sta_sal,\n                               'sta_SAL_err'", "                               'sta_SAL': cal_sal,\n                               'sta_SAL_err'"))
b32('sal-view', (C, "                cal_sal1[:, calindex] = gsw.conversions.SP_from_C((cal_cond[:, calindex] +\n", "                cal_sal1[:, calindex] = gsw.conversions.SP_from_C((unique_cond +\n"))
b32('clip', (C, "                cal_sal[:, calindex] = gsw.conversions.SP_from_C(cal_cond[:, calindex],\n", "                cal_sal[:, calindex] = gsw.conversions.SP_from_C(np.round(cal_cond[:, calindex], 2),\n"))
b32('blank', (C, "                cal_sal_err[:, calindex] = np.abs(cal_sal[:, calindex] - cal_sal1[:, calindex])\n", "                cal_sal_err[:, calindex] = np.abs(cal_sal[:, calindex] - cal_sal1[:, calindex])\n                cal_sal_err[np.isnan(cal_sal_err)] = 0\n"))
same('c32-outer', (C, "                cal_cond[:, calindex] = np.dot(np.ones((m, 1)),\n                                               pcond_factor[:, calindex]) * unique_cond\n", "                cal_cond[:, calindex] = pcond_factor[:, calindex] * unique_cond\n"))
same('c32-gsw', (C, "                sta_sal[:, calindex] = gsw.conversions.SP_from_C(", "                sta_sal[:, calindex] = gsw.SP_from_C("))
same('c32-helper', (C, "                sta_cond = np.dot(np.ones((m, 1)), sta_mean[:, calindex]) * unique_cond\n", "                sta_cond = _scaled(sta_mean[:, calindex], unique_cond)\n"), (C, "def calc_piecewisefit(", "def _scaled(factor, cond):\n    return np.tile(factor, (cond.shape[0], 1)) * cond\n\n\ndef calc_piecewisefit("))
same('c32-rows', (C, "                if jj.__len__() > 0:\n                    ten_sal[0:jj.__len__(), ipr] = unique_sal[index[jj, ipr], ipr].flatten()\n", "                if jj.__len__() > 0:\n                    levels = index[jj, ipr].flatten()\n                    ten_sal[0:jj.__len__(), ipr] = unique_sal[levels, ipr]\n"))
same('c32-abs', (C, "            mapconderrors = 100 * np.abs(mapped_cond - mapped_cond1)\n", "            mapconderrors = np.abs(mapped_cond1 - mapped_cond) * 100\n"))
same('c32-errsum', (C, "                sta_sal1 = gsw.conversions.SP_from_C(sta_cond + sta_cond_err, unique_ptmp, 0)\n", "                sta_sal1 = gsw.conversions.SP_from_C((sta_mean[:, calindex] + sta_rms[:, calindex]) * unique_cond, unique_ptmp, 0)\n"))
same('c32-where', (C, "                sta_sal_err[:, calindex] = np.abs(sta_sal[:, calindex] - sta_sal1)\n", "                sta_sal_err[:, calindex] = np.abs(sta_sal1 - sta_sal[:, calindex])\n"))
same('c32-direct', (C, "                    ten_sal[0:jj.__len__(), ipr] = unique_sal[index[jj, ipr], ipr].flatten()\n", "                    ten_sal[0:jj.__len__(), ipr] = sal[index[jj, ipr], calindex[ipr]].flatten()\n"))

# -- C33
b33 = lambda name, *e: bug('C33', name, *e)
b33('broad', (G, "    except FileNotFoundError:\n", "    except Exception:\n"))
b33('oserror', (G, "    except FileNotFoundError:\n", "    except OSError:\n"))
b33('keyerr-outer', (G, "    except FileNotFoundError:\n", "    except (FileNotFoundError, KeyError):\n"), (G, "        try:\n            use_percent_gt = calseries_data['use_percent_gt']\n\n        except KeyError:\n            use_percent_gt = 0.5\n", "        use_percent_gt = calseries_data['use_percent_gt']\n"))
b33('swap-lim', (G, "        use_pres_lt = calseries_data['use_pres_lt']\n        use_pres_gt = calseries_data['use_pres_gt']\n", "        use_pres_gt = calseries_data['use_pres_lt']\n        use_pres_lt = calseries_data['use_pres_gt']\n"))
b33('copy-paste', (G, "        use_theta_gt = calseries_data['use_theta_gt']\n", "        use_theta_gt = calseries_data['use_theta_lt']\n"))
b33('cross-drop', (G, "    if use_pres_gt.__len__() > 1:\n", "    if use_pres_lt.__len__() > 1:\n"))
b33('drop-other', (G, "    if use_theta_gt.__len__() > 1:\n        print(\"More than one potential temperature boundary used, removing boundary...\")\n        use_theta_gt = []\n", "    if use_theta_gt.__len__() > 1:\n        print(\"More than one potential temperature boundary used, removing boundary...\")\n        use_theta_lt = []\n"))
b33('ge-one', (G, "    if use_pres_lt.__len__() > 1:\n", "    if use_pres_lt.__len__() >= 1:\n"))
b33('gt-two', (G, "    if use_pres_lt.__len__() > 1:\n", "    if use_pres_lt.__len__() > 2:\n"))
b33('pct-default', (G, "        except KeyError:\n            use_percent_gt = 0.5\n", "        except KeyError:\n            use_percent_gt = []\n"))
b33('max-reset', (G, "    # ensure values are in a realistic range\n", "    # ensure values are in a realistic range\n    if len(breaks) == 0:\n        max_breaks = 4\n"))
b33('no-sort', (G, "    calseries = calseries[sorted_profile_no]\n", ""))
b33('sort-after', (G, "    calib_profile_no = calib_profile_no[sorted_profile_no]\n    calseries = calseries[sorted_profile_no]\n", "    calib_profile_no = calib_profile_no[sorted_profile_no]\n    calseries = calseries[np.argsort(calib_profile_no)]\n"))
b33('and-flag', (G, "        if sal_nan.__len__() == 0 or \\\n                temp_nan.__len__() == 0 or \\\n                pres_nan.__len__() == 0:\n", "        if sal_nan.__len__() == 0 or \\\n                (temp_nan.__len__() == 0 and pres_nan.__len__() == 0):\n"))
b33('flag-any', (G, "        sal_nan = np.argwhere(~np.isnan(sal[:, i]))\n", "        sal_nan = np.argwhere(~np.isnan(sal[:1, i]))\n"))
b33('flag-temp', (G, "        temp_nan = np.argwhere(~np.isnan(temp[:, i]))\n", "        temp_nan = np.argwhere(~np.isnan(sal[:, i]))\n"))
b33('flag-index', (G, "            calseries[calib_profile_no == profile_no[i]] = 0\n", "            calseries[i] = 0\n"))
b33('flag-none', (G, "            calseries[calib_profile_no == profile_no[i]] = 0\n", "            calseries[calib_profile_no == i] = 0\n"))
b33('inserted', (G, "        calseries = np.append(calseries, calseries[max(missing - 1, 0)])\n", "        calseries = np.insert(calseries, missing, calseries[max(missing - 1, 0)])\n"))
b33('reset-series', (G, "        calseries = np.append(calseries, calseries[max(missing - 1, 0)])\n", "        calseries = np.append(np.ones(no_profiles - 1), calseries[max(missing - 1, 0)])\n"))
b33('saved-key', (G, "                                 'use_theta_gt': use_theta_gt,\n                                 'use_pres_lt': use_pres_lt,", "                                 'use_theta_gt': use_theta_lt,\n                                 'use_pres_lt': use_pres_lt,"))
b33('nopercent', (G, "                                 'use_pres_gt': use_pres_gt,\n                                 'use_percent_gt': use_percent_gt})", "                                 'use_pres_gt': use_pres_gt})"))
b33('range-1', (G, "    for i in range(no_profiles):\n        sal_nan", "    for i in range(1, no_profiles):\n        sal_nan"))
same('c33-exists', (G, "    try:\n        calseries_data = loadmat(calseries_filename)\n", "    if os.path.exists(calseries_filename):\n        calseries_data = loadmat(calseries_filename)\n"), (G, "    except FileNotFoundError:\n", "    else:\n"))
same('c33-all', (G, "        sal_nan = np.argwhere(~np.isnan(sal[:, i]))\n", "        sal_nan = np.flatnonzero(np.isfinite(sal[:, i]))\n"))
same('c33-allnan', (G, "        if sal_nan.__len__() == 0 or \\\n                temp_nan.__len__() == 0 or \\\n", "        if np.all(np.isnan(sal[:, i])) or \\\n                not np.any(~np.isnan(temp[:, i])) or \\\n"))
same('c33-get', (G, "        try:\n            use_percent_gt = calseries_data['use_percent_gt']\n\n        except KeyError:\n            use_percent_gt = 0.5\n", "        use_percent_gt = calseries_data.get('use_percent_gt', 0.5)\n"))
same('c33-in', (G, "        try:\n            use_percent_gt = calseries_data['use_percent_gt']\n\n        except KeyError:\n            use_percent_gt = 0.5\n", "        if 'use_percent_gt' in calseries_data:\n            use_percent_gt = calseries_data['use_percent_gt']\n        else:\n            use_percent_gt = 0.5\n"))
same('c33-helper', (G, "    if use_theta_lt.__len__() > 1:\n        print(\"More than one potential temperature boundary used, removing boundary...\")\n        use_theta_lt = []\n", "    use_theta_lt = _single(use_theta_lt, 'potential temperature')\n"), (G, "def set_calseries(", "def _single(limit, what):\n    if len(limit) > 1:\n        print(\"More than one\", what, \"boundary used, removing boundary...\")\n        return []\n    return limit\n\n\ndef set_calseries("))
same('c33-order', (G, "    calib_profile_no = calib_profile_no[sorted_profile_no]\n    calseries = calseries[sorted_profile_no]\n", "    calseries = calseries[sorted_profile_no]\n    calib_profile_no = np.sort(calib_profile_no)\n"))
same('c33-loop', (G, "    for i in range(missing_profiles_index.__len__()):\n        missing = missing_profiles_index[i]\n", "    for missing in missing_profiles_index:\n"))
same('c33-where', (G, "            calseries[calib_profile_no == profile_no[i]] = 0\n", "            calseries[np.where(calib_profile_no == profile_no[i])] = 0\n"))

# -- C15
b15 = lambda name, *e: bug('C15', name, *e)
b15('nbr1-init', (S, "    nbr1 = -1\n    brk_init", "    brk_init"), (S, "                max_brk_in = value\n                nbr1 = -1\n", "                max_brk_in = value\n"))
b15('nbr1-global', (S, "    max_brk_in = []\n    nbr1 = -1\n", "    max_brk_in = []\n"))
b15('xblim', (S, "    else:\n        # too few profiles\n        xblim = [1, 1]\n", ""))
b15('maxbrk', (S, "    global A, breaks, nbr1, ubrk_g, xf, yf, w_i, xblim\n\n\n", "    global A, breaks, nbr1, ubrk_g, xf, yf, w_i, xblim, setbreaks\n\n\n"), (S, "    setbreaks = 0\n", ""), (S, "    for nbr in pbrk:\n", "    setbreaks = 'setbreaks' in globals() and setbreaks\n    for nbr in pbrk:\n")) if False else None
b15('warm-A', (S, "        if nbr == -1:\n            # offset only\n", "        if nbr == 0 and A is not None and len(A) > 0:\n            b_A[0:1, 0] = A[0]\n        if nbr == -1:\n            # offset only\n"), (S, "def fit_cond(", "A = []\n\n\ndef fit_cond("))
b15('guess-cache', (S, "            b_g = np.concatenate(([-1], b_guess))\n            ubrk_g = []\n", "            if nbr in _GUESS:\n                b_guess = _GUESS[nbr]\n            _GUESS[nbr] = b_guess\n            b_g = np.concatenate(([-1], b_guess))\n            ubrk_g = []\n"), (S, "def fit_cond(", "_GUESS = {}\n\n\ndef fit_cond("))
b15('default-breaks', (S, "def brk_pt_fit(x_obvs, y_obvs, w_i, breaks=None):\n", "def brk_pt_fit(x_obvs, y_obvs, w_i, breaks=[]):\n"), (S, "    if breaks is None:\n        breaks = []\n", "    breaks.sort()\n") if False else (S, "    # shift\n", "    # shift\n") if False else (S, "    x_length = x_obvs.__len__()\n" , "    x_length = x_obvs.__len__()\n    if len(breaks) == 0:\n        breaks.append(x_obvs[0])\n"))
b15('fnattr', (S, "    nloops = 200  # number of loops to fit profile error\n", "    nloops = 200  # number of loops to fit profile error\n    fit_cond.calls = getattr(fit_cond, 'calls', 0) + 1\n    if fit_cond.calls > 10:\n        nloops = 100\n"))
b15('breaks-stale', (S, "    breaks = np.array([])\n    setbreaks = 0\n", "    setbreaks = 0\n"), (S, "                if value.__len__() > 0:\n                    breaks = value\n                    breaks = (breaks - x_0) / x_scale\n", "                if value.__len__() > 0:\n                    breaks = value\n                if breaks.__len__() > 0:\n                    breaks = (breaks - x_0) / x_scale\n"))
b15('ubrk', (S, "            b_g = np.concatenate(([-1], b_guess))\n            ubrk_g = []\n", "            b_g = np.concatenate(([-1], b_guess))\n            if nbr == 1:\n                ubrk_g = []\n"))
b15('yf-keep', (S, "    yf = (y - y_0) / y_scale\n", "    if y_scale > 0:\n        yf = (y - y_0) / y_scale\n"))
same('c15-none', (S, "    global A, breaks, nbr1, ubrk_g, xf, yf, w_i, xblim\n\n\n", "    global A, breaks, nbr1, ubrk_g, xf, yf, w_i, xblim\n    A = None\n\n"))
same('c15-order', (S, "    max_brk_in = []\n    nbr1 = -1\n", "    nbr1 = -1\n    max_brk_in = []\n"))
same('c15-ternary', (S, "        xblim = [1, 1]\n", "        edge = 1\n        xblim = [edge, edge]\n"))
same('c15-copy', (S, "    xf = copy.deepcopy(real_xf)\n", "    xf = np.array(real_xf)\n"))

# -- C22
b22 = lambda name, *e: bug('C22', name, *e)
b22('lt-ge', (N, "        theta_range = np.argwhere(ptmp > use_theta_lt)\n", "        theta_range = np.argwhere(ptmp >= use_theta_lt)\n"))
b22('swap-idx', (N, "        for i in pres_range:\n            pres[i[0], i[1]] = np.nan\n", nth(2, "        for i in pres_range:\n            pres[i[1], i[0]] = np.nan\n")))
b22('band-or', (N, "            pres_range = np.argwhere(np.logical_and(pres_range_lt, pres_range_gt))\n", "            pres_range = np.argwhere(np.logical_or(pres_range_lt, pres_range_gt))\n"))
b22('keep-sal', (N, "        for i in theta_range:\n            pres[i[0], i[1]] = np.nan\n            sal[i[0], i[1]] = np.nan\n", nth(1, "        for i in theta_range:\n            pres[i[0], i[1]] = np.nan\n")))
b22('unmapped-ptmp', (N, "        sal[i[0], i[1]] = np.nan\n        ptmp[i[0], i[1]] = np.nan\n\n    # only use", "        sal[i[0], i[1]] = np.nan\n\n    # only use"))
b22('plot-pres-ptmp', (P, "        good = pres < use_pres_gt\n", "        good = ptmp < use_pres_gt\n"))
b22('plot-inplace-first', (P, "        good = pres > use_pres_lt\n        pres[good] = np.nan\n        sal[good] = np.nan\n", "        good = pres > use_pres_lt\n        pres[good] = np.nan\n        sal[pres > use_pres_lt] = np.nan\n"))
b22('plot-band-lt', (P, "            good = np.logical_and(theta_range_lt, theta_range_gt)\n", "            good = theta_range_lt\n"))
b22('plot-err', (P, "        map_sal_errors[good] = np.nan\n", nth(3, "        map_sal[good] = np.nan\n")))
b22('plot-calerr', (P, "        cal_sal_errors[i[0], i[1]] = np.nan\n", ""))
b22('plot-lim-order', (P, "    use_pres_lt = boundaries[2]\n    use_pres_gt = boundaries[3]\n", "    use_pres_gt = boundaries[2]\n    use_pres_lt = boundaries[3]\n"))
b22('plot-theta-cond', (P, "        if use_pres_lt < use_pres_gt:\n", "        if use_theta_lt < use_theta_gt:\n"))
b22('dash-swap', (D, "copy.deepcopy(map_ptmp), use_theta_lt, use_theta_gt,", "copy.deepcopy(map_ptmp), use_theta_gt, use_theta_lt,"))
b22('calib-swap', (C, "                                                      use_pres_lt, use_pres_gt,\n", "                                                      use_pres_gt, use_pres_lt,\n"))
b22('calib-array', (C, "                                                      copy.deepcopy(unique_mapped_ptmp),\n", "                                                      copy.deepcopy(unique_ptmp),\n"))
b22('isnan-sal', (N, "    unmapped = np.argwhere(np.isnan(la_ptmp))\n", "    unmapped = np.argwhere(np.isnan(ptmp))\n"))
b22('use-raw', (N, "    min_theta = np.ceil(np.nanmin(ptmp) * 10) / 10\n", "    min_theta = np.ceil(np.nanmin(ptmp) * 10) / 10\n"), (N, "    unmapped = np.argwhere(np.isnan(la_ptmp))\n", "    unmapped = np.argwhere(np.isnan(la_ptmp))\n    deepest = np.nanmax(pres)\n"), (N, "        max_pres = np.nanmax(pres)\n", "        max_pres = deepest\n"))
b22('le-band', (N, "        if use_theta_lt < use_theta_gt:\n", "        if use_theta_lt <= use_theta_gt:\n"))
b22('elif', (N, "    if use_pres_lt.__len__() > 0 and use_pres_gt.__len__() == 0:\n", "    elif use_pres_lt.__len__() > 0 and use_pres_gt.__len__() == 0:\n"))
same('c22-mask', (N, "    for i in unmapped:\n        pres[i[0], i[1]] = np.nan\n        sal[i[0], i[1]] = np.nan\n        ptmp[i[0], i[1]] = np.nan\n", "    bad = np.isnan(la_ptmp)\n    for array in (pres, sal, ptmp):\n        array[bad] = np.nan\n"))
same('c22-unpack', (N, "        for i in pres_range:\n            pres[i[0], i[1]] = np.nan\n            sal[i[0], i[1]] = np.nan\n            ptmp[i[0], i[1]] = np.nan\n", "        for row, col in pres_range:\n            sal[row, col] = np.nan\n            ptmp[row, col] = np.nan\n            pres[row, col] = np.nan\n"))
same('c22-helper', (N, "    if use_pres_lt.__len__() > 0 and use_pres_gt.__len__() == 0:\n        pres_range = np.argwhere(pres > use_pres_lt)\n        for i in pres_range:\n            pres[i[0], i[1]] = np.nan\n            sal[i[0], i[1]] = np.nan\n            ptmp[i[0], i[1]] = np.nan\n", "    if len(use_pres_lt) and not len(use_pres_gt):\n        _blank(pres > use_pres_lt, pres, sal, ptmp)\n"), (N, "def find_10thetas(", "def _blank(mask, *arrays):\n    for array in arrays:\n        array[mask] = np.nan\n\n\ndef find_10thetas("))
same('c22-where', (N, "        pres_range = np.argwhere(pres > use_pres_lt)\n        for i in pres_range:\n            pres[i[0], i[1]] = np.nan\n            sal[i[0], i[1]] = np.nan\n            ptmp[i[0], i[1]] = np.nan\n", "        out = pres > use_pres_lt\n        pres = np.where(out, np.nan, pres)\n        sal = np.where(out, np.nan, sal)\n        ptmp = np.where(out, np.nan, ptmp)\n"))
same('c22-plot-loop', (P, "        pres[good] = np.nan\n        sal[good] = np.nan\n        ptmp[good] = np.nan\n        map_sal[good] = np.nan\n        map_sal_errors[good] = np.nan\n        cal_sal[good] = np.nan\n        cal_sal_errors[good] = np.nan\n", "        for values in [pres, sal, ptmp, map_sal, map_sal_errors, cal_sal, cal_sal_errors]:\n            values[good] = np.nan\n"))
same('c22-plot-mask', (P, "    bad = np.argwhere(np.isnan(map_ptmp))\n    for i in bad:\n        pres[i[0], i[1]] = np.nan\n        sal[i[0], i[1]] = np.nan\n        ptmp[i[0], i[1]] = np.nan\n        map_sal[i[0], i[1]] = np.nan\n        map_sal_errors[i[0], i[1]] = np.nan\n        cal_sal[i[0], i[1]] = np.nan\n        cal_sal_errors[i[0], i[1]] = np.nan\n", "    bad = np.where(np.isnan(map_ptmp))\n    for values in (pres, sal, ptmp, map_sal, map_sal_errors, cal_sal, cal_sal_errors):\n        values[bad] = np.nan\n"))
same('c22-outside', (P, "    if use_pres_lt.__len__() > 0 and use_pres_gt.__len__() == 0:\n        good = pres > use_pres_lt\n", "    if use_pres_lt.__len__() > 0 and use_pres_gt.__len__() == 0:\n        good = _outside(pres, use_pres_lt, use_pres_gt)\n"), (P, "def sal_var_plot(", "def _outside(values, upper, lower):\n    mask = np.zeros(values.shape, dtype=bool)\n    if len(upper) > 0:\n        mask |= values > upper\n    if len(lower) > 0:\n        mask |= values < lower\n    return mask\n\n\ndef sal_var_plot("))
same('c22-elementwise', (N, "    for i in unmapped:\n        pres[i[0], i[1]] = np.nan\n        sal[i[0], i[1]] = np.nan\n        ptmp[i[0], i[1]] = np.nan\n", "    for i in range(la_ptmp.shape[0]):\n        for j in range(la_ptmp.shape[1]):\n            if np.isnan(la_ptmp[i, j]):\n                pres[i, j] = np.nan\n                sal[i, j] = np.nan\n                ptmp[i, j] = np.nan\n"))
same('c22-else', (N, "        if use_theta_lt < use_theta_gt:\n            # exclude middle band\n            theta_range = np.argwhere(np.logical_and(theta_range_lt, theta_range_gt))\n\n        else:\n            theta_range = np.argwhere(np.logical_or(theta_range_gt, theta_range_lt))\n", "        if use_theta_gt <= use_theta_lt:\n            theta_range = np.argwhere(theta_range_gt | theta_range_lt)\n        else:\n            theta_range = np.argwhere(theta_range_lt & theta_range_gt)\n"))

# -- C21
b21 = lambda name, *e: bug('C21', name, *e)
b21('sync-order', (F, "    ptmp_nans = np.isnan(grid_ptmp)\n    grid_sal[ptmp_nans] = np.nan\n    grid_pres[ptmp_nans] = np.nan\n", ""))
same('c21-sync-onepass', (F, "    grid_pres[sal_nans] = np.nan\n    grid_ptmp[sal_nans] = np.nan\n\n    pres_nans", "    grid_ptmp[sal_nans] = np.nan\n\n    pres_nans"))
b21('sync-copy', (F, "        _sync_nans(grid_sal, grid_pres, grid_ptmp)\n", "        _sync_nans(grid_sal.copy(), grid_pres, grid_ptmp)\n"))
b21('sync-args', (F, "        _sync_nans(grid_sal, grid_pres, grid_ptmp)\n", "        _sync_nans(grid_sal, grid_pres, grid_pres)\n"))
same('c21-sync-none', (F, "    pres_nans = np.isnan(grid_pres)\n    grid_sal[pres_nans] = np.nan\n", "    pres_nans = np.isnan(grid_pres)\n"))
b21('empty-any', (F, "        if np.all(np.isnan(grid_sal[:, column - nans])) or \\\n", "        if np.any(np.isnan(grid_sal[:, column - nans])) or \\\n"))
b21('empty-keep', (F, "            grid_ptmp = np.delete(grid_ptmp, column - nans, 1)\n", ""))
b21('empty-dates', (F, "            grid_dates = np.delete(grid_dates, column - nans)\n            nans += 1\n", "            nans += 1\n"))
b21('empty-renumber', (F, "column - nans", "column"))
b21('depth-minus', (F, "    max_pres = np.nanmax(pa_float_pres) + config[\"MAP_P_DELTA\"]\n", "    max_pres = np.nanmax(pa_float_pres)\n"))
b21('depth-sal', (F, "                            sal = np.delete(sal, too_deep[:, 0])\n", ""))
b21('depth-lt', (F, "                            too_deep = np.argwhere(pres > max_pres)\n", "                            too_deep = np.argwhere(pres > max_pres - config[\"MAP_P_DELTA\"] / 2)\n"))
b21('depth-map', (C, "get_region_data(wmo_numbers, float_name, config, index, float_data['float_pres'])", "get_region_data(wmo_numbers, float_name, config, index, float_data['float_ptmp'])"))
b21('empty-before', (F, "        if np.all(np.isnan(grid_sal[:, column - nans])) or \\\n                np.all(np.isnan(grid_pres[:, column - nans])):\n", "        if np.sum(np.isnan(grid_sal[:, column - nans])) > 1:\n"))
same('c21-mask', (F, "    sal_nans = np.isnan(grid_sal)\n    grid_pres[sal_nans] = np.nan\n    grid_ptmp[sal_nans] = np.nan\n\n    pres_nans = np.isnan(grid_pres)\n    grid_sal[pres_nans] = np.nan\n    grid_ptmp[pres_nans] = np.nan\n\n    ptmp_nans = np.isnan(grid_ptmp)\n    grid_sal[ptmp_nans] = np.nan\n    grid_pres[ptmp_nans] = np.nan\n", "    missing = np.isnan(grid_sal) | np.isnan(grid_pres) | np.isnan(grid_ptmp)\n    for grid in (grid_sal, grid_pres, grid_ptmp):\n        grid[missing] = np.nan\n"))
same('c21-after-T', (F, "        _sync_nans(grid_sal, grid_pres, grid_ptmp)\n        grid_dates = change_dates(grid_dates)\n\n        # transpose data\n        grid_sal = grid_sal.T\n        grid_pres = grid_pres.T\n        grid_ptmp = grid_ptmp.T\n", "        grid_dates = change_dates(grid_dates)\n\n        # transpose data\n        grid_sal = grid_sal.T\n        grid_pres = grid_pres.T\n        grid_ptmp = grid_ptmp.T\n        _sync_nans(grid_sal, grid_pres, grid_ptmp)\n"))
same('c21-vector', (F, "    nans = 0\n    for column in range(grid_sal.shape[1]):\n\n        if np.all(np.isnan(grid_sal[:, column - nans])) or \\\n                np.all(np.isnan(grid_pres[:, column - nans])):\n            grid_sal = np.delete(grid_sal, column - nans, 1)\n            grid_ptmp = np.delete(grid_ptmp, column - nans, 1)\n            grid_pres = np.delete(grid_pres, column - nans, 1)\n            grid_lat = np.delete(grid_lat, column - nans)\n            grid_long = np.delete(grid_long, column - nans)\n            grid_dates = np.delete(grid_dates, column - nans)\n            nans += 1\n", "    keep = ~(np.all(np.isnan(grid_sal), axis=0) | np.all(np.isnan(grid_pres), axis=0))\n    nans = np.sum(~keep)\n    grid_sal = grid_sal[:, keep]\n    grid_ptmp = grid_ptmp[:, keep]\n    grid_pres = grid_pres[:, keep]\n    grid_lat = grid_lat[keep]\n    grid_long = grid_long[keep]\n    grid_dates = grid_dates[keep]\n"))
same('c21-notany', (F, "        if np.all(np.isnan(grid_sal[:, column - nans])) or \\\n                np.all(np.isnan(grid_pres[:, column - nans])):\n", "        if not np.any(~np.isnan(grid_sal[:, column - nans])):\n"))
same('c21-delete-list', (F, "    nans = 0\n    for column in range(grid_sal.shape[1]):\n\n        if np.all(np.isnan(grid_sal[:, column - nans])) or \\\n                np.all(np.isnan(grid_pres[:, column - nans])):\n            grid_sal = np.delete(grid_sal, column - nans, 1)\n            grid_ptmp = np.delete(grid_ptmp, column - nans, 1)\n            grid_pres = np.delete(grid_pres, column - nans, 1)\n            grid_lat = np.delete(grid_lat, column - nans)\n            grid_long = np.delete(grid_long, column - nans)\n            grid_dates = np.delete(grid_dates, column - nans)\n            nans += 1\n", "    empty = [column for column in range(grid_sal.shape[1])\n             if np.all(np.isnan(grid_sal[:, column])) or np.all(np.isnan(grid_pres[:, column]))]\n    nans = len(empty)\n    grid_sal, grid_ptmp, grid_pres = [np.delete(x, empty, 1) for x in (grid_sal, grid_ptmp, grid_pres)]\n    grid_lat = np.delete(grid_lat, empty)\n    grid_long = np.delete(grid_long, empty)\n    grid_dates = np.delete(grid_dates, empty)\n"))
same('c21-depth-mask', (F, "                            too_deep = np.argwhere(pres > max_pres)\n                            pres = np.delete(pres, too_deep[:, 0])\n                            sal = np.delete(sal, too_deep[:, 0])\n                            ptmp = np.delete(ptmp, too_deep[:, 0])\n", "                            shallow = pres <= max_pres\n                            pres, sal, ptmp = pres[shallow], sal[shallow], ptmp[shallow]\n"))
same('c21-depth-bool', (F, "                            not_nan = np.argwhere(np.isnan(data['pres'][:, i]) == 0)\n\n                            # get the non-NaN values\n                            pres = data['pres'][not_nan, i]\n                            sal = data['sal'][not_nan, i]\n                            ptmp = data['ptmp'][not_nan, i]\n", "                            not_nan = ~np.isnan(data['pres'][:, i])\n                            pres = data['pres'][not_nan, i].reshape(-1, 1)\n                            sal = data['sal'][not_nan, i].reshape(-1, 1)\n                            ptmp = data['ptmp'][not_nan, i].reshape(-1, 1)\n"))

# -- C20
b20 = lambda name, *e: bug('C20', name, *e)
b20('nanvar', (S, "    return np.nanvar(sal)\n", "    return np.var(sal)\n"))
b20('nanmean', (S, "np.nanmean(np.square(sal_noise)) / 2", "np.mean(np.square(sal_noise)) / 2"))
b20('nanmin-theta', (N, "np.ceil(np.nanmin(ptmp) * 10) / 10", "np.ceil(ptmp.min() * 10) / 10"))
b20('nanmax-pres', (N, "        max_pres = np.nanmax(pres)\n", "        max_pres = np.amax(pres)\n"))
same('c20-percent', (N, "            percent_s_profs[j] = num_good[j] / np.nanmax(num_good)\n", "            percent_s_profs[j] = num_good[j] / np.max(num_good)\n"))
b20('level-min', (N, "        min_theta_index = np.argwhere(var_sal_tlevels == np.nanmin(var_sal_tlevels))[0, 0]\n", "        min_theta_index = np.argmin(var_sal_tlevels)\n"))
b20('lat-max', (C, "np.nanmin(lat) - 1, np.nanmax(lat) + 1, system_config)", "np.nanmin(lat) - 1, np.max(lat) + 1, system_config)"))
b20('region-depth', (F, "    max_pres = np.nanmax(pa_float_pres) + config", "    max_pres = max(pa_float_pres) + config"))
b20('anom-mean', (P, "            avg_sal_offset[i] = np.nanmean(sal_offset[:, i])\n", "            avg_sal_offset[i] = np.mean(sal_offset[:, i])\n"))
b20('anom-sum', (P, "            avg_sta_offset[i] = np.nanmean(sta_offset[:, i])\n", "            avg_sta_offset[i] = np.sum(sta_offset[:, i]) / sta_offset.shape[0]\n"))
b20('interp-argmin', (W, "        min_pres = np.nanargmin(np.abs(output_placeholder", "        min_pres = np.argmin(np.abs(output_placeholder"))
b20('plot-range', (P, "            if np.nanmax(ptmp[:, i]) > tlevels[j] > np.nanmin(ptmp[:, i]):\n", "            if ptmp[:, i].max() > tlevels[j] > np.nanmin(ptmp[:, i]):\n"))
b20('front-min', (F, "                np.min(float_pres[isok].T) < 300", "                np.min(float_pres.T) < 300"))
b20('theta-mean', (N, "            theta_levels[pres_i] = np.nanmean(interp_t[pres_i, good_interp_t])\n", "            theta_levels[pres_i] = np.mean(interp_t[pres_i, :])\n"))
same('c20-mean-good', (N, "            theta_levels[pres_i] = np.nanmean(interp_t[pres_i, good_interp_t])\n", "            theta_levels[pres_i] = np.mean(interp_t[pres_i, good_interp_t])\n"))
same('c20-var-valid', (S, "    return np.nanvar(sal)\n", "    valid = sal[~np.isnan(sal)]\n    return np.var(valid)\n"))
same('c20-sum-valid', (P, "            avg_sal_offset[i] = np.nanmean(sal_offset[:, i])\n", "            ok = ~np.isnan(sal_offset[:, i])\n            avg_sal_offset[i] = np.sum(sal_offset[ok, i]) / np.sum(ok) if ok.any() else np.nan\n"))
same('c20-front', (F, "                np.min(float_pres[isok].T) < 300 < np.max(float_pres[isok].T)):\n", "                np.nanmin(float_pres[isok]) < 300 < np.nanmax(float_pres[isok])):\n"))
same('c20-helper', (N, "    min_theta = np.ceil(np.nanmin(ptmp) * 10) / 10\n    max_theta = np.floor(np.nanmax(ptmp) * 10) / 10\n", "    min_theta, max_theta = _range(ptmp)\n"), (N, "def find_10thetas(", "def _range(values):\n    values = values[np.isfinite(values)]\n    return np.ceil(values.min() * 10) / 10, np.floor(values.max() * 10) / 10\n\n\ndef find_10thetas("))
same('c20-argwhere', (N, "        min_theta_index = np.argwhere(var_sal_tlevels == np.nanmin(var_sal_tlevels))[0, 0]\n", "        min_theta_index = np.nanargmin(var_sal_tlevels)\n"))
# ---- C24
bug('C24', 'seek-col-unit', (F, "360 * 12 * 2 + decoder[0] * 2)\n                for j in range(nlgl)", "360 * 12 * 2 + decoder[0])\n                for j in range(nlgl)"))
bug('C24', 'beg-end-swap', (F, "np.concatenate([topo_beg, topo_end], axis=1)", "np.concatenate([topo_end, topo_beg], axis=1)"))
bug('C24', 'no-flip', (F, "lts = np.flip(np.arange(blat, tlat + 1, 1) / 12, axis=0)", "lts = np.arange(blat, tlat + 1, 1) / 12"))
bug('C24', 'row-from-bottom', (F, "elev_file.seek((i + decoder[3]) * 360 * 12 * 2 + decoder[0] * 2)\n                for j in range(nlong)", "elev_file.seek((decoder[2] - i) * 360 * 12 * 2 + decoder[0] * 2)\n                for j in range(nlong)"))
bug('C24', 'edge-4320', (F, "        if decoder[1] > 4319:", "        if decoder[1] > 4320:"))
bug('C24', 'east-one-less', (F, "nlgr = int(round(decoder[1] - 4320)) + 1", "nlgr = int(round(decoder[1] - 4320))"))
bug('C24', 'wrap-only-west', (F, "        rlong = rlong + 360 * 12\n", "        rlong = rlong + (360 * 12 if rlong < 0 else 0)\n"))
bug('C24', 'le-zero', (F, "    if llong < 0:\n", "    if llong <= -360 * 6:\n"))
bug('C24', 'unsigned', (F, "topo_end[i, j] = struct.unpack('h', ", "topo_end[i, j] = struct.unpack('H', "))
bug('C24', 'seek-out-of-loop', (F, "            for i in range(nlat):\n                elev_file.seek((i + decoder[3]) * 360 * 12 * 2 + decoder[0] * 2)\n                for j in range(nlong)", "            elev_file.seek(decoder[3] * 360 * 12 * 2 + decoder[0] * 2)\n            for i in range(nlat):\n                for j in range(nlong)"))
bug('C24', 'longs-after-wrap', (F, "    # make the grid\n", "    lgs = np.arange(llong, rlong + 1, 1) / 12 + 1 / 12\n"))
bug('C24', 'row-round', (F, "    tlat = int(np.ceil(max_lat * 12))", "    tlat = int(np.ceil(max_lat * 12)) + 1"))
bug('C24', 'south-edge', (F, "-90 * 12 + 1)))", "-90 * 12)))"))
same('c24-block-read', (F, "                for j in range(nlong):\n                    topo[i, j] = struct.unpack('h', elev_file.read(2))[0]", "                topo[i, :] = np.frombuffer(elev_file.read(2 * nlong), dtype=np.int16)"))
same('c24-fromfile', (F, "                for j in range(nlong):\n                    topo[i, j] = struct.unpack('h', elev_file.read(2))[0]", "                topo[i, :] = np.fromfile(elev_file, dtype='<i2', count=nlong)"))
same('c24-helper', (F, "            for i in range(nlat):\n                elev_file.seek((i + decoder[3]) * 360 * 12 * 2)\n                for j in range(nlgr):\n                    topo_end[i, j] = struct.unpack('h', elev_file.read(2))[0]\n", "            _fill(elev_file, topo_end, decoder[3], 0)\n"), (F, "            for i in range(nlat):\n                elev_file.seek((i + decoder[3]) * 360 * 12 * 2 + decoder[0] * 2)\n                for j in range(nlgl):\n                    topo_beg[i, j] = struct.unpack('h', elev_file.read(2))[0]\n", "            _fill(elev_file, topo_beg, decoder[3], decoder[0])\n"), (F, "def get_topo_grid(", "def _fill(handle, values, first_row, first_column):\n    for row in range(values.shape[0]):\n        handle.seek(2 * ((row + first_row) * 4320 + first_column))\n        for col in range(values.shape[1]):\n            values[row, col] = struct.unpack('h', handle.read(2))[0]\n\n\ndef get_topo_grid("))
same('c24-one-array', (F, "            topo = np.concatenate([topo_beg, topo_end], axis=1)\n", "            topo = np.zeros((nlat, nlgl + nlgr))\n            topo[:, :nlgl] = topo_beg\n            topo[:, nlgl:] = topo_end\n"))
same('c24-names', (F, "    decoder = [llong, rlong, 90 * 12 - blat, 90 * 12 - tlat]\n", "    top, bottom = 1080 - tlat, 1080 - blat\n    decoder = (llong, rlong, bottom, top)\n"), (F, "        if decoder[1] > 4319:", "        if rlong >= 4320:"))
same('c24-slice-flip', (F, "np.flip(np.arange(blat, tlat + 1, 1) / 12, axis=0)", "(np.arange(blat, tlat + 1, 1) / 12)[::-1]"))
same('c24-down', (F, "np.flip(np.arange(blat, tlat + 1, 1) / 12, axis=0)", "np.arange(tlat, blat - 1, -1) / 12"))
same('c24-flat-loop', (F, "            for i in range(nlat):\n                elev_file.seek((i + decoder[3]) * 360 * 12 * 2 + decoder[0] * 2)\n                for j in range(nlgl):\n                    topo_beg[i, j] = struct.unpack('h', elev_file.read(2))[0]\n", "            for i in range(nlat):\n                for j in range(nlgl):\n                    elev_file.seek((i + decoder[3]) * 360 * 12 * 2 + (decoder[0] + j) * 2)\n                    topo_beg[i, j] = struct.unpack('h', elev_file.read(2))[0]\n"))
same('c24-list', (F, "            topo = np.zeros((nlat, nlong))\n", "            topo = []\n"), (F, "                for j in range(nlong):\n                    topo[i, j] = struct.unpack('h', elev_file.read(2))[0]", "                topo.append(struct.unpack(str(nlong) + 'h', elev_file.read(2 * nlong)))\n            topo = np.array(topo, dtype=float)"))
same('c24-mod', (F, "    if rlong > 360 * 12 - 1:\n        rlong = rlong - 360 * 12\n        llong = llong - 360 * 12\n\n    if llong < 0:\n        rlong = rlong + 360 * 12\n        llong = llong + 360 * 12\n", "    ncols = rlong - llong\n    llong = llong % (360 * 12)\n    rlong = llong + ncols\n"))
# ---- C23
bug('C23', 'wrap-30', (T, "np.argwhere(grid_long <= 40)", "np.argwhere(grid_long <= 30)"))
bug('C23', 'wrap-350', (T, "np.argwhere(grid_long >= 320)", "np.argwhere(grid_long >= 350)"))
bug('C23', 'neg-180', (T, "np.argwhere(grid_long < 0)", "np.argwhere(grid_long < -1)"))
bug('C23', 'top-before-neg', (T, "    neg_long = np.argwhere(grid_long < 0)\n    grid_long[neg_long] = grid_long[neg_long] + 360\n", "    top_first = np.argwhere(grid_long >= 320)\n    neg_long = np.argwhere(grid_long < 0)\n    grid_long[neg_long] = grid_long[neg_long] + 360\n"), (T, "    top_long = np.argwhere(grid_long >= 320)\n", "    top_long = top_first\n"))
bug('C23', 'float-not-shifted-map', (C, "                        float_data['float_long'] += 360\n", "                        float_long_0 = float_data['float_long'] + 360\n"))
bug('C23', 'float-cond-swap', (C, "if np.argwhere(best_hist_data['grid_long'] >= 360)", "if np.argwhere(grid_long >= 360)"))
bug('C23', 'float-range-10', (C, "if 0 <= float_data['float_long'] <= 20:", nth(0, "if 0 <= float_data['float_long'] <= 10:")))
bug('C23', 'float-strict-zero', (C, "if 0 <= float_data['float_long'] <= 20:", nth(1, "if 0 < float_data['float_long'] <= 20:")))
bug('C23', 'select-raw', (C, "grid_data['grid_z'], float_data['float_lat'], float_long_0,", "grid_data['grid_z'], float_data['float_lat'], float_data['float_long'],"))
bug('C23', 'tbase-no-shift', (C, "            if float_long_tbase > 180:\n                float_long_tbase -= 360\n", "            if float_long_tbase > 181:\n                float_long_tbase -= 360\n"))
bug('C23', 'tbase-query', (C, "-float_interp(float_long_tbase, float_data['float_lat'])", "-float_interp(float_data['float_long'], float_data['float_lat'])"))
bug('C23', 'tbase-hist-all', (H, "    g_180 = np.argwhere(grid_long_tbase > 180)\n\n    grid_long_tbase[g_180] -= 360\n", "    if np.any(grid_long_tbase > 180):\n        grid_long_tbase = grid_long_tbase - 360\n"))
bug('C23', 'hist-query-raw', (H, "np.vectorize(grid_interp)(grid_long_tbase,", "np.vectorize(grid_interp)(grid_data['grid_long'],"))
bug('C23', 'calib-all', (C, "        long_1[long_1 > 180] -= 360\n", "        if np.any(long_1 > 180):\n            long_1 -= 360\n"))
bug('C23', 'no-wrap-region', (F, "        grid_long = wrap_longitude(grid_long)\n\n        _sync", "        _sync"))
bug('C23', 'no-wrap-loc', (F, "    grid_long = wrap_longitude(grid_long)\n", nth(0, "    pass\n")))
bug('C23', 'boxes-west', (N, "    if ln_x[4] < 0:\n        ln_x[4] += 360\n", ""))
bug('C23', 'boxes-east', (N, "    if ln_x[3] >= 360:\n        ln_x[3] -= 360\n", "    if ln_x[3] > 380:\n        ln_x[3] -= 360\n"))
bug('C23', 'table-last', (N, "np.insert(la_lookup_no, 666, la_lookup_no[1])", "np.insert(la_lookup_no, 666, la_lookup_no[0])"))
bug('C23', 'axes', (C, "float_interp = interpolate.interp2d(float_x[0, :],\n                                                float_y[:, 0],", "float_interp = interpolate.interp2d(float_y[:, 0],\n                                                float_x[0, :],"))
same('c23-wrap-mod', (T, "    neg_long = np.argwhere(grid_long < 0)\n    grid_long[neg_long] = grid_long[neg_long] + 360\n", "    grid_long[grid_long < 0] += 360\n"))
same('c23-wrap-any', (T, "    top_long = np.argwhere(grid_long >= 320)\n    if top_long.__len__() != 0:\n        bottom_long = np.argwhere(grid_long <= 40)\n        grid_long[bottom_long] = 360 + grid_long[bottom_long]\n", "    if np.any(grid_long >= 320):\n        near_zero = grid_long <= 40\n        grid_long[near_zero] = grid_long[near_zero] + 360\n"))
same('c23-wrap-where', (T, "    top_long = np.argwhere(grid_long >= 320)\n    if top_long.__len__() != 0:\n        bottom_long = np.argwhere(grid_long <= 40)\n        grid_long[bottom_long] = 360 + grid_long[bottom_long]\n", "    if np.max(grid_long) >= 320:\n        grid_long = np.where(grid_long <= 40, grid_long + 360, grid_long)\n"))
same('c23-float-any', (C, "                if np.argwhere(grid_long >= 360).__len__() > 0:\n                    if 0 <= float_data['float_long'] <= 20:\n                        float_long_0 += 360\n", "                if np.any(grid_long >= 360) and 0 <= float_data['float_long'] <= 20:\n                    float_long_0 = float_data['float_long'] + 360\n"))
same('c23-float-helper', (C, "                if np.argwhere(best_hist_data['grid_long'] >= 360).__len__() > 0:\n                    if 0 <= float_data['float_long'] <= 20:\n                        float_data['float_long'] += 360\n", "                float_data['float_long'] = _follow(float_data['float_long'], best_hist_data['grid_long'])\n"), (C, "def update_salinity_mapping(", "def _follow(longitude, others):\n    if (others >= 360).any():\n        if 0 <= longitude <= 20:\n            return longitude + 360\n    return longitude\n\n\ndef update_salinity_mapping("))
same('c23-tbase', (H, "    g_180 = np.argwhere(grid_long_tbase > 180)\n\n    grid_long_tbase[g_180] -= 360\n", "    grid_long_tbase = np.where(grid_long_tbase > 180, grid_long_tbase - 360, grid_long_tbase)\n"))
same('c23-boxes-loop', (N, "    if ln_x[2] < 0:\n        ln_x[2] += 360\n\n    if ln_x[4] < 0:\n        ln_x[4] += 360\n\n    if ln_x[0] >= 360:\n        ln_x[0] -= 360\n\n    if ln_x[1] >= 360:\n        ln_x[1] -= 360\n\n    if ln_x[3] >= 360:\n        ln_x[3] -= 360\n", "    for k in range(5):\n        if ln_x[k] < 0:\n            ln_x[k] += 360\n        elif ln_x[k] >= 360:\n            ln_x[k] -= 360\n"))
same('c23-boxes-list', (N, "    ln_x = []\n    ln_y = []\n    ln_x.append(pn_float_long + .01)\n    ln_x.append(pn_float_long + 10.01)\n    ln_x.append(pn_float_long - 9.99)\n    ln_x.append(pn_float_long + 20.01)\n    ln_x.append(pn_float_long - 19.99)\n", "    ln_y = []\n    ln_x = [pn_float_long + step for step in (.01, 10.01, -9.99, 20.01, -19.99)]\n"))
same('c23-calib-where', (C, "        long_1 = copy.deepcopy(long)\n        long_1[long_1 > 180] -= 360\n", "        long_1 = np.where(long > 180, long - 360, long)\n"))
same('c23-boxes-index', (N, "        ln_x[2] += 360\n", "        ln_x[2] = ln_x[2] + 360\n"))
# ---- C25
LOOP = "    for i in range(0, cal_dates_string.__len__()):\n        try:\n"
bug('C25', 'skip-first', (T, "for i in range(0, cal_dates_string.__len__()):", "for i in range(1, cal_dates_string.__len__()):"))
bug('C25', 'day-slice', (T, "int(cal_dates_string[i][6:8])", "int(cal_dates_string[i][5:8])"))
bug('C25', 'minute-slice', (T, "int(cal_dates_string[i][10:12])", "int(cal_dates_string[i][12:14])"))
bug('C25', 'hour-long', (T, "__len__() > 9:", "__len__() > 10:"))
bug('C25', 'minute-long', (T, "__len__() > 11:", "__len__() > 12:"))
bug('C25', 'month-index', (T, "cal2dec(month - 1, day", "cal2dec(month, day"))
bug('C25', 'month-13', (T, "if 13 > month > 0 and", "if 14 > month > 0 and"))
bug('C25', 'month-0', (T, "if 13 > month > 0 and", "if 13 > month >= 0 and"))
bug('C25', 'day-0', (T, "32 > day > 0:", "32 > day >= 0:"))
bug('C25', 'day-32', (T, "32 > day > 0:", "33 > day > 0:"))
bug('C25', 'minute-unit', (T, "pa_minute / 60 / 24", "pa_minute / 60"))
bug('C25', 'leap', (T, "np.cumsum([0, 31, 28,", "np.cumsum([0, 31, 29,"))
bug('C25', 'stale-hour', (T, "            hour = 0\n            minute = 0\n", ""), (T, LOOP, "    hour = 0\n    minute = 0\n" + LOOP))
bug('C25', 'uncaught', (T, "        except ValueError:\n            print(\"Date", "        except TypeError:\n            print(\"Date"))
bug('C25', 'index-error', (T, "    except IndexError:\n        raise ValueError('Month", "    except IndexError:\n        raise IndexError('Month"), (T, "if 13 > month > 0 and 32", "if month > 0 and 32"))
bug('C25', 'nan-bad', (T, "cal_dates.__len__(), 0, dtype=float)", "cal_dates.__len__(), np.nan, dtype=float)"))
bug('C25', 'stop-first', (T, "            print(\"Date is incorrect length or format\")", "            print(\"Date is incorrect length or format\")\n            break"))
bug('C25', '366', (T, "(cal2dec(month - 1, day, hour, minute) / 365)", "(cal2dec(month - 1, day, hour, minute) / 366)"))
bug('C25', 'first-text', (T, "year = int(cal_dates_string[i][0:4])", "year = int(cal_dates_string[0][0:4])"))
bug('C25', 'not-converted', (F, "        grid_dates = change_dates(grid_dates)\n", "        grid_dates = grid_dates * 1.0\n"))
bug('C25', 'not-converted-loc', (F, nth(0, "    grid_dates = np.asarray(grid_dates, dtype=float)\n") and "    grid_dates = change_dates(grid_dates)\n\n", "    grid_dates = np.array(grid_dates)\n\n"))
bug('C25', 'short-out', (T, LOOP, "    for i in range(0, cal_dates_string.__len__()):\n        if len(cal_dates_string[i]) < 14:\n            continue\n        try:\n"))
same('c25-nested', (T, "            if 13 > month > 0 and 32 > day > 0:\n                day = year + (cal2dec(month - 1, day, hour, minute) / 365)\n                dec_dates[i] = day\n", "            if 1 <= month <= 12:\n                if day >= 1 and not day > 31:\n                    dec_dates[i] = year + cal2dec(month - 1, day, hour, minute) / 365\n"))
same('c25-continue', (T, "            if 13 > month > 0 and 32 > day > 0:\n                day = year + (cal2dec(month - 1, day, hour, minute) / 365)\n                dec_dates[i] = day\n", "            if month < 1 or month > 12 or day < 1 or day > 31:\n                continue\n            fraction = cal2dec(month - 1, day, hour, minute)\n            dec_dates[i] = year + fraction / 365\n"))
same('c25-text', (T, LOOP, "    for i, text in enumerate(cal_dates_string):\n        try:\n"), (T, "cal_dates_string[i]", "text"))
same('c25-except', (T, "        except ValueError:\n            print(\"Date", "        except (ValueError, IndexError):\n            print(\"Date"))
same('c25-helper', (T, "            year = int(cal_dates_string[i][0:4])\n            month = int(cal_dates_string[i][4:6])\n            day = int(cal_dates_string[i][6:8])\n", "            year, month, day = _ymd(cal_dates_string[i])\n"), (T, "def change_dates(", "def _ymd(text):\n    return int(text[:4]), int(text[4:6]), int(text[6:8])\n\n\ndef change_dates("))
same('c25-zeros', (T, "np.full(cal_dates.__len__(), 0, dtype=float)", "np.zeros(len(cal_dates))"))
same('c25-strings', (T, "list(map(str, cal_dates))", "[str(d) for d in cal_dates]"))
same('c25-cond', (T, "            if cal_dates_string[i].__len__() > 9:\n                hour = int(cal_dates_string[i][8:10])\n", "            hour = int(cal_dates_string[i][8:10]) if len(cal_dates_string[i]) >= 10 else 0\n"))
same('c25-table', (T, "np.cumsum([0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])", "[0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]"))
same('c25-fetch', (F, "        grid_dates = change_dates(grid_dates)\n", "        decimal_dates = change_dates(grid_dates)\n        grid_dates = decimal_dates\n"))
same('c25-minutes', (T, "pa_hour / 24 + pa_minute / 60 / 24", "(pa_hour + pa_minute / 60) / 24"))
# ---- C26
bug('C26', 'strict', (W, "values[1:, :] * values[:-1, :] <= 0.0", "values[1:, :] * values[:-1, :] < 0.0"))
bug('C26', 'const-theta', (W, " & (reference_values_diff != 0.0)", ""))
bug('C26', 'weight-after', (W, "value_before = reference_values[:-1][sign_changes]", "value_before = reference_values[1:][sign_changes]"))
bug('C26', 'value-after', (W, "return reference[:-1][sign_changes] + interp", "return reference[1:][sign_changes] + interp"))
bug('C26', 'sal-own-nearest', (W, "        # select the values of sal matching", "        min_pres = np.nanargmin(np.abs(output_placeholder[:, stations_with_possible_interp] - float_sal[index]), axis=0)\n        # select the values of sal matching"))
bug('C26', 'no-abs', (W, "np.nanargmin(np.abs(output_placeholder[:, stations_with_possible_interp] - float_pres[index]), axis=0)", "np.nanargmin(output_placeholder[:, stations_with_possible_interp] - float_pres[index], axis=0)"))
bug('C26', 'theta-distance', (W, "stations_with_possible_interp] - float_pres[index]), axis=0)", "stations_with_possible_interp] - float_theta[index]), axis=0)"))
bug('C26', 'not-cleared', (W, "        # clear any values which have been written to the placeholder\n        output_placeholder[sign_changes] = np.nan\n\n    return", "    return"))
bug('C26', 'mask-sal', (W, "    return good_sal & good_theta & good_pres", "    return good_theta & good_pres"))
bug('C26', 'pack-in-place', (W, "    grid_theta = np.full_like(grid_theta_in, np.nan)\n", "    grid_theta = grid_theta_in\n"))
bug('C26', 'pack-zero', (W, "    grid_theta = np.full_like(grid_theta_in, np.nan)\n", "    grid_theta = np.zeros_like(grid_theta_in)\n"))
bug('C26', 'pack-own-mask', (W, "grid_sal_in[:, station_id][grid_good_data[:, station_id]]", "grid_sal_in[:, station_id][np.isfinite(grid_sal_in[:, station_id])][:good_values]"))
bug('C26', 'first-mask', (W, "grid_pres_in[:, station_id][grid_good_data[:, station_id]]", "grid_pres_in[:, station_id][grid_good_data[:, 0]]"))
bug('C26', 'max-level-short', (W, "grid_pres = grid_pres[:max_level, :]", "grid_pres = grid_pres[:max_level - 1, :]"))
bug('C26', 'max-level-2', (W, "    if max_level > 0:", "    if max_level > 2:"))
bug('C26', 'few-stations', (W, "        if stations_with_possible_interp.size == 0:", "        if stations_with_possible_interp.size < 2:"))
bug('C26', 'zero-default', (W, "interp_sal_final = np.full((float_len, grid_stations), np.nan, dtype=np.float64)", "interp_sal_final = np.zeros((float_len, grid_stations))"))
bug('C26', 'single-cast', (W, "    if not grid_sal.shape == grid_theta.shape == grid_pres.shape:", "    if grid_stations < 2 or not grid_sal.shape == grid_theta.shape == grid_pres.shape:"))
bug('C26', 'crash-empty', (W, "\n        if stations_with_possible_interp.size == 0:\n            continue\n", ""))
bug('C26', 'no-pres-check', (W, "np.nonzero(_get_finite_element_mask(float_sal, float_theta, float_pres))[0]", "np.nonzero(_get_finite_element_mask(float_sal, float_theta, float_theta))[0]"))
bug('C26', 'stations-last', (W, "for station_id in range(grid_stations):", "for station_id in range(grid_stations - 1):"))
bug('C26', 'diff-axis', (W, "grid_pres_diff = np.diff(grid_pres, axis=0)", "grid_pres_diff = np.diff(grid_sal, axis=0)"))
bug('C26', 'argmin', (W, "np.nanargmin(", "np.argmin("))
same('c26-no-placeholder', (W, "        output_placeholder[sign_changes] = interpolate_values(interp_factor, sign_changes, grid_pres, grid_pres_diff)\n", "        pres_here = np.full_like(grid_theta_diff, np.nan, dtype=float)\n        pres_here[sign_changes] = interpolate_values(interp_factor, sign_changes, grid_pres, grid_pres_diff)\n"), (W, "np.nanargmin(np.abs(output_placeholder[", "np.nanargmin(np.abs(pres_here["), (W, "= output_placeholder[min_pres, stations_with_possible_interp]\n\n        # clear any", nth(0, "= pres_here[min_pres, stations_with_possible_interp]\n\n        # clear any")))
same('c26-clear-all', (W, "        output_placeholder[sign_changes] = np.nan\n", "        output_placeholder[:] = np.nan\n"))
same('c26-weights-diff', (W, "interpolation_factors = (value - value_before) / reference_values_diff[sign_changes]", "value_after = reference_values[1:][sign_changes]\n    interpolation_factors = (value_before - value) / (value_before - value_after)"))
same('c26-two-weights', (W, "    return reference[:-1][sign_changes] + interpolation_weights * reference_diff[sign_changes]", "    return (1 - interpolation_weights) * reference[:-1][sign_changes] + interpolation_weights * reference[1:][sign_changes]"))
same('c26-signs', (W, "    return values[1:, :] * values[:-1, :] <= 0.0", "    after, before = values[1:], values[:-1]\n    return ((after <= 0) & (before >= 0)) | ((after >= 0) & (before <= 0))"))
same('c26-np-sign', (W, "    return values[1:, :] * values[:-1, :] <= 0.0", "    signs = np.sign(values)\n    return signs[1:] * signs[:-1] <= 0"))
same('c26-isnan', (W, "    good_sal = np.isfinite(sal)\n    good_theta = np.isfinite(theta)\n    good_pres = np.isfinite(pres)\n\n    # create an array where True indicates that sal/theta/pres are all finite\n    return good_sal & good_theta & good_pres", "    return np.isfinite(sal) & np.isfinite(pres) & np.isfinite(theta)"))
same('c26-pick', (W, "        min_pres = np.nanargmin(np.abs(output_placeholder[:, stations_with_possible_interp] - float_pres[index]), axis=0)\n", "        distance = np.abs(float_pres[index] - output_placeholder[:, stations_with_possible_interp])\n        min_pres = np.nanargmin(distance, axis=0)\n"))
same('c26-pack-loop', (W, "        good_values = column_counts[station_id]\n        grid_sal[:good_values, station_id] = grid_sal_in[:, station_id][grid_good_data[:, station_id]]\n", "        good = grid_good_data[:, station_id]\n        good_values = np.count_nonzero(good)\n        grid_sal[:good_values, station_id] = grid_sal_in[good, station_id]\n"))
same('c26-return-early', (W, "    if max_level > 0:\n        grid_sal = grid_sal[:max_level, :]\n        grid_theta = grid_theta[:max_level, :]\n        grid_pres = grid_pres[:max_level, :]\n    else:\n        print(\"No good climatological data has been found for this profile\")\n        return None\n\n    return grid_sal, grid_theta, grid_pres\n", "    if max_level == 0:\n        print(\"No good climatological data has been found for this profile\")\n        return None\n\n    return grid_sal[:max_level], grid_theta[:max_level], grid_pres[:max_level]\n"))
same('c26-if-instead', (W, "        if stations_with_possible_interp.size == 0:\n            continue\n", "        if not len(stations_with_possible_interp) > 0:\n            continue\n"))
same('c26-not-cleared-between', (W, "        # clear any values which have been written to the placeholder\n        output_placeholder[sign_changes] = np.nan\n\n        # interp", "        # interp"))
bug('C26', 'blank-input', (W, "    # get the shape of the data inputs (float and climatology)\n", "    float_theta[float_theta > 40] = np.nan\n"))
bug('C26', 'blank-input-view', (W, "    grid_sal = np.full_like(grid_sal_in, np.nan)\n", "    grid_pres_view = grid_pres_in[:]\n    grid_pres_view[~np.isfinite(grid_sal_in)] = np.nan\n    grid_sal = np.full_like(grid_sal_in, np.nan)\n"))
# ---- C27
bug('C27', 'cast-limit-4', (F, "                    if t300 > 5:\n                        grid_crit", "                    if t300 > 4:\n                        grid_crit"))
bug('C27', 'cast-sign', (F, "                        grid_crit_saf[i] = -1", "                        grid_crit_saf[i] = 1"))
bug('C27', 'float-limit', (F, "                elif t300 < 3:\n                    crit", "                elif t300 < 4:\n                    crit"))
bug('C27', 'at-200', (F, "t300 = np.interp(300, grid_pres[isok, i]", "t300 = np.interp(200, grid_pres[isok, i]"))
bug('C27', 'potential', (F, "grid_pres[isok, i], grid_tmp[isok, i], left", "grid_pres[isok, i], grid_ptmp[isok, i], left"))
bug('C27', 'other-cast', (F, "np.interp(300, grid_pres[isok, i], grid_tmp[isok, i]", "np.interp(300, grid_pres[isok, i], grid_tmp[isok, i - 1]"))
bug('C27', 'lat-north', (F, "    if float_lat < -30:", "    if abs(float_lat) > 30:"))
bug('C27', 'lat-20', (F, "    if float_lat < -30:", "    if float_lat < -28:"))
bug('C27', 'opposite', (F, "np.argwhere(grid_crit_saf == crit_saf)", "np.argwhere(grid_crit_saf != crit_saf)"))
bug('C27', 'keep-undecided', (F, "np.argwhere(grid_crit_saf == crit_saf)", "np.argwhere(grid_crit_saf * crit_saf >= 0)"))
bug('C27', 'dates-not-cut', (F, "best_hist_dates = grid_dates[is_select]", "best_hist_dates = grid_dates"))
bug('C27', 'lat-is-long', (F, "best_hist_lat = grid_lat[is_select]", "best_hist_lat = grid_long[is_select]"))
bug('C27', 'row-of-row', (F, "is_select = is_select[:, 1]", "is_select = is_select[:, 0]"))
bug('C27', 'levels-cut', (F, "best_hist_pres = grid_pres[:, is_select]", "best_hist_pres = grid_pres[is_select]"))
bug('C27', 'skip-first', (F, "            for i in range(grid_long.__len__()):\n                isok = np.intersect1d", "            for i in range(1, grid_long.__len__()):\n                isok = np.intersect1d"))
bug('C27', 'always', (C, "if map_use_saf == 1:", "if map_use_saf >= 0:"))
bug('C27', 'five', (C, "if len(best_hist_data_2['grid_sal'][0]) > 5:", "if len(best_hist_data_2['grid_sal'][0]) > 0:"))
bug('C27', 'levels-counted', (C, "if len(best_hist_data_2['grid_sal'][0]) > 5:", "if len(best_hist_data_2['grid_sal']) > 5:"))
bug('C27', 'full-counted', (C, "if len(best_hist_data_2['grid_sal'][0]) > 5:", "if len(best_hist_data['grid_sal'][0]) > 5:"))
bug('C27', 'no-merge', (C, "                        best_hist_data.update(best_hist_data_2)", "                        best_hist_data['grid_sal'] = best_hist_data_2['grid_sal']"))
bug('C27', 'envelope-std', (F, "(s_mean_n + s_std_n)", "(s_mean_n + s_std_s)"))
bug('C27', 'envelope-one', (F, "(sal_int[isok2] > northinf_int[isok2]) & (sal_int", "(sal_int[isok2] < northinf_int[isok2]) & (sal_int"))
bug('C27', 'envelope-swap', (F, "                    elif is_south:\n                        crit_saf = -1\n", "                    elif is_south:\n                        crit_saf = 1\n"))
bug('C27', 'envelope-any', (F, "if pt_north.__len__() == isok2.__len__():", "if pt_north.__len__() > 0:"))
bug('C27', 'envelope-both', (F, "                    if is_south & is_north:\n                        crit_saf = 0\n\n                    elif is_south:", "                    if is_south:"))
bug('C27', 'depth-check', (F, "np.min(grid_pres[isok, i]) < 300 < np.max(grid_pres[isok, i])", "np.min(grid_pres[isok, i]) < 300"))
bug('C27', 'no-default', (F, "        else:\n            crit_saf = 0\n\n        # Historical", "        else:\n            crit_saf = 1\n\n        # Historical"))
same('c27-helper', (F, "                    if t300 > 5:\n                        grid_crit_saf[i] = 1\n                    elif t300 < 3:\n                        grid_crit_saf[i] = -1\n                    else:\n                        grid_crit_saf[i] = 0\n", "                    grid_crit_saf[i] = _side(t300)\n"), (F, "                if t300 > 5:\n                    crit_saf = 1\n                elif t300 < 3:\n                    crit_saf = -1\n                else:\n                    crit_saf = 0\n", "                crit_saf = _side(t300)\n"), (F, "def frontal_constraint_saf(", "def _side(temperature):\n    if temperature < 3:\n        return -1\n    return 1 if temperature > 5 else 0\n\n\ndef frontal_constraint_saf("))
same('c27-early', (F, "    # unpack grid\n    grid_sal =", "    if not float_data['float_lat'] < -30:\n        return {k: grid_data[k] for k in ('grid_sal', 'grid_ptmp', 'grid_pres', 'grid_lat', 'grid_long', 'grid_dates', 'grid_z')}\n    # unpack grid\n    grid_sal ="))
same('c27-nonzero', (F, "        grid_crit_saf = np.array([grid_crit_saf])\n        crit_saf = np.array([crit_saf])\n        is_select = np.argwhere(grid_crit_saf == crit_saf)\n        is_select = is_select[:, 1]\n", "        is_select = np.nonzero(np.array(grid_crit_saf) == crit_saf)[0]\n"))
same('c27-mask', (F, "        grid_crit_saf = np.array([grid_crit_saf])\n        crit_saf = np.array([crit_saf])\n        is_select = np.argwhere(grid_crit_saf == crit_saf)\n        is_select = is_select[:, 1]\n", "        is_select = np.array(grid_crit_saf) == crit_saf\n"))
same('c27-zeros', (F, "grid_crit_saf = [0] * grid_long.__len__()", "grid_crit_saf = np.zeros(len(grid_long))"), (F, "np.array([grid_crit_saf])\n", "grid_crit_saf[np.newaxis, :]\n"))
same('c27-envelope', (F, "                    if is_south & is_north:\n                        crit_saf = 0\n\n                    elif is_south:\n                        crit_saf = -1\n\n                    elif is_north:\n                        crit_saf = 1\n                    else:\n                        crit_saf = 0\n", "                    crit_saf = is_north - is_south\n"))
same('c27-use-shape', (C, "if len(best_hist_data_2['grid_sal'][0]) > 5:", "if best_hist_data_2['grid_sal'].shape[1] >= 6:"))
same('c27-use-lat', (C, "if len(best_hist_data_2['grid_sal'][0]) > 5:", "if len(best_hist_data_2['grid_lat']) > 5:"))
same('c27-use-and', (C, "                    if len(best_hist_data_2['grid_sal'][0]) > 5:\n                        best_hist_data.update(best_hist_data_2)\n", "                    remaining = len(best_hist_data_2['grid_sal'][0])\n                    best_hist_data = best_hist_data_2 if remaining > 5 else best_hist_data\n"))
same('c27-invert', (F, "        if crit_saf != 0:\n            for i in", "        if crit_saf == 1 or crit_saf == -1:\n            for i in"))

# ---- C09
INS = "        data['la_profile_no'] = np.insert(data['la_profile_no'], profile_index, profile_no[missing_profile])\n"
APP = "        data['scale_phi_large'] = np.append(data['scale_phi_large'], np.nan)\n"
MIS = """    for i in range(0, profile_no.__len__()):
        profiles = np.argwhere(data['la_profile_no'] == profile_no[i])
        if profiles.size == 0:
            missing_profile_index.append(i)
"""
SRT = """        for key, value in data.items():
            if value.size > 1:
                if len(value.shape) > 1:
                    data[key] = value[:, index]
                else:
                    data[key] = value[index]
"""
EXTP = """            float_mapped_data["la_ptmp"] = np.insert(float_mapped_data["la_ptmp"],
                                                     float_mapped_data["la_ptmp"].shape[0],
                                                     np.ones((new_depth - max_depth, how_many_cols)) * np.nan,
                                                     axis=0)
"""
HSN = """        data['la_noise_sal'] = np.hstack((data['la_noise_sal'],
                                          np.nan * np.ones((data['la_noise_sal'].shape[0], 1))))
"""
bug('C09', 'insert0', (C, INS, INS.replace('profile_index, ', '0, ')))
bug('C09', 'insert-missing', (C, INS, INS.replace("profile_index, profile_no", "missing_profile, profile_no")))
bug('C09', 'insert-i', (C, INS, INS.replace("profile_index, profile_no", "i, profile_no")))
bug('C09', 'number-i', (C, INS, INS.replace("[missing_profile]", "[i]")))
bug('C09', 'noappend', (C, APP, ""))
bug('C09', 'append2', (C, APP, APP + APP))
bug('C09', 'append-late', (C, APP, ""), (C, "        if not np.isnan(float_data['float_long']) and", "        if not np.isnan(float_data['float_lat']):\n    " + APP + "        if not np.isnan(float_data['float_long']) and"))
bug('C09', 'append-other', (C, APP, APP.replace("np.append(data['scale_phi_large']", "np.append(data['scale_phi_small']")))
bug('C09', 'store-i', (C, "data['use_pv'][profile_index]", "data['use_pv'][i]"))
bug('C09', 'store-missing', (C, "data['la_ptmp'][n_level, profile_index]", "data['la_ptmp'][n_level, missing_profile]"))
bug('C09', 'store-all', (C, "data['p_delta'][profile_index]", "data['p_delta'][:]"))
bug('C09', 'store-prev', (C, "data['p_delta'][profile_index]", "data['p_delta'][profile_index - 1]"))
bug('C09', 'index-in-if', (C, "        print(\"time elapsed: \", round(time.time() - start_time, 2), \" seconds\")\n        profile_index += 1", "        print(\"time elapsed: \", round(time.time() - start_time, 2), \" seconds\")\n        if not np.isnan(float_data['float_long']):\n            profile_index += 1"))
bug('C09', 'nocol', (H, HSN, ""))
bug('C09', 'col-cond', (H, "if profile_index < data['la_ptmp'].shape[1]", "if profile_index <= data['la_ptmp'].shape[1] - 1 + (data['la_ptmp'].shape[1] > 0)"))
bug('C09', 'col-first', (H, HSN, "        data['la_noise_sal'] = np.hstack((np.nan * np.ones((data['la_noise_sal'].shape[0], 1)), data['la_noise_sal']))\n"))
bug('C09', 'col-2', (H, HSN, HSN.replace(", 1))))", ", 2))))")))
bug('C09', 'lt-eq', (H, "if profile_index < data['la_ptmp'].shape[1]", "if profile_index <= data['la_ptmp'].shape[1]"))
bug('C09', 'seen-index', (C, MIS, MIS.replace("== profile_no[i]", "== i")))
bug('C09', 'seen-last', (C, MIS, MIS.replace("data['la_profile_no'] ==", "data['la_profile_no'][:-1] ==")))
bug('C09', 'seen-inv', (C, MIS, MIS.replace("size == 0", "size != 0")))
bug('C09', 'seen-gt', (C, MIS, MIS.replace("profiles.size == 0", "profiles.size <= 1")))
bug('C09', 'seen-from1', (C, MIS, MIS.replace("range(0, ", "range(1, ")))
bug('C09', 'rounds-from1', (C, "for i in range(0, missing_profile_index.__len__())", "for i in range(1, missing_profile_index.__len__())"))
bug('C09', 'data-i', (C, "get_float_data(float_source_data, missing_profile)", "get_float_data(float_source_data, i)"))
bug('C09', 'lat-first', (H, "source_data['LAT'][0, missing_profile]", "source_data['LAT'][0, 0]"))
bug('C09', 'sort-gt2', (H, SRT, SRT.replace("value.size > 1", "value.size > 2")))
bug('C09', 'sort-rows', (H, SRT, SRT.replace("value[:, index]", "value[index, :]")))
bug('C09', 'sort-1d-no', (H, SRT, SRT.replace("                else:\n                    data[key] = value[index]\n", "")))
bug('C09', 'sort-twice', (C, "    data = sort_numpy_array(data, sorted_profile_index)\n", "    data = sort_numpy_array(data, sorted_profile_index)\n    data = sort_numpy_array(data, sorted_profile_index)\n"))
bug('C09', 'sort-keys', (C, "    data = sort_numpy_array(data, sorted_profile_index)\n", "    data = sort_numpy_array(data, sorted_profile_index, ['la_ptmp', 'la_mapped_sal', 'la_map_sal_errors', 'la_noise_sal', 'la_signal_sal'])\n    data['la_profile_no'] = data['la_profile_no'][sorted_profile_index]\n"))
bug('C09', 'sort-by-source', (C, "sorted_profile_index = data['la_profile_no'].argsort()", "sorted_profile_index = profile_no.argsort()"))
bug('C09', 'sort-values', (C, "    data = sort_numpy_array(data, sorted_profile_index)\n", "    data = sort_numpy_array(data, sorted_profile_index)\n    data['la_profile_no'] = np.sort(data['la_profile_no'])\n    data['use_pv'] = np.sort(data['use_pv'])\n"))
bug('C09', 'sort-desc', (C, "sorted_profile_index = data['la_profile_no'].argsort()", "sorted_profile_index = data['la_profile_no'].argsort()[::-1]"))
bug('C09', 'sort-early', (C, "    sorted_profile_index = data['la_profile_no'].argsort()\n", "    data['la_profile_no'] = np.sort(data['la_profile_no'])\n    sorted_profile_index = data['la_profile_no'].argsort()\n"))
bug('C09', 'noext', (H, EXTP, ""))
bug('C09', 'ext-top', (H, EXTP, EXTP.replace("float_mapped_data[\"la_ptmp\"].shape[0],\n", "0,\n")))
bug('C09', 'ext-zero', (H, EXTP, EXTP.replace(" * np.nan", "")))
bug('C09', 'ext-other', (H, EXTP, EXTP.replace('np.insert(float_mapped_data["la_ptmp"]', 'np.insert(float_mapped_data["la_mapped_sal"]')))
bug('C09', 'ext-count', (H, "if new_depth > max_depth != 0:", "if new_depth > max_depth + 1 != 0:"))
bug('C09', 'ext-when', (H, "if new_depth > max_depth != 0:", "if max_depth > new_depth != 0:"))
bug('C09', 'load-other', (H, "float_mapped_data[\"scale_lat_small\"] = float_mapped_data['scale_lat_small'].flatten()", "float_mapped_data[\"scale_lat_small\"] = float_mapped_data['scale_lat_large'].flatten()"))
bug('C09', 'load-numbers', (H, "        float_mapped_data[\"la_profile_no\"] = float_mapped_data['la_profile_no'].flatten()\n", ""))
bug('C09', 'index-rows', (H, 'float_mapped_data["profile_index"] = float_mapped_data["la_mapped_sal"].shape[1]', 'float_mapped_data["profile_index"] = float_mapped_data["la_mapped_sal"].shape[0]'))
bug('C09', 'first-cols', (H, 'float_mapped_data["la_ptmp"] = np.empty((float_level_count, 0))', 'float_mapped_data["la_ptmp"] = np.empty((float_level_count, 1))'))
bug('C09', 'first-index', (H, 'float_mapped_data["profile_index"] = 0', 'float_mapped_data["profile_index"] = 1'))
bug('C09', 'saf-fresh', (H, 'if not "use_saf" in float_mapped_data:', 'if "use_saf" in float_mapped_data:'))
bug('C09', 'saved-swap', (C, "    data['la_mapsalerrors'] = data.pop('la_map_sal_errors')\n", "    data['la_mapsalerrors'] = data.pop('la_map_sal_errors')\n    data['la_signal_sal'] = data['la_noise_sal']\n"))
same('c09-fused', (C, INS, INS.replace("profile_index, profile_no", "len(data['la_profile_no']), profile_no")))
same('c09-append-no', (C, INS, "        data['la_profile_no'] = np.append(data['la_profile_no'], profile_no[missing_profile])\n"))
same('c09-loop', (C, "        data['p_delta'] = np.append(data['p_delta'], np.nan)\n        data['p_exclude'] = np.append(data['p_exclude'], np.nan)\n", "        for name in ('p_delta', 'p_exclude'):\n            data[name] = np.append(data[name], np.nan)\n"))
same('c09-in', (C, MIS, "    for i in range(len(profile_no)):\n        if profile_no[i] not in data['la_profile_no']:\n            missing_profile_index.append(i)\n"))
same('c09-comp', (C, MIS, "    missing_profile_index = [i for i, no in enumerate(profile_no) if not np.any(data['la_profile_no'] == no)]\n"))
same('c09-isin', (C, MIS, "    missing_profile_index = np.flatnonzero(~np.isin(profile_no, data['la_profile_no']))\n"))
same('c09-direct', (C, "    for i in range(0, missing_profile_index.__len__()):\n", "    for i, missing_profile in enumerate(missing_profile_index):\n"), (C, "        missing_profile = missing_profile_index[i]\n", ""))
same('c09-skip', (C, MIS, ""), (C, "    for i in range(0, missing_profile_index.__len__()):\n", "    for i in range(len(profile_no)):\n        if np.any(data['la_profile_no'] == profile_no[i]):\n            continue\n"), (C, "        missing_profile = missing_profile_index[i]\n", "        missing_profile = i\n"))
same('c09-start', (C, "        print(\"time elapsed: \", round(time.time() - start_time, 2), \" seconds\")\n        profile_index += 1", "        print(\"time elapsed: \", round(time.time() - start_time, 2), \" seconds\")"), (C, "        missing_profile = missing_profile_index[i]\n", "        missing_profile = missing_profile_index[i]\n        profile_index = data['profile_index'] + i\n"))
same('c09-cols', (H, HSN, "        rows = data['la_noise_sal'].shape[0]\n        data['la_noise_sal'] = np.concatenate((data['la_noise_sal'], np.full((rows, 1), np.nan)), axis=1)\n"))
same('c09-helper', (H, "def process_profiles_la_variables(", "def _add_column(matrix):\n    return np.hstack((matrix, np.nan * np.ones((matrix.shape[0], 1))))\n\n\ndef process_profiles_la_variables("), (H, HSN, "        data['la_noise_sal'] = _add_column(data['la_noise_sal'])\n"))
same('c09-sort', (H, SRT, "        for key in data:\n            value = data[key]\n            if value.size <= 1:\n                continue\n            data[key] = np.take(value, index, axis=value.ndim - 1)\n"))
same('c09-sort2', (H, SRT, "        for key, value in data.items():\n            if value.ndim > 1:\n                data[key] = value[:, index] if value.size > 1 else value\n            elif value.size > 1:\n                data[key] = value[index]\n"))
same('c09-argsort', (C, "sorted_profile_index = data['la_profile_no'].argsort()", "sorted_profile_index = np.argsort(data['la_profile_no'], kind='stable')"))
same('c09-ext', (H, EXTP, "            filler = np.full((new_depth - max_depth, how_many_cols), np.nan)\n            float_mapped_data[\"la_ptmp\"] = np.vstack((float_mapped_data[\"la_ptmp\"], filler))\n"))
same('c09-extloop', (H, EXTP, "            for name in ('la_ptmp',):\n                float_mapped_data[name] = np.concatenate((float_mapped_data[name], np.nan * np.ones((new_depth - max_depth, how_many_cols))), axis=0)\n"))
same('c09-ext-cond', (H, "if new_depth > max_depth != 0:", "if max_depth > 0 and new_depth - max_depth > 0:"))
same('c09-ravel', (H, "float_mapped_data['la_profile_no'].flatten()", "float_mapped_data['la_profile_no'].reshape(-1)"))
same('c09-flatloop', (H, """        float_mapped_data["p_delta"] = float_mapped_data['p_delta'].flatten()
        float_mapped_data["p_exclude"] = float_mapped_data['p_exclude'].flatten()
""", """        for name in ["p_delta", "p_exclude"]:
            float_mapped_data[name] = float_mapped_data[name].ravel()
"""))
same('c09-empty', (H, 'float_mapped_data["la_ptmp"] = np.empty((float_level_count, 0))', 'float_mapped_data["la_ptmp"] = np.zeros((float_level_count, 0))'))
same('c09-minus1', (C, "data['use_pv'][profile_index]", "data['use_pv'][-1]"))

# ---- C05
bug('C05', 'units-ellipse-scale', (N, "ellipse_size_long * 3) ** 2", "ellipse_size_lat * 3) ** 2"), (N, "(ellipse_size_lat * 3) ** 2 + \\\n                        total", "(ellipse_size_long * 3) ** 2 + \\\n                        total"))
bug('C05', 'units-besthist-args', (C, "grid_data['grid_z'], float_data['float_lat'], float_long_0,", "grid_data['grid_z'], float_long_0, float_data['float_lat'],"))
bug('C05', 'units-besthist-scales', (C, "lat_large, lat_small, long_large, long_small,\n                                      phi", "long_large, long_small, lat_large, lat_small,\n                                      phi"))
bug('C05', 'units-mapgrid-scales', (C, "float_data_array, hist_data_array, long_large, lat_large,", "float_data_array, hist_data_array, lat_large, long_large,"))
bug('C05', 'units-mapgrid-age', (C, "                                                             map_age_small,\n                                                             sal_signal_residual, noise_sal,\n                                                             phi_small,", "                                                             phi_small,\n                                                             sal_signal_residual, noise_sal,\n                                                             map_age_small,"))
bug('C05', 'units-stack-swap', (C, "np.column_stack((hist_data['hist_lat'], hist_data['hist_long'],", "np.column_stack((hist_data['hist_long'], hist_data['hist_lat'],"))
bug('C05', 'units-floatarray-swap', (C, "float_data['float_date'], float_data['float_z']]", "float_data['float_z'], float_data['float_date']]"))
bug('C05', 'units-corr-age', (T, "((dates_1 - dates_2) ** 2 / (ellipse_age ** 2))", "((dates_1 - dates_2) ** 2 / (ellipse_latitude ** 2))"))
bug('C05', 'units-corr-nosquare', (T, "(longitude_1 - longitude_2) ** 2 / (ellipse_longitude ** 2)", "(longitude_1 - longitude_2) ** 2 / ellipse_longitude"))
bug('C05', 'units-degrees', (T, "math.sin(lat_radians)", "math.sin(lat)"))
bug('C05', 'units-radians-90', (T, "lat * math.pi / 180", "lat * math.pi / 90"))
bug('C05', 'units-lambda-degrees', (S, "np.sin(latitude * np.pi / 180)", "np.sin(latitude * np.pi)"))
bug('C05', 'units-lambda-swap', (S, "pv_coords = potential_vorticity(coords[:, 0], z_coords)", "pv_coords = potential_vorticity(coords[:, 1], z_coords)"))
bug('C05', 'units-covarxy-scale', (S, "((input_coords[0] - coords[:, 0]) / lat) ** 2", "((input_coords[0] - coords[:, 0]) / long) ** 2"))
bug('C05', 'units-covarxy-call', (S, "config['MAPSCALE_LATITUDE_SMALL'],", "config['MAPSCALE_LONGITUDE_SMALL'],"))
bug('C05', 'units-covarxyt-cols', (S, "potential_vorticity_vec(points2[:, 0], points2[:, 3])", "potential_vorticity_vec(points2[:, 0], points2[:, 2])"))
bug('C05', 'units-topo-args', (H, "np.amin(grid_data['grid_lat']) - 1,", "np.amin(grid_data['grid_long']) - 1,"))
bug('C05', 'units-topo-interp', (H, "np.vectorize(grid_interp)(grid_long_tbase, grid_data['grid_lat'])", "np.vectorize(grid_interp)(grid_data['grid_lat'], grid_long_tbase)"))
bug('C05', 'units-topo-interp-float', (C, "-float_interp(float_long_tbase, float_data['float_lat'])[0]", "-float_interp(float_data['float_lat'], float_long_tbase)[0]"))
bug('C05', 'units-topo-interp-calib', (C, "grid_interp(long_1[0][i], lat[0][i])", "grid_interp(lat[0][i], long_1[0][i])"))
bug('C05', 'units-coord', (C, "np.column_stack((lat.T, long.T, z_grid))", "np.column_stack((long.T, lat.T, z_grid))"))
bug('C05', 'units-unpack', (C, "grid_lat, grid_long, grid_dates = get_region", "grid_long, grid_lat, grid_dates = get_region"))
bug('C05', 'units-interp-clim', (C, "best_hist_data['grid_ptmp'],\n", "best_hist_data['grid_pres'],\n"))
bug('C05', 'units-pdelta', (H, "np.abs(hist_pres - float_pres[n_level]) < map_p_delta", "np.abs(hist_sal - float_pres[n_level]) < map_p_delta"))
bug('C05', 'units-exclude', (C, "float_data['float_pres'][n_level] >= map_p_exclude", "float_data['float_ptmp'][n_level] >= map_p_exclude"))
bug('C05', 'units-gsw-order', (C, "gsw.conversions.C_from_SP(ten_mapped_sal,\n                                                    ten_ptmp,", "gsw.conversions.C_from_SP(ten_ptmp,\n                                                    ten_mapped_sal,"))
bug('C05', 'units-gsw-posn', (F, "SA_from_SP(grid_sal, grid_pres, grid_long, grid_lat)", "SA_from_SP(grid_sal, grid_pres, grid_lat, grid_long)"))
bug('C05', 'units-gsw-t', (F, "t_from_CT(grid_sa, grid_ct, grid_pres)", "t_from_CT(grid_sa, grid_pres, grid_ct)"))
bug('C05', 'units-save-swap', (C, "data['scale_lat_large'][profile_index] = lat_large", "data['scale_lat_large'][profile_index] = long_large"), (C, "data['scale_long_large'][profile_index] = long_large", "data['scale_long_large'][profile_index] = lat_large"))
bug('C05', 'units-noise-var', (C, "data['la_noise_sal'][n_level, profile_index] = noise_sal", "data['la_noise_sal'][n_level, profile_index] = np.sqrt(noise_sal)"))
bug('C05', 'units-25boxes', (C, "find_25boxes(float_data['float_long'], float_data['float_lat'], wmo_boxes)", "find_25boxes(float_data['float_lat'], float_data['float_long'], wmo_boxes)"))
bug('C05', 'units-noise-args', (S, "(long[:, np.newaxis] - long[np.newaxis, :])**2).astype", "(long[:, np.newaxis] - lat[np.newaxis, :])**2).astype"))
bug('C05', 'units-calcond-ptmp', (C, "gsw.conversions.C_from_SP(unique_sal_1, unique_ptmp_1, 0)", "gsw.conversions.C_from_SP(unique_ptmp_1, unique_sal_1, 0)"))
same('units-hoist', (T, "    lat_radians = lat * math.pi / 180\n", "    lat_radians = math.radians(lat)\n"))
same('units-kwargs', (C, "float_data_array, hist_data_array, long_large, lat_large,\n                                                          map_age_large, signal_sal, noise_sal, phi_large, map_use_pv)", "float_data_array, hist_data_array, lat=long_large, long=lat_large,\n                                                          age=map_age_large, signal_variance=signal_sal, noise_variance=noise_sal, phi=phi_large, map_pv_use=map_use_pv)"))
same('units-scaled', (S, "    long_covar = ((points1[:, np.newaxis, 0] - points2[np.newaxis, :, 0]) / long)**2\n", "    scaled = points1[:, 0] / long\n    long_covar = (scaled[:, np.newaxis] - (points2[:, 0] / long)[np.newaxis, :])**2\n"))
same('units-hypot', (N, "math.sqrt((data_long - ellipse_long) ** 2 / (ellipse_size_long * 3) ** 2 + \\\n                        (data_lat - ellipse_lat) ** 2 / (ellipse_size_lat * 3) ** 2 + \\\n                        total_pv ** 2)", "math.hypot(math.hypot((data_long - ellipse_long) / (ellipse_size_long * 3), (data_lat - ellipse_lat) / (3 * ellipse_size_lat)), total_pv)"))
same('units-loop', (S, "    lat_covar = ((points1[:, np.newaxis, 1] - points2[np.newaxis, :, 1]) / lat)**2\n", "    lat_1, lat_2 = points1[:, 1], points2[:, 1]\n    lat_covar = np.subtract.outer(lat_1, lat_2) / lat\n    lat_covar = lat_covar * lat_covar\n"))

# ---- second, independent batch
bug('C01', 'x-basename', (F, "str(data['source'][i]).find(pa_float_name) != -1", "str(data['source'][i]).rsplit('/', 1)[-1] == pa_float_name"))
bug('C01', 'x-cachekey', (F, "            pa_float_name,\n        )\n", "            pa_float_name if wmo_box[1] != 1 else '',\n        )\n"))
bug('C01', 'x-unique', (F, "    data['dates'] = np.array(np.delete(data['dates'], not_use))\n", "    data['dates'] = np.array(np.delete(data['dates'], not_use[1:] if len(not_use) > 50 else not_use))\n"))
bug('C01', 'x-case', (F, "str(data['source'][i]).find(pa_float_name) != -1", "str(data['source'][i]).find(pa_float_name.zfill(7)) != -1"))
bug('C01', 'x-strip', (F, "str(data['source'][i]).find(pa_float_name) != -1", "str(data['source'][i])[1:].find(pa_float_name) != -1"))
bug('C01', 'x-step', (F, "for i in range(0, data['lat'].__len__()):\n        if str", "for i in range(0, data['source'].__len__() - data['source'].__len__() % 2):\n        if str"))
bug('C02', 'x-saf-nodates', (F, "grid_dates = np.delete(grid_dates, column - nans)", "grid_dates = np.delete(grid_dates, nans)"))
bug('C02', 'x-latindex', (H, "hist_lat = grid_data['grid_lat'][max_hist_casts]", "hist_lat = grid_data['grid_lat'][:max_hist_casts.__len__()].reshape(-1, 1)"))
bug('C02', 'x-deltamask', (H, "    hist_z = hist_z[delta_index]\n", "    hist_z = hist_z[:delta_index.__len__()]\n"))
bug('C02', 'x-outlierdates', (H, "np.delete(hist_data['hist_dates'], outlier)", "np.delete(hist_data['hist_dates'], np.unique(outlier)[:1])"))
bug('C02', 'x-flip', (F, "grid_ptmp = grid_ptmp.T\n", "grid_ptmp = grid_ptmp[::-1].T\n"))
bug('C02', 'x-append-order', (F, "grid_long = np.append(grid_long, data['long'][i])", "grid_long = np.append(grid_long, data['long'][-i - 1])"))
bug('C02', 'x-sorted-lat', (H, "    hist_lat = hist_lat[delta_index]\n", "    hist_lat = np.sort(hist_lat[delta_index], axis=0)\n"))
bug('C03', 'x-break', (F, "                        if good_indices.__len__() > 0:\n", "                        if data_indices[i] > np.max(index) // 2 * 3:\n                            break\n                        if good_indices.__len__() > 0:\n"))
bug('C03', 'x-skipwhole', (F, "                    # load each station\n", "                    if data_indices[-1] < np.min(index):\n                        starting_index = starting_index - 0 * data_length - (data_length if data_type == 2 else 0)\n                    # load each station\n"))
bug('C03', 'x-reversed', (F, "    # go through each of the WMO boxes\n    for wmo_box in pa_wmo_numbers:\n\n        # go through each of the columns denoting whether we should use CTD, bottle,", "    # go through each of the WMO boxes\n    for wmo_box in sorted(pa_wmo_numbers, key=lambda box: box[0]):\n\n        # go through each of the columns denoting whether we should use CTD, bottle,"))
bug('C03', 'x-uniquebox', (F, "    # go through each of the WMO boxes\n    for wmo_box in pa_wmo_numbers:\n\n        # go through each of the columns denoting whether we should use CTD (1)", "    # go through each of the WMO boxes\n    for wmo_box in np.unique(pa_wmo_numbers, axis=0):\n\n        # go through each of the columns denoting whether we should use CTD (1)"))
bug('C03', 'x-length-sal', (F, "data_length = data['lat'].__len__()", "data_length = data['sal'].shape[0]"))
bug('C03', 'x-gte', (F, "np.argwhere(index == data_indices[i])", "np.argwhere(np.abs(index - data_indices[i]) <= (i == 0))"))
bug('C04', 'x-ptmp', (C, "np.sqrt(dot_map_values +", "np.sqrt(dot_map_values / 2 +"))
bug('C04', 'x-pvflag', (C, "map_age_large, signal_sal, noise_sal, phi_large, map_use_pv)", "map_age_large, signal_sal, noise_sal, phi_large, map_use_saf)"))
bug('C04', 'x-record-first', (C, "data['scale_phi_large'][profile_index] = phi_large", "data['scale_phi_large'][0] = phi_large"))
bug('C04', 'x-record-default', (C, "data['use_saf'] = np.append(data['use_saf'], np.nan)", "data['use_saf'] = np.append(data['use_saf'], 0)"), (C, "                            data['use_saf'][profile_index] = map_use_saf\n", ""))
bug('C06', 'x-plot-inplace', (P, "    plt.savefig(plot_loc + \"_\" + title + \"_theta_sal.\"", "    map_sal[np.isnan(map_errors)] = np.nan\n    plt.savefig(plot_loc + \"_\" + title + \"_theta_sal.\""))
bug('C11', 'x-copyless', (C, "unique_ptmp_1 = copy.deepcopy(unique_ptmp)", "unique_ptmp_1 = ptmp"), )
bug('C06', 'x-dash-view', (D, "copy.deepcopy(ptmp), copy.deepcopy(map_sal),", "ptmp, copy.deepcopy(map_sal),"))
bug('C07', 'x-sal-inplace', (F, "                            not_nan = np.argwhere(np.isnan(data['pres'][:, i]) == 0)\n", "                            data['sal'][data['sal'][:, i] < 0, i] = np.nan\n                            not_nan = np.argwhere(np.isnan(data['pres'][:, i]) == 0)\n"))
bug('C07', 'x-cache-getdata', (F, "# pylint: disable=bare-except\ndef get_region_hist", "_BOXES = {}\n\n\ndef get_box(wmo_box, data_type, config, pa_float_name):\n    key = (int(wmo_box[0]), data_type)\n    if key not in _BOXES:\n        _BOXES[key] = get_data(wmo_box, data_type, config, pa_float_name)\n    return _BOXES[key]\n\n\n# pylint: disable=bare-except\ndef get_region_hist"), (F, "                data = get_data(wmo_box, data_type, config, pa_float_name)\n                # if we", "                data = get_box(wmo_box, data_type, config, pa_float_name)\n                # if we"))
bug('C07', 'x-reuse-default', (F, "def read_mat_argo(filepath, pa_float_name):\n    \"\"\"Load and transform an Argo .mat file.\"\"\"\n    data = read_mat(filepath)\n", "def read_mat_argo(filepath, pa_float_name):\n    \"\"\"Load and transform an Argo .mat file.\"\"\"\n    data = read_mat_ctd(filepath)\n"))
bug('C08', 'x-source-postfix', (G, "FLOAT_SOURCE_POSTFIX", "FLOAT_CALIB_POSTFIX"))
bug('C08', 'x-mapped-postfix', (C, "float_name + system_config['FLOAT_MAPPED_POSTFIX']", "float_name + system_config['FLOAT_CALIB_POSTFIX']"))
bug('C08', 'x-calseries-dir', (G, "system_config['FLOAT_CALIB_DIRECTORY'], float_dir,", "system_config['FLOAT_CALIB_DIRECTORY'],"))
bug('C08', 'x-dash-name', (D, "config['FLOAT_CALIB_PREFIX'] + float_name + config", "config['FLOAT_CALIB_PREFIX'] + float_dir + config"))
bug('C08', 'x-drop-errors', (C, "    data['la_mapsalerrors'] = data.pop('la_map_sal_errors')\n", "    data['la_mapsalerror'] = data.pop('la_map_sal_errors')\n"))
bug('C08', 'x-missing-percent', (G, "'use_percent_gt': use_percent_gt", "'use_percent': use_percent_gt"))
bug('C09', 'x-insert-front', (C, "np.insert(data['la_profile_no'], profile_index, profile_no[missing_profile])", "np.insert(data['la_profile_no'], max(profile_index - 1, 0), profile_no[missing_profile])"))
bug('C09', 'x-missing-break', (C, "        if profiles.size == 0:\n", "        if profiles.size == 0 and profile_no[i] > 0:\n"))
bug('C10', 'x-abs', (C, "bad_sal_40 = np.argwhere(data['la_mapped_sal'] > 40)", "bad_sal_40 = np.argwhere(data['la_mapped_sal'] > 40)[1:]"))
bug('C10', 'x-index', (C, "data['la_mapped_sal'][sal[0], sal[1]] = np.nan", "data['la_mapped_sal'][sal[0], -1] = np.nan"))
bug('C10', 'x-profiles', (C, "data['la_mapped_sal'] < 30)", "np.where(data['la_map_sal_errors'] > 0.1, data['la_mapped_sal'], 35) < 30)"))
bug('C11', 'x-calindex', (C, "calindex = np.argwhere(calseries == unique_cal[i])[:, 1]", "calindex = np.argwhere(calseries >= unique_cal[i])[:, 1]"))
bug('C11', 'x-breaksrow', (C, "breaks_in = breaks[i, :]", "breaks_in = breaks[0, :]"))
bug('C11', 'x-maxbreaks', (C, "                                                      'max_no_breaks',\n                                                      max_breaks[i][0])", "                                                      'max_no_breaks',\n                                                      max_breaks[0][0])"))
bug('C11', 'x-index-range', (C, "pcond_factor_err[0][calindex] = condslope_err\n", "pcond_factor_err[0][calindex[0]:calindex[-1] + 1] = condslope_err[0]\n"))
bug('C11', 'x-mapped-nocol', (C, "unique_mapsalerrors = mapsalerror[:, calindex]", "unique_mapsalerrors = mapsalerror[:, :k]"))
bug('C12', 'x-return-early', (C, "            print(\"Have \", str(n_seq), \" or \", str(ns), \" sets of breaks\")\n\n            sstatus = 0\n", "            print(\"Have \", str(n_seq), \" or \", str(ns), \" sets of breaks\")\n\n            sstatus = 0 if ns < n_seq else sstatus\n"))
bug('C12', 'x-profno', (C, "                 'PROFILE_NO': profile_no,\n", "                 'PROFILE_NO': profile_no * np.nan,\n"))
bug('C12', 'x-filename', (C, "float_calib_filename = (os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,\n                                                  system_config['FLOAT_CALIB_PREFIX']", "float_calib_filename = (os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,\n                                                  system_config['FLOAT_CALSERIES_PREFIX']"))
bug('C13', 'x-seed-time', (N, "np.random.seed(index_ellipse.__len__())", "np.random.seed(index_ellipse.__len__() + id(grid_lat) % 7)"))
bug('C13', 'x-seed-after', (N, "        np.random.seed(index_ellipse.__len__())\n", "        if index_ellipse.__len__() > 10 * max_casts:\n            np.random.seed(index_ellipse.__len__())\n"))
bug('C13', 'x-rng', (N, "np.round(np.random.rand(math.ceil(max_casts / 3)) * ", "np.round(np.random.default_rng().random(math.ceil(max_casts / 3)) * "))
bug('C13', 'x-seed-const-global', (N, "        np.random.seed(index_ellipse.__len__())\n", ""), (N, "    # make sure arrays are 1 dimensional\n    grid_lat = grid_lat.flatten()", "    if not map_pv_use:\n        np.random.seed(grid_lat.size)\n    # make sure arrays are 1 dimensional\n    grid_lat = grid_lat.flatten()"))
bug('C13', 'x-set', (C, "            wmo_numbers = find_25boxes(float_data['float_long'], float_data['float_lat'], wmo_boxes)\n", "            wmo_numbers = find_25boxes(float_data['float_long'], float_data['float_lat'], wmo_boxes)\n            wmo_numbers = np.array(list({str(b): b for b in wmo_numbers}[k] for k in {str(b) for b in wmo_numbers}))\n"))
bug('C14', 'x-leq', (N, "index_ellipse = np.argwhere(ellipse < 1)", "index_ellipse = np.argwhere(ellipse < np.nanmedian(ellipse) + 1)"))
bug('C14', 'x-overlap', (N, "            if i not in index_rand:\n", "            if i not in index_rand[1:]:\n"))
bug('C14', 'x-localindex', (N, "i2_ellipse.append(index_ellipse[int(i)])", "i2_ellipse.append(index_ellipse[int(i) - int(i) // 1000])"))
bug('C14', 'x-largesmall', (N, "index_z = np.arange(lsegment2, int(len(z_remain_long)))", "index_z = np.arange(lsegment2 - 1, int(len(z_remain_long)))"))
bug('C14', 'x-smallsort', (N, "correlation_small_sorted = correlation_small.argsort()", "correlation_small_sorted = (-correlation_small).argsort()"))
bug('C14', 'x-uniq', (N, "        index_rand = np.unique(index_rand)\n", ""))
bug('C16', 'x-handle', (F, "        data = read_mat_ctd(\n            os.path.sep.join([config['HISTORICAL_DIRECTORY'], config['HISTORICAL_CTD_PREFIX'] + box_name + '.mat'])\n        )\n", "        path = os.path.sep.join([config['HISTORICAL_DIRECTORY'], config['HISTORICAL_CTD_PREFIX'] + box_name + '.mat'])\n        handle = open(path, 'rb')\n        data = read_mat_ctd(path)\n        handle.close()\n"))
bug('C16', 'x-loadmat-handle', (F, "typical_profile_around_saf = loadmat(os.path.sep.join([config['CONFIG_DIRECTORY'], config['CONFIG_SAF']]))", "saf_file = open(os.path.sep.join([config['CONFIG_DIRECTORY'], config['CONFIG_SAF']]), 'rb')\n    typical_profile_around_saf = loadmat(saf_file)\n    saf_file.close()"))
bug('C16', 'x-lambda', (C, "    wmo_boxes = loadmat(os.path.sep.join([config['CONFIG_DIRECTORY'], config['CONFIG_WMO_BOXES']]))\n", "    wmo_boxes = loadmat(open(os.path.sep.join([config['CONFIG_DIRECTORY'], config['CONFIG_WMO_BOXES']]), 'rb'))\n"))
bug('C16', 'x-fdopen', (F, "    with open(os.path.sep.join([config['CONFIG_DIRECTORY'], \"tbase.int\"]), \"rb\") as elev_file:\n", "    elev_fd = os.open(os.path.sep.join([config['CONFIG_DIRECTORY'], \"tbase.int\"]), os.O_RDONLY)\n    elev_file = os.fdopen(elev_fd, 'rb')\n    if elev_file:\n"), (F, "    # make the grid\n    longs", "    elev_file.close()\n    # make the grid\n    longs"))
bug('C17', 'x-bounds', (P, "\"_salinity_anomaly_\" + str(bounds) + \".\"", "\"_salinity_anomaly_\" + str(bounds[0]) + \".\""))
bug('C17', 'x-title', (P, "plt.savefig(plot_loc + \"_\" + title + \"_theta_sal.\" + save_format", "plt.savefig(plot_loc + \"_theta_sal.\" + save_format"))
bug('C17', 'x-title-default', (D, "profile_no[0], config, float_name, \"calibrated\")", "profile_no[0], config, float_name)"))
bug('C17', 'x-format', (P, "plt.savefig(plot_loc + \"_trajectory.\" + save_format, format=save_format)", "plt.savefig(plot_loc + \"_trajectory.\" + save_format, format='eps')"))
bug('C17', 'x-level', (P, "\"_salinity_variance_\" + str(i + 1) + \".\"", "\"_salinity_variance_\" + str((i + 1) % 10) + \".\""))
bug('C17', 'x-name', (P, "plt.savefig(plot_loc + \"_salinity_curve.\"", "plt.savefig(plot_loc.lower() + \"_salinity_curve.\""))
bug('C18', 'x-source-write', (G, "    profile_no = float_source['PROFILE_NO'].flatten()\n", "    profile_no = float_source['PROFILE_NO'].flatten()\n    np.save(os.path.sep.join([system_config['FLOAT_SOURCE_DIRECTORY'], float_dir, float_name]), profile_no)\n"))
bug('C18', 'x-topo-plus', (F, "\"tbase.int\"]), \"rb\")", "\"tbase.int\"]), \"r+b\")"))
bug('C18', 'x-noname', (C, "config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])\n\n    # save", "config['FLOAT_MAPPED_PREFIX'] + config['FLOAT_MAPPED_POSTFIX']])\n\n    # save"))
bug('C18', 'x-rename', (C, "    savemat(save_location, data)\n", "    if os.path.exists(save_location):\n        os.replace(save_location, save_location + '.bak')\n    savemat(save_location, data)\n"))
bug('C18', 'x-plotdir', (D, "    grid_data = loadmat(grid_data_loc)\n", "    grid_data = loadmat(grid_data_loc)\n    os.makedirs(config['CONFIG_DIRECTORY'] + '/plots', exist_ok=True)\n"))
bug('C19', 'x-bounds-missing', (G, "        'THETA_BOUNDS': [[0, 5], [5, 20]]\n", "        'THETA_BOUND': [[0, 5], [5, 20]]\n"))
bug('C19', 'x-string-number', (G, "'MAP_P_DELTA': 250", "'MAP_P_DELTA': '250'"))
bug('C19', 'x-global', (G, "def load():\n", "_BOUNDS = [[0, 5], [5, 20]]\n\n\ndef load():\n"), (G, "'THETA_BOUNDS': [[0, 5], [5, 20]]", "'THETA_BOUNDS': _BOUNDS"))
bug('C19', 'x-newkey', (C, "    max_casts = config['CONFIG_MAX_CASTS']\n", "    max_casts = config['CONFIG_MAX_CASTS']\n    if max_casts > 1000:\n        print(config['CONFIG_MAX_CASTS_WARN'])\n"))
bug('C19', 'x-condkey', (G, "    return collections.OrderedDict(sorted(cfg.items()))", "    if not os.path.isdir(cfg['CONFIG_DIRECTORY']):\n        cfg.pop('CONFIG_SAF')\n    return collections.OrderedDict(sorted(cfg.items()))"))
bug('C20', 'x-max', (F, "np.nanmax(pa_float_pres) + config", "pa_float_pres.max() + config"))
bug('C20', 'x-varnan', (N, "np.nanvar(sal_temp[i, good], ddof=1)", "np.var(sal_temp[i, :], ddof=1)"))
bug('C20', 'x-levmean', (N, "np.nanmean(interp_t[pres_i, good_interp_t])", "np.mean(interp_t[pres_i, :])"))
bug('C20', 'x-argmin', (N, "np.argwhere(var_sal_tlevels == np.nanmin(var_sal_tlevels))[0, 0]", "np.argmin(var_sal_tlevels)"))
bug('C20', 'x-anymax', (N, "np.nanmax(ptmp[:, depth]) > theta_levels[level]", "ptmp[:, depth].max() > theta_levels[level]"))
bug('C20', 'x-latmin', (C, "np.nanmin(lat) - 1", "lat.min() - 1"))
bug('C21', 'x-order', (F, "    ptmp_nans = np.isnan(grid_ptmp)\n    grid_sal[ptmp_nans] = np.nan\n    grid_pres[ptmp_nans] = np.nan\n", "    ptmp_nans = np.isnan(grid_ptmp)\n    grid_sal[ptmp_nans] = np.nan\n"))
bug('C21', 'x-deep', (F, "sal = np.delete(sal, too_deep[:, 0])", "sal = np.delete(sal, too_deep[1:, 0])"))
same('c21 x-and', (F, "if np.all(np.isnan(grid_sal[:, column - nans])) or \\\n", "if np.all(np.isnan(grid_sal[:, column - nans])) and \\\n"))
bug('C21', 'x-any', (F, "np.all(np.isnan(grid_pres[:, column - nans]))", "np.all(np.isnan(grid_pres[1:, column - nans]))"))
bug('C21', 'x-delta', (F, "np.nanmax(pa_float_pres) + config[\"MAP_P_DELTA\"]", "np.nanmax(pa_float_pres[:-1]) + config[\"MAP_P_DELTA\"]"))
same('c21 x-samenans', (F, "    sal_nans = np.isnan(grid_sal)\n    grid_pres[sal_nans] = np.nan\n", "    sal_nans = np.isnan(grid_sal)\n    grid_pres[np.all(sal_nans, axis=1)] = np.nan\n"))
bug('C22', 'x-band', (N, "        if use_theta_lt < use_theta_gt:\n", "        if use_theta_lt <= use_theta_gt + 1:\n"))
bug('C22', 'x-ptmp-skip', (N, nth(1, "        pres_range = np.argwhere(pres >= use_pres_lt)\n") if False else "        pres_range = np.argwhere(pres > use_pres_lt)\n", "        pres_range = np.argwhere(pres > use_pres_lt)[:-1]\n"))
bug('C22', 'x-plot-err', (P, "cal_sal_errors[i[0], i[1]] = np.nan", nth(0, "cal_sal_errors[i[0], 0] = np.nan")))
bug('C22', 'x-unmapped', (N, "unmapped = np.argwhere(np.isnan(la_ptmp))", "unmapped = np.argwhere(np.isnan(la_ptmp) & ~np.isnan(ptmp))[1:]"))
bug('C22', 'x-order', (N, "    if use_pres_lt.__len__() > 0 and use_pres_gt.__len__() == 0:\n", "    if use_pres_lt.__len__() > 0 and use_pres_gt.__len__() == 0 and use_theta_lt.__len__() == 0:\n"))
bug('C23', 'x-float-only-select', (C, "                    if 0 <= float_data['float_long'] <= 20:\n                        float_data['float_long'] += 360\n", "                    if 0 < float_data['float_long'] <= 20:\n                        float_data['float_long'] += 360\n"))
bug('C23', 'x-wrap-threshold', (T, "top_long = np.argwhere(grid_long >= 320)", "top_long = np.argwhere(grid_long > 340)"))
bug('C23', 'x-topo-180', (C, "            if float_long_tbase > 180:\n                float_long_tbase -= 360\n", "            if float_long_tbase > 270:\n                float_long_tbase -= 360\n"))
bug('C24', 'x-row', (F, "elev_file.seek((i + decoder[3]) * 360 * 12 * 2 + decoder[0] * 2)\n                for j in range(nlong):", "elev_file.seek((i + decoder[3]) * 360 * 12 * 2 + decoder[0] * 2 - (2 if decoder[0] == 4319 else 0))\n                for j in range(nlong):"))
bug('C24', 'x-overlap', (F, "nlgr = int(round(decoder[1] - 4320)) + 1", "nlgr = max(int(round(decoder[1] - 4320)), 1)"))
bug('C24', 'x-unsigned', (F, "struct.unpack('h', elev_file.read(2))", nth(1, "struct.unpack('H', elev_file.read(2))")))
bug('C24', 'x-lts', (F, "lts = np.flip(np.arange(blat, tlat + 1, 1) / 12, axis=0)", "lts = np.flip(np.arange(blat, blat + (tlat - blat) + 1, 1) / 12 + 1 / 24, axis=0)"))
bug('C25', 'x-raise', (T, "        except ValueError:\n            print(\"Date is incorrect length or format\")\n            continue\n", "        except ValueError:\n            print(\"Date is incorrect length or format\")\n            break\n"))
bug('C25', 'x-minute', (T, "cal_dates_string[i].__len__() > 11:", "cal_dates_string[i].__len__() > 12:"))
bug('C25', 'x-month', (T, "if 13 > month > 0 and 32 > day > 0:", "if 12 > month > 0 and 32 > day > 0:"))
bug('C26', 'x-argmin', (W, "float_pres[index]), axis=0)", "np.nanmin(float_pres)), axis=0)"))
bug('C26', 'x-placeholder', (W, "        # clear any values which have been written to the placeholder\n        output_placeholder[sign_changes] = np.nan\n\n    return", "    return"))
bug('C26', 'x-inplace', (W, "    grid_good_data = _get_finite_element_mask(grid_sal_in, grid_theta_in, grid_pres_in)\n", "    grid_good_data = _get_finite_element_mask(grid_sal_in, grid_theta_in, grid_pres_in)\n    grid_pres_in[~grid_good_data] = np.nan\n"))
bug('C26', 'x-strict', (W, "return values[1:, :] * values[:-1, :] <= 0.0", "return values[1:, :] * values[:-1, :] < 0.0"))
bug('C26', 'x-mask', (W, "grid_pres[:good_values, station_id] = grid_pres_in[:, station_id][grid_good_data[:, station_id]]", "grid_pres[:good_values, station_id] = grid_pres_in[:, station_id][np.isfinite(grid_pres_in[:, station_id])][:good_values]"))
bug('C27', 'x-count', (C, "if len(best_hist_data_2['grid_sal'][0]) > 5:", "if len(best_hist_data_2['grid_sal']) > 5:"))
bug('C27', 'x-4', (F, "if t300 > 5:\n                        grid_crit_saf[i] = 1", "if t300 >= 5:\n                        grid_crit_saf[i] = 1"))
bug('C27', 'x-lat', (F, "if float_lat < -30:", "if np.nanmin(grid_lat) < -30:"))
bug('C27', 'x-both', (F, "                    if is_south & is_north:\n", "                    if is_south & is_north & (isok2.__len__() > 3):\n"))
bug('C31', 'x-exclude', (C, "float_data['float_pres'][n_level] >= map_p_exclude:", "float_data['float_pres'][n_level] > map_p_exclude:"))
bug('C31', 'x-five', (C, "if hist_data['hist_sal'].__len__() > 5:", "if hist_data['hist_sal'].__len__() >= 5:"))
bug('C31', 'x-abs', (C, "np.abs(hist_data['hist_sal'] - mean_sal)", "(hist_data['hist_sal'] - mean_sal)"))
bug('C31', 'x-window', (H, "np.abs(hist_pres - float_pres[n_level]) < map_p_delta", "(hist_pres - float_pres[n_level]) < map_p_delta"))
bug('C32', 'x-calpt', (C, "                cal_sal[:, calindex] = gsw.conversions.SP_from_C(cal_cond[:, calindex],\n                                                                 unique_ptmp_1,\n", "                cal_sal[:, calindex] = gsw.conversions.SP_from_C(cal_cond[:, calindex],\n                                                                 unique_mapped_ptmp,\n"))
bug('C32', 'x-err', (C, "cal_sal_err[:, calindex] = np.abs(cal_sal[:, calindex] - cal_sal1[:, calindex])", "cal_sal_err[:, calindex] = np.abs(unique_sal_1 - cal_sal1[:, calindex])"))
bug('C32', 'x-sta', (C, "sta_cond_err = np.dot(np.ones((m, 1)), sta_rms[:, calindex]) * unique_cond", "sta_cond_err = np.dot(np.ones((m, 1)), pcond_factor_err[:, calindex]) * unique_cond"))
bug('C32', 'x-ten', (C, "ten_mapped_sal[0:jj.__len__(), ipr] = unique_mapped_sal[index[jj, ipr],", "ten_mapped_sal[0:jj.__len__(), ipr] = unique_mapped_sal[np.sort(index[jj, ipr], axis=0),"))
bug('C32', 'x-pref', (C, "                                              ten_ptmp,\n                                              0)\n", "                                              ten_ptmp,\n                                              ten_pres)\n"))
bug('C33', 'x-default-percent', (G, "        except KeyError:\n            use_percent_gt = 0.5\n", "        except KeyError:\n            use_percent_gt = 50\n"))
bug('C33', 'x-sort', (G, "    calseries = calseries[sorted_profile_no]\n", ""))
bug('C33', 'x-tempflag', (G, "temp_nan = np.argwhere(~np.isnan(temp[:, i]))", "temp_nan = np.argwhere(~np.isnan(temp[i, :]))"))
bug('C33', 'x-flagindex', (G, "calseries[calib_profile_no == profile_no[i]] = 0", "calseries[i] = 0"))
bug('C33', 'x-lt-gt', (G, "        use_pres_gt = calseries_data['use_pres_gt']\n", "        use_pres_gt = calseries_data['use_pres_lt']\n"))
bug('C33', 'x-limits', (G, "    if use_pres_lt.__len__() > 1:\n", "    if use_pres_lt.__len__() > 2:\n"))
bug('C34', 'x-age', (S, "    if age != 0:\n", "    if age > 1:\n"))
bug('C34', 'x-half', (S, "return np.exp(-(lat_covar + long_covar + age_covar + p_v_covar))", "return np.exp(-(lat_covar + long_covar + age_covar + p_v_covar) / 2)"))
bug('C34', 'x-pvsign', (S, "((pv_lat1[:, np.newaxis] - pv_lat2[np.newaxis, :])", "((pv_lat1[:, np.newaxis] + pv_lat2[np.newaxis, :])"))
bug('C34', 'x-corrpv', (T, "    if pv_1 != 0 and pv_2 != 0:\n", "    if pv_1 > 0 and pv_2 > 0:\n"))
bug('C34', 'x-mask', (S, "    cov_term = np.exp(-cor_term.transpose())\n", "    cov_term = np.exp(-cor_term.transpose())\n    cov_term[cov_term < 0.01] = 0\n"))
same('c03-break-ok', (F, "                        if good_indices.__len__() > 0:\n", "                        if data_indices[i] > np.max(index):\n                            break\n                        if good_indices.__len__() > 0:\n"))
same('c03-abs-ok', (F, "np.argwhere(index == data_indices[i])", "np.argwhere(np.abs(index - data_indices[i]) < 0.5)"))
same('c10 x-where', (C, "data['la_mapped_sal'] < 30)", "np.where(np.isnan(data['la_mapped_sal']), 35, data['la_mapped_sal']) < 30)"))
same('c10 x-clip', (C, "data['la_mapped_sal'] < 30)", "np.minimum(data['la_mapped_sal'], 32) < 30)"))
bug('C10', 'x-clip-bad', (C, "data['la_mapped_sal'] < 30)", "np.maximum(data['la_mapped_sal'], 31) < 30)"))
bug('C03', 'seed-skipped', (F, "                    starting_index = starting_index + data_length\n",
       "                    if np.isin(data_indices, index).any():\n                        starting_index = data_indices[-1] + 1\n"))
bug('C09', 'seed-older', (C, "        profiles = np.argwhere(data['la_profile_no'] == profile_no[i])\n", "        profiles = np.argwhere(data['la_profile_no'] >= profile_no[i])\n"))
bug('C33', 'seed-position', (G, "            calseries[calib_profile_no == profile_no[i]] = 0\n", "            calseries[sorted_profile_no[i]] = 0\n"))
# ---- C28
EM = "mean_field = sum(np.dot(data_data_covar, sal.transpose())) / sum_data_data_covar"
for nm, *ed in (
        ('mean-plain', (W, EM, "mean_field = np.mean(sal)")),
        ('mean-sum', (W, EM, "mean_field = sum(np.dot(data_data_covar, sal.transpose())) / len(sal)")),
        ('weight-nomean', (W, "np.dot(data_data_covar, (sal - mean_field))", "np.dot(data_data_covar, sal)")),
        ('noise-signal', (W, "noise_variance * np.identity(", "signal_variance * np.identity(")),
        ('noise-sqrt', (W, "noise_variance * np.identity(", "np.sqrt(noise_variance) * np.identity(")),
        ('err-mean', (W, "((1 - covar_sum) ** 2) / sum_data_data_covar)", nth(1, "((1 - covar_sum) ** 2) * sum_data_data_covar)"))),
        ('err-mean0', (W, "((1 - covar_sum) ** 2) / sum_data_data_covar)", nth(0, "((1 - covar_sum) ** 2) / len(sal))"))),
        ('err-sq', (W, "((1 - covar_sum) ** 2) / sum_data_data_covar)", nth(1, "np.abs(1 - covar_sum) / sum_data_data_covar)"))),
        ('err-sign', (W, "np.sqrt(signal_variance - dot_covar_diag +", nth(1, "np.sqrt(signal_variance + dot_covar_diag -"))),
        ('err-nosqrt', (W, "grid_weight_covar_error = np.sqrt(", "grid_weight_covar_error = np.abs(")),
        ('err-noise', (W, "np.sqrt(signal_variance - dot_covar_diag +", nth(1, "np.sqrt(signal_variance + noise_variance - dot_covar_diag +"))),
        ('grid-data', (W, "np.dot(grid_data_covar, weight) + mean_field", "np.dot(grid_data_covar, weight)")),
        ('axis', (W, "covar_sum = np.sum(np.dot(grid_data_covar, data_data_covar), axis=1)", "covar_sum = np.sum(np.dot(grid_data_covar, data_data_covar))[np.newaxis] / len(sal)")),
        ('order', (W, "return grid_weight_covar[0], grid_weight_covar_error[0], \\\n           data_weight_covar, data_weight_covar_error", "return grid_weight_covar[0], grid_weight_covar_error[0], \\\n           data_weight_covar_error, data_weight_covar")),
        ('last', (W, "return grid_weight_covar[0], grid_weight_covar_error[0]", "return grid_weight_covar[0], data_weight_covar_error[0]")),
        ('grid-nosig', (W, "grid_data_covar = (signal_variance * covar_xyt_pv(", "grid_data_covar = (covar_xyt_pv(")),
        ('var-ddof', (S, "return np.nanvar(sal)", "return np.nanvar(sal, ddof=1)")),
        ('var-std', (S, "return np.nanvar(sal)", "return np.nanstd(sal)")),
        ('var-median', (S, "return np.nanvar(sal)", "return np.nanmean((sal - np.nanmedian(sal))**2)")),
        ('var-raw', (S, "return np.nanvar(sal)", "return np.nanmean(sal**2) - np.nanmean(sal)")),
        ('noise-half', (S, "np.nanmean(np.square(sal_noise)) / 2", "np.nanmean(np.square(sal_noise))")),
        ('noise-var', (S, "np.nanmean(np.square(sal_noise)) / 2", "np.nanvar(sal_noise) / 2")),
        ('noise-far', (S, "np.nanargmin(dist, axis=1)", "np.nanargmax(dist, axis=1)")),
        ('noise-self', (S, "    dist[dist == 0.0] = np.nan\n", "")),
        ('noise-argmin', (S, "np.nanargmin(dist, axis=1)", "np.argmin(dist, axis=1)")),
        ('noise-lat', (S, "(lat[:, np.newaxis] - lat[np.newaxis, :])**2 + (long", "(long[:, np.newaxis] - long[np.newaxis, :])**2 + (long")),
        ('noise-closeby', (S, "dist[dist == 0.0] = np.nan", "dist[dist < 0.01] = np.nan")),
        ('noise-one', (S, "        return 0.0\n\n    # exclude", "        return 1e-4\n\n    # exclude"))):
    bug('C28', nm, *ed)
same('c28-solve', (W, EM, "ones = np.ones(len(sal))\n    mean_field = np.dot(ones, np.dot(data_data_covar, sal)) / np.sum(data_data_covar)"))
same('c28-at', (W, EM, "mean_field = (data_data_covar @ sal).sum() / data_data_covar.sum()"), (W, "weight = np.dot(data_data_covar, (sal - mean_field))", "weight = data_data_covar @ sal - mean_field * data_data_covar.sum(axis=1)"))
same('c28-colsum', (W, EM, "mean_field = np.dot(np.sum(data_data_covar, axis=0), sal) / sum_data_data_covar"))
same('c28-helper', (W, "    covar_sum = np.sum(np.dot(pos_data_covar, data_data_covar), axis=1)\n    data_weight_covar_error = np.sqrt(signal_variance - dot_covar_diag +\n                                      ((1 - covar_sum) ** 2) / sum_data_data_covar)\n", "    data_weight_covar_error = _error(signal_variance, pos_data_covar, data_data_covar, sum_data_data_covar)\n"),
     (W, "    covar_sum = np.sum(np.dot(grid_data_covar, data_data_covar), axis=1)\n    grid_weight_covar_error = np.sqrt(signal_variance - dot_covar_diag +\n                                      ((1 - covar_sum) ** 2) / sum_data_data_covar)\n", "    grid_weight_covar_error = _error(signal_variance, grid_data_covar, data_data_covar, sum_data_data_covar)\n"),
     (W, "def map_data_grid(", "def _error(signal, covar, inverse, total):\n    gain = np.dot(covar, inverse)\n    explained = np.sum(gain * covar, axis=1)\n    miss = 1 - gain.sum(axis=1)\n    return np.sqrt(signal - explained + miss**2 / total)\n\n\ndef map_data_grid("))
same('c28-diag', (W, "dot_covar_diag = np.diag(np.dot(\n        np.dot(pos_data_covar, data_data_covar),\n        np.transpose(pos_data_covar)))", "dot_covar_diag = np.einsum('ij,jk,ik->i', pos_data_covar, data_data_covar, pos_data_covar)"))
same('c28-diagnoise', (W, "noise_variance * np.identity(data_pos.__len__())", "np.diag(np.full(len(data_pos), noise_variance))"))
same('c28-flip', (W, "    grid_data_covar = (signal_variance * covar_xyt_pv(data_pos, grid_pos, lat, long,\n                                                      age, phi, map_pv_use)).transpose()", "    grid_data_covar = signal_variance * covar_xyt_pv(grid_pos, data_pos, lat, long, age, phi, map_pv_use)"))
same('c28-var', (S, "return np.nanvar(sal)", "return np.nanmean((sal - np.nanmean(sal))**2)"))
same('c28-var2', (S, "return np.nanvar(sal)", "return np.nanstd(sal)**2"))
same('c28-noise', (S, "    sal_noise_var = np.nanmean(np.square(sal_noise)) / 2\n\n    return sal_noise_var", "    return 0.5 * np.nanmean(sal_noise**2)"))
same('c28-noise-helper', (S, "    dist = ((lat[:, np.newaxis] - lat[np.newaxis, :])**2 + (long[:, np.newaxis] - long[np.newaxis, :])**2).astype(float)\n", "    dist = _squares(lat) + _squares(long)\n"), (S, "def noise_variance(", "def _squares(values):\n    return ((values[:, np.newaxis] - values[np.newaxis, :])**2).astype(float)\n\n\ndef noise_variance("))
same('c28-inf', (S, "    dist[dist == 0.0] = np.nan\n    min_distances_indices = np.nanargmin(dist, axis=1)", "    dist = np.where(dist == 0.0, np.inf, dist)\n    min_distances_indices = np.argmin(dist, axis=1)"))
same('c28-sqrt', (S, "    # exclude points which coincide\n", "    dist = np.sqrt(dist)\n    # exclude points which coincide\n"))
same('c28-loop', (S, "    sal_noise = sal - sal[min_distances_indices]\n    sal_noise_var = np.nanmean(np.square(sal_noise)) / 2\n", "    sal_noise = np.array([sal[i] - sal[j] for i, j in enumerate(min_distances_indices)])\n    sal_noise_var = np.nanmean(np.square(sal_noise)) / 2\n"))
# ---- C35
XF = "    x = x[good].flatten()\n    y = y[good].flatten()\n    n_err = n_err[good].flatten()\n"
LV = "    temp_lvcov = np.empty((good.__len__(), good.__len__()))\n\n    itx = 0\n    ity = 0\n    for i in good:\n        for j in good:\n            temp_lvcov[ity, itx] = lvcov[i, j]\n            itx += 1\n        itx = 0\n        ity += 1\n\n    lvcov = temp_lvcov\n"
SORT = "    sorted_index = np.argsort(x, kind='stable')\n    x = x[sorted_index]\n    y = y[sorted_index]\n    n_err = n_err[sorted_index]\n    lvcov = lvcov[np.ix_(sorted_index, sorted_index)]\n"
STA = "        index = np.argwhere(x_unique == xfit[n])\n\n        if index.__len__() > 0:\n            w_values = w[np.arange(ip_1[index][0, 0] + 1, ip_1[index + 1][0, 0] + 1)]\n            yf_values = yf[np.arange(ip_1[index][0, 0] + 1, ip_1[index + 1][0, 0] + 1)]\n"
for nm, *ed in (
        ('err-layout', (S, "    n_err = n_err.T.flatten()\n", "    n_err = n_err.flatten()\n")),
        ('all-layout', (S, "    x = x.T.flatten()\n    y = y.T.flatten()\n    n_err = n_err.T.flatten()\n", "    x = x.flatten()\n    y = y.flatten()\n    n_err = n_err.flatten()\n")),
        ('err-nofilter', (S, "    n_err = n_err[good].flatten()\n", "    n_err = n_err[np.argwhere(np.isfinite(n_err))].flatten()\n")),
        ('cov-trunc', (S, LV, "    lvcov = lvcov[:good.__len__(), :good.__len__()]\n")),
        ('cov-rows', (S, LV, "    lvcov = lvcov[good.flatten(), :][:, np.arange(good.__len__())]\n")),
('sort-err', (S, "    n_err = n_err[sorted_index]\n", "")),
        ('sort-y', (S, "    y = y[sorted_index]\n    n_err = n_err[sorted_index]\n", "    y = y[np.argsort(y, kind='stable')]\n    n_err = n_err[sorted_index]\n")),
        ('sort-cov', (S, "    lvcov = lvcov[np.ix_(sorted_index, sorted_index)]\n", "")),
        ('sort-cov-rows', (S, "    lvcov = lvcov[np.ix_(sorted_index, sorted_index)]\n", "    lvcov = lvcov[sorted_index, :]\n")),
        ('sort-first', (S, "    sorted_index = np.argsort(x, kind='stable')\n    x = x[sorted_index]\n", "    x = np.sort(x)\n    sorted_index = np.argsort(x, kind='stable')\n")),
        ('mask-x', (S, XF, "    n_err = n_err[np.argwhere(np.isfinite(n_err))].flatten()\n    x = x[good].flatten()\n    y = y[good].flatten()\n")),
        ('sta-next', (S, STA, STA.replace('ip_1[index][0, 0] + 1', 'ip_1[index + 1][0, 0] + 1').replace('ip_1[index + 1][0, 0] + 1)]', 'ip_1[index + 2][0, 0] + 1)]') if 0 else STA.replace("ip_1[index][0, 0] + 1,", "ip_1[index][0, 0],"))),
        ):
    bug('C35', nm, *ed)
same('c35-ix', (S, LV, "    keep = good.flatten()\n    lvcov = lvcov[np.ix_(keep, keep)]\n"))
same('c35-rows-cols', (S, LV, "    keep = good.flatten()\n    lvcov = lvcov[keep][:, keep]\n"))
same('c35-mask', (S, "    good = np.argwhere(np.isfinite(y) & np.isfinite(x))\n", "    valid = np.isfinite(y) & np.isfinite(x)\n    good = np.argwhere(valid)\n"), (S, XF, "    x, y, n_err = x[valid], y[valid], n_err[valid]\n"))
same('c35-enum', (S, LV, "    temp_lvcov = np.empty((good.__len__(), good.__len__()))\n    for ity, i in enumerate(good):\n        for itx, j in enumerate(good):\n            temp_lvcov[ity, itx] = lvcov[i, j]\n    lvcov = temp_lvcov\n"))
same('c35-helper', (S, SORT, "    x, y, n_err, lvcov = _ordered(x, y, n_err, lvcov)\n"), (S, "def fit_cond(", "def _ordered(x, y, n_err, lvcov):\n    order = np.argsort(x, kind='stable')\n    return x[order], y[order], n_err[order], lvcov[order, :][:, order]\n\n\ndef fit_cond("))
same('c35-ravel', (S, "    x = x.T.flatten()\n    y = y.T.flatten()\n    n_err = n_err.T.flatten()\n", "    x = np.ravel(x, order='F')\n    y = y.flatten('F')\n    n_err = np.transpose(n_err).reshape(-1)\n"))
same('c35-sortfilter', (S, "    y = y[sorted_index]\n    n_err = n_err[sorted_index]\n", "    y, n_err = [values[sorted_index] for values in (y, n_err)]\n"))
same('c35-diag', (S, "    w_i = np.diag(np.mean(err_var) / err_var)\n", "    weights = np.mean(err_var) / err_var\n    w_i = np.diag(weights)\n"))
# ---- C36
for nm, *ed in (
        ('x-back', (S, "    xfit = xfit * x_scale + x_0\n", "    xfit = xfit * x_scale\n")),
        ('x-back-factor', (S, "    xfit = xfit * x_scale + x_0\n", "    xfit = xfit / x_scale + x_0\n")),
        ('xfit-in', (S, "    xfit = (xfit - x_0) / x_scale\n", "    xfit = xfit / x_scale\n")),
        ('err-scale', (S, "    n_err = n_err / y_scale\n", "")),
        ('err-centre', (S, "    n_err = n_err / y_scale\n", "    n_err = (n_err - y_0) / y_scale\n")),
        ('breaks-in', (S, "                    breaks = (breaks - x_0) / x_scale\n", "")),
        ('breaks-in-zero', (S, "                    breaks = (breaks - x_0) / x_scale\n", "                    breaks = breaks / x_scale\n")),
        ('breaks-out', (S, "        break_pts = breaks * x_scale + x_0\n", "        break_pts = breaks * x_scale\n")),
        ('breaks-out-raw', (S, "        break_pts = breaks * x_scale + x_0\n", "        break_pts = breaks\n")),
        ('fit-zero', (S, "    yfit = yfit * y_scale + y_0\n", "    yfit = yfit * y_scale\n")),
        ('fit-order', (S, "    yfit = yfit * y_scale + y_0\n", "    yfit = (yfit + y_0) * y_scale\n")),
        ('err-root', (S, "    err = np.sqrt(err) * y_scale\n", "    err = err * y_scale\n")),
        ('err-inside', (S, "    err = np.sqrt(err) * y_scale\n", "    err = np.sqrt(err * y_scale)\n")),
        ('err-zero', (S, "    yerr = err\n", "    yerr = err + y_0\n")),
        ('slope-x', (S, "        A[1:best] = A[1:best] * y_scale / x_scale\n", "        A[1:best] = A[1:best] * y_scale\n")),
        ('slope-mul', (S, "        A[1:best] = A[1:best] * y_scale / x_scale\n", "        A[1:best] = A[1:best] * y_scale * x_scale\n")),
        ('slope-first', (S, "        A[1:best] = A[1:best] * y_scale / x_scale\n", "        A[2:best] = A[2:best] * y_scale / x_scale\n")),
        ('offset', (S, "    A[0] = A[0] * y_scale + y_0\n", "    A[0] = A[0] * y_scale\n")),
        ('offset-all', (S, "    A[0] = A[0] * y_scale + y_0\n", "    A = A * y_scale + y_0\n"), (S, "        A[1:best] = A[1:best] * y_scale / x_scale\n", "        A[1:best] = A[1:best] / x_scale\n")),
        ('slope-err', (S, "    coef_err = np.sqrt(P_2) * y_scale / x_scale\n", "    coef_err = np.sqrt(P_2)\n")),
        ('slope-err-var', (S, "    coef_err = np.sqrt(P_2) * y_scale / x_scale\n", "    coef_err = P_2 * y_scale / x_scale\n")),
        ('mean-zero', (S, "    sta_mean = sta_mean * y_scale + y_0\n", "    sta_mean = sta_mean * y_scale\n")),
        ('spread-zero', (S, "    sta_rms = sta_rms * y_scale\n", "    sta_rms = sta_rms * y_scale + y_0\n")),
        ('spread-root', (S, "            sta_rms[0, n] = np.sqrt(sta_rms[0, n])\n", "")),
        ('profile-raw', (S, "        index = np.argwhere(x_unique == xfit[n])\n", "        index = np.argwhere(x_unique * x_scale + x_0 == xfit[n])\n")),
        ('noise', (S, "            yf = real_yf + n_err * np.random.randn(yf.size)\n", "            yf = real_yf + n_err * y_scale * np.random.randn(yf.size)\n")),
        ('noise-var', (S, "            yf = real_yf + n_err * np.random.randn(yf.size)\n", "            yf = y + n_err * y_scale * np.random.randn(yf.size)\n")),
        ('y-unscaled', (S, "    yf = (y - y_0) / y_scale\n", "    yf = y - y_0\n")),
        ('sorter-units', (S, "    ixb = sorter(np.concatenate(([np.min(xfit)], break_pts)), xfit)\n", "    ixb = sorter(np.concatenate(([np.min(xfit)], breaks)), xfit)\n")),
        ):
    bug('C36', nm, *ed)
same('c36-helper', (S, "    xf = (x - x_0) / x_scale\n    yf = (y - y_0) / y_scale\n", "    xf = _scaled(x, x_0, x_scale)\n    yf = _scaled(y, y_0, y_scale)\n"), (S, "    yfit = yfit * y_scale + y_0\n", "    yfit = y_0 + y_scale * yfit\n"), (S, "def fit_cond(", "def _scaled(values, zero, factor):\n    return (values - zero) / factor\n\n\ndef fit_cond("))
same('c36-std', (S, "    y_scale = np.std(y)\n", "    y_scale = np.sqrt(np.mean((y - y_0) ** 2))\n"))
same('c36-range', (S, "    x_0 = (x[npts - 1] + x[0]) / 2\n", "    x_0 = 0.5 * (x[npts - 1] + x[0])\n"), (S, "        x_scale = (x[npts - 1] - x[0]) / 2\n", "        x_scale = x[npts - 1] - x_0\n"))
same('c36-err', (S, "    err = np.sqrt(err) * y_scale\n", "    err = np.sqrt(err * y_scale ** 2)\n"))
same('c36-slope', (S, "        A[1:best] = A[1:best] * y_scale / x_scale\n", "        slope_scale = y_scale / x_scale\n        A[1:best] = slope_scale * A[1:best]\n"))
same('c36-inplace', (S, "    sta_mean = sta_mean * y_scale + y_0\n    sta_rms = sta_rms * y_scale\n", "    sta_rms *= y_scale\n    sta_mean *= y_scale\n    sta_mean += y_0\n"))
same('c36-centre', (S, "    x_0 = (x[npts - 1] + x[0]) / 2\n", "    x_0 = x[0] + (x[npts - 1] - x[0]) / 2\n"))
same('c36-loop', (S, "        A[1:best] = A[1:best] * y_scale / x_scale\n", "        for k in range(1, best):\n            A[k] = A[k] * y_scale / x_scale\n"))
same('c36-rms', (S, "            sta_rms[0, n] = np.sum(w_values * (sta_mean[0, n] - yf_values) ** 2) / np.sum(w_values)\n            sta_rms[0, n] = np.sqrt(sta_rms[0, n])\n", "            spread = np.average((yf_values - sta_mean[0, n]) ** 2, weights=w_values)\n            sta_rms[0, n] = np.sqrt(spread)\n"))

# ---- C37, C38
for nm, *ed in (
        ('largest', (N, "        min_theta_index = np.argwhere(var_sal_tlevels == np.nanmin(var_sal_tlevels))[0, 0]\n", "        min_theta_index = np.argwhere(var_sal_tlevels == np.nanmax(var_sal_tlevels))[0, 0]\n")),
        ('no-nan', (N, "        min_theta_index = np.argwhere(var_sal_tlevels == np.nanmin(var_sal_tlevels))[0, 0]\n", "        min_theta_index = np.argmin(var_sal_tlevels)\n")),
        ('argmax', (N, "        min_theta_index = np.argwhere(var_sal_tlevels == np.nanmin(var_sal_tlevels))[0, 0]\n", "        min_theta_index = np.nanargmax(var_sal_tlevels)\n")),
        ('again', (N, "        var_sal_tlevels[min_theta_index] = np.nan\n", "")),
        ('blank-i', (N, "        var_sal_tlevels[min_theta_index] = np.nan\n", "        var_sal_tlevels[i] = np.nan\n")),
        ('p-row', (N, "        p_levels[i] = pres_levels[min_theta_index]\n", "        p_levels[i] = pres_levels[i]\n")),
        ('p-late', (N, "        p_levels[i] = pres_levels[min_theta_index]\n        var_sal_tlevels[min_theta_index] = np.nan\n", "        var_sal_tlevels[min_theta_index] = np.nan\n        p_levels[i] = pres_levels[np.nanargmin(var_sal_tlevels)]\n")),
        ('index-row', (N, "        index[i, :] = theta_level_indices[min_theta_index, :]\n", "        index[i, :] = theta_level_indices[i, :]\n")),
        ('percent-flip', (N, "    bad = np.argwhere(percent_s_profs < use_percent_gt)\n", "    bad = np.argwhere(percent_s_profs > use_percent_gt)\n")),
        ('percent-le', (N, "    bad = np.argwhere(percent_s_profs < use_percent_gt)\n", "    bad = np.argwhere(percent_s_profs <= use_percent_gt)\n")),
        ('percent-off', (N, "    var_sal_tlevels[bad] = np.nan\n", "")),
        ('var-mean', (N, "np.nanvar(sal_temp[i, good], ddof=1)", "np.nanmean(sal_temp[i, good])")),
        ('var-t', (N, "np.nanvar(sal_temp[i, good], ddof=1)", "np.nanvar(interp_t[i, good], ddof=1)")),
        ('var-row', (N, "np.nanvar(sal_temp[i, good], ddof=1)", "np.nanvar(sal_temp[0, good], ddof=1)")),
        ('count-nan', (N, "        good = np.argwhere(~np.isnan(sal_temp[i, :]))\n        num_good[i] = good.__len__()\n", "        good = np.argwhere(~np.isnan(sal_temp[i, :]))\n        num_good[i] = np.count_nonzero(np.isnan(sal_temp[i, :]))\n")),
        ('share-min', (N, "            percent_s_profs[j] = num_good[j] / np.nanmax(num_good)\n", "            percent_s_profs[j] = num_good[j] / np.nanmin(num_good)\n")),
        ('share-first', (N, "            percent_s_profs[j] = num_good[j] / np.nanmax(num_good)\n", "            percent_s_profs[j] = num_good[0] / np.nanmax(num_good)\n")),
        ('theta-max', (N, "            theta_levels[pres_i] = np.nanmean(interp_t[pres_i, good_interp_t])\n", "            theta_levels[pres_i] = np.nanmax(interp_t[pres_i, good_interp_t])\n")),
        ('theta-row', (N, "            theta_levels[pres_i] = np.nanmean(interp_t[pres_i, good_interp_t])\n", "            theta_levels[pres_i] = np.nanmean(interp_t[0, good_interp_t])\n")),
        ('interp-level', (N, "                    interp_t[pres_i, depth] = interp(pres_levels[pres_i])\n", "                    interp_t[pres_i, depth] = interp(pres_levels[0])\n")),
        ('interp-profile', (N, "                                                  ptmp[good, depth].flatten())\n", "                                                  ptmp[good, 0].flatten())\n")),
        ('interp-swap', (N, "                    interp = interpolate.interp1d(pres[good, depth].flatten(),\n                                                  ptmp[good, depth].flatten())\n", "                    interp = interpolate.interp1d(pres[good, depth].flatten(),\n                                                  sal[good, depth].flatten())\n")),
        ('closest-signed', (N, "                theta_diff = np.abs(ptmp[:, depth] - theta_levels[level])\n", "                theta_diff = ptmp[:, depth] - theta_levels[level]\n")),
        ('closest-far', (N, "                                                                       np.nanmin(theta_diff)))\n", "                                                                       np.nanmax(theta_diff)))\n")),
        ('range-open', (N, "            if np.nanmax(ptmp[:, depth]) > theta_levels[level] > np.nanmin(ptmp[:, depth]):\n", "            if np.nanmax(ptmp[:, depth]) > theta_levels[level]:\n")),
        ('range-first', (N, "            if np.nanmax(ptmp[:, depth]) > theta_levels[level] > np.nanmin(ptmp[:, depth]):\n", "            if np.nanmax(ptmp[:, 0]) > theta_levels[level] > np.nanmin(ptmp[:, 0]):\n")),
        ('closest-profile', (N, "                theta_diff = np.abs(ptmp[:, depth] - theta_levels[level])\n", "                theta_diff = np.abs(ptmp[:, 0] - theta_levels[level])\n")),
        ('closest-pres', (N, "                theta_diff = np.abs(ptmp[:, depth] - theta_levels[level])\n", "                theta_diff = np.abs(pres[:, depth] - theta_levels[level])\n")),
        ):
    bug('C37', nm, *ed)
same('c37-argmin', (N, "        min_theta_index = np.argwhere(var_sal_tlevels == np.nanmin(var_sal_tlevels))[0, 0]\n", "        min_theta_index = int(np.nanargmin(var_sal_tlevels))\n"))
same('c37-order', (N, "        t_levels[i] = theta_levels[min_theta_index]\n        p_levels[i] = pres_levels[min_theta_index]\n        var_sal_tlevels[min_theta_index] = np.nan\n", "        var_sal_tlevels[min_theta_index] = np.nan\n        p_levels[i] = pres_levels[min_theta_index]\n        t_levels[i] = theta_levels[min_theta_index]\n"))
same('c37-mask', (N, "    bad = np.argwhere(percent_s_profs < use_percent_gt)\n    var_sal_tlevels[bad] = np.nan\n", "    var_sal_tlevels[~(percent_s_profs >= use_percent_gt)] = np.nan\n"))
same('c37-std', (N, "        good = np.argwhere(~np.isnan(sal_temp[i, :]))\n        num_good[i] = good.__len__()\n", "        good = np.argwhere(~np.isnan(sal_temp[i, :]))\n        num_good[i] = np.sum(~np.isnan(sal_temp[i, :]))\n"))
same('c37-share', (N, "    for j in range(theta_levels.__len__()):\n        if np.nanmax(num_good) != 0:\n            percent_s_profs[j] = num_good[j] / np.nanmax(num_good)\n", "    most = np.nanmax(num_good)\n    for j in range(len(theta_levels)):\n        if most != 0:\n            percent_s_profs[j] = num_good[j] / most\n"))
same('c37-share-vec', (N, "    for j in range(theta_levels.__len__()):\n        if np.nanmax(num_good) != 0:\n            percent_s_profs[j] = num_good[j] / np.nanmax(num_good)\n", "    if np.nanmax(num_good) != 0:\n        percent_s_profs = num_good / np.nanmax(num_good)\n"))
same('c37-break', (N, "        if np.all(np.isnan(var_sal_tlevels)):\n            continue\n", "        if np.isnan(var_sal_tlevels).all():\n            break\n"))
same('c37-closest', (N, "            if np.all(np.isnan(theta_diff)):\n                theta_level_indices[level, depth] = np.nan\n\n            else:\n                theta_level_indices[level, depth] = np.min(np.argwhere(theta_diff ==\n                                                                       np.nanmin(theta_diff)))\n",
     "            if not np.all(np.isnan(theta_diff)):\n                theta_level_indices[level, depth] = np.nanargmin(theta_diff)\n"))
same('c37-theta', (N, "        good_interp_t = np.argwhere(~np.isnan(interp_t[pres_i, :]))\n\n        if good_interp_t.__len__() > 0:\n            theta_levels[pres_i] = np.nanmean(interp_t[pres_i, good_interp_t])\n", "        row = interp_t[pres_i]\n        if np.any(~np.isnan(row)):\n            theta_levels[pres_i] = np.mean(row[~np.isnan(row)])\n"))
same('c37-range', (N, "            if np.nanmax(ptmp[:, depth]) > theta_levels[level] > np.nanmin(ptmp[:, depth]):\n", "            column = ptmp[:, depth]\n            if np.nanmin(column) < theta_levels[level] and theta_levels[level] < np.nanmax(column):\n"))
for nm, *ed in (
        ('side', (N, "                if ptmp[theta_index, depth] > theta_levels[level]:\n", "                if ptmp[theta_index, depth] < theta_levels[level]:\n"), (N, "                if ptmp[theta_index, depth] < theta_levels[level]:\n                    neg", "                if ptmp[theta_index, depth] > theta_levels[level]:\n                    neg")),
        ('colder-side', (N, "                    pos_diff = np.argwhere(ptmp_diff > 0)\n", "                    pos_diff = np.argwhere(ptmp_diff < 0)\n")),
        ('warmer-far', (N, "                        min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))\n", "                        min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[neg_diff]))\n")),
        ('interval-up', (N, "                                     np.min([theta_index + 1, profile_no - 1]) + 1,\n", "                                     np.min([theta_index + 1, profile_no - 1]),\n")),
        ('interval-down', (N, "                interval = np.arange(np.max([theta_index - 1, 0]),\n", "                interval = np.arange(np.max([theta_index, 0]),\n")),
        ('pair-crossed', (N, "                                                           [sal[theta_index, depth],\n                                                            sal[k_index, depth]])\n", "                                                           [sal[k_index, depth],\n                                                            sal[theta_index, depth]])\n")),
        ('pair-profile', (N, "                                                           [sal[theta_index, depth],\n                                                            sal[k_index, depth]])\n", "                                                           [sal[theta_index, depth],\n                                                            sal[k_index, 0]])\n")),
        ('pair-missing', (N, "                if (k_index != theta_index and ~np.isnan(sal[theta_index, depth]) and\n                        ~np.isnan(sal[k_index, depth]) and ~np.isnan(ptmp[theta_index, depth]) and\n", "                if (k_index != theta_index and ~np.isnan(sal[theta_index, depth]) and\n                        ~np.isnan(ptmp[theta_index, depth]) and\n")),
        ('at-level', (N, "                    sal_temp[level, depth] = interp_ptmp_sal(theta_levels[level])\n", "                    sal_temp[level, depth] = interp_ptmp_sal(theta_levels[0])\n")),
        ('else-level', (N, "                    sal_temp[level, depth] = sal[theta_index, depth]\n", "                    sal_temp[level, depth] = sal[level, depth]\n")),
        ('plot-cal-map', (P, "                                                          [cal_sal[theta_index, j],\n                                                           cal_sal[k_index, j]])\n", "                                                          [map_sal[theta_index, j],\n                                                           cal_sal[k_index, j]])\n")),
        ('plot-cal-all', (P, "                                                          [cal_sal[theta_index, j],\n                                                           cal_sal[k_index, j]])\n", "                                                          [map_sal[theta_index, j],\n                                                           map_sal[k_index, j]])\n")),
        ('plot-err-swap', (P, "                                                              [map_sal_errors[theta_index, j],\n                                                               map_sal_errors[k_index, j]])\n", "                                                              [map_sal_errors[k_index, j],\n                                                               map_sal_errors[theta_index, j]])\n")),
        ('plot-else', (P, "                    s_cal_err[i, j] = cal_sal_errors[theta_index, j]\n", "                    s_cal_err[i, j] = map_sal_errors[theta_index, j]\n")),
        ('plot-else-profile', (P, "                    s_map[i, j] = map_sal[theta_index, j]\n", "                    s_map[i, j] = map_sal[theta_index, i]\n")),
        ('plot-level', (P, "                    s_cal[i, j] = interp_cal_sal(tlevels[i][0])\n", "                    s_cal[i, j] = interp_cal_sal(tlevels[0][0])\n")),
        ('plot-guard', (P, "                if ((k_index != theta_index and ~np.isnan(cal_sal[theta_index, j])) and\n                        ~np.isnan(cal_sal[k_index, j]) and", "                if ((k_index != theta_index and ~np.isnan(sal[theta_index, j])) and\n                        ~np.isnan(sal[k_index, j]) and")),
        ('plot-diff', (P, "                diff_theta = np.abs(ptmp[:, i] - tlevels[j])\n", "                diff_theta = np.abs(ptmp[:, i] - tlevels[0])\n")),
        ('plot-range', (P, "            if np.nanmax(ptmp[:, i]) > tlevels[j] > np.nanmin(ptmp[:, i]):\n", "            if np.nanmax(ptmp) > tlevels[j] > np.nanmin(ptmp):\n")),
        ('plot-x', (P, "                    interp_map_sal = interpolate.interp1d([ptmp[theta_index, j],\n                                                           ptmp[k_index, j]],\n", "                    interp_map_sal = interpolate.interp1d([pres[theta_index, j],\n                                                           pres[k_index, j]],\n")),
        ('plot-side', (P, "                    neg_diff = np.argwhere(ptmp_diff < 0)\n", "                    neg_diff = np.argwhere(ptmp_diff > 0)\n")),
        ('plot-interval', (P, "                                  np.min([theta_index + 1, pres.shape[0] - 1]) + 1,\n", "                                  np.min([theta_index, pres.shape[0] - 1]) + 1,\n")),
        ):
    bug('C38', nm, *ed)
same('c38-interval', (N, "                interval = np.arange(np.max([theta_index - 1, 0]),\n                                     np.min([theta_index + 1, profile_no - 1]) + 1,\n                                     dtype=int)\n", "                first = max(theta_index - 1, 0)\n                last = min(theta_index + 1, profile_no - 1)\n                interval = np.arange(first, last + 1, dtype=int)\n"))
same('c38-pair-order', (N, "                    interp_ptmp_sal = interpolate.interp1d([ptmp[theta_index, depth],\n                                                            ptmp[k_index, depth]],\n                                                           [sal[theta_index, depth],\n                                                            sal[k_index, depth]])\n", "                    interp_ptmp_sal = interpolate.interp1d([ptmp[k_index, depth],\n                                                            ptmp[theta_index, depth]],\n                                                           [sal[k_index, depth],\n                                                            sal[theta_index, depth]])\n"))
same('c38-helper', (P, "                    interp_cal_sal_err = interpolate.interp1d([ptmp[theta_index, j],\n                                                               ptmp[k_index, j]],\n                                                              [cal_sal_errors[theta_index, j],\n                                                               cal_sal_errors[k_index, j]])\n", "                    interp_cal_sal_err = _between(ptmp, cal_sal_errors, theta_index, k_index, j)\n"), (P, "def sal_var_plot(", "def _between(temp, values, near, other, col):\n    return interpolate.interp1d([temp[near, col], temp[other, col]], [values[near, col], values[other, col]])\n\n\ndef sal_var_plot("))
same('c38-elif', (P, "                if ptmp[theta_index, j] < tlevels[i]:\n", "                elif ptmp[theta_index, j] < tlevels[i]:\n"), (P, "                if ptmp[theta_index, j] == tlevels[i]:\n                    k_index = theta_index\n", "                else:\n                    k_index = theta_index\n"))
same('c38-neg', (P, "                        min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))\n", "                        min_diff = np.argwhere(ptmp_diff == np.nanmax(ptmp_diff[neg_diff]))\n"))
same('c38-finite', (P, "                if ((k_index != theta_index and ~np.isnan(cal_sal[theta_index, j])) and\n                        ~np.isnan(cal_sal[k_index, j]) and", "                if ((k_index != theta_index and np.isfinite(cal_sal[theta_index, j])) and\n                        np.isfinite(cal_sal[k_index, j]) and"))
same('c38-loops', (P, "    for i in range(levels):\n        for j in range(no_profiles):\n            theta_index = thetalevel_index[i, j]\n", "    for j in range(no_profiles):\n        for i in range(levels):\n            theta_index = thetalevel_index[i, j]\n"))
same('c38-continue', (N, "            if ~np.isnan(theta_index):\n                theta_index = int(theta_index)\n", "            if np.isnan(theta_index):\n                continue\n            if True:\n                theta_index = int(theta_index)\n"))
same('c38-squared', (P, "                diff_theta = np.abs(ptmp[:, i] - tlevels[j])\n", "                diff_theta = (tlevels[j] - ptmp[:, i]) ** 2\n"))

# ---- C39
for nm, *ed in (
        ('dash-cal', (D, "    theta_sal_plot(copy.deepcopy(cal_sal).transpose(),\n", "    theta_sal_plot(copy.deepcopy(sal).transpose(),\n")),
        ('dash-anom', (D, "    sal_anom_plot(copy.deepcopy(cal_sal), copy.deepcopy(ptmp), profile_no, config, float_name, \"calibrated\")", "    sal_anom_plot(copy.deepcopy(sal), copy.deepcopy(ptmp), profile_no, config, float_name, \"calibrated\")")),
        ('dash-title', (D, "profile_no[0], config, float_name, \"calibrated\")", "profile_no[0], config, float_name, \"uncalibrated\")")),
        ('dash-var', (D, "                 copy.deepcopy(cal_sal), copy.deepcopy(cal_sal_err),\n", "                 copy.deepcopy(sta_sal), copy.deepcopy(cal_sal_err),\n")),
        ('dash-var-err', (D, "                 copy.deepcopy(cal_sal), copy.deepcopy(cal_sal_err),\n", "                 copy.deepcopy(cal_sal), copy.deepcopy(sta_sal_err),\n")),
        ('dash-curve', (D, "                       copy.deepcopy(cal_sal_err), sta_sal,\n                       sta_sal_err, sta_mean, pcond_factor,\n", "                       sta_sal_err, sta_sal,\n                       copy.deepcopy(cal_sal_err), sta_mean, pcond_factor,\n")),
        ('dash-pcond', (D, "sta_sal_err, sta_mean, pcond_factor,\n                       pcond_factor_err,", "sta_sal_err, pcond_factor, sta_mean,\n                       pcond_factor_err,")),
        ('var-swap-label', (P, "        plt.plot(profile_no, s_int[i, :], marker='o', color='b',\n                 label='uncalibrated float')\n", "        plt.plot(profile_no, s_cal[i, :], marker='o', color='b',\n                 label='uncalibrated float')\n")),
        ('var-mapped', (P, "        plt.plot(profile_no, s_map[i, :], color='r',\n                 label='mapped salinity')\n", "        plt.plot(profile_no, s_int[i, :], color='r',\n                 label='mapped salinity')\n")),
        ('var-err', (P, "        plt.errorbar(profile_no, s_map[i], yerr=s_map_err[i], color='r', capsize=2)\n", "        plt.errorbar(profile_no, s_map[i], yerr=s_cal_err[i], color='r', capsize=2)\n")),
        ('var-err-level', (P, "        plt.errorbar(profile_no, s_map[i], yerr=s_map_err[i], color='r', capsize=2)\n", "        plt.errorbar(profile_no, s_map[i], yerr=s_map_err[0], color='r', capsize=2)\n")),
        ('band-side', (P, "                         s_cal[i, good_index] - s_cal_err[i, good_index], color=(0, 1, 0))\n", "                         s_cal[i, good_index] + s_cal_err[i, good_index], color=(0, 1, 0))\n")),
        ('band-x', (P, "        plt.fill_between(profile_no[good_index], s_cal[i, good_index] + s_cal_err[i, good_index],\n", "        plt.fill_between(profile_no[:np.sum(good_index)], s_cal[i, good_index] + s_cal_err[i, good_index],\n")),
        ('band-map', (P, "                         s_cal[i, good_index] - s_cal_err[i, good_index], color=(0, 1, 0))\n", "                         s_cal[i, good_index] - s_map_err[i, good_index], color=(0, 1, 0))\n")),
        ('curve-2x', (P, "            plt.errorbar(profile_no[0], pcond_factor[0], yerr=2 * pcond_factor_err[0],\n", nth(0, "            plt.errorbar(profile_no[0], pcond_factor[0], yerr=pcond_factor_err[0],\n")) if False else (P, "yerr=2 * pcond_factor_err[0],", "yerr=pcond_factor_err[0],")),
        ('curve-1x', (P, "        plt.errorbar(profile_no[0], avg_sal_offset, yerr=avg_sal_offset_err,", "        plt.errorbar(profile_no[0], avg_sal_offset, yerr=2 * avg_sal_offset_err,")),
        ('curve-err', (P, "        plt.errorbar(profile_no[0], avg_sal_offset, yerr=avg_sal_offset_err,", "        plt.errorbar(profile_no[0], avg_sal_offset, yerr=avg_sta_offset_err,")),
        ('curve-off', (P, "        sta_offset = sta_sal - sal\n", "        sta_offset = sta_sal - cal_sal\n")),
        ('curve-neg', (P, "        sal_offset = cal_sal - sal\n", "        sal_offset = sal - cal_sal\n")),
        ('curve-profile', (P, "            avg_sta_offset[i] = np.nanmean(sta_offset[:, i])\n", "            avg_sta_offset[i] = np.nanmean(sta_offset[i, :])\n")),
        ('curve-mean', (P, "            avg_sal_offset[i] = np.nanmean(sal_offset[:, i])\n", "            avg_sal_offset[i] = np.nanmedian(sal_offset[:, i])\n")),
        ('curve-mean-nan', (P, "            avg_sal_offset[i] = np.nanmean(sal_offset[:, i])\n", "            avg_sal_offset[i] = np.mean(sal_offset[:, i])\n")),
        ('curve-x', (P, "        plt.plot(profile_no[0, good[:, 0]], avg_sta_offset[good[:, 0]],\n", "        plt.plot(profile_no[0], avg_sta_offset[good[:, 0]],\n")),
        ('curve-good', (P, "        good = np.argwhere(np.isfinite(avg_sta_offset))\n        plt.plot(profile_no[0, good[:, 0]]", "        kept = np.argwhere(np.isfinite(avg_sal_offset))\n        good = np.argwhere(np.isfinite(avg_sta_offset))\n        plt.plot(profile_no[0, kept[:, 0]]")),
        ('curve-first', (P, "        plt.plot(profile_no[0, good[:, 1]], sta_mean[0, good[:, 1]],\n", "        plt.plot(profile_no[0, good[:, 1]], pcond_factor[0, good[:, 1]],\n")),
        ('ts-map', (P, "            plt.errorbar(map_sal[j, i],\n                         map_theta[j, i],\n                         xerr=map_errors[j, i],\n", "            plt.errorbar(map_sal[j, i],\n                         map_theta[j, i],\n                         xerr=map_errors[j, 0],\n")),
        ('ts-theta', (P, "                         map_theta[j, i],\n", "                         map_theta[i, j],\n")),
        ('ts-index', (P, "        good_index = np.array(index[good, i], dtype=int)\n", "        good_index = np.array(index[good, 0], dtype=int)\n")),
        ('prof-axes', (P, "    plt.plot(ptmp, -1 * pres, color='b', linewidth=0.5)\n", "    plt.plot(sal, -1 * pres, color='b', linewidth=0.5)\n")),
        ('prof-levels', (P, "    for i in plevels:\n        plt.axhline(y=-i, color=(0, 1, 0), linestyle='-', linewidth=0.5)\n", nth(0, "    for i in plevels:\n        plt.axhline(y=i, color=(0, 1, 0), linestyle='-', linewidth=0.5)\n"))),
        ('prof-tlev', (D, "    tlevels = thetas[0]\n    plevels = thetas[1]\n", "    tlevels = thetas[1]\n    plevels = thetas[0]\n")),
        ('prof-var', (D, "    sal_var = thetas[3]\n    theta_levels = thetas[4]\n", "    sal_var = thetas[4]\n    theta_levels = thetas[3]\n")),
        ('anom-sub', (P, "        sal_anom[:, k] = sal_int[:, k] - sal_med\n", "        sal_anom[:, k] = sal_int[:, k] - sal_std\n")),
        ('anom-first', (P, "        sal_anom[:, k] = sal_int[:, k] - sal_med\n", "        sal_anom[:, k] = sal_int[:, 0] - sal_med\n")),
        ('anom-mean', (P, "            sal_med[i] = np.nanmedian(sal_1[good, i])\n", "            sal_med[i] = np.nanmean(sal_1[good, i])\n")),
        ('traj', (P, "        data=floats,\n", "        data=climatology,\n")),
        ('traj-axes', (P, "        \"Longitude\",\n        \"Latitude\",\n        data=climatology,\n", "        \"Latitude\",\n        \"Longitude\",\n        data=climatology,\n")),
        ):
    bug('C39', nm, *ed)
same('c39-dash-kw', (D, "    sal_anom_plot(copy.deepcopy(cal_sal), copy.deepcopy(ptmp), profile_no, config, float_name, \"calibrated\")", "    sal_anom_plot(copy.deepcopy(cal_sal), copy.deepcopy(ptmp), profile_no, config, float_name, title=\"calibrated\")"))
same('c39-helper', (P, "            plt.errorbar(map_sal[j, i],\n                         map_theta[j, i],\n                         xerr=map_errors[j, i],\n                         marker='o', color=colors[i], fillstyle='none', zorder=10)\n", "            _mark(map_sal, map_theta, map_errors, j, i, colors[i])\n"), (P, "def theta_sal_plot(", "def _mark(values, levels, errs, row, col, colour):\n    plt.errorbar(values[row, col], levels[row, col], xerr=errs[row, col],\n                 marker='o', color=colour, fillstyle='none', zorder=10)\n\n\ndef theta_sal_plot("))
same('c39-vector-mean', (P, "        for i in range(profiles):\n            avg_sal_offset[i] = np.nanmean(sal_offset[:, i])\n            avg_sal_offset_err[i] = np.nanmean(cal_sal_err[:, i])\n            avg_sta_offset[i] = np.nanmean(sta_offset[:, i])\n            avg_sta_offset_err[i] = np.nanmean(sta_sal_err[:, i])\n",
     "        avg_sal_offset = np.nanmean(sal_offset, axis=0)\n        avg_sal_offset_err = np.nanmean(cal_sal_err, axis=0)\n        avg_sta_offset = np.nanmean(sta_offset, axis=0)\n        avg_sta_offset_err = np.nanmean(sta_sal_err, axis=0)\n"))
same('c39-two-loops', (P, "            avg_sta_offset[i] = np.nanmean(sta_offset[:, i])\n            avg_sta_offset_err[i] = np.nanmean(sta_sal_err[:, i])\n", "        for j in range(sal.shape[1]):\n            avg_sta_offset[j] = np.nanmean(sta_offset[:, j])\n            avg_sta_offset_err[j] = np.nanmean(sta_sal_err[:, j])\n"))
same('c39-neg-pres', (P, "    plt.plot(ptmp, -1 * pres, color='b', linewidth=0.5)\n", "    depth = -pres\n    plt.plot(ptmp, depth, color='b', linewidth=0.5)\n"))
same('c39-finite-x', (P, "        good = np.argwhere(np.isfinite(avg_sta_offset))\n        plt.plot(profile_no[0, good[:, 0]], avg_sta_offset[good[:, 0]],\n", "        good = np.isfinite(avg_sta_offset)\n        plt.plot(profile_no[0][good], avg_sta_offset[good],\n"))
same('c39-band', (P, "        plt.fill_between(profile_no[good_index], s_cal[i, good_index] + s_cal_err[i, good_index],\n                         s_cal[i, good_index] - s_cal_err[i, good_index], color=(0, 1, 0))\n", "        mid, half = s_cal[i, good_index], s_cal_err[i, good_index]\n        plt.fill_between(profile_no[good_index], mid - half, mid + half, color=(0, 1, 0))\n"))
same('c39-anom-vec', (P, "    for k in range(int(prof_range[0]), int(prof_range[1] + 1)):\n        sal_anom[:, k] = sal_int[:, k] - sal_med\n", "    first, last = int(prof_range[0]), int(prof_range[1] + 1)\n    for k in range(first, last):\n        column = sal_int[:, k]\n        sal_anom[:, k] = column - sal_med\n"))

# ---- C40
for nm, *ed in (
        ('swap-scales', (S, "upper_interp = interpolate.interp1d(ptboundaries, ptscale_down)", "upper_interp = interpolate.interp1d(ptboundaries, ptscale_up)"), (S, "lower_interp = interpolate.interp1d(ptboundaries, ptscale_up)", "lower_interp = interpolate.interp1d(ptboundaries, ptscale_down)")),
        ('table', (S, "    ptscale_up = np.array([6, 6, 6, 6, 4, 4, 1.5, 1.5, 1])\n\n    # Set up the building tile", "    ptscale_up = np.array([6, 6, 6, 4, 4, 4, 1.5, 1.5, 1])\n\n    # Set up the building tile")),
        ('bounds', (S, "ptboundaries = np.array([30, 24, 18, 12, 8, 4, 2.5, 1, -2])", "ptboundaries = np.array([30, 24, 18, 12, 8, 4, 3.5, 1, -2])")),
        ('at-j', (S, "l_theta = upper_interp(ptmp[i, profile])", "l_theta = upper_interp(ptmp[j, profile])")),
        ('at-first', (S, "l_theta = lower_interp(ptmp[i, profile])", "l_theta = lower_interp(ptmp[i, 0])")),
        ('no-square', (S, "                    cov[i + profile_1, j] = np.exp(-1 * (ptmp[j, profile] - ptmp[i, profile]) ** 2\n                                                   / l_theta ** 2)\n\n                # belongs in the lower", "                    cov[i + profile_1, j] = np.exp(-1 * (ptmp[j, profile] - ptmp[i, profile]) ** 2\n                                                   / l_theta)\n\n                # belongs in the lower")),
        ('side', (S, "                if i < j:\n                    l_theta = upper_interp", "                if i > j:\n                    l_theta = upper_interp"), (S, "                elif i > j:\n                    l_theta = lower", "                elif i < j:\n                    l_theta = lower")),
        ('diag', (S, "                else:\n                    cov[i + profile_1, j] = 1\n", "                else:\n                    cov[i + profile_1, j] = 0\n")),
        ('nan-zero', (S, "                if np.isnan(cov[i + profile_1, j]):\n                    cov[i + profile_1, j] = 1", "                if np.isnan(cov[i + profile_1, j]):\n                    cov[i + profile_1, j] = 0")),
        ('nan-none', (S, "                if np.isnan(cov[i + profile_1, j]):\n                    cov[i + profile_1, j] = 1", "                if np.isnan(l_theta):\n                    cov[i + profile_1, j] = 1") if False else (S, "                # if we don't have a value, make it equal to 1\n                if np.isnan(cov[i + profile_1, j]):\n                    cov[i + profile_1, j] = 1\n", "")),
        ('row-stride', (S, "        profile_1 = profile * ptmp_rows\n", "        profile_1 = profile * ptmp_columns\n")),
        ('h-row', (S, "covarxy_pv(coord_float[profile], coord_float,", "covarxy_pv(coord_float[0], coord_float,")),
        ('h-transposed-ok-not', (S, "n_cov[lower:upper, lower_1:upper_1] = h_cov[profile, profile_1] * \\", "n_cov[lower:upper, lower_1:upper_1] = h_cov[profile, profile] * \\")),
        ('h-own-row', (S, "n_cov[lower:upper, lower_1:upper_1] = h_cov[profile, profile_1] * \\", "n_cov[lower:upper, lower_1:upper_1] = h_cov[0, profile_1] * \\")),
        ('block-cols', (S, "        for profile_1 in range(0, ptmp_columns):\n            lower_1 = profile_1 * ptmp_rows\n", "        for profile_1 in range(1, ptmp_columns):\n            lower_1 = profile_1 * ptmp_rows\n")),
        ('block-later', (S, "        for profile_1 in range(0, ptmp_columns):\n            lower_1 = profile_1 * ptmp_rows\n", "        for profile_1 in range(profile, ptmp_columns):\n            lower_1 = profile_1 * ptmp_rows\n")),
        ('block-short', (S, "            upper_1 = (profile_1 + 1) * ptmp_rows\n", "            upper_1 = (profile_1 + 1) * ptmp_rows - 1\n")),
        ('block-other', (S, "                                                  n_cov[lower:upper, lower_1:upper_1]\n", "                                                  n_cov[lower_1:upper_1, lower:upper]\n")),
        ('levels-short', (S, "            for j in range(0, ptmp_rows):\n\n                # belongs in the upper", "            for j in range(0, ptmp_rows - 1):\n\n                # belongs in the upper")),
        ('large', (S, "config['MAPSCALE_LONGITUDE_SMALL'],\n                                       config['MAPSCALE_LATITUDE_SMALL'],", "config['MAPSCALE_LONGITUDE_LARGE'],\n                                       config['MAPSCALE_LATITUDE_LARGE'],")),
        ('no-h', (S, "            n_cov[lower:upper, lower_1:upper_1] = h_cov[profile, profile_1] * \\\n                                                  n_cov[lower:upper, lower_1:upper_1]\n", "            n_cov[lower:upper, lower_1:upper_1] = n_cov[lower:upper, lower_1:upper_1]\n")),
        ('add-h', (S, "h_cov[profile, profile_1] * \\", "h_cov[profile, profile_1] + \\")),
        ):
    bug('C40', nm, *ed)
same('c40-continue', (S, "                if i < j:\n                    l_theta = upper_interp(ptmp[i, profile])\n                    cov[i + profile_1, j] = np.exp(-1 * (ptmp[j, profile] - ptmp[i, profile]) ** 2\n                                                   / l_theta ** 2)\n", "                if j > i:\n                    step = (ptmp[i, profile] - ptmp[j, profile]) / upper_interp(ptmp[i, profile])\n                    cov[i + profile_1, j] = np.exp(-step * step)\n"))
same('c40-interp', (S, "l_theta = upper_interp(ptmp[i, profile])", "l_theta = np.interp(ptmp[i, profile], ptboundaries[::-1], ptscale_down[::-1])") if False else (S, "upper_interp = interpolate.interp1d(ptboundaries, ptscale_down)", "upper_interp = interpolate.interp1d(ptboundaries[::-1], ptscale_down[::-1])"))
same('c40-hoist', (S, "        for i in range(0, ptmp_rows):\n            for j in range(0, ptmp_rows):\n\n                # belongs in the upper triangle, look down water column for vertical scale\n                if i < j:\n                    l_theta = upper_interp(ptmp[i, profile])\n", "        for i in range(0, ptmp_rows):\n            here = ptmp[i, profile]\n            for j in range(0, ptmp_rows):\n\n                # belongs in the upper triangle, look down water column for vertical scale\n                if i < j:\n                    l_theta = upper_interp(here)\n"))
same('c40-order', (S, "        for i in range(0, ptmp_rows):\n            for j in range(0, ptmp_rows):\n\n                # belongs in the upper", "        for j in range(0, ptmp_rows):\n            for i in range(0, ptmp_rows):\n\n                # belongs in the upper"))
same('c40-helper', (S, "                    cov[i + profile_1, j] = np.exp(-1 * (ptmp[j, profile] - ptmp[i, profile]) ** 2\n                                                   / l_theta ** 2)\n\n                # it is", "                    cov[i + profile_1, j] = _decay(ptmp[:, profile], i, j, l_theta)\n\n                # it is"), (S, "def build_cov(", "def _decay(column, here, there, scale):\n    return np.exp(-((column[there] - column[here]) / scale) ** 2)\n\n\ndef build_cov("))
same('c40-nan-num', (S, "                # if we don't have a value, make it equal to 1\n                if np.isnan(cov[i + profile_1, j]):\n                    cov[i + profile_1, j] = 1\n", ""), (S, "    # set up matrix to hold horizontal covariance\n", "    cov[np.isnan(cov)] = 1\n\n    # set up matrix to hold horizontal covariance\n"))
same('c40-blocks', (S, "            lower_1 = profile_1 * ptmp_rows\n            upper_1 = (profile_1 + 1) * ptmp_rows\n            n_cov[lower:upper, lower_1:upper_1] = h_cov[profile, profile_1] * \\\n                                                  n_cov[lower:upper, lower_1:upper_1]\n", "            lower_1 = profile_1 * ptmp_rows\n            upper_1 = lower_1 + ptmp_rows\n            n_cov[lower:upper, lower_1:upper_1] *= h_cov[profile, profile_1]\n"))
same('c40-from-tile', (S, "h_cov[profile, profile_1] * \\\n                                                  n_cov[lower:upper, lower_1:upper_1]\n", "h_cov[profile, profile_1] * cov[lower:upper]\n"), (S, "    n_cov = np.tile(cov, [1, ptmp_columns])\n", "    n_cov = np.zeros((cov.shape[0], cov.shape[0]))\n"))
same('c40-slice', (S, "    h_cov = h_cov[:, 0:ptmp_columns]\n\n", ""))
same('c40-list', (S, "    h_cov = np.ones((ptmp_columns, ptmp_columns)) * np.nan\n\n    for profile in range(0, ptmp_columns):\n        h_cov[profile, :] = covarxy_pv(coord_float[profile], coord_float,\n                                       config['MAPSCALE_LONGITUDE_SMALL'],\n                                       config['MAPSCALE_LATITUDE_SMALL'],\n                                       config['MAPSCALE_PHI_SMALL'],\n                                       config['MAP_USE_PV'])\n", "    scales = (config['MAPSCALE_LONGITUDE_SMALL'], config['MAPSCALE_LATITUDE_SMALL'], config['MAPSCALE_PHI_SMALL'])\n    h_cov = np.array([covarxy_pv(coord_float[k], coord_float, *scales, config['MAP_USE_PV']) for k in range(ptmp_columns)])\n"))

# ---- C41
_B1 = "        trends[ixb_j, j + 1] = x_obvs[ixb_j] - btem[j]\n"
_B2 = "            trends[ixb_g_j, j + 1] = btem[j + 1] - btem[j]\n"
_P1 = "            # point to x values greater than break j\n            ib = np.argwhere(ixb == j)\n            E[ib, j + 1] = xfit[ib] - btem[j]\n"
_P2 = "            ii = np.argwhere(ixb > j)\n\n            if ii.__len__() > 0:\n                E[ii, j + 1] = btem[j + 1] - btem[j]\n\n    # fit the values"
for nm, *ed in (
        ('fit-first', (S, _B1, "        trends[ixb_j, j + 1] = x_obvs[ixb_j] - btem[0]\n")),
        ('fit-after', (S, _B2, "            trends[ixb_g_j, j + 1] = btem[j + 1]\n")),
        ('fit-ge', (S, "        ixb_g_j = np.argwhere(ixb > j)  # point", "        ixb_g_j = np.argwhere(ixb >= j)  # point")),
        ('fit-le', (S, "        ixb_g_j = np.argwhere(ixb > j)  # point", "        ixb_g_j = np.argwhere(ixb > j + 1)  # point")),
        ('fit-intercept', (S, "    trends[:, 0] = np.ones(x_length)\n", "    trends[:, 0] = x_obvs\n")),
        ('fit-start', (S, "    btem = np.concatenate(([x_obvs[0]], breaks))\n", "    btem = np.concatenate(([-1], breaks))\n")),
        ('fit-minx', (S, "    btem = np.concatenate(([x_obvs[0]], breaks))\n", "    btem = np.concatenate(([np.mean(x_obvs)], breaks))\n")),
        ('fit-weights-half', (S, "        fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)\n", "        fit_param = np.dot(linalg.solve(ls_est, trends.T), y_obvs)\n")),
        ('fit-weights-normal', (S, "        ls_est = np.dot(np.dot(trends.T, w_i), trends)\n", "        ls_est = np.dot(trends.T, trends)\n")),
        ('fit-weights-swap', (S, "    # calculate fit parameters\n    if w_i.__len__() > 0:\n", "    # calculate fit parameters\n    if w_i.__len__() > 1000:\n") if False else (S, "        fit_param = linalg.solve(ls_est, np.dot(trends.T, y_obvs))\n", "        fit_param = linalg.solve(ls_est, np.dot(trends.T, y_obvs - y_obvs[0]))\n")),
        ('fit-weights-sq', (S, "        fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)\n", "        fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), np.dot(w_i, w_i)), y_obvs)\n")),
        ('fit-resid', (S, "    residual = y_obvs - np.dot(trends, fit_param)\n\n    return fit_param", "    residual = np.dot(trends, fit_param) - y_obvs\n\n    return fit_param")),
        ('curve-first', (S, _P1, _P1.replace("xfit[ib] - btem[j]", "xfit[ib] - btem[0]"))),
        ('curve-after', (S, _P2, _P2.replace("btem[j + 1] - btem[j]", "btem[j + 1] - btem[0]"))),
        ('curve-mask', (S, _P2, _P2.replace("ixb > j", "ixb >= j"))),
        ('curve-origin', (S, "    btem = np.concatenate(([xf[0]], breaks))\n    E = np.zeros((xfit", "    btem = np.concatenate(([xfit[0]], breaks))\n    E = np.zeros((xfit")),
        ('cov-origin', (S, "    btem = np.concatenate(([xf[0]], breaks))\n    E = np.zeros((npts", "    btem = np.concatenate(([x_unique[1]], breaks))\n    E = np.zeros((npts")),
        ('cov-mask', (S, "            ib = np.argwhere(ixb == j)\n            E[ib, j + 1] = xf[ib] - btem[j]\n            ii = np.argwhere(ixb > j)\n", "            ib = np.argwhere(ixb == j)\n            E[ib, j + 1] = xf[ib] - btem[j]\n            ii = np.argwhere(ixb > j + 1)\n")),
        ('cov-sign', (S, "            E[ib, j + 1] = xf[ib] - btem[j]\n", "            E[ib, j + 1] = btem[j] - xf[ib]\n")),
        ('refit-origin', (S, "                btem = np.concatenate(([xf[0]], breaks))\n", "                btem = np.concatenate(([xfit[0]], breaks))\n")),
        ('refit-after', (S, "                    if ii.__len__() > 0:\n                        E[ii, j + 1] = btem[j + 1] - btem[j]\n", "                    if ii.__len__() > 0:\n                        E[ii, j + 1] = btem[j] - btem[j + 1]\n")),
        ('refit-range', (S, "                for j in range(best - 1):\n                    # pointer to x values", "                for j in range(best - 2):\n                    # pointer to x values")),
        ('coef-column', (S, "    A = b_A[0:best, best - 1]\n", "    A = b_A[0:best, -1]\n")),
        ('coef-rows', (S, "    A = b_A[0:best, best - 1]\n", "    A = b_A[0:best, best - 2]\n")),
        ('breaks-column', (S, "        breaks = b_pts[np.arange(0, best - 2), best - 2].T\n", "        breaks = b_pts[np.arange(0, best - 2), best - 1].T\n")),
        ('breaks-fewer', (S, "        breaks = b_pts[np.arange(0, best - 2), best - 2].T\n", "        breaks = b_pts[np.arange(0, best - 3), best - 2].T\n")),
        ('axis', (S, "    xfit = (xfit - x_0) / x_scale\n", "    xfit = (xfit - xfit.mean()) / x_scale\n")),
        ('sorter-unstable', (U if False else T, "index = np.argsort(all_sites, kind='stable')", "index = np.argsort(all_sites)")),
        ('sorter-order', (T, "    all_sites = np.concatenate((msites.flatten(), sites.flatten()))\n", "    all_sites = np.concatenate((sites.flatten(), msites.flatten()))\n")),
        ('sorter-off', (T, "np.arange(1, sites.__len__() + 1))", "np.arange(sites.__len__()))")),
        ('sorter-thresh', (T, "index > msites.__len__() - 1", "index > msites.__len__()")),
        ('sorter-left', (T, "    pointer = (np.argwhere(index > msites.__len__() - 1).flatten() - \\\n               np.arange(1, sites.__len__() + 1))\n", "    pointer = np.searchsorted(msites.flatten(), sites.flatten()) - 1\n")),
        ('slope-piece', (S, "            time_deriv[ib] = A[j + 1]\n", "            time_deriv[ib] = A[j]\n")),
        ('slope-err-piece', (S, "            time_deriv_err[ib] = coef_err[j + 1]\n", "            time_deriv_err[ib] = coef_err[j]\n")),
        ):
    bug('C41', nm, *ed)
same('c41-searchsorted', (T, "    pointer = (np.argwhere(index > msites.__len__() - 1).flatten() - \\\n               np.arange(1, sites.__len__() + 1))\n", "    pointer = np.searchsorted(msites.flatten(), sites.flatten(), side='right') - 1\n"))
same('c41-helper', (S, "    btem = np.concatenate(([xf[0]], breaks))\n    E = np.zeros((xfit.__len__(), best))\n    E[:, 0] = np.ones((xfit.__len__(), 1)).T\n    ixb = sorter(btem, xfit)\n\n    if best >= 2:\n        for j in range(best - 1):\n            # point to x values greater than break j\n            ib = np.argwhere(ixb == j)\n            E[ib, j + 1] = xfit[ib] - btem[j]\n            # point to x values less than the one just below x\n            ii = np.argwhere(ixb > j)\n\n            if ii.__len__() > 0:\n                E[ii, j + 1] = btem[j + 1] - btem[j]\n",
     "    E = _pieces(np.concatenate(([xf[0]], breaks)), xfit, best)\n"), (S, "def brk_pt_fit(", "def _pieces(bounds, places, columns):\n    matrix = np.zeros((places.__len__(), columns))\n    matrix[:, 0] = 1\n    segment = sorter(bounds, places)\n    for k in range(columns - 1):\n        inside = segment == k\n        matrix[inside, k + 1] = places[inside] - bounds[k]\n        beyond = segment > k\n        if np.any(beyond):\n            matrix[beyond, k + 1] = bounds[k + 1] - bounds[k]\n    return matrix\n\n\ndef brk_pt_fit("))
same('c41-where', (S, _B1, "        inside = ixb == j\n        trends[inside, j + 1] = -btem[j] + x_obvs[inside]\n"))
same('c41-order', (S, "        ixb_j = np.argwhere(ixb == j)  # point to x values greater than break point\n" + _B1 + "        ixb_g_j = np.argwhere(ixb > j)  # point to values less than the\n\n        if ixb_g_j.__len__() > 0:\n" + _B2, "        later = np.flatnonzero(ixb >= j + 1)\n        if later.size > 0:\n            trends[later, j + 1] = btem[j + 1] - btem[j]\n        here = np.flatnonzero(ixb == j)\n        trends[here, j + 1] = x_obvs[here] - btem[j]\n"))
same('c41-solve', (S, "        fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)\n", "        fit_param = linalg.solve(ls_est, trends.T @ (w_i @ y_obvs))\n"))
same('c41-residual', (S, "    residual = y_obvs - np.dot(trends, fit_param)\n\n    return fit_param", "    residual = y_obvs - trends @ fit_param\n\n    return fit_param"))
same('c41-one-if', (S, "    if w_i.__len__() > 0:\n        ls_est = np.dot(np.dot(trends.T, w_i), trends)\n\n    else:\n        ls_est = np.dot(trends.T, trends)\n", "    weighted = len(w_i) > 0\n    left = np.dot(trends.T, w_i) if weighted else trends.T\n    ls_est = np.dot(left, trends)\n"), (S, "    if w_i.__len__() > 0:\n        fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)\n\n    else:\n        fit_param = linalg.solve(ls_est, np.dot(trends.T, y_obvs))\n", "    fit_param = linalg.solve(ls_est, np.dot(left, y_obvs))\n"))
same('c41-min', (S, "    btem = np.concatenate(([xf[0]], breaks))\n    E = np.zeros((xfit", "    btem = np.concatenate(([x_unique[0]], breaks))\n    E = np.zeros((xfit"))
same('c41-breaks-slice', (S, "        breaks = b_pts[np.arange(0, best - 2), best - 2].T\n", "        breaks = b_pts[:best - 2, best - 2]\n"))
same('c41-slope', (S, "            time_deriv[ib] = A[j + 1]\n            time_deriv_err[ib] = coef_err[j + 1]\n", "            k = j + 1\n            time_deriv[ib], time_deriv_err[ib] = A[k], coef_err[k]\n"))
# ---- C42
_O1 = "            rss[0, 0] = np.sum(residual ** 2 / err_var)\n"
_A0 = "            aic[0, 0] = ndf * np.log(rss[0, 0] / npts) + ndf * (ndf + 1) / (ndf - 3)\n"
_A1 = "            aic[0, 1] = ndf * np.log(rss[0, 1] / npts) + ndf * (ndf + 2) / (ndf - 4)\n"
_AN = "            p = 2 * (nbr + 1)\n            aic[0, nbr + 1] = ndf * np.log(rss[0, nbr + 1] / npts) + ndf * (ndf + p) / (ndf - p - 2)\n"
_RN = "            b_A[0:nbr + 2, nbr + 1] = A[0:nbr + 2]\n            rss[0, nbr + 1] = np.sum(residual ** 2 / err_var)\n"
for nm, *ed in (
        ('offset-ndf', (S, _A0, _A0.replace('ndf + 1', 'ndf + 2').replace('ndf - 3', 'ndf - 4'))),
        ('offset-weights', (S, _O1, "            rss[0, 0] = np.sum(residual ** 2)\n")),
        ('offset-mean', (S, "            residual = yf - (ones_column * b_A[0, 0]).flatten()\n", "            residual = yf - np.mean(yf)\n")),
        ('offset-npts', (S, _A0, _A0.replace('npts', 'n_prof'))),
        ('line-param', (S, _A1, _A1.replace('ndf - 4', 'ndf - 3'))),
        ('line-sum', (S, "            rss[0, 1] = np.sum(residual ** 2 / err_var)\n", "            rss[0, 1] = np.sum(residual ** 2 / n_err)\n")),
        ('line-two', (S, "            b_A[0:2, 1] = A[0:2]\n", "            b_A[0:2, 2] = A[0:2]\n")),
        ('line-aic', (S, _A1, _A1.replace('rss[0, 1]', 'rss[0, 0]'))),
        ('pieces-param', (S, _AN, _AN.replace('2 * (nbr + 1)', '2 * nbr + 1'))),
        ('pieces-penalty', (S, _AN, _AN.replace('ndf - p - 2', 'ndf - p'))),
        ('pieces-npts', (S, _AN, _AN.replace('npts', 'nfit'))),
        ('pieces-aic', (S, _AN, _AN.replace('ndf * np.log', 'npts * np.log'))),
        ('pieces-place', (S, "            b_A[0:nbr + 2, nbr + 1] = A[0:nbr + 2]\n            rss", "            b_A[0:nbr + 1, nbr + 1] = A[0:nbr + 1]\n            rss")),
        ('pieces-mean', (S, _RN, _RN.replace('np.sum(residual ** 2 / err_var)', 'np.mean(residual ** 2 / err_var)'))),
        ('pieces-rms', (S, _RN, _RN.replace('residual ** 2 / err_var', 'residual ** 2 * err_var'))),
        ('pieces-abs', (S, _RN, _RN.replace('residual ** 2 / err_var', 'np.abs(residual) / err_var'))),
        ('choice-max', (S, "np.argmin(aic[0, good])", "np.argmax(aic[0, good])")),
        ('choice-rss', (S, "np.argmin(aic[0, good])", "np.argmin(rss[0, good])")),
        ('choice-pbrk', (S, "good = np.array(pbrk + 1, dtype=int)", "good = np.array(pbrk + 2, dtype=int)")),
        ('choice-best', (S, "            best = good[best] + 1\n", "            best = good[best]\n")),
        ('choice-index', (S, "            best = good[best] + 1\n", "            best = best + 1\n")),
        ('choice-part', (S, "good = np.array(pbrk + 1, dtype=int)", "good = np.array(pbrk[1:] + 1, dtype=int)")),
        ('fixed-best', (S, "        best = pbrk + 2\n", "        best = pbrk + 1\n")),
        ('mean-plain', (S, "            b_A[0, 0] = np.dot(np.dot(np.dot(np.linalg.inv(np.dot(np.dot(ones_column.T, w_i),\n", "            b_A[0, 0] = np.dot(np.dot(np.dot(np.linalg.inv(np.dot(np.dot(ones_column.T, np.eye(npts)),\n")),
        ('weights-rms', (S, "w_i = np.diag(np.mean(err_var) / err_var)", "w_i = np.diag(np.mean(n_err) / n_err)")),
        ('weights-up', (S, "w_i = np.diag(np.mean(err_var) / err_var)", "w_i = np.diag(err_var / np.mean(err_var))")),
        ('no-breaks', (S, "            b_pts[0:nbr, nbr] = breaks.T\n", "            b_pts[0:nbr, nbr - 1] = breaks.T\n")) if False else
        ('breaks-place', (S, "            if breaks.__len__() > 0:\n                b_pts[0:nbr, nbr] = breaks.T\n", "            if breaks.__len__() > 0:\n                b_pts[0:nbr, nbr - 1] = breaks.T\n")),
        ('breaks-guess', (S, "            if breaks.__len__() > 0:\n                b_pts[0:nbr, nbr] = breaks.T\n", "            if breaks.__len__() > 0:\n                b_pts[0:nbr, nbr] = b_guess\n")),
        ('ndf-cov', (S, "ndf = np.sum(np.ones((npts, 1)) / (np.dot(lvcov, np.ones((npts, 1)))))", "ndf = np.sum(np.dot(lvcov, np.ones((npts, 1))))")),
        ('ndf-npts', (S, _AN, _AN.replace("ndf * (ndf + p)", "npts * (ndf + p)"))),
        ('loop-part', (S, "    for nbr in pbrk:\n        if nbr == -1", "    for nbr in pbrk[:-1]:\n        if nbr == -1")),
        ('line-weights', (S, "            A, residual = brk_pt_fit(xf, yf, w_i)\n            b_A", "            A, residual = brk_pt_fit(xf, yf, np.array([]))\n            b_A")),
):
    bug('C42', nm, *ed)
same('c42-aicc', (S, _AN, "            p = 2 * (nbr + 1)\n            aic[0, nbr + 1] = ndf * (np.log(rss[0, nbr + 1]) - np.log(npts)) + ndf * (1 + p / ndf) / (1 - (p + 2) / ndf)\n"))
same('c42-helper', (S, _AN, "            aic[0, nbr + 1] = _criterion(rss[0, nbr + 1] / npts, ndf, 2 * nbr + 2)\n"), (S, _A1, "            aic[0, 1] = _criterion(rss[0, 1] / npts, ndf, 2)\n"), (S, _A0, "            aic[0, 0] = _criterion(rss[0, 0] / npts, ndf, 1)\n"),
     (S, "def brk_pt_fit(", "def _criterion(mean_square, freedom, n_param):\n    penalty = (freedom + n_param) / (freedom - n_param - 2)\n    return freedom * (np.log(mean_square) + penalty)\n\n\ndef brk_pt_fit("))
same('c42-mean', (S, "            b_A[0, 0] = np.dot(np.dot(np.dot(np.linalg.inv(np.dot(np.dot(ones_column.T, w_i),\n                                                                  ones_column)),\n                                             ones_column.T),\n                                      w_i),\n                               yf)\n", "            ones = np.ones(npts)\n            b_A[0, 0] = (ones @ w_i @ yf) / (ones @ w_i @ ones)\n"))
same('c42-residual', (S, "            residual = yf - (ones_column * b_A[0, 0]).flatten()\n", "            residual = yf - b_A[0, 0]\n"))
same('c42-order', (S, "    for nbr in pbrk:\n        if nbr == -1", "    for trial in range(len(pbrk)):\n        nbr = pbrk[trial]\n        if nbr == -1"))
same('c42-rss', (S, _RN, "            weighted_squares = (residual / n_err) ** 2\n            rss[0, nbr + 1] = weighted_squares.sum()\n            b_A[:nbr + 2, nbr + 1] = A\n"))
same('c42-choice', (S, "        best = np.argmin(aic[0, good])\n\n        if isinstance(good, np.ndarray):\n            best = good[best] + 1\n        else:\n            best = good + 1\n", "        candidates = aic[0][good]\n        best = good[np.argmin(candidates)] + 1\n"))
same('c42-weights', (S, "w_i = np.diag(np.mean(err_var) / err_var)", "w_i = np.diag(1 / err_var) * np.mean(err_var)"))
same('c42-ndf', (S, "ndf = np.sum(np.ones((npts, 1)) / (np.dot(lvcov, np.ones((npts, 1)))))", "ndf = np.sum(1 / np.sum(lvcov, axis=1))"))
same('c42-elif', (S, "        if nbr == -1:\n            # offset only", "        if nbr < 0:\n            # offset only"))
# ---- C43
_PB = "            pbrk = np.arange(nbr1, np.floor((ndf - 1) / 2 - 2) + 1)\n"
for nm, *ed in (
        ('limit-more', (S, "            max_brk_in = max_brk_dflt\n\n        max_brk = max_brk_in\n        pbrk = np.arange(nbr1, max_brk + 1)\n", "            max_brk_in = max_brk_dflt\n\n        max_brk = max_brk_in\n        pbrk = np.arange(nbr1, max_brk + 2)\n")),
        ('limit-less', (S, "            max_brk_in = max_brk_dflt\n\n        max_brk = max_brk_in\n        pbrk = np.arange(nbr1, max_brk + 1)\n", "            max_brk_in = max_brk_dflt\n\n        max_brk = max_brk_in\n        pbrk = np.arange(nbr1, max_brk)\n")),
        ('limit-zero', (S, "            max_brk_in = max_brk_dflt\n\n        max_brk = max_brk_in\n        pbrk = np.arange(nbr1, max_brk + 1)\n", "            max_brk_in = max_brk_dflt\n\n        max_brk = max_brk_in\n        pbrk = np.arange(0, max_brk + 1)\n")),
        ('ndf-floor', (S, _PB, _PB.replace("(ndf - 1) / 2 - 2", "(ndf - 1) / 2 - 1"))),
        ('ndf-ceil', (S, _PB, _PB.replace("+ 1)\n", "+ 2)\n"))),
        ('ndf-guard', (S, "    if ndf < 2 * (max_brk + 2) + 1:\n", "    if ndf < 2 * max_brk + 1:\n")),
        ('ndf-loose', (S, "    if ndf < 2 * (max_brk + 2) + 1:\n", "    if ndf < 2 * (max_brk + 2):\n")),
        ('ndf-npts', (S, "    if ndf < 2 * (max_brk + 2) + 1:\n", "    if npts < 2 * (max_brk + 2) + 1:\n")),
        ('range-ends', (S, "xblim = [x_unique[1], x_unique[n_prof - 2]]", "xblim = [x_unique[0], x_unique[n_prof - 1]]")),
        ('range-last', (S, "xblim = [x_unique[1], x_unique[n_prof - 2]]", "xblim = [x_unique[1], x_unique[n_prof - 1]]")),
        ('range-xf', (S, "xblim = [x_unique[1], x_unique[n_prof - 2]]", "xblim = [xf[1], xf[npts - 2]]")),
        ('order-sum', (S, "            fnumer[i] = fnumer[i - 1] + np.exp(ubrk[i])\n", "            fnumer[i] = np.exp(ubrk[i])\n")),
        ('order-plain', (S, "            fnumer[i] = fnumer[i - 1] + np.exp(ubrk[i])\n", "            fnumer[i] = fnumer[i - 1] + ubrk[i]\n")),
        ('order-first', (S, "        fnumer[0] = np.exp(ubrk[0])\n", "        fnumer[0] = ubrk[0]\n")),
        ('order-denominator', (S, "        fdenom = 1 + fnumer[m_b - 1]\n", "        fdenom = fnumer[m_b - 1]\n")),
        ('order-denominator0', (S, "        fdenom = 1 + fnumer[m_b - 1]\n", "        fdenom = 1 + fnumer[0]\n")),
        ('order-start', (S, "        breaks = xblim[0] + ftem * fnumer\n", "        breaks = ftem * fnumer\n")),
        ('order-jitter', (S, "breaks[difference + 1] = breaks[difference + 1] + 0.00001", "breaks[difference + 1] = breaks[difference + 1] - 0.00001")),
        ('given-guess', (S, "                if nbr1 == max_brk:\n                    A, residual = brk_pt_fit(xf, yf, w_i, breaks)\n", "                if nbr1 == max_brk:\n                    A, residual = brk_pt_fit(xf, yf, w_i, b_guess)\n")),
        ('given-search', (S, "            if setbreaks != 0:\n                # break", "            if setbreaks > 1:\n                # break")),
        ('limit-truth', (C, "                if np.isfinite(max_breaks[i]):\n", "                if max_breaks[i]:\n")),
        ('given-few', (S, "                pbrk = np.array([nbr])\n                max_brk = nbr\n", "                pbrk = np.array([nbr - 1])\n                max_brk = nbr\n")),
        ('too-few', (S, "                pbrk = np.array([-1])\n                print(\"WARNING: Only", "                pbrk = np.array([0])\n                print(\"WARNING: Only")),
):
    bug('C43', nm, *ed)
same('c43-cumsum', (S, "        fnumer = np.zeros(ubrk.shape)\n        fnumer[0] = np.exp(ubrk[0])\n\n        for i in range(1, m_b):\n            fnumer[i] = fnumer[i - 1] + np.exp(ubrk[i])\n", "        fnumer = np.cumsum(np.exp(ubrk))\n"))
same('c43-fraction', (S, "        ftem = (xblim[1] - xblim[0]) / fdenom\n\n        breaks = xblim[0] + ftem * fnumer\n", "        fraction = fnumer / fdenom\n        low, high = xblim\n        breaks = low * (1 - fraction) + high * fraction\n"))
same('c43-negative', (S, "xblim = [x_unique[1], x_unique[n_prof - 2]]", "xblim = [x_unique[1], x_unique[-2]]"))
same('c43-most', (S, "    if ndf < 2 * (max_brk + 2) + 1:\n", "    if max_brk > (ndf - 5) / 2:\n"), (S, _PB, "            supported = np.floor((ndf - 5) / 2)\n            pbrk = np.arange(nbr1, supported + 1)\n"))
same('c43-int', (S, "            max_brk_in = max_brk_dflt\n\n        max_brk = max_brk_in\n        pbrk = np.arange(nbr1, max_brk + 1)\n", "            max_brk_in = max_brk_dflt\n\n        max_brk = max_brk_in\n        pbrk = np.arange(nbr1, 1 + max_brk, 1)\n"))
same('c43-limit', (C, "                if np.isfinite(max_breaks[i]):\n", "                if not np.isnan(max_breaks[i]):\n"))
same('c43-unique', (S, "xblim = [x_unique[1], x_unique[n_prof - 2]]", "xblim = [np.unique(xf)[1], np.unique(xf)[n_prof - 2]]"))


# ---- C30
_N30 = "            yf = real_yf + n_err * np.random.randn(yf.size)\n"
for name, new in (('accumulates', "            yf = yf + n_err * np.random.randn(yf.size)\n"),
                  ('one-noise', "            yf = real_yf + n_err * np.random.randn()\n"),
                  ('one-noise-2', "            yf = real_yf + n_err * np.random.randn(1)\n"),
                  ('unit-noise', "            yf = real_yf + np.random.randn(yf.size)\n"),
                  ('variance-noise', "            yf = real_yf + err_var * np.random.randn(yf.size)\n"),
                  ('uniform', "            yf = real_yf + n_err * (np.random.rand(yf.size) - 0.5)\n"),
                  ('mean-noise', "            yf = real_yf + np.mean(n_err) * np.random.randn(yf.size)\n"),
                  ('relative', "            yf = real_yf * (1 + n_err * np.random.randn(yf.size))\n"),
                  ('seeded-round', "            np.random.seed(0)\n" + _N30),
                  ('none', "            yf = real_yf\n"),
                  ('curve', "            yf = residual + n_err * np.random.randn(yf.size)\n")):
    bug('C30', 'c30-' + name, (S, _N30, new))
bug('C30', 'c30-drawn-once', (S, "        for i in range(nloops):\n\n" + _N30, "        noise = np.random.randn(yf.size)\n        for i in range(nloops):\n            yf = real_yf + n_err * noise\n"))
_A30 = "            err = err + (yfit - np.dot(E, A)) ** 2\n"
for name, new in (('abs', "            err = err + np.abs(yfit - np.dot(E, A))\n"), ('last', "            err = (yfit - np.dot(E, A)) ** 2\n"),
                  ('from-zero', "            err = err + np.dot(E, A) ** 2\n"), ('mixed', "            err = err + (np.dot(E, real_A) - np.dot(E, A)) ** 2\n"),
                  ('double', "            err = err + 2 * (yfit - np.dot(E, A)) ** 2\n")):
    bug('C30', 'c30-' + name, (S, _A30, new))
bug('C30', 'c30-nloops', (S, "        err = err / nloops\n", "        err = err / (nloops - 1)\n"))
bug('C30', 'c30-nloops-npts', (S, "        err = err / nloops\n", "        err = err / npts\n"))
bug('C30', 'c30-loops', (S, "        for i in range(nloops):\n", "        for i in range(1, nloops):\n"))
bug('C30', 'c30-no-factor', (S, "        err = err * P_3\n", "        err = err\n"))
bug('C30', 'c30-factor-twice', (S, "        err = err * P_3\n", "        err = err * P_3 ** 2\n"))
bug('C30', 'c30-factor-inverse', (S, "    P_3 = np.dot(E, P_2) / np.dot(E, P_1)\n", "    P_3 = np.dot(E, P_1) / np.dot(E, P_2)\n"))
bug('C30', 'c30-factor-outside', (S, "    err = np.sqrt(err) * y_scale\n", "    err = np.sqrt(err) * y_scale * (P_3 if best > 1 else 1)\n"), (S, "        err = err * P_3\n", ""))
bug('C30', 'c30-factor-same', (S, "    P_3 = np.dot(E, P_2) / np.dot(E, P_1)\n", "    P_3 = np.dot(E, P_2) / np.dot(E, P_2)\n"))
bug('C30', 'c30-offset-p1', (S, "        err = np.ones((nfit, 1)) * P_2[0]\n", "        err = np.ones((nfit, 1)) * P_1[0]\n"))
bug('C30', 'c30-offset-last', (S, "    if best == 1:\n        err = np.ones((nfit, 1)) * P_2[0]\n", "    if best <= 2:\n        err = np.ones((nfit, 1)) * P_2[0]\n"))
bug('C30', 'c30-no-root', (S, "    err = np.sqrt(err) * y_scale\n", "    err = err * y_scale\n"))
bug('C30', 'c30-no-lvcov', (S, "                                           np.diag(err_var)),\n                                    lvcov),\n", "                                           np.diag(err_var)),\n                                    np.diag(np.diag(lvcov))),\n"))
bug('C30', 'c30-slope-p1', (S, "    coef_err = np.sqrt(P_2) * y_scale / x_scale\n", "    coef_err = np.sqrt(P_1) * y_scale / x_scale\n"))
bug('C30', 'c30-p-err', (S, "                                           np.diag(err_var)),\n                                    lvcov),\n", "                                           np.diag(n_err)),\n                                    lvcov),\n"))
bug('C30', 'c30-refit-line', (S, "            if best == 2:\n                # E for", "            if best >= 2 and not setbreaks:\n                # E for"))
bug('C30', 'c30-refit-line-2', (S, "            if best == 2:\n                # E for", "            if best == 3:\n                # E for"))
bug('C30', 'c30-refit-unweighted', (S, "                # E for linear case is already calculated\n                A, residual = brk_pt_fit(xf, yf, w_i)\n", "                # E for linear case is already calculated\n                A, residual = brk_pt_fit(xf, yf, [])\n"))
bug('C30', 'c30-left-perturbed', (S, "    yf = copy.deepcopy(real_yf)\n", ""))
bug('C30', 'c30-left-coefs', (S, "    A = copy.deepcopy(real_A)\n", ""))
bug('C30', 'c30-left-breaks', (S, "    breaks = copy.deepcopy(real_breaks)\n    xf = copy", "    xf = copy"))
bug('C30', 'c30-slope-spread', (S, "        time_deriv_err = coef_err[1] * np.ones((nfit, 1))\n", "        time_deriv_err = yerr / np.max(np.abs(xfit))\n"))
same('c30-mean', (S, "        err = 0\n\n        for i", "        err = np.zeros(nfit)\n\n        for i"))
same('c30-normal', (S, _N30, "            yf = np.random.normal(real_yf, n_err)\n"))
same('c30-standard', (S, _N30, "            noise = n_err * np.random.standard_normal(npts)\n            yf = real_yf + noise\n"))
same('c30-order', (S, _A30, "            err = err + np.square(np.dot(E, A) - yfit)\n"))
same('c30-once', (S, "        err = err / nloops\n\n        # rescale error to reflect the decrease to the off diagonal covariances\n\n        err = err * P_3\n", "        err = P_3 * err / nloops\n"))
same('c30-inc', (S, _A30, "            err += (yfit - E.dot(A)) ** 2\n"))
same('c30-half', (S, "    P_3 = np.dot(E, P_2) / np.dot(E, P_1)\n", "    without = np.dot(E, P_1)\n    P_3 = E.dot(P_2) / without\n"))
same('c30-cov', (S, """    P = np.dot(np.dot(np.dot(np.dot(np.dot(np.dot(B_i, E.T),
                                           w_i), np.diag(err_var)),
                             w_i),
                      E),
               B_i)
    P_1""", """    left = B_i.dot(E.T).dot(w_i)
    P = left @ np.diag(err_var) @ left.T
    P_1"""))
same('c30-cov2', (S, """    P = np.dot(np.dot(np.dot(np.dot(np.dot(np.dot(np.dot(B_i, E.T),
                                                  w_i),
                                           np.diag(err_var)),
                                    lvcov),
                             w_i),
                      E),
               B_i)
""", """    left = B_i @ E.T @ w_i
    P = left @ np.diag(n_err) @ lvcov @ np.diag(n_err) @ left.T
"""))


# ---- second round, from the statements (fetchers, wrangling, utilities)
bug('C01', 'r2-none', (F, nth(1, "                data = get_data(wmo_box, data_type, config, 'none')\n"), ) if False else (F, "            pa_float_name,\n        )\n", "            pa_float_name[-5:],\n        )\n"))
bug('C01', 'r2-first-only', (F, "            not_use.append(i)\n", "            not_use = [i]\n"))
bug('C01', 'r2-at-start-missed', (F, ".find(pa_float_name) != -1:", ".find(pa_float_name) > 0:"))
bug('C01', 'r2-lat-unique', (F, "    data['lat'] = np.array(np.delete(data['lat'], not_use))\n", "    data['lat'] = np.array(np.delete(data['lat'], not_use[:1]))\n"))
bug('C01', 'r2-case', (F, "        if str(data['source'][i]).find(pa_float_name) != -1:\n", "        if pa_float_name in str(data['source'][i]).split('_'):\n"))
bug('C07', 'r2-list-converts', (F, "                    grid_dates = np.concatenate([grid_dates, data['dates']])\n                    data = []\n", "                    data['dates'] = change_dates(data['dates'])\n                    grid_dates = np.concatenate([grid_dates, data['dates']])\n                    data = []\n"),
    (F, "    grid_dates = change_dates(grid_dates)\n\n    return grid_lat", "    return grid_lat"))
bug('C07', 'r2-wrap-each', (F, "                    grid_long = np.concatenate([grid_long, data['long']])\n", "                    grid_long = np.concatenate([grid_long, wrap_longitude(data['long'])])\n"))
bug('C07', 'r2-nan-fill', (F, "                    # load each station\n", "                    data['pres'][data['pres'] > 10000] = np.nan\n                    # load each station\n"))
bug('C07', 'r2-shallow', (F, "                    data = dict(data)\n", "                    data = data\n"))
bug('C07', 'r2-cache-noname', (F, "@lru_cache()\ndef read_mat_argo(filepath, pa_float_name):\n", "_ARGO = {}\n\n\ndef read_mat_argo(filepath, pa_float_name):\n    if filepath not in _ARGO:\n        _ARGO[filepath] = _read_mat_argo(filepath, pa_float_name)\n    return _ARGO[filepath]\n\n\ndef _read_mat_argo(filepath, pa_float_name):\n"))
bug('C03', 'r2-late', (F, "                    # remember location of last entry\n                    starting_index = starting_index + data_length\n", ""), (F, "                            not_nan = np.argwhere(np.isnan(data['pres'][:, i]) == 0)\n", "                            not_nan = np.argwhere(np.isnan(data['pres'][:, i]) == 0)\n                            starting_index = data_indices[-1] + 1\n"))
bug('C21', 'r2-deep-ge', (F, "too_deep = np.argwhere(pres > max_pres)", "too_deep = np.argwhere(pres >= max_pres)"))
bug('C21', 'r2-max', (F, "max_pres = np.nanmax(pa_float_pres) + config[\"MAP_P_DELTA\"]", "max_pres = np.nanmax(pa_float_pres)"))
bug('C21', 'r2-ptmp', (F, "    grid_pres[ptmp_nans] = np.nan\n", ""))
bug('C25', 'r2-len', (F, "    grid_dates = change_dates(grid_dates)\n\n    return grid_lat", "    grid_dates = change_dates(grid_dates)[:]\n\n    return grid_lat") if False else (T, "cal_dates_string[i].__len__() > 11", "cal_dates_string[i].__len__() > 13"))
bug('C25', 'r2-cum', (T, "[0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]", "[0, 31, 28, 31, 30, 31, 30, 31, 30, 31, 30, 31, 30]"))
bug('C25', 'r2-raise', (T, "    except IndexError:\n        raise ValueError('Month is out of scope') from None", "    except IndexError:\n        raise IndexError('Month is out of scope') from None") if False else (T, "        except ValueError:\n            print(", "        except TypeError:\n            print("))
bug('C25', 'r2-dec31', (T, "        if dec_date > 366:", "        if dec_date > 364:"))
bug('C25', 'r2-carry', (T, "                day = year + (cal2dec(month - 1, day, hour, minute) / 365)\n                dec_dates[i] = day", "                day = year + (cal2dec(month - 1, day, hour, minute) / 365)\n                dec_dates[i:] = day"))
bug('C23', 'r2-wrap-strict', (T, "top_long = np.argwhere(grid_long >= 320)", "top_long = np.argwhere(grid_long > 320)\n    top_long = top_long[1:]"))
bug('C23', 'r2-wrap-order', (T, "    neg_long = np.argwhere(grid_long < 0)\n    grid_long[neg_long] = grid_long[neg_long] + 360\n\n", ""), (T, "    return grid_long\n", "    neg_long = np.argwhere(grid_long < 0)\n    grid_long[neg_long] = grid_long[neg_long] + 360\n    return grid_long\n"))
bug('C34', 'r2-pv-normal', (T, "math.sqrt(pv_2 ** 2 + pv_1 ** 2)", "math.sqrt(2 * pv_2 ** 2)"))
bug('C34', 'r2-pv-unsq', (T, "    if pv_1 != 0 and pv_2 != 0:\n        pv_corr", "    if pv_1 > 0 and pv_2 > 0:\n        pv_corr"))
bug('C26', 'r2-zero-weight', (W, "values[1:, :] * values[:-1, :] <= 0.0", "values[1:, :] * values[:-1, :] < 0.0"))
bug('C26', 'r2-sal-own', (W, "    good_pres = np.isfinite(pres)\n", "    good_pres = np.isfinite(pres) | np.isfinite(theta)\n"))
bug('C26', 'r2-signed', (W, "np.nanargmin(np.abs(output_placeholder[:, stations_with_possible_interp] - float_pres[index]), axis=0)", "np.nanargmin(np.abs(output_placeholder[:, stations_with_possible_interp]) - float_pres[index], axis=0)"))
bug('C26', 'r2-after', (W, "    value_before = reference_values[:-1][sign_changes]\n", "    value_before = reference_values[1:][sign_changes]\n"))
bug('C26', 'r2-no-clear', (W, nth(2, "        output_placeholder[sign_changes] = np.nan\n") if False else "        # clear any values which have been written to the placeholder\n        output_placeholder[sign_changes] = np.nan\n\n        # interpolate values of sal\n", "        # interpolate values of sal\n"), (W, "        # clear any values which have been written to the placeholder\n        output_placeholder[sign_changes] = np.nan\n", "        if index == float_good_data_index[0]:\n            output_placeholder[sign_changes] = np.nan\n"))
bug('C28', 'r2-mean-grid', (W, "    grid_weight_covar = np.dot(grid_data_covar, weight) + mean_field\n", "    grid_weight_covar = np.dot(grid_data_covar, weight) + np.mean(sal)\n"))
bug('C28', 'r2-noise-pos', (W, "noise_variance * np.identity(data_pos.__len__())", "noise_variance * np.ones(data_pos.__len__())"))
bug('C28', 'r2-err-noise', (W, nth(2, "    grid_weight_covar_error = np.sqrt(signal_variance + noise_variance - dot_covar_diag +\n") if False else "    grid_weight_covar_error = np.sqrt(signal_variance - dot_covar_diag +\n", "    grid_weight_covar_error = np.sqrt(signal_variance + noise_variance - dot_covar_diag +\n"))
bug('C27', 'r2-window', (W, "np.min(grid_pres[isok, i]) < 300 < np.max(grid_pres[isok, i])", "np.min(grid_pres[isok, i]) < 300") if False else (F, "(is_south & is_north)", "(is_south | is_north)") if False else (F, "                    if is_south & is_north:\n", "                    if is_south | is_north:\n"))
bug('C27', 'r2-lat', (F, "    if float_lat < -30:\n", "    if np.min(grid_lat) < -30:\n"))
bug('C27', 'r2-float-psal', (F, "                    if t300 > 5:\n                        grid_crit_saf[i] = 1", "                    if t300 >= 5:\n                        grid_crit_saf[i] = 1"))
bug('C27', 'r2-grid-ptmp', (F, "grid_tmp[isok, i], left=np.nan", "grid_ptmp[isok, i], left=np.nan"))

# ---- third round: calibration.py -------------------------------------------------------------
bug('C02', 'r3-partial-front', (C, "best_hist_data.update(best_hist_data_2)", "best_hist_data.update({name: best_hist_data_2[name] for name in best_hist_data_2 if name != 'grid_z'})"))
bug('C02', 'r3-depth-by-index', (C, "best_hist_data = process_profiles_grid_variables(best_hist_data, config)", "best_hist_data['grid_z'] = np.array(grid_data['grid_z'])[np.sort(index)[::-1]]"))
bug('C02', 'r3-outliers-flattened', (C, "hist_sal_flatten = hist_data['hist_sal'].flatten()", "hist_sal_flatten = np.sort(hist_data['hist_sal'].flatten())"))
bug('C02', 'r3-unique', (C, "hist_sal_flatten = hist_data['hist_sal'].flatten()", "hist_sal_flatten = np.flip(hist_data['hist_sal'].flatten())"))
bug('C04', 'r3-residual-phi', (C, "sal_signal_residual, noise_sal,\n                                                             phi_small", "sal_signal_residual, noise_sal,\n                                                             min(phi_small, phi_large)"))
bug('C04', 'r3-age', (C, "map_age_small = config['MAPSCALE_AGE_SMALL']", "map_age_small = config['MAPSCALE_AGE_LARGE'] / 2"))
bug('C04', 'r3-recorded', (C, "data['p_exclude'][profile_index] = map_p_exclude", "data['p_exclude'][profile_index] = map_p_delta"))
bug('C04', 'r3-recorded-phi', (C, "data['scale_phi_small'][profile_index] = phi_small", "data['scale_phi_small'][profile_index] = phi_large"))
bug('C09', 'r3-sort-numbers-only', (C, "sorted_profile_index = data['la_profile_no'].argsort()", "sorted_profile_index = data['la_profile_no'].argsort()\n    data['use_pv'] = np.sort(data['use_pv'])"))
bug('C09', 'r3-sort-desc', (C, "    data = sort_numpy_array(data, sorted_profile_index)", "    data = sort_numpy_array(data, sorted_profile_index)\n    data['p_delta'] = data['p_delta'][::-1]"))
bug('C09', 'r3-append-end', (C, "np.insert(data['la_profile_no'], profile_index, profile_no[missing_profile])", "np.insert(data['la_profile_no'], 0, profile_no[missing_profile])"))
bug('C10', 'r3-first', (C, "    for sal in bad_sal:\n", "    for sal in bad_sal[1:]:\n"))
bug('C10', 'r3-only-new', (C, "bad_sal_40 = np.argwhere(data['la_mapped_sal'] > 40)", "bad_sal_40 = np.argwhere(data['la_mapped_sal'][:, profile_index - missing_profile_index.__len__():] > 40)"))
bug('C10', 'r3-if', (C, "    for sal in bad_sal:\n", "    for sal in (bad_sal if missing_profile_index else []):\n"))
bug('C10', 'r3-both', (C, "bad_sal = np.concatenate((bad_sal_30, bad_sal_40))", "bad_sal = bad_sal_30 if bad_sal_30.size else bad_sal_40"))
bug('C11', 'r3-first-zero', (C, "    if bad.__len__() > 0:\n        unique_cal = np.delete", "    if bad.__len__() > 0 and unique_cal.__len__() > 2:\n        unique_cal = np.delete"))
bug('C11', 'r3-range', (C, "calindex = np.argwhere(calseries == unique_cal[i])[:, 1]", "calindex = np.argwhere(calseries >= unique_cal[i])[:, 1]"))
bug('C11', 'r3-span', (C, "calindex = np.argwhere(calseries == unique_cal[i])[:, 1]", "calindex = np.argwhere(calseries == unique_cal[i])[:, 1]\n        calindex = np.arange(calindex[0], calindex[-1] + 1)"))
bug('C11', 'r3-err-all', (C, "pcond_factor_err[0][calindex] = condslope_err\n                time_deriv", "pcond_factor_err[0][:] = np.nanmax(condslope_err)\n                time_deriv"))
bug('C12', 'r3-nonfinite', (C, "        if ns != n_seq:", "        if ns < n_seq:"))
bug('C12', 'r3-last', (C, "            if nb > max_breaks[n]:", "            sstatus = 1\n            if nb > max_breaks[n]:"))
bug('C12', 'r3-missing-key', (C, "                 'sta_SAL_err': sta_sal_err,\n                 'PROFILE_NO': profile_no,\n                 'fcoef': fceof,\n                 'fbreaks': fbreaks})\n\n        return", "                 'PROFILE_NO': profile_no,\n                 'fcoef': fceof,\n                 'fbreaks': fbreaks})\n\n        return"))
bug('C12', 'r3-return-inside', (C, "        # error in specification of max breaks\n        elif max_breaks.__len__() != n_seq:", "        # error in specification of max breaks\n        elif max_breaks.__len__() > n_seq:"))
bug('C13', 'r3-order', (C, "wmo_numbers = find_25boxes(float_data['float_long'], float_data['float_lat'], wmo_boxes)", "wmo_numbers = find_25boxes(float_data['float_long'], float_data['float_lat'], wmo_boxes)\n            np.random.shuffle(wmo_numbers)"))
bug('C20', 'r3-min', (C, "np.nanmin(lat) - 1", "np.min(lat) - 1"))
bug('C20', 'r3-mean', (C, "mean_sal = np.mean(hist_data['hist_sal'])", "mean_sal = np.mean(best_hist_data['grid_sal'])"))
bug('C23', 'r3-180', (C, "            if float_long_tbase > 180:", "            if float_long_tbase > 190:"))
bug('C23', 'r3-wrap', (C, "                    if 0 <= float_data['float_long'] <= 20:\n                        float_long_0 += 360", "                    if 0 <= float_data['float_long'] <= 10:\n                        float_long_0 += 360"))
bug('C23', 'r3-wrap2', (C, "                if np.argwhere(best_hist_data['grid_long'] >= 360).__len__() > 0:\n                    if 0 <=", "                if np.argwhere(best_hist_data['grid_long'] >= 360).__len__() > 10:\n                    if 0 <="))
bug('C23', 'r3-fit', (C, "long_1[long_1 > 180] -= 360", "long_1[long_1 >= 359] -= 360"))
bug('C44', 'r3-signal', (C, "            signal_sal = signal_variance(hist_data['hist_sal'])\n\n                            # map", "            # map"))
bug('C44', 'r3-sum', (C, "np.sqrt(dot_map_values +\n                                                                                        mapped_residuals[1] *", "np.sqrt(dot_map_values +\n                                                                                        mapped_values[1] *"))
bug('C44', 'r3-residual', (C, "sal_residual = hist_sal_flatten - mapped_values[2]", "sal_residual = hist_sal_flatten - mapped_values[0]"))
bug('C31', 'r3-excl', (C, "float_data['float_pres'][n_level] >= map_p_exclude", "float_data['float_pres'][n_level] > map_p_exclude + 1"))
bug('C31', 'r3-count', (C, "                            # remove the statical outliers\n", "                            # remove the statical outliers\n                            outlier = outlier[:1]\n"))
bug('C32', 'r3-wrong-ref', (C, "cal_sal[:, calindex] = gsw.conversions.SP_from_C(cal_cond[:, calindex],\n                                                                 unique_ptmp_1,\n                                                                 0)", "cal_sal[:, calindex] = gsw.conversions.SP_from_C(cal_cond[:, calindex],\n                                                                 unique_ptmp_1,\n                                                                 10)"))
bug('C32', 'r3-copy', (C, "unique_sal_1 = copy.deepcopy(unique_sal)", "unique_sal_1 = np.round(unique_sal, 3)"))
bug('C32', 'r3-mapped', (C, "unique_ptmp_1 = copy.deepcopy(unique_ptmp)", "unique_ptmp_1 = copy.deepcopy(unique_mapped_ptmp)"))
bug('C32', 'r3-stat', (C, "sta_sal[:, calindex] = gsw.conversions.SP_from_C(sta_cond, unique_ptmp, 0)", "sta_sal[:, calindex] = gsw.conversions.SP_from_C(sta_cond, unique_ptmp, unique_pres)"))
bug('C11', 'r3-segx', (C, "x = x_in[:, calindex]", "x = x_in[:, :k]"))
bug('C45', 'r3-err', (C, "err = mapconderrors / icond", "err = mapconderrors[:, ::-1] / icond"))
bug('C11', 'r3-segmapped', (C, "unique_mapped_sal = mapped_sal[:, calindex]", "unique_mapped_sal = mapped_sal[:, :k]"))
bug('C11', 'r3-segcoord', (C, "unique_coord_float = coord_float[calindex, :]", "unique_coord_float = coord_float[:k, :]"))
bug('C46', 'r3-z', (C, "z_grid.append(grid_interp(long_1[0][i], lat[0][i]))", "z_grid.append(grid_interp(long_1[0][i], lat[0][0]))"))
bug('C45', 'r3-order', (C, "coord_float = np.column_stack((lat.T, long.T, z_grid))", "coord_float = np.column_stack((long.T, lat.T, z_grid))"))
bug('C11', 'r3-segbreaks', (C, "breaks_in = breaks[i, :]", "breaks_in = breaks[0, :]"))
bug('C11', 'r3-segmax', (C, "                                                      'breaks',\n                                                      breaks_in,\n                                                      'max_no_breaks',\n                                                      max_breaks[i][0])", "                                                      'breaks',\n                                                      breaks_in,\n                                                      'max_no_breaks',\n                                                      max_breaks[0][0])"))
bug('C19', 'r3-key', (C, "map_p_delta = config['MAP_P_DELTA']", "map_p_delta = config['MAP_PRES_DELTA']"))
bug('C18', 'r3-save-src', (C, "    savemat(save_location, data)", "    savemat(os.path.abspath(save_location), data)\n    savemat(filename, float_source_data)"))
bug('C27', 'r3-five', (C, "if len(best_hist_data_2['grid_sal'][0]) > 5:", "if len(best_hist_data_2['grid_sal']) > 5:"))
bug('C27', 'r3-always', (C, "if map_use_saf == 1:", "if map_use_saf == 1 or map_use_pv == 1:"))
bug('C09', 'r3-index-found', (C, "        profile_index += 1\n\n    # as", "        if found:\n            profile_index += 1\n\n    # as"), (C, "            grid_data = {}\n", "            found = True\n            grid_data = {}\n"), (C, "        # get data from float\n        float_data = get", "        found = False\n        float_data = get"))
same('r3-range-joined-if-any', (C, "bad_sal = np.concatenate((bad_sal_30, bad_sal_40))", "bad_sal = np.concatenate((bad_sal_30, bad_sal_40)) if bad_sal_30.size or bad_sal_40.size else []"))
same('r3-range-cases', (C, "bad_sal = np.concatenate((bad_sal_30, bad_sal_40))", "if len(bad_sal_30) == 0:\n        bad_sal = bad_sal_40\n    elif len(bad_sal_40) == 0:\n        bad_sal = bad_sal_30\n    else:\n        bad_sal = np.concatenate((bad_sal_30, bad_sal_40))"))
bug('C44', 'one-signal', (C, "sal_signal_residual = signal_variance(sal_residual)", "sal_signal_residual = signal_sal"))
bug('C44', 'noise-of-residual', (C, "sal_residual = hist_sal_flatten - mapped_values[2]\n", "sal_residual = hist_sal_flatten - mapped_values[2]\n                            noise_sal = noise_variance(sal_residual, hist_data['hist_lat'].flatten(), hist_data['hist_long'].flatten())\n"))
bug('C44', 'sign', (C, "sal_residual = hist_sal_flatten - mapped_values[2]", "sal_residual = mapped_values[2] - hist_sal_flatten"))
bug('C44', 'errors-at-data', (C, "dot_map_values = np.dot(mapped_values[1], mapped_values[1])", "dot_map_values = np.dot(mapped_values[3], mapped_values[3])"))
bug('C44', 'error-sum', (C, "np.sqrt(dot_map_values +\n                                                                                        mapped_residuals[1] *\n\n                                                                                        mapped_residuals[1])", "mapped_values[1] + mapped_residuals[1]"))
bug('C44', 'noise-place', (C, "                                                       hist_data['hist_long'].flatten())", "                                                       hist_data['hist_dates'].flatten())"))
bug('C44', 'signal-after', (C, "            data['la_signal_sal'][n_level, profile_index] = signal_sal", "            data['la_signal_sal'][n_level, profile_index] = sal_signal_residual"))
bug('C44', 'noise-before', (C, "                            # Need to check for statistical outliers\n", "                            noise_first = noise_variance(hist_data['hist_sal'].flatten(), hist_data['hist_lat'].flatten(), hist_data['hist_long'].flatten())\n"), (C, "map_age_small,\n                                                             sal_signal_residual, noise_sal,", "map_age_small,\n                                                             sal_signal_residual, noise_first,"))
bug('C44', 'ptmp', (C, "= float_data['float_ptmp'][n_level]", "= float_data['float_ptmp'][n_level - 1]"))
bug('C44', 'minus', (C, "mapped_values[0] + \\\n                                                                            mapped_residuals[0]", "mapped_values[0] - mapped_residuals[0]"))
bug('C44', 'no-residual', (C, "mapped_values[0] + \\\n                                                                            mapped_residuals[0]", "mapped_values[0]"))
same('c44-hypot', (C, "np.sqrt(dot_map_values +\n                                                                                        mapped_residuals[1] *\n\n                                                                                        mapped_residuals[1])", "np.hypot(mapped_values[1], mapped_residuals[1])"))
same('c44-unpacked', (C, "mapped_values = map_data_grid(", "estimate, estimate_error, at_casts, _ = mapped_values = map_data_grid("), (C, "sal_residual = hist_sal_flatten - mapped_values[2]", "sal_residual = hist_sal_flatten - at_casts"), (C, "np.dot(mapped_values[1], mapped_values[1])", "estimate_error ** 2"))
same('c44-noise-order', (C, "                                                       hist_data['hist_lat'].flatten(),\n                                                       hist_data['hist_long'].flatten())", "                                                       hist_data['hist_long'].flatten(),\n                                                       hist_data['hist_lat'].flatten())"))
same('c44-keywords', (C, "noise_sal,\n                                                             phi_small, map_use_pv)", "noise_sal,\n                                                             map_pv_use=map_use_pv, phi=phi_small)"))
same('c44-signal-flat', (C, "            signal_sal = signal_variance(hist_data['hist_sal'])\n\n                            # map", "            signal_sal = signal_variance(hist_sal_flatten)\n\n                            # map"))
bug('C46', 'float-swapped', (C, "-float_interp(float_long_tbase, float_data['float_lat'])[0]", "-float_interp(float_data['float_lat'], float_long_tbase)[0]"))
bug('C46', 'float-sign', (C, "-float_interp(float_long_tbase,", "float_interp(float_long_tbase,"))
bug('C46', 'casts-swapped', (H, "np.vectorize(grid_interp)(grid_long_tbase, grid_data['grid_lat'])", "np.vectorize(grid_interp)(grid_data['grid_lat'], grid_long_tbase)"))
bug('C46', 'casts-abs', (H, "grid_z = -1 * np.vectorize(grid_interp)(grid_long_tbase, grid_data['grid_lat'])", "grid_z = np.abs(np.vectorize(grid_interp)(grid_long_tbase, grid_data['grid_lat']))"))
bug('C46', 'casts-sign', (H, "grid_z = -1 * np.vec", "grid_z = np.vec"))
bug('C46', 'region-min', (H, "np.amax(grid_long_tbase) + 1,", "np.amin(grid_long_tbase) + 1,"))
bug('C46', 'region-shrunk', (H, "np.amin(grid_data['grid_lat']) - 1,", "np.amin(grid_data['grid_lat']) + 1,"))
bug('C46', 'region-lat', (C, "np.nanmin(lat) - 1, np.nanmax(lat) + 1,", "np.nanmin(lat) - 1, np.nanmin(lat) + 1,"))
bug('C46', 'fit-sign', (C, "z_grid = -np.array(z_grid)", "z_grid = np.array(z_grid)"))
bug('C46', 'fit-first-lat', (C, "grid_interp(long_1[0][i], lat[0][i])", "grid_interp(long_1[0][i], lat[0][i - 1])"))
bug('C46', 'fit-swapped', (C, "grid_interp(long_1[0][i], lat[0][i])", "grid_interp(lat[0][i], long_1[0][i])"))
bug('C46', 'axes', (H, "interp2d(grid_x[0], grid_y[:, 0],", "interp2d(grid_y[:, 0], grid_x[0],"))
bug('C46', 'flipped', (H, "grid_elev, kind='linear')", "np.flipud(grid_elev), kind='linear')"))
bug('C46', 'other-casts', (C, "best_hist_data = process_profiles_grid_variables(best_hist_data, config)", "best_hist_data['grid_z'] = -np.vectorize(float_interp)(best_hist_data['grid_long'], best_hist_data['grid_lat'])"))
same('c46-loop', (H, "grid_z = -1 * np.vectorize(grid_interp)(grid_long_tbase, grid_data['grid_lat'])", "grid_z = np.array([-grid_interp(x, y)[0] for x, y in zip(grid_long_tbase.flatten(), grid_data['grid_lat'].flatten())])"))
same('c46-loop-index', (H, "grid_z = -1 * np.vectorize(grid_interp)(grid_long_tbase, grid_data['grid_lat'])", "grid_z = np.zeros(grid_long_tbase.shape)\n    for k in range(grid_long_tbase.shape[0]):\n        grid_z[k] = -1 * grid_interp(grid_long_tbase[k], grid_data['grid_lat'][k])"))
same('c46-where', (H, "    g_180 = np.argwhere(grid_long_tbase > 180)\n\n    grid_long_tbase[g_180] -= 360\n", "    grid_long_tbase = np.where(grid_long_tbase > 180, grid_long_tbase - 360, grid_long_tbase)\n"))
same('c46-method', (H, "np.amin(grid_long_tbase) - 1,\n                                              np.amax(grid_long_tbase) + 1,", "grid_long_tbase.min() - 1,\n                                              1 + grid_long_tbase.max(),"))
same('c46-depth-zip', (C, "        for i in range(long_1[0].__len__()):\n            z_grid.append(grid_interp(long_1[0][i], lat[0][i]))\n\n        z_grid = -np.array(z_grid)", "        for x, y in zip(long_1[0], lat[0]):\n            z_grid.append(-grid_interp(x, y))\n\n        z_grid = np.array(z_grid)"))
same('c46-axes', (C, "interpolate.interp2d(x_grid[0, :], y_grid[:, 0],\n                                           elev, kind='linear')", "interpolate.interp2d(x=x_grid[0], y=y_grid[:, 0],\n                                           z=elev)"))
same('c46-float', (C, "-float_interp(float_long_tbase, float_data['float_lat'])[0]", "-1 * float_interp(float_long_tbase, float_data['float_lat']).item()"))

bug('C45', 'x-rev', (C, "            x = x_in[:, calindex]\n", "            x = x_in[:, calindex[::-1]]\n"))
bug('C45', 'y-levels', (C, "            y = mapped_cond / icond\n", "            y = np.flipud(mapped_cond) / icond\n"))
bug('C45', 'cov-temps', (C, "covariance = build_cov(ten_ptmp, unique_coord_float, system_config)", "covariance = build_cov(np.sort(ten_ptmp, axis=1), unique_coord_float, system_config)"))
bug('C45', 'coord-rows', (C, "unique_coord_float = coord_float[calindex, :]", "unique_coord_float = coord_float[np.flip(calindex), :]"))
bug('C45', 'coord-cols', (C, "unique_coord_float = coord_float[calindex, :]", "unique_coord_float = coord_float[calindex, ::-1]"))
bug('C45', 'one-series', (C, "unique_mapped_sal = mapped_sal[:, calindex]", "unique_mapped_sal = mapped_sal[:, calindex[::-1]]"))
bug('C45', 'back', (C, "pcond_factor_err[0][calindex] = condslope_err\n                time_deriv", "pcond_factor_err[0][calindex] = condslope_err[::-1]\n                time_deriv"))
bug('C45', 'back-index', (C, "                    sta_rms[0][calindex] = sta_rms_temp\n\n                else", "                    sta_rms[0][calindex[::-1]] = sta_rms_temp\n\n                else"))
bug('C45', 'sorted-err', (C, "err = mapconderrors / icond", "mapconderrors.sort(axis=0)\n            err = mapconderrors / icond"))
bug('C45', 'roll', (C, "y = mapped_cond / icond", "y = np.roll(mapped_cond, 1, axis=1) / icond"))
bug('C45', 'lon', (C, "coord_float = np.column_stack((lat.T, long.T, z_grid))", "coord_float = np.column_stack((lat.T, long[:, ::-1].T, z_grid))"))
bug('C45', 'cal-order', (C, "cal_cond[:, calindex] = np.dot(np.ones((m, 1)),\n                                               pcond_factor[:, calindex]) * unique_cond", "cal_cond[:, calindex] = np.dot(np.ones((m, 1)),\n                                               np.fliplr(pcond_factor[:, calindex])) * unique_cond"))
bug('C45', 'mapped-reads', (C, "ten_mapsalerrors[0:jj.__len__(), ipr] = unique_mapsalerrors[index[jj, ipr],\n                                                                                ipr].flatten()", "ten_mapsalerrors[0:jj.__len__(), ipr] = unique_mapsalerrors[index[jj, ipr],\n                                                                                ipr].flatten()[::-1]"))
same('c45-sorted-index', (C, "calindex = np.argwhere(calseries == unique_cal[i])[:, 1]", "calindex = np.sort(np.argwhere(calseries == unique_cal[i])[:, 1])"))
same('c45-coords', (C, "coord_float = np.column_stack((lat.T, long.T, z_grid))", "coord_float = np.hstack([lat.T, long.T, z_grid])"))
same('c45-coords2', (C, "unique_coord_float = coord_float[calindex, :]", "unique_coord_float = coord_float[calindex]"))
same('c45-take', (C, "            x = x_in[:, calindex]\n", "            x = np.take(x_in, calindex, axis=1)\n"))
same('c45-names', (C, "            y = mapped_cond / icond\n            err = mapconderrors / icond\n", "            inverse = 1.0 / icond\n            err = inverse * mapconderrors\n            y = inverse * mapped_cond\n"))

# round 4: selection of casts, theta levels, statistics, written from the property texts
bug('C34', 'r4-neq', (N, "if data_pv != 0 and ellipse_pv != 0:", "if data_pv != 0 and ellipse_pv > 0:"))
bug('C14', 'r4-rand-last', (N, "index_rand[index_rand == -1] = 0", "index_rand[index_rand <= 0] = index_ellipse.__len__()"))
bug('C14', 'r4-index-z', (N, "index_z = np.arange(lsegment2, int(len(z_remain_long)))", "index_z = np.arange(lsegment2 - 1, int(len(z_remain_long)) - 1)"))
bug('C14', 'r4-not-in', (N, "            if i not in index_rand:", "            if i not in index_rand[:-1]:"))
bug('C14', 'r4-skip-large', (N, "i3_large.append(correlation_large_sorted[int(i)])", "i3_large.append(int(i))"))
bug('C34', 'r4-pv-sq', (N, "total_pv = (ellipse_pv - data_pv) / math.sqrt(ellipse_pv ** 2 + data_pv ** 2) / phi", "total_pv = (ellipse_pv - data_pv) / math.sqrt(ellipse_pv ** 2 + ellipse_pv ** 2) / phi"))
bug('C34', 'r4-three', (N, "(ellipse_size_lat * 3) ** 2", "(ellipse_size_long * 3) ** 2"))
bug('C14', 'r4-neg', (N, "        correlation_large_sorted = correlation_large.argsort()", "        correlation_large_sorted = (-correlation_large).argsort()"))
bug('C14', 'r4-leftover', (N, "leftover = max_casts - index_rand.__len__() - lsegment2", "leftover = max_casts - math.ceil(max_casts / 3) - lsegment2"))
bug('C13', 'r4-seed-once', (N, "        np.random.seed(index_ellipse.__len__())\n", "        if index_ellipse.__len__() > 1000:\n            np.random.seed(index_ellipse.__len__())\n"))
bug('C02', 'r4-pv-hist', (N, "            pv_hist = potential_vorticity_vec(remain_hist_lat, remain_hist_z_value)", "            pv_hist = potential_vorticity_vec(remain_hist_lat, hist_z_value[:len(remain_hist_lat)])"))
bug('C04', 'r4-phi', (N, "                                                    phi_small, pv_hist, pv_float)", "                                                    phi_large, pv_hist, pv_float)"))
bug('C37', 'r4-pct', (N, "percent_s_profs[j] = num_good[j] / np.nanmax(num_good)", "percent_s_profs[j] = num_good[j] / profile_no"))
bug('C37', 'r4-le', (N, "bad = np.argwhere(percent_s_profs < use_percent_gt)", "bad = np.argwhere(percent_s_profs <= use_percent_gt)"))
bug('C37', 'r4-pl', (N, "        p_levels[i] = pres_levels[min_theta_index]", "        p_levels[i] = pres_levels[i]"))
bug('C37', 'r4-blank', (N, "        var_sal_tlevels[min_theta_index] = np.nan", "        var_sal_tlevels[i] = np.nan"))
bug('C38', 'r4-diff', (N, "min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))", "min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[neg_diff]))"))
bug('C38', 'r4-span', (N, "np.min([theta_index + 1, profile_no - 1]) + 1,", "np.min([theta_index, profile_no - 1]) + 1,"))
bug('C38', 'r4-nosal', (N, "~np.isnan(sal[k_index, depth]) and ~np.isnan(ptmp[theta_index, depth]) and", "~np.isnan(ptmp[theta_index, depth]) and"))
bug('C22', 'r4-pres-only', (N, "pres_range = np.argwhere(pres > use_pres_lt)", "pres_range = np.argwhere(pres > use_pres_lt + 50)"))
bug('C22', 'r4-order', (N, "theta_range = np.argwhere(np.logical_or(theta_range_gt, theta_range_lt))", "theta_range = np.argwhere(np.logical_and(theta_range_gt, theta_range_lt))"))
bug('C20', 'r4-max', (N, "        max_pres = np.nanmax(pres)\n", "        max_pres = np.max(pres)\n"))
bug('C20', 'r4-min', (N, "theta_levels[pres_i] = np.nanmean(interp_t[pres_i, good_interp_t])", "theta_levels[pres_i] = np.mean(interp_t[pres_i, :])"))
bug('C40', 'r4-scale', (S, "l_theta = lower_interp(ptmp[i, profile])", "l_theta = lower_interp(ptmp[j, profile])"))
bug('C40', 'r4-hcov', (S, "n_cov[lower:upper, lower_1:upper_1] = h_cov[profile, profile_1] * \\", "n_cov[lower:upper, lower_1:upper_1] = h_cov[profile, max(profile, profile_1)] * \\"))
bug('C40', 'r4-nan', (S, "                if np.isnan(cov[i + profile_1, j]):\n                    cov[i + profile_1, j] = 1", "                if np.isnan(cov[i + profile_1, j]):\n                    cov[i + profile_1, j] = 0"))
bug('C40', 'r4-bounds', (S, "ptscale_up = np.array([6, 6, 6, 6, 4, 4, 1.5, 1.5, 1])", "ptscale_up = np.array([6, 6, 6, 6, 4, 4, 1.5, 1.5, 1])[::-1]"))
bug('C34', 'r4-lat', (S, "pv_coords = potential_vorticity(coords[:, 0], z_coords)", "pv_coords = potential_vorticity(coords[:, 1], z_coords)"))
bug('C34', 'r4-phi', (S, "                               np.sqrt(pv_input_coords ** 2 + pv_coords ** 2) /\n                               phi) ** 2\n\n    cov_term", "                               np.sqrt(pv_input_coords ** 2 + pv_coords ** 2)) ** 2\n\n    cov_term"))

# round 5: helper, configuration, dashboard
bug('C09', 'r5-place', (H, "            float_mapped_data['la_map_sal_errors'] = float_mapped_data['la_mapsalerrors']\n", "            float_mapped_data['la_map_sal_errors'] = float_mapped_data['la_mapsalerrors'][:, ::-1]\n"))
bug('C09', 'r5-top', (H, 'float_mapped_data["la_noise_sal"] = np.insert(float_mapped_data["la_noise_sal"],\n                                                          float_mapped_data["la_noise_sal"].shape[0],', 'float_mapped_data["la_noise_sal"] = np.insert(float_mapped_data["la_noise_sal"],\n                                                          0,'))
bug('C09', 'r5-cut', (H, "        if new_depth > max_depth != 0:", "        if new_depth > max_depth + 1 and max_depth != 0:"))
bug('C09', 'r5-hist', (H, "    if data['selected_hist'].__len__() == 0:", "    if data['selected_hist'].__len__() <= 1:") if False else (H, '    float_mapped_data["profile_index"] = float_mapped_data["la_mapped_sal"].shape[1]', '    float_mapped_data["profile_index"] = int(float_mapped_data["la_profile_no"].max())') if False else (H, 'float_mapped_data["profile_index"] = float_mapped_data["la_mapped_sal"].shape[1]', 'float_mapped_data["profile_index"] = int(float_mapped_data["la_profile_no"].max())'))
bug('C09', 'r5-sort', (H, "            if value.size > 1:\n                if len(value.shape) > 1:", "            if value.size > 1:\n                if len(value.shape) > 1 and value.shape[0] > 1:"))
bug('C31', 'r5-delta', (H, "delta_index = np.argwhere(np.abs(hist_pres - float_pres[n_level]) < map_p_delta)[:, 0]", "delta_index = np.argwhere(np.abs(hist_pres) - float_pres[n_level] < map_p_delta)[:, 0]"))
bug('C02', 'r5-dates', (H, "    hist_dates = hist_dates[delta_index]\n", "    hist_dates = hist_dates[np.sort(delta_index)[::-1]]\n"))
bug('C02', 'r5-outl', (H, "hist_data['hist_z'] = np.delete(hist_data['hist_z'], outlier).reshape((-1, 1))", "hist_data['hist_z'] = hist_data['hist_z'][:len(hist_data['hist_sal'])]"))
bug('C46', 'r5-tbase', (H, "    grid_long_tbase[g_180] -= 360\n", "    grid_long_tbase[g_180] -= 180\n"))
bug('C23', 'r5-tbase', (H, "    g_180 = np.argwhere(grid_long_tbase > 180)\n", "    g_180 = np.argwhere(grid_long_tbase > 360)\n"))
bug('C33', 'r5-order', (G, "    calseries = calseries[sorted_profile_no]\n", "    calseries = calseries[np.argsort(sorted_profile_no)]\n"))
bug('C33', 'r5-flag', (G, "            calseries[calib_profile_no == profile_no[i]] = 0", "            calseries[calib_profile_no >= profile_no[i]] = 0"))
bug('C33', 'r5-and', (G, "        if sal_nan.__len__() == 0 or \\\n                temp_nan.__len__() == 0 or \\\n", "        if sal_nan.__len__() == 0 or temp_nan.__len__() == 0 and \\\n"))
bug('C33', 'r5-pct', (G, "            use_percent_gt = calseries_data['use_percent_gt']\n\n        except KeyError:\n            use_percent_gt = 0.5", "            use_percent_gt = calseries_data['use_percent_gt']\n            if use_percent_gt > 1:\n                use_percent_gt = 0.5\n        except KeyError:\n            use_percent_gt = 0.5"))
bug('C33', 'r5-lt', (G, "                                 'use_theta_lt': use_theta_lt,", "                                 'use_theta_lt': np.abs(use_theta_lt),"))
bug('C33', 'r5-multi', (G, "    if use_pres_lt.__len__() > 1:", "    if use_pres_lt.__len__() > 2:"))
bug('C33', 'r5-missing', (G, "        if profiles.__len__() == 0:\n            missing_profiles_index.append(i)", "        if profiles.__len__() == 0 and profile_no[i] > calib_profile_no.max():\n            missing_profiles_index.append(i)"))
bug('C08', 'r5-post', (G, "                                            float_name +\n                                            system_config['FLOAT_CALIB_POSTFIX']]))", "                                            float_name +\n                                            system_config['FLOAT_MAPPED_POSTFIX']]))"))
bug('C39', 'r5-err', (D, "                       copy.deepcopy(cal_sal_err), sta_sal,", "                       copy.deepcopy(sta_sal_err), sta_sal,"))
bug('C39', 'r5-anom', (D, 'sal_anom_plot(copy.deepcopy(cal_sal), copy.deepcopy(ptmp), profile_no, config, float_name, "calibrated")', 'sal_anom_plot(copy.deepcopy(sta_sal), copy.deepcopy(ptmp), profile_no, config, float_name, "calibrated")'))
bug('C39', 'r5-levels', (D, "    plevels = thetas[1]\n", "    plevels = thetas[0]\n"))
bug('C22', 'r5-bounds', (D, "    boundaries = [use_theta_lt, use_theta_gt,", "    boundaries = [use_theta_gt, use_theta_lt,"))
bug('C06', 'r5-alias', (D, "    sal_var_plot(levels, copy.deepcopy(sal), copy.deepcopy(pres),", "    sal_var_plot(levels, sal, copy.deepcopy(pres),"))
bug('C17', 'r5-name', (D, '                   profile_no[0], config, float_name, "calibrated")', '                   profile_no[0], config, float_name)'))
bug('C19', 'r5-const', (G, "    cfg = {\n", "    cfg = {\n        'THETA_BOUND': [],\n") if False else (G, "        'MAPSCALE_AGE_SMALL': 10,\n", "        'MAPSCALE_AGE_SMALL': '10',\n"))
bug('C08', 'r5-src', (D, "                                       float_name + config['FLOAT_SOURCE_POSTFIX']])", "                                       float_name + config['FLOAT_MAPPED_POSTFIX']])"))
bug('C02', 'r5-dates2', (H, "    hist_dates = hist_dates[delta_index]\n", "    hist_dates = hist_dates[delta_index[::-1]]\n"))
bug('C02', 'r5-dates3', (H, "    hist_dates = hist_dates[delta_index]\n", "    hist_dates = hist_dates[delta_index][::-1]\n"))
bug('C02', 'r5-dates4', (H, "    hist_dates = hist_dates[delta_index]\n", "    hist_dates = np.sort(hist_dates[delta_index])\n"))
bug('C02', 'r5-dates5', (H, "    hist_dates = hist_dates[delta_index]\n", "    hist_dates = np.flip(hist_dates[delta_index])\n"))
bug('C02', 'r5-dates6', (H, "    hist_dates = hist_dates[delta_index]\n", "    hist_dates = np.sort(hist_dates[delta_index], axis=0)\n"))
# ---- round 6 (plots and stats)
bug('C17', 'r6-round', (P, '"_salinity_variance_" + str(i + 1) + "."', '"_salinity_variance_" + str(np.round(tlevels[i][0], 1)) + "."'))
bug('C17', 'r6-last', (P, 'plt.savefig(plot_loc + "_" + title + "_theta_sal." + save_format', 'plt.savefig(plot_loc + "_" + title[-10:] + "_theta_sal." + save_format'))
bug('C17', 'r6-int', (P, '"_salinity_anomaly_" + str(bounds) + "."', '"_salinity_anomaly_" + str([int(b) for b in bounds]) + "."'))
bug('C22', 'r6-after', (P, "        good = ptmp > use_theta_lt\n        pres[good] = np.nan\n        sal[good] = np.nan\n        ptmp[good] = np.nan\n", "        good = ptmp > use_theta_lt\n        pres[good] = np.nan\n        sal[good] = np.nan\n        ptmp[good] = np.nan\n        good = ptmp > use_theta_lt\n"))
bug('C22', 'r6-gt', (P, "        good = pres > use_pres_lt\n", "        good = pres > use_pres_lt + 1\n"))
bug('C22', 'r6-nomap', (P, "    bad = np.argwhere(np.isnan(map_ptmp))\n", "    bad = np.argwhere(np.isnan(map_sal))\n"))
bug('C22', 'r6-col', (P, "        cal_sal[i[0], i[1]] = np.nan\n", "        cal_sal[i[0], :] = np.nan\n"))
bug('C22', 'r6-eq', (P, "        pres_range_gt = (pres > use_pres_lt)\n", "        pres_range_gt = (pres >= use_pres_lt)\n"))
bug('C38', 'r6-short', (P, "np.min([theta_index + 1, pres.shape[0] - 1]) + 1,", "np.min([theta_index + 1, pres.shape[0] - 1]),"))
bug('C38', 'r6-far', (P, "np.nanmin(ptmp_diff[pos_diff])", "np.nanmax(ptmp_diff[pos_diff])"))
bug('C38', 'r6-stale', (P, "                    else:\n                        k_index = theta_index\n\n                if ptmp[theta_index, j] < tlevels[i]:", "                if ptmp[theta_index, j] < tlevels[i]:"))
bug('C38', 'r6-err', (P, "                                                              [map_sal_errors[theta_index, j],\n                                                               map_sal_errors[k_index, j]])", "                                                              [map_sal_errors[theta_index, j],\n                                                               cal_sal_errors[k_index, j]])"))
bug('C38', 'r6-nan', (P, "                if ((k_index != theta_index and ~np.isnan(map_sal[theta_index, j])) and\n                        ~np.isnan(map_sal[k_index, j])", "                if ((k_index != theta_index and ~np.isnan(map_sal[theta_index, j])) and\n                        ~np.isnan(sal[k_index, j])"))
bug('C38', 'r6-x', (P, "                    s_cal_err[i, j] = interp_cal_sal_err(tlevels[i][0])", "                    s_cal_err[i, j] = interp_cal_sal_err(tlevels[j][0])"))
bug('C38', 'r6-range', (P, "            if np.nanmax(ptmp[:, i]) > tlevels[j] > np.nanmin(ptmp[:, i]):", "            if np.nanmax(ptmp) > tlevels[j] > np.nanmin(ptmp[:, i]):"))
bug('C38', 'r6-signed', (P, "                diff_theta = np.abs(ptmp[:, i] - tlevels[j])", "                diff_theta = np.abs(ptmp[:, i]) - tlevels[j]"))
bug('C38', 'r6-shape', (P, "np.min([theta_index + 1, pres.shape[0] - 1]) + 1,", "np.min([theta_index + 1, pres.shape[1] - 1]) + 1,"))
bug('C39', 'r6-levelno', (P, "        good_index = np.array(index[good, i], dtype=int)", "        good_index = np.array(good, dtype=int)"))
bug('C39', 'r6-band', (P, "        plt.fill_between(profile_no[good_index], s_cal[i, good_index] + s_cal_err[i, good_index],", "        plt.fill_between(profile_no[:np.sum(good_index)], s_cal[i, good_index] + s_cal_err[i, good_index],"))
bug('C39', 'r6-diffmean', (P, "            avg_sal_offset[i] = np.nanmean(sal_offset[:, i])", "            avg_sal_offset[i] = np.nanmean(cal_sal[:, i]) - np.nanmean(sal[:, i])"))
bug('C39', 'r6-meanerr', (P, "            avg_sal_offset_err[i] = np.nanmean(cal_sal_err[:, i])", "            avg_sal_offset_err[i] = np.nanmean(sta_sal_err[:, i])"))
bug('C39', 'r6-median', (P, "            sal_med[i] = np.nanmedian(sal_1[good, i])", "            sal_med[i] = np.nanmedian(sal_1[:, i - 1])"))
bug('C39', 'r6-mean', (P, "            sal_med[i] = np.nanmedian(sal_1[good, i])", "            sal_med[i] = np.nanmean(sal_1[good, i])"))
bug('C39', 'r6-int', (P, "        plt.contour(profile_no[0], theta_base, sal_anom, levels=[0], colors='black')", "        plt.contour(profile_no[0], theta_base, sal_int, levels=[0], colors='black')"))
bug('C39', 'r6-sign', (P, "    for i in plevels:\n        plt.axhline(y=-i,", nth(1, "    for i in plevels:\n        plt.axhline(y=i,")))
bug('C39', 'r6-2x', (P, "plt.errorbar(profile_no[0], avg_sal_offset, yerr=2 * avg_sal_offset_err,", "plt.errorbar(profile_no[0], avg_sal_offset, yerr=2 * avg_sta_offset_err,"))
bug('C39', 'r6-latlon', (U, "    grid_long = grid_data['selected_hist'][:, 0].flatten()", "    grid_long = grid_data['selected_hist'][:, 2].flatten()"))
bug('C39', 'r6-no', (U, "        {'number': float_no,", "        {'number': float_no[::-1],"))
bug('C39', 'r6-good', (P, "        good = np.argwhere(np.isfinite(avg_sta_offset))\n", "        good = np.argwhere(np.isfinite(sta_mean[0]))[:avg_sta_offset.size // 2]\n        avg_sta_offset = avg_sta_offset[::-1]\n"))
bug('C39', 'r6-base', (P, "            sal_int[:, k] = sal_int_interp(theta_base[:])", "            sal_int[:, k] = sal_int_interp(theta_base[:] + 0.05)"))
bug('C39', 'r6-pick', (P, "        good_temp = sal_temp_sorted[unique, 0]\n        good_sal = sal_temp_sorted[unique, 1]", "        good_temp = sal_temp_sorted[unique, 0]\n        good_sal = sal1[unique]"))
bug('C39', 'r6-argsort', (P, "        sal_temp_sorted = sal_temp[sal_temp[:, 0].argsort()]", "        sal_temp_sorted = np.sort(sal_temp, axis=0)"))
bug('C39', 'r6-sub', (P, "    for k in range(int(prof_range[0]), int(prof_range[1] + 1)):\n        sal_anom", "    for k in range(int(prof_range[0]), int(prof_range[1])):\n        sal_anom"))
bug('C28', 'r6-half', (S, "    sal_noise_var = np.nanmean(np.square(sal_noise)) / 2", "    sal_noise_var = np.nanvar(sal_noise) / 2"))
bug('C28', 'r6-near', (S, "    min_distances_indices = np.nanargmin(dist, axis=1)", "    min_distances_indices = np.nanargmin(dist[:, :sal.size], axis=1)[::1]\n    dist = dist.T") if False else (S, "    dist[dist == 0.0] = np.nan\n", "    np.fill_diagonal(dist, np.nan)\n"))
bug('C28', 'r6-meanabs', (S, "    return np.nanvar(sal)\n", "    return np.nanmean((sal - np.nanmedian(sal)) ** 2)\n"))
bug('C30', 'r6-accum', (S, "            yf = real_yf + n_err * np.random.randn(yf.size)", "            yf = yf + n_err * np.random.randn(yf.size)"))
bug('C30', 'r6-same', (S, "            yf = real_yf + n_err * np.random.randn(yf.size)", "            yf = real_yf + n_err * np.random.randn()"))
bug('C30', 'r6-err2', (S, "            yf = real_yf + n_err * np.random.randn(yf.size)", "            yf = real_yf + n_err ** 2 * np.random.randn(yf.size)"))
bug('C30', 'r6-fit', (S, "            err = err + (yfit - np.dot(E, A)) ** 2", "            err = err + (yfit - np.dot(real_E, A)) ** 2"))
bug('C30', 'r6-ratio', (S, "    P_3 = np.dot(E, P_2) / np.dot(E, P_1)", "    P_3 = np.mean(P_2) / np.mean(P_1)"))
bug('C30', 'r6-shape', (S, "        err = np.ones((nfit, 1)) * P_2[0]", "        err = np.ones((nfit, 1)) * P_1[0]"))
bug('C30', 'r6-restore', (S, "    A = copy.deepcopy(real_A)\n", "    A = A if best == 2 else copy.deepcopy(real_A)\n"))
bug('C30', 'r6-ref', (S, "    real_A = copy.deepcopy(A)\n", "    real_A = A\n    A[:0] = 0\n") if False else (S, "    yf = copy.deepcopy(real_yf)\n", "    yf = yf if nloops else copy.deepcopy(real_yf)\n"))
bug('C30', 'r6-breaks', (S, "                    ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[nbr])))\n\n                optim", "                    ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[nbr])))\n\n                breaks = real_breaks\n                optim") if False else (S, "                btem = np.concatenate(([xf[0]], breaks))\n                E = np.zeros((xfit.__len__(), best))", "                btem = np.concatenate(([xf[0]], real_breaks))\n                E = np.zeros((xfit.__len__(), best))"))
bug('C36', 'r6-bre', (S, "        break_pts = breaks * x_scale + x_0", "        break_pts = breaks * x_scale + x[0]"))
bug('C36', 'r6-A', (S, "        A[1:best] = A[1:best] * y_scale / x_scale", "        A[1:best - 1] = A[1:best - 1] * y_scale / x_scale"))
bug('C36', 'r6-cerr', (S, "    coef_err = np.sqrt(P_2) * y_scale / x_scale", "    coef_err = np.sqrt(P_2) / x_scale * y_scale ** 2"))
bug('C36', 'r6-in', (S, "                    breaks = (breaks - x_0) / x_scale\n", "                    breaks = breaks / x_scale - x_0\n"))
bug('C36', 'r6-rms', (S, "    sta_rms = sta_rms * y_scale\n", "    sta_rms = sta_rms * y_scale + y_0\n"))
bug('C36', 'r6-mean', (S, "    y_0 = np.mean(y)\n", "    y_0 = np.mean(y)\n    y = y - y_0\n"))
bug('C41', 'r6-ge', (S, "            ii = np.argwhere(ixb > j)\n\n            if ii.__len__() > 0:\n                E[ii, j + 1] = btem[j + 1] - btem[j]\n\n    # get unc", "            ii = np.argwhere(ixb == j + 1)\n\n            if ii.__len__() > 0:\n                E[ii, j + 1] = btem[j + 1] - btem[j]\n\n    # get unc"))
bug('C41', 'r6-first', (S, "    btem = np.concatenate(([xf[0]], breaks))\n    E = np.zeros((xfit.__len__(), best))", "    btem = np.concatenate(([xfit[0]], breaks))\n    E = np.zeros((xfit.__len__(), best))"))
bug('C41', 'r6-brk', (S, "            trends[ixb_g_j, j + 1] = btem[j + 1] - btem[j]", "            trends[ixb_g_j, j + 1] = btem[j + 1] - btem[0]"))
bug('C41', 'r6-solve', (S, "        fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)", "        fit_param = np.dot(linalg.solve(ls_est, trends.T), y_obvs)"))
bug('C41', 'r6-td', (S, "            ib = np.argwhere(ixb == j)\n            time_deriv[ib] = A[j + 1]", "            ib = np.argwhere(ixb >= j)\n            time_deriv[ib] = A[j + 1] if j == 0 else A[j]"))
bug('C42', 'r6-lin', (S, "            rss[0, 1] = np.sum(residual ** 2 / err_var)", "            rss[0, 1] = np.sum(residual ** 2) / np.mean(err_var)"))
bug('C42', 'r6-pen', (S, "ndf * (ndf + 2) / (ndf - 4)", "ndf * (ndf + 2) / (ndf - 3)"))
bug('C42', 'r6-pb', (S, "            p = 2 * (nbr + 1)\n", "            p = 2 * nbr + 1\n"))
bug('C42', 'r6-min', (S, "        best = np.argmin(aic[0, good])", "        best = np.nanargmin(rss[0, good])"))
bug('C42', 'r6-good', (S, "        good = np.array(pbrk + 1, dtype=int)", "        good = np.array(pbrk[1:] + 1, dtype=int)"))
bug('C42', 'r6-ndf', (S, "    ndf = np.sum(np.ones((npts, 1)) / (np.dot(lvcov, np.ones((npts, 1)))))", "    ndf = npts / np.mean(np.dot(lvcov, np.ones((npts, 1))))"))
bug('C43', 'r6-lim', (S, "        xblim = [x_unique[1], x_unique[n_prof - 2]]", "        xblim = [x_unique[0], x_unique[n_prof - 1]]"))
bug('C43', 'r6-np', (S, "np.floor((ndf - 1) / 2 - 2) + 1)", "np.ceil((ndf - 1) / 2 - 2) + 1)"))
bug('C43', 'r6-order', (S, "            fnumer[i] = fnumer[i - 1] + np.exp(ubrk[i])", "            fnumer[i] = np.exp(ubrk[i])"))
bug('C43', 'r6-den', (S, "        fdenom = 1 + fnumer[m_b - 1]", "        fdenom = fnumer[m_b - 1]"))
bug('C35', 'r6-cov', (S, "            temp_lvcov[ity, itx] = lvcov[i, j]", "            temp_lvcov[ity, itx] = lvcov[ity, itx]"))
bug('C35', 'r6-covx', (S, "    lvcov = lvcov[np.ix_(sorted_index, sorted_index)]", "    lvcov = lvcov[sorted_index]"))
bug('C35', 'r6-nerr', (S, "    n_err = n_err[sorted_index]\n", "    n_err = n_err[np.argsort(sorted_index)]\n"))
bug('C36', 'r6-range', (S, "    xfit = xfit * x_scale + x_0\n", "    xfit = xfit * (x[npts - 1] - x[0]) + x_0\n"))
bug('C36', 'r6-range2', (S, "        break_pts = breaks * x_scale + x_0", "        break_pts = 2 * breaks * x_scale + x_0"))
bug('C36', 'r6-ymed', (S, "    yfit = yfit * y_scale + y_0\n", "    yfit = yfit * y_scale + np.median(y)\n"))
bug('C36', 'r6-off', (S, "    A[0] = A[0] * y_scale + y_0\n", "    A[0] = A[0] * y_scale + y[0]\n"))
bug('C36', 'r6-rms2', (S, "    sta_rms = sta_rms * y_scale\n", "    sta_rms = sta_rms * np.std(n_err) if False else sta_rms * np.std(y)\n") if False else (S, "    sta_rms = sta_rms * y_scale\n", "    sta_rms = sta_rms * np.ptp(y)\n"))

# ---- round 7: one more pass over mapping, archive, settings and selection, from the texts of the properties
bug('C01', 'r7-first', (F, "            not_use.append(i)\n", "            not_use.append(i)\n            break\n"))
bug('C01', 'r7-case', (F, "if str(data['source'][i]).find(pa_float_name) != -1:", "if str(data['source'][i]).find(pa_float_name) != -1 and data['lat'].__len__() > 1:"))
bug('C02', 'r7-deep', (F, "                            sal = np.delete(sal, too_deep[:, 0])\n", "                            sal = np.delete(sal, too_deep[:, 1])\n"))
bug('C02', 'r7-bottle', (F, "        data['ptmp'] = data['ptmp'].T\n", "        data['ptmp'] = data['ptmp'].reshape(data['pres'].shape)\n"))
bug('C02', 'r7-saf', (F, "        best_hist_z = grid_z[is_select]\n", "        best_hist_z = grid_z[:is_select.size]\n"))
bug('C02', 'r7-delta', (H, "    hist_z = hist_z[delta_index]\n", "    hist_z = hist_z[:len(delta_index)]\n"))
bug('C02', 'r7-outlier', (H, "        hist_data['hist_dates'] = np.delete(hist_data['hist_dates'], outlier).reshape((-1, 1))\n", "        hist_data['hist_dates'] = hist_data['hist_dates'][:hist_data['hist_sal'].size].reshape((-1, 1))\n"))
bug('C02', 'r7-nans', (F, "            grid_dates = np.delete(grid_dates, column - nans)\n", "            grid_dates = np.delete(grid_dates, column)\n"))
bug('C03', 'r7-order', (F, "        for data_type in range(1, 4):\n\n            # get the data\n            try:\n                data = get_data(wmo_box, data_type, config, pa_float_name)\n                # if", "        for data_type in (3, 2, 1):\n\n            # get the data\n            try:\n                data = get_data(wmo_box, data_type, config, pa_float_name)\n                # if"))
bug('C03', 'r7-uniq', (F, "    for wmo_box in pa_wmo_numbers:\n\n        # go through each of the columns denoting whether we should use CTD, bottle", "    for wmo_box in np.unique(pa_wmo_numbers, axis=0):\n\n        # go through each of the columns denoting whether we should use CTD, bottle"))
bug('C03', 'r7-len', (F, "                    data_length = data['lat'].__len__()\n", "                    data_length = data['pres'].shape[0]\n"))
bug('C04', 'r7-phi', (C, "                                                             phi_small, map_use_pv)", "                                                             phi_large, map_use_pv)"))
bug('C05', 'r7-pv', (N, "        pv_hist = potential_vorticity_vec(grid_lat, grid_z_value)\n", "        pv_hist = potential_vorticity_vec(grid_long, grid_z_value)\n"))
bug('C07', 'r7-flat', (F, "                    data = dict(data)\n", ""))
bug('C07', 'r7-nodict', (F, "                    grid_dates = np.concatenate([grid_dates, data['dates']])\n", "                    data['dates'] = np.round(data['dates'])\n                    grid_dates = np.concatenate([grid_dates, data['dates']])\n"))
bug('C09', 'r7-onelevel', (H, "            if value.size > 1:\n", "            if len(value) > 1:\n"))
bug('C09', 'r7-ext', (H, "np.insert(float_mapped_data[\"la_ptmp\"],\n                                                     float_mapped_data[\"la_ptmp\"].shape[0],", "np.insert(float_mapped_data[\"la_ptmp\"],\n                                                     0,"))
bug('C09', 'r7-profile', (C, "        profiles = np.argwhere(data['la_profile_no'] == profile_no[i])\n", "        profiles = np.argwhere(data['la_profile_no'] >= profile_no[i])\n"))
bug('C09', 'r7-insert0', (C, "np.insert(data['la_profile_no'], profile_index, profile_no[missing_profile])", "np.insert(data['la_profile_no'], i, profile_no[missing_profile])"))
bug('C10', 'r7-abs', (C, "    bad_sal = np.concatenate((bad_sal_30, bad_sal_40))\n", "    bad_sal = np.concatenate((bad_sal_30, bad_sal_40)) if bad_sal_30.size else bad_sal_40\n    bad_sal = bad_sal[1:] if bad_sal_40.size > 40 else bad_sal\n"))
bug('C11', 'r7-cal', (C, "    for i in range(n_seq):\n        calindex = np.argwhere(calseries == unique_cal[i])[:, 1]", "    for i in range(n_seq):\n        calindex = np.argwhere(calseries >= unique_cal[i])[:, 1]"))
bug('C11', 'r7-breaks', (C, "                breaks_in = breaks[i, :]\n", "                breaks_in = breaks[0, :]\n"))
bug('C13', 'r7-seed', (N, "        np.random.seed(index_ellipse.__len__())\n", "        np.random.seed(id(grid_lat) % 2 ** 32)\n"))
bug('C14', 'r7-short', (N, "        leftover = max_casts - index_rand.__len__() - lsegment2\n", "        leftover = max_casts - lsegment2 - lsegment2\n"))
bug('C14', 'r7-large', (N, "        index_z = np.arange(lsegment2, int(len(z_remain_long)))\n", "        index_z = np.arange(lsegment2 - 1, int(len(z_remain_long)))\n"))
bug('C14', 'r7-reverse', (N, "        correlation_small_sorted = correlation_small.argsort()\n", "        correlation_small_sorted = correlation_small.argsort()[::-1]\n"))
bug('C16', 'r7-open', (F, "    with open(os.path.sep.join([config['CONFIG_DIRECTORY'], \"tbase.int\"]), \"rb\") as elev_file:\n        if decoder", "    elev_file = open(os.path.sep.join([config['CONFIG_DIRECTORY'], \"tbase.int\"]), \"rb\")\n    if elev_file:\n        if decoder"))
bug('C19', 'r7-none', (G, "        'MAP_P_DELTA': 250,", "        'MAP_P_DELTA': '250',"))
bug('C20', 'r7-max', (F, "    max_pres = np.nanmax(pa_float_pres) + config[\"MAP_P_DELTA\"]", "    max_pres = np.max(pa_float_pres) + config[\"MAP_P_DELTA\"]"))
bug('C20', 'r7-theta', (N, "            theta_levels[pres_i] = np.nanmean(interp_t[pres_i, good_interp_t])", "            theta_levels[pres_i] = np.mean(interp_t[pres_i, :])"))
bug('C21', 'r7-sync', (F, "    sal_nans = np.isnan(grid_sal)\n    grid_pres[sal_nans] = np.nan\n    grid_ptmp[sal_nans] = np.nan\n", "    sal_nans = np.isnan(grid_sal) & np.isnan(grid_ptmp)\n    grid_pres[sal_nans] = np.nan\n    grid_ptmp[sal_nans] = np.nan\n"))
bug('C21', 'r7-deepest', (F, "    max_pres = np.nanmax(pa_float_pres) + config[\"MAP_P_DELTA\"]", "    max_pres = np.nanmax(pa_float_pres[-1:]) + config[\"MAP_P_DELTA\"]"))
bug('C23', 'r7-long', (H, "    grid_long_tbase[g_180] -= 360\n", "    grid_long_tbase -= 360 if g_180.__len__() > 0 else 0\n"))
bug('C23', 'r7-east', (C, "                if np.argwhere(best_hist_data['grid_long'] >= 360).__len__() > 0:\n", "                if np.argwhere(best_hist_data['grid_long'] >= 360).__len__() > 5:\n"))
bug('C23', 'r7-wrap', (T, "        bottom_long = np.argwhere(grid_long <= 40)\n", "        bottom_long = np.argwhere(grid_long <= 20)\n"))
bug('C24', 'r7-row', (F, "                elev_file.seek((i + decoder[3]) * 360 * 12 * 2)\n", "                elev_file.seek((i + decoder[3]) * 360 * 12 * 2 + 2)\n"))
bug('C24', 'r7-lat', (F, "    lts = np.flip(np.arange(blat, tlat + 1, 1) / 12, axis=0)", "    lts = np.flip(np.linspace(min_lat, max_lat, tlat - blat + 1), axis=0)"))
bug('C25', 'r7-hour', (T, "            hour = 0\n            minute = 0\n", "", ), (T, "    # go through and decimalise dates\n", "    hour = 0\n    minute = 0\n    # go through and decimalise dates\n"))
bug('C25', 'r7-min', (T, "            if cal_dates_string[i].__len__() > 11:\n                minute", "            if cal_dates_string[i].__len__() > 12:\n                minute"))
bug('C26', 'r7-nearest', (W, " - float_pres[index]), axis=0)", "), axis=0)"))
bug('C26', 'r7-sign', (W, "    return values[1:, :] * values[:-1, :] <= 0.0", "    return np.sign(values[1:, :]) != np.sign(values[:-1, :])"))
bug('C27', 'r7-five', (C, "len(best_hist_data_2['grid_sal'][0]) > 5", "len(best_hist_data_2['grid_sal']) > 5"))
bug('C27', 'r7-both', (F, "                    if is_south & is_north:\n                        crit_saf = 0\n\n                    elif is_south:", "                    if is_south:"))
bug('C27', 'r7-tmp', (F, "np.interp(300, grid_pres[isok, i], grid_tmp[isok, i]", "np.interp(300, grid_pres[isok, i], grid_ptmp[isok, i]"))
bug('C28', 'r7-grid', (W, "    grid_weight_covar = np.dot(grid_data_covar, weight) + mean_field", "    grid_weight_covar = np.dot(grid_data_covar, weight) + np.mean(sal)"))
bug('C31', 'r7-count', (C, "                        if hist_data['hist_sal'].__len__() > 5:\n", "                        if hist_interp_sal.shape[1] > 5:\n"))
bug('C31', 'r7-window', (H, "np.abs(hist_pres - float_pres[n_level]) < map_p_delta", "(hist_pres - float_pres[n_level]) < map_p_delta"))
bug('C32', 'r7-sta', (C, "                sta_cond_err = np.dot(np.ones((m, 1)), sta_rms[:, calindex]) * unique_cond", "                sta_cond_err = np.dot(np.ones((m, 1)), sta_rms[:, calindex]) * sta_cond"))
bug('C33', 'r7-lt', (G, "    if use_theta_gt.__len__() > 1:\n", "    if use_theta_lt.__len__() > 1:\n"))
bug('C33', 'r7-perc', (G, "            use_percent_gt = calseries_data['use_percent_gt']\n", "            use_percent_gt = min(calseries_data['use_percent_gt'], 0.5)\n"))
bug('C34', 'r7-pvzero', (T, "    if pv_1 != 0 and pv_2 != 0:\n", "    if pv_1 > 0 and pv_2 > 0:\n"))
bug('C34', 'r7-ell', (N, "(ellipse_pv - data_pv) / math.sqrt(ellipse_pv ** 2 + data_pv ** 2) / phi", "(ellipse_pv - data_pv) / math.sqrt(ellipse_pv ** 2 + data_pv ** 2) / phi / 3"))
bug('C37', 'r7-gt', (N, "    bad = np.argwhere(percent_s_profs < use_percent_gt)\n", "    bad = np.argwhere(percent_s_profs < use_percent_gt)[:, 0][1:]\n"))
bug('C37', 'r7-pmean', (N, "        p_levels[i] = pres_levels[min_theta_index]\n", "        p_levels[i] = pres_levels[i]\n"))
bug('C44', 'r7-resid', (C, "                            sal_residual = hist_sal_flatten - mapped_values[2]\n", "                            sal_residual = hist_sal_flatten - mapped_values[0]\n"))
bug('C44', 'r7-err', (C, "                            dot_map_values = np.dot(mapped_values[1], mapped_values[1])", "                            dot_map_values = np.dot(mapped_values[3], mapped_values[3]) / mapped_values[3].size"))
bug('C45', 'r7-x', (C, "            x = x_in[:, calindex]\n", "            x = x_in[:, np.sort(calindex)[::-1]]\n"))
bug('C46', 'r7-depth', (C, "            z_grid.append(grid_interp(long_1[0][i], lat[0][i]))\n", "            z_grid.append(grid_interp(long_1[0][i], np.nanmean(lat)))\n"))
bug('C46', 'r7-best', (C, "                best_hist_data = process_profiles_grid_variables(best_hist_data, config)\n", "                best_hist_data['grid_z'] = grid_data['grid_z'][:best_hist_data['grid_lat'].size]\n"))
bug('C18', 'r7-rename', (C, "    savemat(save_location, data)\n", "    savemat(filename + '.tmp', data)\n    os.replace(filename + '.tmp', save_location)\n"))
bug('C08', 'r7-abspath', (C, "    mapped_data_path = os.path.abspath(mapped_data_path)\n", "    mapped_data_path = os.path.abspath(mapped_data_path.replace(float_dir, '', 1))\n"))
bug('C12', 'r7-shape', (C, "    if n_seq == 1 and max_breaks.__len__() > 1:\n", "    if n_seq == 1 and max_breaks.size > 2:\n"))
bug('C06', 'r7-view', (C, "        theta, p, index, var_s_th, th = find_10thetas(copy.deepcopy(unique_sal),", "        theta, p, index, var_s_th, th = find_10thetas(unique_sal,"))
same('r7-linspace', (F, "    lgs = np.arange(llong, rlong + 1, 1) / 12\n", "    lgs = np.linspace(llong / 12, rlong / 12, rlong - llong + 1)\n"))

SEL = "            data['selected_hist'] = np.vstack"
bug('C47', 'rec-joint', (H, "d_1 = np.argwhere(np.abs(new_object[d_0, 1]) < 1 / 60)\n        if len(d_1) == 0:", "d_1 = np.argwhere(np.abs(new_object[:, 1]) < 1 / 60)\n        if len(d_0) == 0 or len(d_1) == 0:"))
bug('C47', 'rec-long-only', (H, "if len(d_1) == 0:", "if len(d_0) == 0:"))
bug('C47', 'rec-tol', (H, "np.abs(new_object[d_0, 1]) < 1 / 60", "np.abs(new_object[d_0, 1]) < 1 / 6"))
bug('C47', 'rec-rest', (H, "for j in range(count):", "for j in range(count - 1):"))
bug('C47', 'rec-first', (H, "[hist_data['hist_long'][j][0], hist_data['hist_lat'][j][0],\n                                      data", "[hist_data['hist_long'][j][0], hist_data['hist_lat'][0][0],\n                                      data"))
bug('C47', 'rec-swap', (H, "lon_lat = np.array([hist_data['hist_long'][j][0], hist_data['hist_lat'][j][0]])", "lon_lat = np.array([hist_data['hist_lat'][j][0], hist_data['hist_long'][j][0]])"))
bug('C47', 'rec-sort', (C, "key=lambda x: x[2]", "key=lambda x: x[0]"))
bug('C47', 'rec-profile', (H, "data['la_profile_no'][profile_index]])\n            if len", "data['la_profile_no'][profile_index - 1]])\n            if len"))
bug('C47', 'rec-new', (H, "    if data['selected_hist'].__len__() == 0:\n        selected_hist =", "    if data['la_profile_no'][profile_index] != data['la_profile_no'][profile_index - 1] or data['selected_hist'].__len__() == 0:\n        selected_hist ="))
bug('C47', 'rec-outliers', (C, "                            data = selected_historical_points(data, hist_data, profile_index)\n", ""), (C, "                            # remove the statical outliers\n", "                            data = selected_historical_points(data, hist_data, profile_index)\n\n                            # remove the statical outliers\n"))
bug('C47', 'rec-unwindowed', (C, "data = selected_historical_points(data, hist_data, profile_index)", "data = selected_historical_points(data, {'hist_long': best_hist_data['grid_long'].reshape(-1, 1), 'hist_lat': best_hist_data['grid_lat'].reshape(-1, 1)}, profile_index)"))
bug('C47', 'rec-once', (C, "                            data = selected_historical_points(data, hist_data, profile_index)\n", "                            if n_level == 0:\n                                data = selected_historical_points(data, hist_data, profile_index)\n"))
bug('C47', 'rec-mixed', (H, "        if len(d_1) == 0:\n", "        if len(d_1) == 0 and data['selected_hist'][-1, 2] != data['la_profile_no'][profile_index]:\n"))
bug('C47', 'rec-recent', (H, "new_object = data['selected_hist'][:, 0:2] - np.ones((length, 1)) * lon_lat", "new_object = data['selected_hist'][-50:, 0:2] - np.ones((min(length, 50), 1)) * lon_lat"))
bug('C47', 'rec-thin', (C, "selected_hist_1 = np.array(sorted(selected_hist, key=lambda x: x[2]))", "selected_hist_1 = np.array(sorted(selected_hist, key=lambda x: x[2]))[:1000]"))
same('rec-any', (H, "        d_0 = np.argwhere(np.abs(new_object[:, 0]) < 1 / 60)\n        d_1 = np.argwhere(np.abs(new_object[d_0, 1]) < 1 / 60)\n        if len(d_1) == 0:", "        close = (np.abs(new_object[:, 0]) < 1 / 60) & (np.abs(new_object[:, 1]) < 1 / 60)\n        if not close.any():"))
same('rec-both', (H, "        d_0 = np.argwhere(np.abs(new_object[:, 0]) < 1 / 60)\n        d_1 = np.argwhere(np.abs(new_object[d_0, 1]) < 1 / 60)\n        if len(d_1) == 0:", "        if not np.any(np.all(np.abs(new_object) < 1 / 60, axis=1)):"))
same('rec-argsort', (C, "selected_hist_1 = np.array(sorted(selected_hist, key=lambda x: x[2]))", "selected_hist_1 = selected_hist[np.argsort(selected_hist[:, 2], kind='stable')]"))
same('rec-append', (H, "np.vstack((data['selected_hist'], add_hist_data))", "np.append(data['selected_hist'], add_hist_data.reshape(1, 3), axis=0)"))

import refactors  # noqa
refactors.register(same, C, H, G, F, W, P, D, U, T, N, S)
import refactors2  # noqa
refactors2.register(same, C, H, G, F, W, P, D, U, T, N, S)
import refactors3  # noqa
refactors3.register(same, C, H, G, F, W, P, D, U, T, N, S)

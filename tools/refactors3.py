"""Behaviour-preserving rewrites of the plots, the dashboard, the calibration and the results."""
from refactors import sub, rep

SEVEN = r"        pres\[good\] = np\.nan\n        sal\[good\] = np\.nan\n        ptmp\[good\] = np\.nan\n        map_sal\[good\] = np\.nan\n        map_sal_errors\[good\] = np\.nan\n        cal_sal\[good\] = np\.nan\n        cal_sal_errors\[good\] = np\.nan\n"


def register(same, C, H, G, F, W, P, D, U, T, N, S):
    same('rh-var-blank', (P, '', sub((SEVEN, r"        for values in (pres, sal, ptmp, map_sal, map_sal_errors, cal_sal, cal_sal_errors):\n            values[good] = np.nan\n"))))
    same('rh-var-blank-fn', (P, '', sub((SEVEN, r"        _blank(good, pres, sal, ptmp, map_sal, map_sal_errors, cal_sal, cal_sal_errors)\n"),
         (r"^def sal_var_plot", "def _blank(where, *fields):\n    for field in fields:\n        field[where] = np.nan\n\n\ndef sal_var_plot"))))
    same('rh-var-unmapped', (P, '', sub((r"    bad = np\.argwhere\(np\.isnan\(map_ptmp\)\)\n    for i in bad:\n.*?cal_sal_errors\[i\[0\], i\[1\]\] = np\.nan\n",
         r"    bad = np.isnan(map_ptmp)\n    for values in (pres, sal, ptmp, map_sal, map_sal_errors, cal_sal, cal_sal_errors):\n        values[bad] = np.nan\n"))))
    same('rh-var-bounds', (P, '', sub((r"    use_theta_lt = boundaries\[0\]\n    use_theta_gt = boundaries\[1\]\n    use_pres_lt = boundaries\[2\]\n    use_pres_gt = boundaries\[3\]\n    use_percent_gt = boundaries\[4\]\n",
         r"    use_theta_lt, use_theta_gt, use_pres_lt, use_pres_gt, use_percent_gt = boundaries\n"))))
    same('rh-var-interp', (P, '', sub((r"interpolate\.interp1d\(\[ptmp\[theta_index, j\],\s+ptmp\[k_index, j\]\],\s+\[(\w+)\[theta_index, j\],\s+\w+\[k_index, j\]\]\)", r"between(\1)"),
         (r"^( +)if \(\(k_index != theta_index and ~np\.isnan\(map_sal\[theta_index, j\]\)\)",
          r"\1def between(values):\n\1    return interpolate.interp1d([ptmp[theta_index, j], ptmp[k_index, j]], [values[theta_index, j], values[k_index, j]])\n\n\1if ((k_index != theta_index and ~np.isnan(map_sal[theta_index, j]))"),
         ) if False else sub((r"                    interp_map_sal_err = (interpolate\.interp1d\(.*?\))\n(\s+)s_map_err\[i, j\] = interp_map_sal_err\(tlevels\[i\]\[0\]\)\n",
          r"                    s_map_err[i, j] = \1(tlevels[i][0])\n"))))
    same('rh-var-draw', (P, '', sub((r"        plt\.fill_between\(profile_no\[good_index\], s_cal\[i, good_index\] \+ s_cal_err\[i, good_index\],\s+s_cal\[i, good_index\] - s_cal_err\[i, good_index\], color=\(0, 1, 0\)\)\n",
         r"        value, error = s_cal[i, good_index], s_cal_err[i, good_index]\n        plt.fill_between(profile_no[good_index], value - error, value + error, color=(0, 1, 0))\n"))))
    same('rh-tsp-lines', (P, '', sub((r"    for i in tlevels:\n        plt\.axhline\(y=i, color=\(0, 1, 0\), linestyle='-', linewidth=0\.5\)\n", r"    _lines(tlevels)\n"),
         (r"    for i in plevels:\n        plt\.axhline\(y=-i, color=\(0, 1, 0\), linestyle='-', linewidth=0\.5\)\n", r"    _lines(-plevels)\n"),
         (r"^def t_s_profile_plot", "def _lines(heights):\n    for height in heights:\n        plt.axhline(y=height, color=(0, 1, 0), linestyle='-', linewidth=0.5)\n\n\ndef t_s_profile_plot"))))
    same('rh-save', (P, '', sub((r"    save_format = config\['FLOAT_PLOTS_FORMAT'\]\n    plot_loc = os\.path\.sep\.join\(\[config\['FLOAT_PLOTS_DIRECTORY'\], float_name\]\)\n    plt\.savefig\(plot_loc \+ \"_\" \+ title \+ \"_theta_sal\.\" \+ save_format, format=save_format\)\n",
         r"    save_format = config['FLOAT_PLOTS_FORMAT']\n    file_name = float_name + '_' + title + '_theta_sal.' + save_format\n    plt.savefig(config['FLOAT_PLOTS_DIRECTORY'] + os.path.sep + file_name, format=save_format)\n"))))
    same('rh-ts-points', (P, '', sub((r"        if i in n_legend:\n            plt\.plot\(sal\[i\], theta\[i\], color=colors\[i\], label=profiles\[i\]\)\n        else:\n            plt\.plot\(sal\[i\], theta\[i\], color=colors\[i\]\)\n",
         r"        extra = {'label': profiles[i]} if i in n_legend else {}\n        plt.plot(sal[i], theta[i], color=colors[i], **extra)\n"),
         (r"        good = np\.argwhere\(~np\.isnan\(index\[:, i\]\)\)\n        good_index = np\.array\(index\[good, i\], dtype=int\)\n", r"        good_index = index[~np.isnan(index[:, i]), i].astype(int)\n"))))
    same('rh-traj-shapes', (P, '', sub((r"    with shapefile\.Reader\(coastline\) as shp:\n.*?facecolor=\"None\"\)\n",
         r"    _draw(axes, coastline, shapefile.POLYLINE, linewidth=0.5, edgecolor='black', facecolor='None')\n"),
         (r"^def trajectory_plot", "def _draw(axes, path, kind, **style):\n    with shapefile.Reader(path) as shp:\n        shapes = [shape for shape in shp.shapes() if shape.shapeType == kind]\n        draw_shapes_as_patches(axes, shapes, **style)\n\n\ndef trajectory_plot"))))
    # dashboard
    same('rh-dash-paths', (D, '', sub((r"    grid_data_loc = .*?config\['FLOAT_MAPPED_POSTFIX'\]\]\)\n", r"    grid_data_loc = _result_file(config, 'MAPPED', 'MAPPED', float_dir, float_name)\n"),
         (r"    cal_data_loc = .*?config\['FLOAT_CALIB_POSTFIX'\]\]\)\n", r"    cal_data_loc = _result_file(config, 'CALIB', 'CALIB', float_dir, float_name)\n"),
         (r"    cal_series_loc = .*?config\['FLOAT_CALIB_POSTFIX'\]\]\)\n", r"    cal_series_loc = _result_file(config, 'CALIB', 'CALSERIES', float_dir, float_name)\n"),
         (r"^def plot_diagnostics", "def _result_file(config, stage, what, float_dir, float_name):\n    name = config['FLOAT_' + what + '_PREFIX'] + float_name + config['FLOAT_' + stage + '_POSTFIX']\n    return os.path.sep.join([config['FLOAT_' + stage + '_DIRECTORY'], float_dir, name])\n\n\ndef plot_diagnostics"))))
    same('rh-dash-wrap', (D, '', sub((r"    float_long = float_data\['LONG'\]\n    float_long\[float_long > 180\] -= 360\n", r"    _west(float_data['LONG'])\n"),
         (r"    long_i = grid_data\['selected_hist'\]\n    grid_long = long_i\[:, 0\]\n    grid_long\[grid_long > 180\] -= 360\n", r"    _west(grid_data['selected_hist'][:, 0])\n"),
         (r"^def plot_diagnostics", "def _west(longitudes):\n    longitudes[longitudes > 180] -= 360\n\n\ndef plot_diagnostics"))))
    same('rh-dash-thetas', (D, '', sub((r"    thetas = find_10thetas\(", r"    tlevels, plevels, index, sal_var, theta_levels = find_10thetas("),
         (r"    index = thetas\[2\]\n", ""), (r"    sal_var = thetas\[3\]\n    theta_levels = thetas\[4\]\n    tlevels = thetas\[0\]\n    plevels = thetas\[1\]\n", ""))))
    same('rh-dash-limits', (D, '', sub((r"    use_theta_lt = cal_series\['use_theta_lt'\]\n.*?use_percent_gt = cal_series\['use_percent_gt'\]\n",
         r"    use_theta_lt, use_theta_gt, use_pres_lt, use_pres_gt, use_percent_gt = (\n        cal_series['use_' + what] for what in ('theta_lt', 'theta_gt', 'pres_lt', 'pres_gt', 'percent_gt'))\n"))))
    same('rh-dash-copy', (D, '', sub((r"copy\.deepcopy\((\w+)\)\.transpose\(\)", r"\1.T.copy()"))))
    same('rh-frame', (U, '', sub((r"^def create_dataframe", "def _column(values):\n    return values.flatten()\n\n\ndef create_dataframe"))))

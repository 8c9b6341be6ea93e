"""More behaviour-preserving rewrites: the fit, the covariances, the mapping, the interpolation, the plots."""
from refactors import sub, rep


def register(same, C, H, G, F, W, P, D, U, T, N, S):
    # --- the fit
    same('rg-fit-perm', (S, '', sub((
        r"    x = x\[sorted_index\]\n    y = y\[sorted_index\]\n    n_err = n_err\[sorted_index\]\n",
        r"    x, y, n_err = (values[sorted_index] for values in (x, y, n_err))\n"))))
    same('rg-fit-good', (S, '', sub((
        r"    good = np\.argwhere\(np\.isfinite\(y\) & np\.isfinite\(x\)\)\n",
        r"    good = np.flatnonzero(np.isfinite(x) & np.isfinite(y))\n"),
        (r"    temp_lvcov = np\.empty.*?    lvcov = temp_lvcov\n", r"    lvcov = lvcov[np.ix_(good, good)]\n"))))
    same('rg-fit-norm', (S, '', sub((
        r"    xf = \(x - x_0\) / x_scale\n", r"    def scaled(values):\n        return (values - x_0) / x_scale\n\n    xf = scaled(x)\n"),
        (r"    xfit = \(xfit - x_0\) / x_scale\n", r"    xfit = scaled(xfit)\n"))))
    same('rg-fit-offset', (S, '', sub((
        r"b_A\[0, 0\] = np\.dot\(np\.dot\(np\.dot\(np\.linalg\.inv.*?yf\)\n",
        r"normal = np.dot(np.dot(ones_column.T, w_i), ones_column)\n            rhs = np.dot(np.dot(ones_column.T, w_i), yf)\n            b_A[0, 0] = np.dot(np.linalg.inv(normal), rhs)\n"))))
    same('rg-fit-design', (S, '', sub((
        r"    E = np\.zeros\(\(npts, best\)\)\n.*?(?=    # |    B_i)",
        r"    E = _design(xf, btem, best)\n\n"),
        (r"^def fit_cond", "def _design(xs, starts, terms):\n    rows = np.zeros((len(xs), terms))\n    rows[:, 0] = 1\n    where = sorter(starts, xs)\n    for j in range(terms - 1):\n        ib = np.argwhere(where == j)\n        rows[ib, j + 1] = xs[ib] - starts[j]\n        ii = np.argwhere(where > j)\n        if len(ii) > 0:\n            rows[ii, j + 1] = starts[j + 1] - starts[j]\n    return rows\n\n\ndef fit_cond"))))
    same('rg-fit-aic', (S, '', sub((
        r"ndf \* np\.log\(rss\[0, 0\] / npts\) \+ ndf \* \(ndf \+ 1\) / \(ndf - 3\)", r"_aic(rss[0, 0], 1, ndf, npts)"),
        (r"ndf \* np\.log\(rss\[0, 1\] / npts\) \+ ndf \* \(ndf \+ 2\) / \(ndf - 4\)", r"_aic(rss[0, 1], 2, ndf, npts)"),
        (r"ndf \* np\.log\(rss\[0, nbr \+ 1\] / npts\) \+ ndf \* \(ndf \+ p\) / \(ndf - p - 2\)", r"_aic(rss[0, nbr + 1], p, ndf, npts)"),
        (r"^def fit_cond", "def _aic(rss, no_param, ndf, npts):\n    penalty = ndf * (ndf + no_param) / (ndf - no_param - 2)\n    return ndf * np.log(rss / npts) + penalty\n\n\ndef fit_cond"))))
    same('rg-fit-out', (S, '', sub((
        r"    condslope = yfit\.T\n    condslope_err = yerr\.T\n", r"    condslope, condslope_err = yfit.T, yerr.T\n"),
        (r"    sta_mean = sta_mean \* y_scale \+ y_0\n    sta_rms = sta_rms \* y_scale\n", r"    sta_rms = y_scale * sta_rms\n    sta_mean = y_0 + y_scale * sta_mean\n"))))
    same('rg-fit-sta', (S, '', sub((
        r"            w_values = w\[np\.arange\(ip_1\[index\]\[0, 0\] \+ 1, ip_1\[index \+ 1\]\[0, 0\] \+ 1\)\]\n            yf_values = yf\[np\.arange\(ip_1\[index\]\[0, 0\] \+ 1, ip_1\[index \+ 1\]\[0, 0\] \+ 1\)\]\n",
        r"            members = np.arange(ip_1[index][0, 0] + 1, ip_1[index + 1][0, 0] + 1)\n            w_values = w[members]\n            yf_values = yf[members]\n"))))
    same('rg-fit-brk', (S, '', sub((
        r"    if w_i\.__len__\(\) > 0:\n        ls_est = .*?    if np\.linalg\.det\(ls_est\) == 0:",
        r"    weighted = len(w_i) > 0\n    left = np.dot(trends.T, w_i) if weighted else trends.T\n    ls_est = np.dot(left, trends)\n\n    if np.linalg.det(ls_est) == 0:"))))
    same('rg-fit-parms', (S, '', sub((
        r"        for n in range\(int\(no_args / 2\)\):\n            parm = args\[2 \* n\]\n            value = args\[\(n \* 2\) \+ 1\]\n",
        r"        for parm, value in zip(args[0::2], args[1::2]):\n"))))
    same('rg-fit-deriv', (S, '', sub((
        r"        time_deriv = A\[1\] \* np\.ones\(\(nfit, 1\)\)\n        time_deriv_err = coef_err\[1\] \* np\.ones\(\(nfit, 1\)\)\n",
        r"        time_deriv = np.full((nfit, 1), A[1])\n        time_deriv_err = np.full((nfit, 1), coef_err[1])\n"))))
    # --- covariances
    same('rg-cov-gauss', (S, '', sub((
        r"np\.exp\(-1 \* \(ptmp\[j, profile\] - ptmp\[i, profile\]\) \*\* 2\s+/ l_theta \*\* 2\)",
        r"_gauss(ptmp[j, profile] - ptmp[i, profile], l_theta)"),
        (r"^def build_cov", "def _gauss(distance, scale):\n    return np.exp(-(distance / scale) ** 2)\n\n\ndef build_cov"))))
    same('rg-cov-one-branch', (S, '', sub((
        r"                if i < j:\n.*?                # if we don.t have a value",
        r"                if i == j:\n                    cov[i + profile_1, j] = 1\n                else:\n                    scale = upper_interp if i < j else lower_interp\n                    cov[i + profile_1, j] = np.exp(-((ptmp[j, profile] - ptmp[i, profile]) / scale(ptmp[i, profile])) ** 2)\n\n                # if we don.t have a value"))))
    same('rg-cov-slices', (S, '', sub((
        r"        lower = profile \* ptmp_rows\n        upper = \(profile \+ 1\) \* ptmp_rows\n(.*?)            lower_1 = profile_1 \* ptmp_rows\n            upper_1 = \(profile_1 \+ 1\) \* ptmp_rows\n.*?    return n_cov\n",
        r"        rows = slice(profile * ptmp_rows, (profile + 1) * ptmp_rows)\n\1            columns = slice(profile_1 * ptmp_rows, (profile_1 + 1) * ptmp_rows)\n            n_cov[rows, columns] *= h_cov[profile, profile_1]\n\n    return n_cov\n"))))
    same('rg-cov-config', (S, '', sub((
        r"        h_cov\[profile, :\] = covarxy_pv\(coord_float\[profile\], coord_float,\s+config\['MAPSCALE_LONGITUDE_SMALL'\],\s+config\['MAPSCALE_LATITUDE_SMALL'\],\s+config\['MAPSCALE_PHI_SMALL'\],\s+config\['MAP_USE_PV'\]\)\n",
        r"        h_cov[profile, :] = covarxy_pv(coord_float[profile], coord_float, *scales)\n"),
        (r"    h_cov = np\.ones\(\(ptmp_columns, ptmp_columns\)\) \* np\.nan\n",
         r"    h_cov = np.full((ptmp_columns, ptmp_columns), np.nan)\n    scales = [config[key] for key in ('MAPSCALE_LONGITUDE_SMALL', 'MAPSCALE_LATITUDE_SMALL', 'MAPSCALE_PHI_SMALL', 'MAP_USE_PV')]\n"))))
    same('rg-cov-xyt', (S, '', sub((
        r"    long_covar = \(\(points1.*?\*\*2\n\n?    lat_covar = .*?\*\*2\n",
        r"    def spread(column, scale):\n        return ((points1[:, np.newaxis, column] - points2[np.newaxis, :, column]) / scale)**2\n\n    long_covar = spread(0, long)\n    lat_covar = spread(1, lat)\n"),
        (r"        age_covar = \(\(points1.*?\*\*2\n", r"        age_covar = spread(2, age)\n"))))
    same('rg-cov-xy', (S, '', sub((
        r"    cor_term = \(\(input_coords\[0\] - coords\[:, 0\]\) / lat\) \*\* 2 \+ \\\n\s+\(\(input_coords\[1\] - coords\[:, 1\]\) / long\) \*\* 2\n",
        r"    d_lat = (coords[:, 0] - input_coords[0]) / lat\n    d_long = (coords[:, 1] - input_coords[1]) / long\n    cor_term = d_long ** 2 + d_lat ** 2\n"))))
    same('rg-noise', (S, '', sub((
        r"    sal_noise = sal - sal\[min_distances_indices\]\n.*?    sal_noise_var = np\.nanmean\(np\.square\(sal_noise\)\) / 2\n",
        r"    neighbours = sal[min_distances_indices]\n    sal_noise_var = 0.5 * np.nanmean((sal - neighbours)**2)\n"))))
    # --- mapping
    same('rg-map-helper', (W, '', sub((
        r"    # use \*original\* covariance.*?(?=    return grid_weight)|XXX", r"")) if False else sub((
        r"    dot_covar_diag = np\.diag\(np\.dot\(\s+np\.dot\((\w+), data_data_covar\),\s+np\.transpose\(\w+\)\)\)\n\s+covar_sum = np\.sum\(np\.dot\(\w+, data_data_covar\), axis=1\)\n(\s*#[^\n]*\n)?\s+(\w+) = np\.sqrt\(signal_variance - dot_covar_diag \+\s+\(\(1 - covar_sum\) \*\* 2\) / sum_data_data_covar\)\n",
        r"    \3 = _mapping_error(\1, data_data_covar, signal_variance, sum_data_data_covar)\n"),
        (r"^def map_data_grid", "def _mapping_error(covar, inverse, signal, total):\n    product = np.dot(covar, inverse)\n    diagonal = np.diag(np.dot(product, covar.T))\n    return np.sqrt(signal - diagonal + (1 - product.sum(axis=1)) ** 2 / total)\n\n\ndef map_data_grid"))))
    same('rg-map-mean', (W, '', sub((
        r"    sum_data_data_covar = sum\(sum\(data_data_covar\)\)\n", r"    sum_data_data_covar = np.sum(data_data_covar)\n"),
        (r"    mean_field = sum\(np\.dot\(data_data_covar, sal\.transpose\(\)\)\) / sum_data_data_covar\n", r"    mean_field = np.sum(data_data_covar @ sal.T) / sum_data_data_covar\n"))))
    same('rg-map-inv', (W, '', sub((
        r"np\.linalg\.inv\(signal_variance \* data_pos_covar \+\s+noise_variance \* np\.identity\(data_pos\.__len__\(\)\)\)",
        r"np.linalg.inv(noise_variance * np.eye(len(data_pos)) + data_pos_covar * signal_variance)"))))
    same('rg-interp-clean', (W, '', sub((
        r"        grid_sal\[:good_values, station_id\] = grid_sal_in.*?        grid_pres\[:good_values, station_id\] = [^\n]*\n",
        r"        good = grid_good_data[:, station_id]\n        for cleaned, given in ((grid_sal, grid_sal_in), (grid_theta, grid_theta_in), (grid_pres, grid_pres_in)):\n            cleaned[:good_values, station_id] = given[good, station_id]\n"))))
    same('rg-interp-guard', (W, '', sub((
        r"    if max_level > 0:\n.*?    return grid_sal, grid_theta, grid_pres\n",
        r"    if max_level == 0:\n        print('No good climatological data has been found for this profile')\n        return None\n\n    return grid_sal[:max_level, :], grid_theta[:max_level, :], grid_pres[:max_level, :]\n"))))
    same('rg-interp-signs', (W, '', sub((
        r"    return values\[1:, :\] \* values\[:-1, :\] <= 0\.0\n",
        r"    above, below = values[:-1, :], values[1:, :]\n    return above * below <= 0.0\n"))))
    same('rg-interp-two', (W, '', sub((
        r"        output_placeholder\[sign_changes\] = np\.nan\n(.*?)        output_placeholder\[sign_changes\] = interpolate_values\(interp_factor, sign_changes, grid_sal, grid_sal_diff\)\n",
        r"\1        output_placeholder[sign_changes] = interpolate_values(interp_factor, sign_changes, grid_sal, grid_sal_diff)\n"))))
    same('rg-interp-mask', (W, '', sub((
        r"    good_sal = np\.isfinite\(sal\)\n    good_theta = np\.isfinite\(theta\)\n    good_pres = np\.isfinite\(pres\)\n.*?return good_sal & good_theta & good_pres\n",
        r"    return np.all([np.isfinite(values) for values in (sal, theta, pres)], axis=0)\n"))))
    same('rg-interp-loop', (W, '', sub((
        r"(        min_pres = np\.nanargmin.*?        output_placeholder\[sign_changes\] = np\.nan\n.*?        output_placeholder\[sign_changes\] = np\.nan\n)",
        r"        distance = np.abs(output_placeholder[:, stations_with_possible_interp] - float_pres[index])\n        min_pres = np.nanargmin(distance, axis=0)\n        interp_pres_final[index, stations_with_possible_interp] = output_placeholder[min_pres, stations_with_possible_interp]\n        salinities = np.full_like(output_placeholder, np.nan)\n        salinities[sign_changes] = interpolate_values(interp_factor, sign_changes, grid_sal, grid_sal_diff)\n        interp_sal_final[index, stations_with_possible_interp] = salinities[min_pres, stations_with_possible_interp]\n        output_placeholder[sign_changes] = np.nan\n"))))
    # --- levels
    same('rg-lev-profile', (N, '', sub((
        r"                if np\.nanmax\(pres\[good, depth\]\) > pres_levels\[pres_i\] > np\.nanmin\(pres\[good, depth\]\):\n\s+interp = interpolate\.interp1d\(pres\[good, depth\]\.flatten\(\),\s+ptmp\[good, depth\]\.flatten\(\)\)\n",
        r"                press, temps = pres[good, depth].flatten(), ptmp[good, depth].flatten()\n                if press.min() < pres_levels[pres_i] < press.max():\n                    interp = interpolate.interp1d(press, temps)\n"))))
    same('rg-lev-neigh', (N, '', sub((
        r"                interval = np\.arange\(np\.max\(\[theta_index - 1, 0\]\),\s+np\.min\(\[theta_index \+ 1, profile_no - 1\]\) \+ 1,\s+dtype=int\)\n",
        r"                first, last = max(theta_index - 1, 0), min(theta_index + 1, profile_no - 1)\n                interval = np.arange(first, last + 1)\n"))))
    same('rg-lev-count', (N, '', sub((
        r"        good = np\.argwhere\(~np\.isnan\(sal_temp\[i, :\]\)\)\n        num_good\[i\] = good\.__len__\(\)\n",
        r"        valid = ~np.isnan(sal_temp[i, :])\n        good = np.argwhere(valid)\n        num_good[i] = np.count_nonzero(valid)\n"))))
    same('rg-lev-best', (N, '', sub((
        r"        min_theta_index = np\.argwhere\(var_sal_tlevels == np\.nanmin\(var_sal_tlevels\)\)\[0, 0\]\n",
        r"        min_theta_index = np.nanargmin(var_sal_tlevels)\n"))))
    same('rg-lev-range', (N, '', sub((
        r"        theta_range_lt = \(ptmp < use_theta_gt\)\n        theta_range_gt = \(ptmp > use_theta_lt\)\n(.*?)            theta_range = np\.argwhere\(np\.logical_and\(theta_range_lt, theta_range_gt\)\)\n(.*?)            theta_range = np\.argwhere\(np\.logical_or\(theta_range_gt, theta_range_lt\)\)\n",
        r"        below, above = ptmp < use_theta_gt, ptmp > use_theta_lt\n\1            theta_range = np.argwhere(below & above)\n\2            theta_range = np.argwhere(below | above)\n"))))
    # --- boxes
    same('rg-box-none', (N, '', sub((
        r"        for i in range\(0, 5\):\n            for j in range\(0, 5\):\n                ln_i\.append\(\s+nearest_neighbour\(la_lookup_x, la_lookup_y, la_lookup_no, ln_x\[j\], ln_y\[i\]\)\s+\)\n",
        r"        for y_value in ln_y:\n            for x_value in ln_x:\n                ln_i.append(nearest_neighbour(la_lookup_x, la_lookup_y, la_lookup_no, x_value, y_value))\n"))))
    same('rg-box-early', (N, '', sub((
        r"    else:\n        ln_i = np\.full\(25, np\.nan\)\n", r"    else:\n        ln_i = [np.nan] * 25\n"),
        (r"    for i in range\(0, 25\):\n        if not np\.isnan\(ln_i\[i\]\):\n            pa_wmo_numbers\[i\] = pa_wmo_boxes\.get\('la_wmo_boxes'\)\[ln_i\[i\] - 1\]\n",
         r"    table = pa_wmo_boxes.get('la_wmo_boxes')\n    for i, number in enumerate(ln_i):\n        if np.isnan(number):\n            continue\n        pa_wmo_numbers[i] = table[number - 1]\n"))))

    # --- utilities
    same('rg-sorter', (T, '', sub((
        r"^def sorter\(", r"def _order(values):\n    return np.argsort(values, kind='stable')\n\n\ndef sorter("))))
    same('rg-pv', (T, '', sub((
        r"^def potential_vorticity\(", r"EARTH_ANGULAR = 7.292 * 10 ** -5\n\n\ndef potential_vorticity("),
        (r"7\.292 \* 10 \*\* -5(?=[^\n]*\n[^\n]*\n)(?!\n\n\ndef potential)", r"EARTH_ANGULAR")) if False else sub((r"^def potential_vorticity\(", r"def potential_vorticity("))))

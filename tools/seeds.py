"""Sources of the planted bugs (see seed.py)."""
C = 'pyowc/calibration.py'
H = 'pyowc/helper.py'
G = 'pyowc/configuration.py'
F = 'pyowc/data/fetchers.py'
W = 'pyowc/data/wrangling.py'
P = 'pyowc/plot/plots.py'
D = 'pyowc/plot/dashboard.py'
U = 'pyowc/plot/utils.py'
T = 'pyowc/utilities.py'
N = 'pyowc/core/finders.py'
S = 'pyowc/core/stats.py'
SEEDS = {}


def seed(name, prop, needs, what, edits, demo):
    SEEDS[name] = {'property': prop, 'needs': needs, 'what': what, 'edits': edits, 'demo': demo}


seed('c10-new-columns-only', 'C10',
     'an earlier mapped file holding an implausible salinity, or an implausible salinity mapped in a later increment',
     'the range check looks at the newly mapped columns but erases at offsets into the whole matrix, so implausible salinities stay and plausible ones are lost',
     [(C, "bad_sal_40 = np.argwhere(data['la_mapped_sal'] > 40)",
       "bad_sal_40 = np.argwhere(data['la_mapped_sal'][:, profile_index - len(missing_profile_index):] > 40)")],
     '''
from demo_lib import *
w = World(n_prof=2)
w.map()
# third profile: archive with impossible salinities
t, s = profile(41.)
w.fresh()
w.archive('ctd', cast_block(12, w.lat, w.lon, rng=w.rng, sal0=41.))
w.float(3)
m = w.map()
w.close()
v = m['la_mapped_sal']
check(not np.any(v > 40), 'salinity above 40 saved')
check(np.sum(~np.isnan(v[:, :2])) == 40, 'plausible salinities lost')
''')

seed('c02-dates-slip', 'C02',
     'at least two selected casts whose salinity or pressure is missing at every level',
     'after the second all-missing cast is dropped, dates belong to other casts than the profiles they are returned with',
     [(F, "grid_dates = np.delete(grid_dates, column - nans)", "grid_dates = np.delete(grid_dates, column)")],
     '''
from demo_lib import *
w = World(n_ctd=0)
b = cast_block(8, w.lat, w.lon, rng=w.rng)
b['dates'] = np.array([2000 + i for i in range(8)]) * 1e10 + 101000000
b['long'] = w.lon + .1 * np.arange(8)
b['sal'][:, [1, 4]] = np.nan
w.archive('ctd', b)
boxes = pyowc.core.finders.find_25boxes(w.lon, w.lat, {'la_wmo_boxes': w.boxes})
with quiet():
    d = pyowc.data.fetchers.get_region_data(boxes, F, w.config, np.arange(8), LEVELS)
w.close()
for lon, date in zip(d['grid_long'], d['grid_dates']):
    check(int(round((lon - w.lon) * 10)) == int(date) - 2000, f"cast at {lon} has date {date}")
''')

seed('c08-literal-prefix', 'C08',
     'a configuration with another prefix for mapped files',
     'calc_piecewisefit looks for the mapped data under a fixed prefix, not the configured one update_salinity_mapping writes with',
     [(C, "                                               system_config['FLOAT_MAPPED_PREFIX'] +\n                                               float_name + system_config['FLOAT_MAPPED_POSTFIX']])",
       "                                               'map_' +\n                                               float_name + system_config['FLOAT_MAPPED_POSTFIX']])")],
     '''
from demo_lib import *
w = World(n_prof=4)
w.config['FLOAT_MAPPED_PREFIX'] = 'mapped-'
with quiet():
    pyowc.calibration.update_salinity_mapping('', w.config, F)
w.calseries()
try:
    w.fit()
    ok = True
except FileNotFoundError as e:
    ok = False
w.close()
check(ok, 'the calibration does not find the mapped data')
''')

seed('c19-shared-default', 'C19',
     'two calls of load() in one process with an in-place change to the plotting bounds in between',
     'every configuration shares one list of theta bounds, so changing one changes the defaults of the next',
     [(G, "def load():\n", "DEFAULT_BOUNDS = [[0, 5], [5, 20]]\n\n\ndef load():\n"),
      (G, "'THETA_BOUNDS': [[0, 5], [5, 20]]", "'THETA_BOUNDS': DEFAULT_BOUNDS")],
     '''
from demo_lib import *
from pyowc.configuration import load
a = load()
a['THETA_BOUNDS'].append([20, 30])
check(load()['THETA_BOUNDS'] == [[0, 5], [5, 20]], 'defaults changed by an earlier user')
''')

seed('c03-skipped-sets', 'C03',
     'at least two data sets around the float, an earlier one without any selected cast',
     'the running position only advances by data sets that contribute a cast, so later casts are taken for others',
     [(F, "                    starting_index = starting_index + data_length\n",
       "                    if np.isin(data_indices, index).any():\n                        starting_index = data_indices[-1] + 1\n")],
     '''
from demo_lib import *
w = World(n_ctd=0)
a = cast_block(4, w.lat, w.lon, rng=w.rng)
a['long'] = w.lon + .1 * np.arange(4)
w.archive('ctd', a)
b = cast_block(6, w.lat, w.lon, rng=w.rng)
b['long'] = w.lon + 1 + .1 * np.arange(6)
w.archive('argo', b)
boxes = pyowc.core.finders.find_25boxes(w.lon, w.lat, {'la_wmo_boxes': w.boxes})
with quiet():
    _lat, lon, _dates = pyowc.data.fetchers.get_region_hist_locations(boxes, F, w.config)
    want = np.array([5, 7, 8])
    d = pyowc.data.fetchers.get_region_data(boxes, F, w.config, want, LEVELS)
w.close()
check(np.array_equal(np.sort(lon[want]), np.sort(d['grid_long'])), f"chosen {lon[want]}, retrieved {d['grid_long']}")
''')

seed('c11-first-profiles-errors', 'C11',
     'a second calibration segment',
     'the mapping errors of the first profiles of the float are used for every segment',
     [(C, "        unique_mapsalerrors = mapsalerror[:, calindex]\n", "        unique_mapsalerrors = mapsalerror[:, :k]\n")],
     '''
from demo_lib import *
from demo_fit import fitted, two_segments
w = two_segments()
a = fitted(w)
b = fitted(w, mapped=lambda m: m['la_mapsalerrors'].__setitem__((slice(None), slice(0, 6)), m['la_mapsalerrors'][:, :6] * np.linspace(1, 9, 6)))
w.close()
check(np.allclose(a['cal_SAL_err'][:, 6:], b['cal_SAL_err'][:, 6:], rtol=1e-6, equal_nan=True), 'errors of segment 1 change the result of segment 2')
''')

seed('c12-too-many-breaks', 'C12',
     'more maximum numbers of breaks than calibration segments',
     'a surplus of maximum numbers of breaks is accepted and the fit goes on with the first ones',
     [(C, "        elif max_breaks.__len__() != n_seq:\n", "        elif max_breaks.__len__() < n_seq:\n")],
     '''
from demo_lib import *
from demo_fit import fitted, two_segments
w = two_segments()
a = fitted(w, series=lambda s: s.__setitem__('max_breaks', np.array([[0], [0], [1]])))
w.close()
check(np.all(np.isnan(a['cal_SAL'])), 'a fit was made from an inconsistent specification')
''')

seed('c31-one-sided', 'C31',
     'an outlier far below the mean of the reference salinities',
     'only outliers above the mean are removed before mapping',
     [(C, "np.argwhere(np.abs(hist_data['hist_sal'] - mean_sal) /", "np.argwhere((hist_data['hist_sal'] - mean_sal) /")],
     '''
from demo_lib import *
from demo_fit import mapped_with
base = mapped_with(None)
low = mapped_with(-2.)
check(np.nanmax(np.abs(base - low)) < .05, f"an outlier shifts the mapped salinity by {np.nanmax(np.abs(base - low))}")
''')

seed('c32-error-at-depth', 'C32',
     'samples away from the surface',
     'the salinity for the upper end of the error is computed at the pressure of the sample instead of zero',
     [(C, """                                                                   cal_cond_err[:, calindex]),
                                                                  unique_ptmp, 0)""",
       """                                                                   cal_cond_err[:, calindex]),
                                                                  unique_ptmp, unique_pres)""")],
     '''
from demo_lib import *
from demo_fit import fitted, two_segments
w = two_segments()
a = fitted(w)
w.close()
check(np.nanmax(a['cal_SAL_err']) < .1, f"error of {np.nanmax(a['cal_SAL_err'])}")
''')

seed('c06-level-choice-blanks', 'C06',
     'a calibration with a temperature window',
     'the level selection blanks the temperatures that are used afterwards for the calibrated error',
     [(C, "                                                      copy.deepcopy(unique_ptmp),\n", "                                                      unique_ptmp,\n")],
     '''
from demo_lib import *
from demo_fit import fitted, two_segments
w = two_segments()
a = fitted(w, series=lambda s: s.__setitem__('use_theta_gt', np.array([[6.]])))
w.close()
lost = np.isnan(a['cal_SAL_err']) & ~np.isnan(a['cal_SAL'])
check(not lost.any(), f"{lost.sum()} calibrated samples without an error")
''')

seed('c01-source-path', 'C01',
     'archived casts whose source identifier has a directory or centre in front of the float name',
     'only identifiers that begin with the float name are recognised',
     [(F, "if str(data['source'][i]).find(pa_float_name) != -1:", "if str(data['source'][i]).find(pa_float_name) == 0:")],
     '''
from demo_lib import *
w = World(n_ctd=0)
b = cast_block(6, w.lat, w.lon, rng=w.rng)
b['source'] = np.array(['aoml/' + F + '_001', '5900001_001', F + '_002', 'x5900002', '590_3', 'coriolis_' + F], dtype=object)
w.archive('argo', b)
boxes = pyowc.core.finders.find_25boxes(w.lon, w.lat, {'la_wmo_boxes': w.boxes})
with quiet():
    lat, _lon, _dates = pyowc.data.fetchers.get_region_hist_locations(boxes, F, w.config)
w.close()
check(len(lat) == 3, f"{len(lat)} casts listed")
''')

seed('c23-on-meridian', 'C23',
     'a float exactly on the Greenwich meridian with reference casts on both sides',
     'the float is not continued past 360 with the reference data when it lies exactly at 0',
     [(C, """                # make the float longitude wrap around the 0-360 mark if the historical data has
                if np.argwhere(best_hist_data['grid_long'] >= 360).__len__() > 0:
                    if 0 <= float_data['float_long'] <= 20:""",
       """                # make the float longitude wrap around the 0-360 mark if the historical data has
                if np.argwhere(best_hist_data['grid_long'] >= 360).__len__() > 0:
                    if 0 < float_data['float_long'] <= 20:""")],
     '''
from demo_lib import *


def run(lon):
    w = World(lon=lon, n_ctd=0, n_prof=1)
    b = cast_block(8, w.lat, 0., rng=np.random.RandomState(4))
    e = dict(b)
    e['long'] = np.linspace(.1, 3, 8)
    w.archive('ctd', e)
    u = dict(b)
    u['long'] = np.linspace(357, 359.9, 8)
    w.archive('bottle', u, box=w.box)
    m = w.map()
    w.close()
    return m['la_mapsalerrors']


a, b = run(0.), run(1e-6)
check(np.nanmax(np.abs(a - b)) < 1e-6, f"mapping errors differ by {np.nanmax(np.abs(a - b))} across the meridian")
''')

seed('c25-leftover-minutes', 'C25',
     'a date without minutes after one with minutes',
     'the minutes of an earlier date are kept for a later date without minutes',
     [(T, "            minute = 0\n            year = int(", "            year = int("),
      (T, "    # go through and decimalise dates\n", "    minute = 0\n    # go through and decimalise dates\n")],
     '''
from demo_lib import *
from pyowc.utilities import change_dates
a = change_dates([197401020330, 1974010203])
b = change_dates([1974010203])
check(a[1] == b[0], f"{a[1]} after another date, {b[0]} alone")
''')

seed('c20-position', 'C20',
     'a profile without position',
     'the topography area of the calibration becomes missing when one profile has no position',
     [(C, "elev, x_grid, y_grid = get_topo_grid(np.nanmin(long_1) - 1, np.nanmax(long_1) + 1,",
       "elev, x_grid, y_grid = get_topo_grid(long_1.min() - 1, long_1.max() + 1,")],
     '''
from demo_lib import *
from demo_fit import two_segments
seen = []
w = two_segments()
lon = w.source['LONG'].copy()
lon[0, 3] = np.nan
w.float(12, LONG=lon)
real = pyowc.calibration.get_topo_grid


def topo_seen(*a):
    seen.append(a[:4])
    return real(*[2. if np.isnan(x) else x for x in a[:4]], a[4])


pyowc.calibration.get_topo_grid = topo_seen
try:
    w.fit()
except Exception:
    pass
w.close()
check(seen and not np.isnan(np.array(seen[0], float)).any(), f"area {seen}")
''')

seed('c16-open-on-error', 'C16',
     'a topography file that ends early',
     'the topography file stays open when reading it fails',
     [(F, """    with open(os.path.sep.join([config['CONFIG_DIRECTORY'], "tbase.int"]), "rb") as elev_file:
        if decoder[1] > 4319:""", """    elev_file = open(os.path.sep.join([config['CONFIG_DIRECTORY'], "tbase.int"]), "rb")
    if elev_file:
        if decoder[1] > 4319:"""),
      (F, """    # make the grid
    longs, lats""", """    elev_file.close()

    # make the grid
    longs, lats""")],
     '''
from demo_lib import *
import builtins
import pyowc.data.fetchers as f
d = tempfile.mkdtemp(prefix='owcdemo', dir='/tmp')
np.zeros(4000, '<i2').tofile(d + '/tbase.int')
opened, real = [], builtins.open


def spy(*a, **k):
    r = real(*a, **k)
    opened.append(r)
    return r


builtins.open = spy
try:
    f.get_topo_grid(10., 11., 10., 11., {'CONFIG_DIRECTORY': d})
except Exception:
    pass
builtins.open = real
left = [x for x in opened if not x.closed]
shutil.rmtree(d)
check(not left, 'topography file left open')
''')

seed('c09-older-numbers', 'C09',
     'a new profile whose number lies between numbers mapped earlier',
     'profiles are looked up by comparing with the last mapped number, so late-arriving earlier profiles are never mapped',
     [(C, "        profiles = np.argwhere(data['la_profile_no'] == profile_no[i])\n", "        profiles = np.argwhere(data['la_profile_no'] >= profile_no[i])\n")],
     '''
from demo_lib import *
w = World(n_prof=2)
w.float(2, numbers=[1, 3])
w.map()
w.float(3, numbers=[1, 2, 3])
m = w.map()
w.close()
check(sorted(m['la_profile_no'].flatten()) == [1, 2, 3], f"profiles {m['la_profile_no']}")
''')

seed('c04-second-scale', 'C04',
     'configured large and small age scales that differ',
     'the residuals are mapped with the large age scale',
     [(C, "                                                             map_age_small,\n                                                             sal_signal_residual", "                                                             max(map_age_small, map_age_large),\n                                                             sal_signal_residual")],
     '''
from demo_lib import *


def run(age):
    w = World(n_prof=1)
    w.config['MAPSCALE_AGE_SMALL'] = age
    m = w.map()
    w.close()
    return m['la_mapped_sal']


check(np.nanmax(np.abs(run(10) - run(1))) > 1e-7, 'the small age scale has no effect')
''')

seed('c14-ranking-order', 'C14',
     'more casts inside the ellipse than the maximum',
     'the ranking on the small scales is translated with the order of the large ranking left out, so its casts overlap with the others',
     [(N, "            i3_large.append(correlation_large_sorted[int(i)])\n", "            i3_large.append(int(i))\n")],
     '''
from demo_lib import *
r = np.random.RandomState(5)
n = 60
lat, lon = -45 + r.uniform(-2, 2, n), 35 + r.uniform(-2, 2, n)
dates = 2000 + r.uniform(0, 10, n)
with quiet():
    i = pyowc.core.finders.find_besthist(lat, lon, dates, np.full(n, 3000.), -45., 35., 2005., 3000.,
                                         4, 2, 8, 4, .5, .1, 20, 10, 0, 30)
check(len(set(i)) == 30, f"{len(set(i))} different casts of 30")
''')

seed('c27-side-of-front', 'C27',
     'frontal separation switched on, a float south of 30 S and casts north of the front among those south of it',
     'bottom depths of the reduced set keep the order of the full set',
     [(C, "                        best_hist_data.update(best_hist_data_2)\n",
       "                        best_hist_data.update({k: best_hist_data_2[k] for k in best_hist_data_2 if k != 'grid_z'})\n")],
     '''
from demo_lib import *
import pyowc.calibration as c
seen = []
full = {}
w = World(n_prof=1, n_ctd=20)
w.config['MAP_USE_SAF'] = 1


def half(_config, grid, _float):
    full.update(grid)
    keep = np.arange(0, grid['grid_sal'].shape[1], 2)
    out = {}
    for k in grid:
        v = np.asarray(grid[k])
        out[k] = v[:, keep] if k in ('grid_sal', 'grid_ptmp', 'grid_pres') else v[keep] if k in ('grid_lat', 'grid_long', 'grid_dates', 'grid_z') else v
    return out


real = c.process_profile_hist_variables


def spy(**k):
    g = k['grid_data']
    seen.append({x: np.array(g[x]) for x in ('grid_lat', 'grid_long', 'grid_z')})
    return real(**k)


c.frontal_constraint_saf = half
c.process_profile_hist_variables = spy
w.map()
w.close()
check(seen, 'nothing mapped')
g = seen[0]
want = {(round(a, 9), round(o, 9)): z for a, o, z in zip(full['grid_lat'].flatten(), full['grid_long'].flatten(), full['grid_z'].flatten())}
for a, o, z in zip(g['grid_lat'].flatten(), g['grid_long'].flatten(), g['grid_z'].flatten()):
    check(want[(round(a, 9), round(o, 9))] == z, 'a cast has the depth of another one')
''')

QUIET = '''
from demo_lib import *
import numpy as np
'''

seed('c47-two-entries', 'C47',
     'a cast whose longitude is near one listed position and whose latitude is near another',
     'the latitude is compared with all entries of the record, so a position that no entry is near is taken to be listed',
     [(H, "        d_1 = np.argwhere(np.abs(new_object[d_0, 1]) < 1 / 60)\n        if len(d_1) == 0:",
       "        d_1 = np.argwhere(np.abs(new_object[:, 1]) < 1 / 60)\n        if len(d_0) == 0 or len(d_1) == 0:")],
     QUIET + '''
from pyowc.helper import selected_historical_points
casts = [(10., 10.), (20., 20.), (10., 20.), (20.005, 20.005)]
hist = {'hist_long': np.array([[x] for x, _ in casts]), 'hist_lat': np.array([[y] for _, y in casts])}
data = {'selected_hist': [], 'la_profile_no': np.array([4])}
rec = np.array(selected_historical_points(data, hist, 0)['selected_hist'])
check(rec.shape == (3, 3), f"{rec.shape[0]} positions on record instead of 3")
''')

seed('c37-share-of-profiles', 'C37',
     'no level that every profile reaches',
     'the share of profiles on a level is taken of all profiles instead of the best covered level, so every level may be discarded',
     [(N, "percent_s_profs[j] = num_good[j] / np.nanmax(num_good)", "percent_s_profs[j] = num_good[j] / profile_depth")],
     QUIET + '''
stand_ins()
from pyowc.core.finders import find_10thetas
n = 40
pres = np.tile(np.linspace(10, 2000, n)[:, None], (1, 4))
ptmp = np.tile(np.linspace(20, 2, n)[:, None], (1, 4))
sal = 34.5 + .01 * ptmp + np.array([0, .001, .002, .003])
ptmp[n // 2:, :2] = np.nan      # two profiles above, two below
ptmp[:n // 2, 2:] = np.nan
with quiet():
    t = find_10thetas(sal.copy(), ptmp.copy(), pres.copy(), ptmp.copy(), [], [], [], [], .6)[0]
check(np.isfinite(t).sum() == 10, f"{np.isfinite(t).sum()} levels chosen of 10")
''')

seed('c38-last-interval', 'C38',
     'a theta level between the last two samples of a profile',
     'the neighbour below the last but one sample is not looked at, so the value is that of a sample instead of the level',
     [(N, "np.min([theta_index + 1, profile_no - 1]) + 1,", "np.min([theta_index + 1, profile_no - 2]) + 1,")],
     QUIET + '''
stand_ins()
from pyowc.core.finders import find_10thetas
n = 8
pres = np.tile(np.linspace(100, 2000, n)[:, None], (1, 3))
ptmp = np.tile(np.linspace(18, 4, n)[:, None], (1, 3)) + np.array([0, .3, .7])
sal = 34 + .1 * ptmp                        # one line in theta and salinity: no variance on any level
with quiet():
    out = find_10thetas(sal.copy(), ptmp.copy(), pres.copy(), ptmp.copy(), [], [], [], [], .5)
v, theta = out[3].flatten(), out[4].flatten()
low = theta < ptmp[-2].min()
check(np.nanmax(v[low]) < 1e-12, f"variance {np.nanmax(v[low])} on levels near the bottom")
''')

seed('c34-short-age', 'C34',
     'an age scale below one year',
     'the distance in time counts only if the scale is at least one year',
     [(S, "if age != 0:", "if age >= 1:")],
     QUIET + '''
from pyowc.core.stats import covar_xyt_pv
a = np.array([[-45., 35., 2000., 3000.]])
b = np.array([[-45., 35., 2001., 3000.]])
v = covar_xyt_pv(a, b, 4., 8., .5, .1, 0)[0, 0]
check(abs(v - np.exp(-4)) < 1e-9, f"covariance {v} of casts two scales apart")
''')

seed('c41-second-break', 'C41',
     'two break points or more',
     'the share of the second segment in the curve behind it is that of the first segment',
     [],
     QUIET + '''
from pyowc.core.stats import fit_cond
import numpy.random
x = np.arange(1, 41, dtype=float)
y = 1 + 1e-3 * np.interp(x, [1, 10, 18, 40], [0, 1, -2, 4])
np.random.seed(0)
with quiet():
    r = fit_cond(x[None, :], y[None, :], np.full((1, 40), 1e-4), np.eye(40), 'breaks', np.array([10., 18.]))
d = np.max(np.abs(np.asarray(r[1]).flatten() - y))
check(d < 1e-6, f"the curve through an exact piecewise line misses it by {d}")
''')
SEEDS['c41-second-break']['edits'] = [(S, "                E[ii, j + 1] = btem[j + 1] - btem[j]\n",
    lambda t, o: (lambda k: t[:k] + o.replace('btem[j + 1] - btem[j]', 'btem[1] - btem[0]') + t[k + len(o):])(t.index(o, t.index(o) + 1)))]

seed('c23-far-east', 'C23',
     'a float between 180 and 359 degrees east',
     'the depths for the error covariance are asked for at longitudes that the topography does not have',
     [(C, "        long_1[long_1 > 180] -= 360\n\n        elev,", "        long_1[long_1 > 359] -= 360\n\n        elev,")],
     QUIET + '''
import pyowc.calibration as c
from demo_fit import two_segments
w = two_segments()
seen = []
real = c.get_topo_grid


def spy(a, b, *r):
    seen.append((a, b))
    return real(a, b, *r)


w.float(12, SAL=w.source['SAL'], LONG=np.full((1, 12), 300.))
c.get_topo_grid = spy
with quiet():
    try:
        c.calc_piecewisefit('', F, w.config)
    except Exception as e:
        check(False, f"no fit: {e}")
w.close()
check(bool(seen) and abs(seen[-1][0] + 61) < 1e-6, f"topography asked for at {seen}")
''')

seed('c17-tenth-level', 'C17',
     'ten levels plotted, the most allowed',
     'the plot of the tenth level is saved over that of the first',
     [(P, '"_salinity_variance_" + str(i + 1) +', '"_salinity_variance_" + str(i % 9 + 1) +')],
     QUIET + '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import os, tempfile, shutil
stand_ins()
import pyowc.core.finders
import pyowc.plot.plots
pyowc.plot.plots.interpolate = pyowc.core.finders.interpolate
from pyowc.plot.plots import sal_var_plot
n = 40
pres = np.tile(np.linspace(10, 2000, n)[:, None], (1, 4))
ptmp = np.tile(np.linspace(20, 2, n)[:, None], (1, 4)) + np.array([0, .1, .2, .3])
sal = 34.5 + .01 * ptmp + np.array([0, .001, .002, .003])
d = tempfile.mkdtemp()
try:
    with quiet():
        sal_var_plot(10, sal.copy(), pres.copy(), ptmp.copy(), sal.copy(), sal * 0 + .01, ptmp.copy(), sal.copy(), sal * 0 + .01,
                     [[], [], [], [], .5], np.array([[1, 2, 3, 4]]), 'x', {'FLOAT_PLOTS_FORMAT': 'png', 'FLOAT_PLOTS_DIRECTORY': d})
    k = len(os.listdir(d))
finally:
    shutil.rmtree(d)
check(k == 10, f"{k} files for ten levels")
''')

seed('c39-counted-labels', 'C39',
     'a float whose profiles are not numbered one by one from 1',
     'the legend counts the curves instead of naming the profiles',
     [(P, "plt.plot(sal[i], theta[i], color=colors[i], label=profiles[i])", "plt.plot(sal[i], theta[i], color=colors[i], label=i + 1)")],
     QUIET + '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import tempfile, shutil
from pyowc.plot.plots import theta_sal_plot
n = 10
theta = np.tile(np.linspace(20, 2, n), (4, 1))
sal = 34.5 + .01 * theta
d = tempfile.mkdtemp()
seen = []
plt.show = lambda *a, **k: seen.extend(str(t.get_text()) for t in plt.gca().get_legend().get_texts())
try:
    with quiet():
        theta_sal_plot(sal, theta, sal.T, theta.T, sal.T * 0 + .01, np.full((10, 4), np.nan), np.array([11, 12, 14, 17]),
                       {'FLOAT_PLOTS_FORMAT': 'png', 'FLOAT_PLOTS_DIRECTORY': d}, 'x')
finally:
    shutil.rmtree(d)
check(seen == ['11', '12', '14', '17'], f"labels {seen}")
''')

seed('c30-walking-series', 'C30',
     'the number of refits grows',
     'each refit perturbs the series of the refit before',
     [(S, "yf = real_yf + n_err * np.random.randn(yf.size)", "yf = yf + n_err * np.random.randn(yf.size)")],
     QUIET + '''
from pyowc.core.stats import fit_cond
n = 60
x = np.arange(1, n + 1, dtype=float)
y = 1 + 1e-5 * x + 1e-4 * np.random.RandomState(1).randn(n)


def err():
    np.random.seed(3)
    with quiet():
        return np.nanmean(fit_cond(x[None, :], y[None, :], np.full((1, n), 1e-4), np.eye(n), 'max_no_breaks', 0)[2])


a = err()
check(a < 5e-5, f"error {a} of a line through sixty samples with errors of 1e-4")
''')

seed('c43-all-the-freedom', 'C43',
     'fewer degrees of freedom than the limit of break points needs, and more than the first tried',
     'one break point more than the degrees of freedom allow is tried',
     [(S, "np.floor((ndf - 1) / 2 - 2) + 1)", "np.floor((ndf - 1) / 2 - 2) + 2)")],
     QUIET + '''
import io, contextlib, re
from pyowc.core.stats import fit_cond
n = 9
x = np.arange(1, n + 1, dtype=float)
y = 1 + 1e-4 * np.random.RandomState(1).randn(n)
np.random.seed(0)
out = io.StringIO()
with contextlib.redirect_stdout(out), np.errstate(all='ignore'):
    try:
        fit_cond(x[None, :], y[None, :], np.full((1, n), 1e-4), np.eye(n), 'max_no_breaks', 4)
    except Exception as e:
        pass
m = re.search(r'to be tried: *([-0-9.]+)', out.getvalue())
check(m is not None and float(m.group(1)) <= 2, f"tried {m and m.group(1)} break points with {n} degrees of freedom")
''')

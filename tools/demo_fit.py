"""A calibration of two segments from made-up mapped data."""
from demo_lib import *


def two_segments():
    w = World(n_prof=12, n_ctd=0)
    n = 12
    s = w.source['SAL'].copy()
    s += .002 * np.arange(n)[None, :] ** 1.2 + np.random.RandomState(2).uniform(-.0005, .0005, s.shape)
    w.float(n, SAL=s)
    r = np.random.RandomState(7)
    clean = profile()[1][:, None] + r.uniform(-.0005, .0005, s.shape)
    savemat(w.config['FLOAT_MAPPED_DIRECTORY'] + 'map_' + F + '.mat', {
        'la_ptmp': w.source['PTMP'], 'la_mapped_sal': clean, 'la_mapsalerrors': np.full(s.shape, .01),
        'la_profile_no': np.arange(1, n + 1), 'selected_hist': np.array([[w.lon, w.lat, 1.]])})
    w.calseries()
    return w


def series_file(w):
    return w.config['FLOAT_CALIB_DIRECTORY'] + 'calseries_' + F + '.mat'


def edit(path, fn):
    d = {k: v for k, v in loadmat(path).items() if not k.startswith('__')}
    fn(d)
    savemat(path, d)


def fitted(w, mapped=None, series=None):
    path, path2 = series_file(w), w.config['FLOAT_MAPPED_DIRECTORY'] + 'map_' + F + '.mat'
    keep, keep2 = open(path, 'rb').read(), open(path2, 'rb').read()

    def segments(d):
        d['calseries'] = np.array([[1.] * 6 + [2.] * 6])
        d['max_breaks'] = np.array([[0]])
        if series:
            series(d)
    edit(path, segments)
    if mapped:
        edit(path2, mapped)
    np.random.seed(1)
    r = w.fit()
    open(path, 'wb').write(keep)
    open(path2, 'wb').write(keep2)
    return r


def mapped_with(outlier):
    w = World(n_prof=1, n_ctd=0)
    b = cast_block(30, w.lat, w.lon, rng=np.random.RandomState(5))
    if outlier is not None:
        b['sal'] = b['sal'].copy()
        b['sal'][:, 0] += outlier
    w.archive('ctd', b)
    m = w.map()
    w.close()
    return m['la_mapped_sal']

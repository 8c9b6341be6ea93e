"""Small synthetic archive and float in a scratch directory, with stand-ins for the
topography file and interpolator that this sandbox does not have."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

import numpy as np
import scipy.interpolate
from scipy.io import loadmat, savemat

import pyowc.calibration
import pyowc.configuration
import pyowc.data.fetchers
import pyowc.helper

F = '3901960'


def depth_at(x, y):
    return 3000. + 10. * x + 7. * y


class Interp:
    def __init__(self, *_a, **_k):
        pass

    def __call__(self, x, y):
        return np.array([-depth_at(np.mod(np.asarray(x, float), 360), np.asarray(y, float))]).flatten()


def topo(a, b, c, d, config):
    x, y = np.meshgrid(np.linspace(a, b, 3), np.linspace(d, c, 3))
    return -depth_at(np.mod(x, 360), y), x, y


def stand_ins():
    scipy.interpolate.interp2d = Interp
    pyowc.helper.interp2d = Interp
    pyowc.calibration.interpolate.interp2d = Interp
    real = scipy.interpolate.interp1d

    def flat(v):
        return np.concatenate([np.ravel(np.asarray(x, float)) for x in v]) if isinstance(v, list) else v

    class Finders:
        # the installed numpy refuses the nested lists find_10thetas passes to interp1d
        @staticmethod
        def interp1d(x, y, *a, **k):
            x, y = flat(x), flat(y)
            return real(x, y, *a, **k)
    pyowc.core.finders.interpolate = Finders
    pyowc.helper.get_topo_grid = topo
    pyowc.calibration.get_topo_grid = topo


LEVELS = np.arange(0, 2001, 100.)


def profile(sal0=34.5):
    theta = 18 - LEVELS / 150.
    return theta, sal0 + LEVELS / 4000.


def cast_block(n, lat, lon, date=20050601000000, rng=None, sal0=34.5):
    rng = rng or np.random.RandomState(1)
    t, s = profile(sal0)
    return {'lat': lat + rng.uniform(-1, 1, n), 'long': lon + rng.uniform(-1, 1, n),
            'dates': date + 1e10 * rng.randint(0, 5, n),
            'pres': np.tile(LEVELS[:, None], (1, n)), 'ptmp': np.tile(t[:, None], (1, n)),
            'temp': np.tile(t[:, None], (1, n)), 'sal': s[:, None] + rng.uniform(-.01, .01, (1, n))}


class World:
    def __init__(self, lat=-45., lon=35., n_prof=2, n_ctd=12, n_argo=0, n_bottle=0, sal0=34.5):
        stand_ins()
        self.dir = tempfile.mkdtemp(prefix='owcdemo', dir='/tmp')
        self.cwd = os.getcwd()
        c = pyowc.configuration.load()
        for k in list(c):
            if k.endswith('_DIRECTORY'):
                c[k] = os.path.join(self.dir, c[k].rstrip('/')) + '/'
                os.makedirs(c[k], exist_ok=True)
        for d in ('historical_ctd', 'historical_bot', 'historical_argo'):
            os.makedirs(c['HISTORICAL_DIRECTORY'] + d)
        self.config = c
        self.fdir = ''
        self.boxes = np.zeros((648, 4))
        self.boxes[:, 0] = np.arange(1000, 1648)
        self.lat, self.lon = lat, lon
        self.box = int(pyowc.core.finders.find_25boxes(lon, lat, {'la_wmo_boxes': self.boxes})[0][0])
        self.rng = np.random.RandomState(3)
        for n, col, kind in ((n_ctd, 1, 'ctd'), (n_bottle, 2, 'bottle'), (n_argo, 3, 'argo')):
            if n:
                self.archive(kind, cast_block(n, lat, lon, rng=self.rng, sal0=sal0))
        self.float(n_prof)

    def archive(self, kind, block, box=None):
        box = box or self.box
        self.boxes[box - 1000, {'ctd': 1, 'bottle': 2, 'argo': 3}[kind]] = 1
        if kind == 'argo' and 'source' not in block:
            block['source'] = np.array([f"59000{i:02d}_001" for i in range(len(block['lat']))], dtype=object)
        k = {'ctd': 'HISTORICAL_CTD_PREFIX', 'bottle': 'HISTORICAL_BOTTLE_PREFIX', 'argo': 'HISTORICAL_ARGO_PREFIX'}[kind]
        savemat(self.config['HISTORICAL_DIRECTORY'] + self.config[k] + f"{box}.mat", block)
        savemat(self.config['CONFIG_DIRECTORY'] + self.config['CONFIG_WMO_BOXES'], {'la_wmo_boxes': self.boxes})

    def float(self, n, numbers=None, **over):
        t, s = profile()
        d = {'LAT': self.lat + .1 * np.arange(n)[None, :], 'LONG': self.lon + .1 * np.arange(n)[None, :],
             'DATES': 2012. + .03 * np.arange(n)[None, :], 'PRES': np.tile(LEVELS[:, None], (1, n)),
             'PTMP': np.tile(t[:, None], (1, n)), 'TEMP': np.tile(t[:, None], (1, n)),
             'SAL': np.tile(s[:, None], (1, n)), 'PROFILE_NO': np.array([numbers or list(range(1, n + 1))])}
        d.update(over)
        self.source = d
        os.makedirs(self.config['FLOAT_SOURCE_DIRECTORY'] + self.fdir, exist_ok=True)
        savemat(self.config['FLOAT_SOURCE_DIRECTORY'] + self.fdir + '/' + F + '.mat', d)

    def fresh(self):
        for f in ('read_mat_ctd', 'read_mat_bottle', 'read_mat_argo'):
            g = getattr(pyowc.data.fetchers, f)
            if hasattr(g, 'cache_clear'):
                g.cache_clear()

    def map(self):
        with quiet():
            pyowc.calibration.update_salinity_mapping(self.fdir, self.config, F)
        return self.mapped()

    def mapped(self):
        return loadmat(os.path.join(self.config['FLOAT_MAPPED_DIRECTORY'], self.fdir, 'map_' + F + '.mat'))

    def calseries(self):
        with quiet():
            pyowc.configuration.set_calseries(self.fdir, F, self.config)
        return loadmat(os.path.join(self.config['FLOAT_CALIB_DIRECTORY'], self.fdir, 'calseries_' + F + '.mat'))

    def fit(self):
        with quiet():
            pyowc.calibration.calc_piecewisefit(self.fdir, F, self.config)
        return loadmat(os.path.join(self.config['FLOAT_CALIB_DIRECTORY'], self.fdir, 'cal_' + F + '.mat'))

    def close(self):
        shutil.rmtree(self.dir)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def check(ok, text):
    if not ok:
        print('DEMO FAILS:', text)
        sys.exit(1)

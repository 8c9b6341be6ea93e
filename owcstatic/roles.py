"""Kinds of quantities (latitude, salinity, ...) carried by value-graph nodes."""
from .ir import N, resolve, is_bool
from .align import SAME, APP, ELEM, constant, padding

KEYS = {}
for _k, _names in {
    'lat': 'LAT lat grid_lat float_lat hist_lat la_lat', 'long': 'LONG long grid_long float_long hist_long',
    'date': 'DATES dates grid_dates float_date hist_dates', 'z': 'grid_z float_z hist_z',
    'sal': 'SAL sal grid_sal float_sal hist_sal la_mapped_sal S_meanS S_meanN', 'ptmp': 'PTMP ptmp grid_ptmp float_ptmp la_ptmp',
    'pres': 'PRES pres grid_pres float_pres hist_pres', 'temp': 'TEMP temp float_tmp T_meanS T_meanN',
    'prof': 'PROFILE_NO la_profile_no', 'sal_err': 'la_mapsalerrors la_map_sal_errors',
    'scale_lat': 'MAPSCALE_LATITUDE_LARGE MAPSCALE_LATITUDE_SMALL', 'scale_long': 'MAPSCALE_LONGITUDE_LARGE MAPSCALE_LONGITUDE_SMALL',
    'scale_date': 'MAPSCALE_AGE_LARGE MAPSCALE_AGE_SMALL', 'scale_phi': 'MAPSCALE_PHI_LARGE MAPSCALE_PHI_SMALL',
    'p_delta': 'MAP_P_DELTA', 'p_exclude': 'MAP_P_EXCLUDE', 'use_pv': 'MAP_USE_PV', 'use_saf': 'MAP_USE_SAF',
    'max_casts': 'CONFIG_MAX_CASTS',
}.items():
    for _n in _names.split():
        KEYS[_n] = _k

# results of package functions kept uninterpreted, by position
RESULTS = {'get_region_hist_locations': ('lat', 'long', 'date'), 'interp_climatology': ('sal', 'pres'),
           'get_topo_grid': ('elev', 'topo_x', 'topo_y')}


def short(n):
    return n.args[0].rsplit(':', 1)[-1] if n.op == 'call' and isinstance(n.args[0], str) and n.args[0].startswith('pyowc.') else None


class Kinds:
    def __init__(self, params=None):
        self.params = params or {}
        self.memo = {}

    def kind(self, n):
        n = resolve(n)
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = frozenset()
        # least fixed point over loops
        for _ in range(4):
            before = self.memo[n]
            snapshot = dict(self.memo)
            r = self._kind(n)
            self.memo = {k: v for k, v in snapshot.items() if k.op == 'mu'} if n.op == 'mu' else self.memo
            self.memo[n] = r
            if r == before or n.op != 'mu':
                break
        return self.memo[n]

    def many(self, ns):
        r = frozenset()
        for x in ns:
            r |= self.kind(x)
        return r

    def _kind(self, n):
        op = n.op
        if op == 'param':
            return frozenset({self.params[n.args[0]]}) if n.args[0] in self.params else frozenset()
        if op == 'getitem':
            i = resolve(n.args[1])
            b = resolve(n.args[0])
            if i.op == 'const' and isinstance(i.args[0], str):
                return frozenset({KEYS[i.args[0]]}) if i.args[0] in KEYS else frozenset()
            s = short(b)
            if s in RESULTS and i.op == 'const' and isinstance(i.args[0], int) and 0 <= i.args[0] < len(RESULTS[s]):
                return frozenset({RESULTS[s][i.args[0]]})
            return self.kind(b)
        if op == 'phi':
            return self.many(n.args[1:])
        if op == 'mu':
            return self.many([x for x in (n.init, n.next) if x is not None])
        if op in ('T', 'neg', 'abs'):
            return self.kind(n.args[0])
        if op in ('store', 'viewstore'):
            return self.kind(n.args[0]) | (self.kind(n.args[2]) if len(n.args) > 2 else frozenset())
        if op in ('append', 'list', 'tuple'):
            return self.many(n.args)
        if op == 'comp':
            return self.kind(n.args[2])
        if op in ELEM and len(n.args) == 2:
            a, b = n.args
            if constant(a) or padding(a):
                return self.kind(b)
            if constant(b) or padding(b):
                return self.kind(a)
            if op in ('+', '-'):
                return self.kind(a) | self.kind(b)
            return frozenset()
        if op == 'apply':
            f = resolve(n.args[0])
            ks = [self.kind(x) for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
            return self.applied(f, ks)
        if op == 'call':
            name = n.args[0]
            pos = [a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']
            if (name in SAME or short(n) in ('change_dates', 'wrap_longitude')) and pos:
                return self.kind(pos[0])
            if name in APP and pos:
                return self.many(pos[:2] if name == 'numpy.append' else pos[:1])
            if name in ('numpy.delete', 'numpy.take', 'numpy.mean', 'numpy.nanmean', 'numpy.max', 'numpy.min', 'numpy.nanmax',
                        'numpy.nanmin', 'numpy.amin', 'numpy.amax', 'numpy.median', 'numpy.nanmedian', 'numpy.sort', 'numpy.unique',
                        'numpy.diff', 'numpy.repeat', 'numpy.tile') and pos:
                return self.kind(pos[0])
            if name == 'numpy.where' and len(pos) == 3:
                return self.many(pos[1:])
            if name == 'scipy.interpolate.interp2d':
                return frozenset({'interp(' + '|'.join(sorted(self.kind(pos[2]))) + ')'}) if len(pos) > 2 else frozenset()
            return frozenset()
        return frozenset()

    def applied(self, f, ks):
        f = resolve(f)
        while f.op == 'call' and f.args[0] in ('numpy.vectorize',) and len(f.args) > 1:
            f = resolve(f.args[1])
        if f.op == 'call' and f.args[0].endswith('interp2d'):
            e = self.kind(f.args[3]) if len(f.args) > 3 else frozenset()
            if e == {'elev'}:
                return frozenset({'z'})
        return frozenset()


def columns(n):
    """Columns of a matrix of positions, or None."""
    n = resolve(n)
    if n.op == 'call':
        name = n.args[0]
        pos = [a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']
        if name in ('numpy.column_stack', 'numpy.c_') or (name in ('numpy.hstack', 'numpy.concatenate') and len(pos) >= 1):
            p = resolve(pos[0]) if pos else None
            if p is not None and p.op in ('tuple', 'list'):
                return [resolve(x) for x in p.args]
        if name in ('numpy.reshape', 'numpy.array', 'numpy.asarray', 'numpy.atleast_2d') and pos:
            p = resolve(pos[0])
            if p.op in ('tuple', 'list'):
                if len(p.args) == 1 and resolve(p.args[0]).op in ('tuple', 'list'):
                    return [resolve(x) for x in resolve(p.args[0]).args]
                return [resolve(x) for x in p.args]
            return columns(p)
    if n.op in ('list', 'tuple'):
        if len(n.args) == 1 and resolve(n.args[0]).op in ('list', 'tuple'):
            return [resolve(x) for x in resolve(n.args[0]).args]
        return [resolve(x) for x in n.args]
    if n.op == 'getitem' and resolve(n.args[1]).op in ('tuple',) and \
            all(resolve(x).op in ('slice',) or (resolve(x).op == 'const' and resolve(x).args[0] is None) for x in resolve(n.args[1]).args):
        cols, last = columns(n.args[0]), resolve(resolve(n.args[1]).args[-1])
        if cols is None or last.op != 'slice' or len(resolve(n.args[1]).args) < 2:
            return cols
        a = [resolve(x).args[0] if resolve(x).op == 'const' else 0 for x in last.args]
        return cols if a == [None] * len(a) or a[2:] in ([], [None], [1]) and a[:2] in ([0, None],) else cols[::-1] if a == [None, None, -1] else None
    if n.op == 'T':
        m = resolve(n.args[0])
        if m.op in ('list', 'tuple'):
            return [resolve(x) for x in m.args]
        if m.op == 'call' and m.args[0] in ('numpy.vstack', 'numpy.array', 'numpy.stack', 'numpy.row_stack') and len(m.args) > 1:
            p = resolve(m.args[1])
            if p.op in ('tuple', 'list'):
                return [resolve(x) for x in p.args]
    return None

"""Shared, cached analyses of the package's entry functions."""
import ast
from . import engine as E
from .ir import const, raw, resolve
from .report import REPO

_cache = {}


def pkg():
    if 'pkg' not in _cache:
        _cache['pkg'] = E.Package(REPO, 'pyowc')
    return _cache['pkg']


def strparam(name):
    def make(it, st):
        r = it.arr(st, raw('param', name), tags={'param:' + name})
        return r
    return make


CFG = E.config_value
ENTRIES = {
    'mapping': ('pyowc.calibration:update_salinity_mapping', {0: strparam('float_dir'), 1: CFG, 2: strparam('float_name')}),
    'calib': ('pyowc.calibration:calc_piecewisefit', {0: strparam('float_dir'), 1: strparam('float_name'), 2: CFG}),
    'calseries': ('pyowc.configuration:set_calseries', {0: strparam('float_dir'), 1: strparam('float_name'), 2: CFG}),
    'plots': ('pyowc.plot.dashboard:plot_diagnostics', {0: strparam('float_dir'), 1: strparam('float_name'), 2: CFG}),
}


def run(key, qual=None, params=None, no_inline=()):
    k = (key, tuple(sorted(no_inline)))
    if k not in _cache:
        q, p = ENTRIES[key] if qual is None else (qual, params)
        it = E.Interp(pkg(), no_inline=no_inline)
        it.entry = q
        it.axiom_keys = returned_keys
        _cache[k] = it.run(q, p)
    return _cache[k]


CORE = tuple('pyowc.' + x for x in (
    'data.wrangling:interp_climatology', 'data.wrangling:map_data_grid', 'core.stats:signal_variance',
    'core.stats:noise_variance', 'core.finders:find_besthist', 'core.finders:find_25boxes', 'data.fetchers:get_region_data',
    'data.fetchers:get_region_hist_locations', 'data.fetchers:frontal_constraint_saf', 'data.fetchers:get_topo_grid'))


def core():
    """The mapping stage with its numeric building blocks kept as uninterpreted functions."""
    return run('mapping', no_inline=CORE)


def axioms(it, name):
    return [e for e in it.events if e.kind == 'axiom' and e.name.endswith(':' + name)]


def returned_keys(qual):
    """Keys of the dictionary a package function returns, when they can be enumerated."""
    if qual.rsplit(':', 1)[-1] not in ('get_region_data', 'frontal_constraint_saf'):
        return None
    if ('keys', qual) not in _cache:
        _cache[('keys', qual)] = None
        n = resolve(fn(qual, None, ('pyowc.data.fetchers:get_data',)).ret_node)
        if n.op == 'dict' and all(k.op == 'const' for k in n.args[0::2]):
            _cache[('keys', qual)] = [k.args[0] for k in n.args[0::2]]
    return _cache[('keys', qual)]


def entry(key):
    return run(key)


def four():
    return {k: run(k) for k in ENTRIES}


def fn(qual, params=None, no_inline=()):
    """Analyse one package function on its own; None if it no longer exists."""
    if pkg().find(qual) is None:
        return None
    return run('fn:' + qual + ('' if params is None else repr(sorted(map(str, params)))), qual, params, no_inline)


def calls(it, *names):
    return [e for e in it.events if e.kind == 'call' and e.name in names]


def where(e):
    return e.loc if not e.stack else f"{e.loc} in {e.func}"


def declared_globals():
    """Per module, the names any of its functions declares global."""
    out = {}
    for m in pkg().modules.values():
        if '.tests' in m.name or m.name.startswith('tests'):
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                out.setdefault(m.name, set()).update(x.names)
    return out


def after_earlier(key, qual=None):
    """The run of a function in a process in which every global variable already holds a value from before."""
    k = ('stale', key)
    if k not in _cache:
        q, p = ENTRIES[key] if qual is None else (qual, None)
        it = E.Interp(pkg())
        it.entry = q
        it.axiom_keys = returned_keys
        _cache[k] = it.run(q, p, {m: {n: raw('stale', m + '.' + n) for n in sorted(ns)} for m, ns in declared_globals().items()})
    return _cache[k]


FIT = 'pyowc.core.stats:brk_pt_fit'
SORTER = 'pyowc.utilities:sorter'


def fits():
    """fit_cond for the ways it is called: a limit on the number of breaks, given breaks, both."""
    if pkg().find('pyowc.core.stats:fit_cond') is None:
        return []
    base = [strparam(k) for k in ('x', 'y', 'n_err', 'lvcov')]
    ways = {'limit': [const('max_no_breaks'), strparam('limit')], 'breaks': [const('breaks'), strparam('breaks')],
            'both': [const('breaks'), strparam('breaks'), const('max_no_breaks'), strparam('limit')]}
    return [(k, run('fit:' + k, 'pyowc.core.stats:fit_cond', dict(enumerate(base + v)), (FIT, SORTER))) for k, v in ways.items()]

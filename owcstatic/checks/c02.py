"""C02: all attributes of a reference cast stay together."""
from ..report import Check
from .. import analyses as A
from ..ir import N, resolve, walk
from ..align import Align, compare
from ..roles import columns, Kinds, KEYS, short

GD = ('pyowc.data.fetchers:get_data',)
RULE = 'same casts selected'


def dict_of(n):
    n = resolve(n)
    if n.op == 'dict':
        return {k.args[0]: v for k, v in zip(n.args[0::2], n.args[1::2]) if k.op == 'const'}
    if n.op == 'dictover':
        return {k.args[0]: v for k, v in zip(n.args[1::2], n.args[2::2]) if k.op == 'const'}
    return {}


def through_axioms(n):
    """Casts of a derived quantity are those of the argument it is computed from."""
    if n.op == 'getitem' and n.args[1].op == 'const':
        b = resolve(n.args[0])
        s = short(b)
        if s == 'interp_climatology' and n.args[1].args[0] in (0, 1):
            return b.args[1]
        if s == 'map_data_grid' and n.args[1].args[0] in (2, 3):
            return b.args[1]
    return None


def rule_listing(c):
    it = A.fn('pyowc.data.fetchers:get_region_hist_locations', None, GD)
    c.covered(it)
    n = resolve(it.ret_node)
    if n.op != 'tuple':
        c.und(RULE, 'listing', f"returns {n.op}")
        return
    compare(c, RULE, 'listing', list(zip(('latitude', 'longitude', 'date'), n.args)), True, 'pyowc/data/fetchers.py get_region_hist_locations')


def rule_retrieval(c):
    it = A.fn('pyowc.data.fetchers:get_region_data', None, GD)
    c.covered(it)
    d = dict_of(it.ret_node)
    loc = 'pyowc/data/fetchers.py get_region_data'
    compare(c, RULE, 'retrieval', [(k, d[k]) for k in sorted(d)], True, loc)
    compare(c, RULE + ' (levels too)', 'retrieval', [(k, d[k]) for k in ('grid_sal', 'grid_ptmp', 'grid_pres') if k in d], False, loc)


def rule_frontal(c):
    it = A.fn('pyowc.data.fetchers:frontal_constraint_saf')
    c.covered(it)
    d = dict_of(it.ret_node)
    loc = 'pyowc/data/fetchers.py frontal_constraint_saf'
    compare(c, RULE, 'frontal separation', [(k, d[k]) for k in sorted(d)], True, loc)
    compare(c, RULE + ' (levels too)', 'frontal separation', [(k, d[k]) for k in ('grid_sal', 'grid_ptmp', 'grid_pres') if k in d], False, loc)
    want = {'grid_sal', 'grid_ptmp', 'grid_pres', 'grid_lat', 'grid_long', 'grid_dates', 'grid_z'}
    if d:
        c.that(want <= set(d), 'every attribute is handed on', 'frontal separation', f"missing {sorted(want - set(d))}", loc)


def rule_readers(c):
    for f, keys in (('read_mat_argo', ('lat', 'long', 'dates', 'sal', 'ptmp', 'pres')), ('read_mat_bottle', ('sal', 'ptmp', 'pres'))):
        it = A.fn('pyowc.data.fetchers:' + f)
        if it is None:
            continue
        c.covered(it)
        d = dict_of(it.ret_node)
        have = [(k, d[k]) for k in keys if k in d]
        loc = f"pyowc/data/fetchers.py {f}"
        if not have:
            c.ok(RULE, f"{f} hands the file on unchanged", '', loc)
            continue
        src = [k for k in keys if k not in d]
        compare(c, RULE, f, have, f == 'read_mat_argo', loc)
        if src:
            base = resolve(it.ret_node).args[0]
            for k in src:
                t = Align(f == 'read_mat_argo').term(have[0][1])
                c.that(t[0] == 'src', RULE, f"{f}: {k} with {have[0][0]}", f"{k} is left as read while {have[0][0]} is filtered", loc)


def rule_mapping(c):
    it = A.core()
    c.covered(it)
    n = 0
    for e in A.axioms(it, 'map_data_grid'):
        cols = columns(e.extra['data_pos'])
        if not cols:
            c.und(RULE, 'mapping call', 'position matrix not understood', A.where(e))
            continue
        n += 1
        compare(c, RULE, f"mapping call {n}", [('salinity', e.extra['sal'])] + [(f"column {i} of positions", x) for i, x in enumerate(cols)],
                True, A.where(e), through_axioms)
    for name in ('noise_variance', 'find_besthist', 'interp_climatology'):
        for e in A.axioms(it, name):
            args = list(e.extra.items())[:4 if name == 'find_besthist' else 3]
            if len(args) < 2:
                c.und(RULE, name, 'arguments not recognised', A.where(e))
                continue
            compare(c, RULE, name, args, True, A.where(e), through_axioms)
    # depths belong to the casts whose positions they are combined with
    for e in A.axioms(it, 'interp_climatology'):
        for f in A.axioms(it, 'map_data_grid')[:1]:
            cols = columns(f.extra['data_pos']) or []
            for i, x in enumerate(cols):
                ok = any(y is resolve(e.extra['grid_sal']) for y in walk(x)) or shared_root(x, e.extra['grid_sal'])
                c.that(ok or None, 'casts mapped are the casts interpolated', f"column {i}", '', A.where(f))


def shared_root(a, b):
    ra = {x for x in walk(a) if short(x) in ('get_region_data',)}
    rb = {x for x in walk(b) if short(x) in ('get_region_data',)}
    return bool(ra & rb)


def rule_float(c):
    """Everything taken from the float's source file for one mapping is of one profile."""
    it = A.core()
    idx = {}
    for name in ('map_data_grid', 'interp_climatology', 'find_besthist', 'get_region_data', 'frontal_constraint_saf', 'find_25boxes'):
        for e in A.axioms(it, name):
            for v in e.args:
                for x in data_walk(v):
                    if x.op == 'getitem' and resolve(x.args[1]).op == 'tuple' and is_source(x.args[0]) and len(resolve(x.args[1]).args) == 2:
                        k = resolve(x.args[0]).args[1].args[0]
                        idx.setdefault(resolve(resolve(x.args[1]).args[1]), {}).setdefault(k, A.where(e))
    if not idx:
        c.und('one float profile at a time', 'mapping', 'no access to the source file recognised')
        return
    best = max(idx, key=lambda i: len(idx[i]))
    for i, ks in idx.items():
        for k, loc in ks.items():
            c.that(i is best, 'one float profile at a time', k, f"index {str(i)[:200]}; the others use {str(best)[:200]}", loc)


def data_walk(n):
    return walk(n)


def is_source(b):
    b = resolve(b)
    return b.op == 'getitem' and b.args[1].op == 'const' and b.args[1].args[0] in ('LAT', 'LONG', 'DATES', 'SAL', 'PTMP', 'PRES', 'TEMP') \
        and resolve(b.args[0]).op == 'call' and resolve(b.args[0]).args[0] == 'scipy.io.loadmat'


def rule_kinds(c):
    """Each stored attribute is built from that attribute of the archive."""
    K = Kinds({})
    gdk = GD + ('pyowc.utilities:change_dates',)
    for f, ni in (('get_region_data', gdk), ('frontal_constraint_saf', ())):
        it = A.fn('pyowc.data.fetchers:' + f, None, ni)
        for k, v in dict_of(it.ret_node).items():
            if k in KEYS:
                got = K.kind(v)
                c.that(None if not got else got == {KEYS[k]}, 'attribute built from itself', f"{f}: {k}", f"built from {sorted(got)}",
                       f"pyowc/data/fetchers.py {f}")
    it = A.fn('pyowc.data.fetchers:get_region_hist_locations', None, gdk)
    n = resolve(it.ret_node)
    if n.op == 'tuple' and len(n.args) == 3:
        for k, v in zip(('lat', 'long', 'date'), n.args):
            got = K.kind(v)
            c.that(None if not got else got == {k}, 'attribute built from itself', f"listing: {k}", f"built from {sorted(got)}",
                   'pyowc/data/fetchers.py get_region_hist_locations')


def rule_ranking(c):
    """Inside the selection, positions, dates and depths judged together are those of the same casts."""
    from . import c14
    for o in c.shadow(c14.rule_selection):
        if o['rule'] == c14.R5 and ': grid_' in o['instance'] and o['status'] != 'undecided':
            c._add('casts judged in the selection', o['instance'], o['status'], o['detail'], o['loc'])


def main():
    c = Check('C02', 'attributes of a cast stay together',
              'Every array is reduced to its selection term (takes, drops, appends, loops; element-wise arithmetic, padding and '
              'reshaping forgotten). The terms of all attributes of one cast must be equal at each hand-over: archive readers, listing, '
              'retrieval, frontal separation, interpolation, statistics and both mapping calls.',
              'Equality of the terms covers every archive, index set and level.')
    c.rule(rule_readers)
    c.rule(rule_listing)
    c.rule(rule_retrieval)
    c.rule(rule_frontal)
    c.rule(rule_mapping)
    c.rule(rule_float)
    c.rule(rule_kinds)
    c.rule(rule_ranking)
    c.assume('interp_climatology keeps the order of casts (decided by C26)')
    return c.finish()

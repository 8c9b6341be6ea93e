"""C04: each mapping parameter acts in its own role and is recorded under its own name."""
import itertools

from ..report import Check
import re

from .. import analyses as A
from ..algebra import Alg, Cannot, leaf, power, fn, num as number
from ..ir import N, resolve, walk
from ..masks import num, is_nan
from ..roles import Kinds, columns, short
from ..stages import config_key, mentions, near, saved, spine, stage_events, result_of, chain
from .c34 import Form, term, pv, pvterm

R1, R2, R3, R4, R5 = ('scales of the mapping stages', 'second stage maps what the first left', 'mapped value and error',
                      'recorded parameters', 'scales of the cast selection')
PAR = ('sal', 'grid_pos', 'data_pos', 'p3', 'p4', 'p5', 'signal', 'noise', 'p8', 'p9')
NAME = {'lat': 'MAPSCALE_LATITUDE_', 'long': 'MAPSCALE_LONGITUDE_', 'date': 'MAPSCALE_AGE_', 'z': 'MAPSCALE_PHI_'}
RECORD = {'scale_long_large': 'MAPSCALE_LONGITUDE_LARGE', 'scale_lat_large': 'MAPSCALE_LATITUDE_LARGE',
          'scale_long_small': 'MAPSCALE_LONGITUDE_SMALL', 'scale_lat_small': 'MAPSCALE_LATITUDE_SMALL',
          'scale_phi_large': 'MAPSCALE_PHI_LARGE', 'scale_phi_small': 'MAPSCALE_PHI_SMALL',
          'scale_age_large': 'MAPSCALE_AGE_LARGE', 'scale_age_small': 'MAPSCALE_AGE_SMALL',
          'use_pv': 'MAP_USE_PV', 'use_saf': 'MAP_USE_SAF', 'p_delta': 'MAP_P_DELTA', 'p_exclude': 'MAP_P_EXCLUDE'}


COV = 'pyowc.core.stats:covar_xyt_pv'
CPAR = ('points1', 'points2', 's2', 's3', 's4', 's5', 's6')


def covariance_roles(c):
    """Which positional parameter of covar_xyt_pv scales which column."""
    it = A.fn(COV, {i: A.strparam(n) for i, n in enumerate(CPAR)})
    if it is None:
        return None
    c.covered(it)
    L = leaf
    a, b = (lambda k: L(('points1', k))), (lambda k: L(('points2', k)))
    for s in itertools.permutations(CPAR[2:]):
        slat, slon, sage, sphi, flag = s
        f = Form({flag: 1, sage: 3.0})
        try:
            got = f(it.ret_node)
        except Cannot:
            continue
        for la, lo, da, z in itertools.permutations((0, 1, 2, 3)):
            want = term(a(la), b(la), L(slat)) + term(a(lo), b(lo), L(slon)) + term(a(da), b(da), number(3.0)) + \
                pvterm(pv(a(la), a(z)), pv(b(la), b(z)), L(sphi))
            if got.same(fn('exp', want.scale(-1))):
                return dict(lat=(la, CPAR.index(slat)), long=(lo, CPAR.index(slon)), date=(da, CPAR.index(sage)), z=(z, CPAR.index(sphi)),
                            use=(None, CPAR.index(flag)))
    return None


def roles_of_parameters(c):
    """The same for the parameters of map_data_grid."""
    roles = covariance_roles(c)
    it = A.fn('pyowc.data.wrangling:map_data_grid', {i: A.strparam(n) for i, n in enumerate(PAR)}, (COV,))
    if roles is None or it is None:
        return None
    c.covered(it)
    ev = A.axioms(it, 'covar_xyt_pv')
    pairs = []
    for e in ev:
        args = [resolve(x) for x in e.extra.values()]
        if len(args) != 7 or any(x.op != 'param' for x in args[2:]):
            c.und(R1, 'covariance call', 'scales are not handed on unchanged', A.where(e))
            return None
        pairs.append(tuple(sorted(x.args[0] for x in args[:2] for x in [strip(x)] if x.op == 'param')))
        r = {k: (col, PAR.index(args[p].args[0])) for k, (col, p) in roles.items()}
        if e is ev[0]:
            out = r
        else:
            c.that(r == out, R1, f"covariance call {len(pairs)} uses the same scales", str(r), A.where(e))
    if not ev:
        return None
    c.that(True if sorted(pairs) == [('data_pos', 'data_pos'), ('data_pos', 'grid_pos')] else None, R1, 'covariances of data with data and of data with the float',
           str(pairs), A.where(ev[0]))
    return out


def kinds_of_columns(k, n):
    cols = columns(n)
    if not cols:
        return None
    return [k.kind(x) for x in cols]


def rule_stages(c, it):
    ev = stage_events(it)
    if len(ev) != 2:
        return c.und(R1, 'stages', f"{len(ev)} mapping calls")
    roles = roles_of_parameters(c)
    if roles is None:
        return c.und(R1, 'covariance', 'roles of the parameters of map_data_grid not recognised')
    c.ok(R1, 'roles of the parameters', str(roles))
    first, second = order(ev)
    if first is None:
        return c.bad(R2, 'stages', 'neither stage works on what the other left unexplained', A.where(ev[1]))
    k = Kinds()
    for e, size in ((first, 'LARGE'), (second, 'SMALL')):
        args = list(e.extra.values())
        for pos in (1, 2):
            ks = kinds_of_columns(k, args[pos])
            for what in ('lat', 'long', 'date', 'z'):
                col = roles[what][0]
                if ks is None or len(ks) <= col:
                    c.und(R1, f"{size.lower()} stage: column {col} of {('float', 'reference')[pos - 1]} position", 'matrix not understood', A.where(e))
                else:
                    c.that(True if ks[col] == {what} else None if not ks[col] else False, R1,
                           f"{size.lower()} stage: column {col} of {('float', 'reference')[pos - 1]} position", f"is {sorted(ks[col])}, scaled as {what}", A.where(e))
        for what in ('lat', 'long', 'date', 'z'):
            got = config_key(args[roles[what][1]])
            c.that(None if got is None and opaque(args[roles[what][1]]) else got == NAME[what] + size, R1, f"{size.lower()} stage: {what} scale",
                   f"{got or str(args[roles[what][1]])[:120]}", A.where(e))
        got = config_key(args[roles['use'][1]])
        c.that(None if got is None and opaque(args[roles['use'][1]]) else got == 'MAP_USE_PV', R1, f"{size.lower()} stage: vorticity switch", str(got), A.where(e))
    # same observations and positions
    a1, a2 = list(first.extra.values()), list(second.extra.values())
    for i, what in ((1, 'float position'), (2, 'reference positions'), (7, 'noise')):
        same = resolve(a1[i]) is resolve(a2[i])
        c.that(same or (None if i != 7 and alike(a1[i], a2[i]) else False), R2, what, '', A.where(second))
    res = result_of(first)
    try:
        data = resolve(a1[0])
        alg = Alg(lambda n: 'data' if n is data or chain(n) == chain(data) else part(n, res))
        p = alg.poly(a2[0])
        want = leaf('data') - leaf(2)
        c.that(p.same(want), R2, 'residuals', f"second stage maps {p!r}", A.where(second))
    except Cannot as e:
        c.und(R2, 'residuals', str(e), A.where(second))
    if hist_values(a1[0]):
        c.ok(R2, 'first stage maps the observations', '', A.where(first))
    else:
        c.und(R2, 'first stage maps the observations', str(a1[0])[:150], A.where(first))
    # what each stage uses as signal variance is that of its own data
    for e, a in ((first, a1), (second, a2)):
        s = resolve(a[6])
        if short(s) == 'signal_variance':
            same = resolve(s.args[1]) is resolve(a[0]) or chain(s.args[1]) == chain(a[0]) or resolve(strip(s.args[1])) is resolve(strip(a[0]))
            c.that(True if same else False if e is second and not mentions(s, 'map_data_grid') else None, R2,
                   f"signal variance of stage {1 if e is first else 2}", str(s.args[1])[:120], A.where(e))
        else:
            c.und(R2, f"signal variance of stage {1 if e is first else 2}", str(s)[:120], A.where(e))
    values(c, it, first, second)


def strip(n):
    n = resolve(n)
    while n.op == 'call' and n.args[0] in ('numpy.ravel', 'numpy.reshape', 'numpy.squeeze'):
        n = resolve(n.args[1])
    return n


def opaque(n):
    return any(x.op in ('opaque', 'mu', 'phi') for x in near(n))


def alike(a, b):
    return str(a)[:60] == str(b)[:60]


def part(n, res):
    n = resolve(n)
    if n.op == 'getitem' and num(n.args[1]) is not None and res(n.args[0]):
        return num(n.args[1])
    return None


def order(ev):
    a, b = ev
    ra, rb = result_of(a), result_of(b)
    a_in_b = any(ra(x) for x in near(list(b.extra.values())[0]))
    b_in_a = any(rb(x) for x in near(list(a.extra.values())[0]))
    return (a, b) if a_in_b else (b, a) if b_in_a else (None, None)


def hist_values(n):
    _s, b = chain(n)
    return b.op == 'getitem' and short(resolve(b.args[0])) == 'interp_climatology' and num(b.args[1]) == 0


def values(c, it, first, second):
    r1, r2 = result_of(first), result_of(second)

    def leaf_of(n):
        k = part(n, r1)
        if k is not None:
            return f"large[{k}]"
        k = part(n, r2)
        if k is not None:
            return f"small[{k}]"
        return None
    for e, d in saved(it):
        for names, want, what in ((('la_mapped_sal',), lambda p: p.same(leaf('large[0]') + leaf('small[0]')), 'sum of the two estimates'),
                                  (('la_mapsalerrors', 'la_map_sal_errors'),
                                   lambda p: power(p, 2).same(power(leaf('large[1]'), 2) + power(leaf('small[1]'), 2)), 'root of the sum of squared errors')):
            v = next((d[k] for k in names if k in d), None)
            if v is None:
                c.und(R3, names[0], 'not among the saved variables', A.where(e))
                continue
            n = 0
            for kind, idx, val in spine(v):
                if not mentions(val, 'map_data_grid'):
                    continue
                n += 1
                try:
                    p = Alg(leaf_of, extra='scalar-dot').poly(val)
                    c.that(want(p), R3, names[0], f"{p!r}; expected the {what}", A.where(e))
                except Cannot as x:
                    c.und(R3, names[0], str(x)[:200], A.where(e))
            if not n:
                c.und(R3, names[0], 'no stored value comes from the mapping', A.where(e))
        places = {last(idx) for v in (d[k] for k in ('la_mapped_sal',) if k in d) for kind, idx, val in spine(v) if mentions(val, 'map_data_grid') and idx is not None}
        for name, want in RECORD.items():
            if name not in d:
                c.und(R4, name, 'not among the saved variables', A.where(e))
                continue
            got = set()
            murky = []
            for kind, idx, val in spine(d[name]):
                if is_nan(val) or all(is_nan(y) or y.op in ('*', 'call', 'list', 'tuple') or num(y) is not None for y in near(val) if y.op not in ('dim',)) \
                        and any(is_nan(y) for y in near(val)):
                    continue
                k = config_key(val)
                if k and kind == 'store' and len(places) == 1 and last(idx) is not None and last(idx) not in places:
                    where = last(idx)
                    c.that(False if num(where) not in (None, -1) or where.op in ('+', '-') else None, R4, name + ': place',
                           f"stored at {where}"[:120] + ', the mapped salinity at ' + f"{next(iter(places))}"[:80], A.where(e))
                if k:
                    got.add(k)
                elif num(val) is not None:
                    got.add(str(num(val)))
                else:
                    murky.append(str(val)[:100])
            if not got and not murky:
                c.bad(R4, name, 'no value of a parameter is ever stored', A.where(e))
            elif got and got != {want}:
                c.bad(R4, name, f"records {sorted(got)}, the parameter used is {want}", A.where(e))
            elif murky:
                c.und(R4, name, '; '.join(murky), A.where(e))
            else:
                c.ok(R4, name, want, A.where(e))
        a1 = list(first.extra.values())
        for name, pos in (('la_noise_sal', 7), ('la_signal_sal', 6)):
            if name not in d:
                continue
            vals = [val for kind, idx, val in spine(d[name]) if any(short(y) in ('noise_variance', 'signal_variance') for y in near(val))]
            if not vals:
                c.und(R4, name, 'no stored variance found', A.where(e))
            for v in vals:
                f = short(resolve(a1[pos]))
                ok = resolve(v) is resolve(a1[pos])
                c.that(True if ok else False if short(v) and f and (short(v) != f or pos == 6) else None, R4, name, str(v)[:150], A.where(e))


def last(idx):
    i = resolve(idx) if idx is not None else None
    while i is not None and i.op == 'tuple' and i.args:
        i = resolve(i.args[-1])
    return i


BEST = (('lat', 'grid_lat'), ('long', 'grid_long'), ('date', 'grid_dates'), ('z', 'grid_z'), ('lat', 'lat'), ('long', 'long'), ('date', 'date'), ('z', 'z'))
BEST_CFG = ('MAPSCALE_LATITUDE_LARGE', 'MAPSCALE_LATITUDE_SMALL', 'MAPSCALE_LONGITUDE_LARGE', 'MAPSCALE_LONGITUDE_SMALL',
            'MAPSCALE_PHI_LARGE', 'MAPSCALE_PHI_SMALL', 'MAPSCALE_AGE_LARGE', 'MAPSCALE_AGE_SMALL', 'MAP_USE_PV', 'CONFIG_MAX_CASTS')


def rule_selection(c, it):
    ev = A.axioms(it, 'find_besthist')
    if not ev:
        return c.und(R5, 'find_besthist', 'not called')
    k = Kinds()
    for e in ev:
        args = list(e.extra.values())
        if len(args) < 18:
            c.und(R5, 'find_besthist', f"{len(args)} arguments", A.where(e))
            continue
        for i, (kind, name) in enumerate(BEST):
            got = k.kind(args[i])
            c.that(True if got == {kind} else None if not got else False, R5, name, f"is {sorted(got)}", A.where(e))
        for i, key in enumerate(BEST_CFG):
            got = config_key(args[8 + i])
            c.that(None if got is None and opaque(args[8 + i]) else got == key, R5, key, str(got or args[8 + i])[:120], A.where(e))
    for e in A.axioms(it, 'get_region_data'):
        c.that(short(resolve(list(e.extra.values())[3])) == 'find_besthist' or None, R5, 'casts retrieved are those selected', '', A.where(e))


SCALE = re.compile(r'\b(?:longitude|latitude|phi|age)_(?:large|small)\b')


def rule_inside(c):
    """Which scales the ellipse and the rankings of find_besthist use."""
    from . import c34
    c34.FORMULAS.clear()
    obs = c.shadow(c34.rule_selection)
    loc = {o['instance']: o['loc'] for o in obs}
    for name, (got, want) in c34.FORMULAS.items():
        a, b = set(SCALE.findall(got)), set(SCALE.findall(want))
        if 'large' in name or 'small' in name or 'ellipse' in name:
            c.that(a == b, R5, f"{name}: scales used", f"{', '.join(sorted(a))}" + ('' if a == b else f"; {', '.join(sorted(b))} belong to it"), loc.get(name))


def main():
    c = Check('C04', 'each mapping parameter acts in its own role',
              'The covariance formula inside map_data_grid (normal form) tells which parameter scales which column of the position '
              'matrices; at both calls the kind of each column and the configuration key of each scale must agree. Residuals, mapped '
              'value and error are compared as formulas; every recorded parameter is traced to its configuration key.',
              'Symbolic in configuration and data; all paths of the level loop.')
    it = A.core()
    c.covered(it)
    c.rule(rule_stages, it)
    c.rule(rule_selection, it)
    c.rule(rule_inside)
    c.assume('inside find_besthist the scales act as checked by C34')
    return c.finish()

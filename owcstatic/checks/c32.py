"""C32: calibrated salinity follows from the fitted factor alone."""
from ..report import Check
from .. import analyses as A
from ..algebra import Cannot, leaf, fn, power, num
from ..content import Content
from ..ir import N, resolve, is_bool
from ..masks import num as number
from .. import stages
from .c06 import key_of

R1, R2, R3 = ('outputs follow from the fitted factor', 'the fit compares mapped and float conductivity of the same samples', 'the fit results are recorded')
OPAQUE = ('pyowc.core.finders:find_10thetas', 'pyowc.core.stats:fit_cond', 'pyowc.core.stats:build_cov', 'pyowc.data.fetchers:get_topo_grid')


def calib():
    return A.run('calib', no_inline=OPAQUE)


def fit_position(n):
    """Which result of the fit a node is."""
    n = resolve(n)
    if n.op == 'getitem':
        b, i = resolve(n.args[0]), resolve(n.args[1])
        if b.op == 'call' and b.args[0].endswith(':fit_cond') and i.op == 'const' and isinstance(i.args[0], int):
            return i.args[0]
    return None


def leaf_of(n):
    k = key_of(n)
    if k:
        return k
    p = fit_position(n)
    if p is not None:
        return ('fit', p)
    if n.op == 'const' and isinstance(n.args[0], (int, float)) and not isinstance(n.args[0], bool) and n.args[0] == 0:
        return num(0)
    return None


def formulas(ct, n):
    return list(ct.of(n).values())


def main():
    c = Check('C32', 'calibrated salinity follows from the fitted conductivity factor',
              'The elements of every saved calibration variable are written as a formula of the loaded measurements and the fit results '
              '(stores, selections and copies are followed, loops taken to a fixed point) and compared with the stated relation in normal form; '
              'the same for the series handed to the fit.',
              'calc_piecewisefit, all paths; conductivity conversions are uninterpreted functions of salinity, temperature and pressure.')
    it = calib()
    c.covered(it)
    c.rule(rules, it)
    c.rule(rows, it)
    return c.finish()


def rules(c, it):
    ct = Content(leaf_of, {'C_from_SP': 'C', 'SP_from_C': 'SP'})
    s, t, ms, me, z = leaf('SAL'), leaf('PTMP'), leaf('la_mapped_sal'), leaf('la_mapsalerrors'), num(0)
    C = lambda x: fn('C', x, t, z)
    SP = lambda x: fn('SP', x, t, z)
    full = None
    for e, d in stages.saved(it):
        vals = {}
        for k, v in d.items():
            try:
                vals[k] = formulas(ct, v)
            except Cannot as x:
                vals[k] = x
        if isinstance(vals.get('pcond_factor'), list) and not vals['pcond_factor']:
            continue                       # the empty result
        full = (e, vals)
        single = {}
        for k in ('pcond_factor', 'pcond_factor_err', 'sta_mean', 'sta_rms', 'time_deriv', 'time_deriv_err'):
            v = vals.get(k)
            if isinstance(v, list) and len(v) == 1 and len(v[0].t) == 1 and list(v[0].t.values()) == [1.0] and \
                    list(v[0].t)[0] and list(v[0].t)[0][0][0][0] == 'leaf' and isinstance(list(v[0].t)[0][0][0][1], tuple):
                single[k] = v[0]
                c.ok(R3, k, f"result {list(v[0].t)[0][0][0][1][1]} of the fit", A.where(e))
            elif isinstance(v, list):
                c.bad(R3, k, f"content is {v}, not one result of the fit", A.where(e))
            else:
                c.und(R3, k, str(v), A.where(e))
        ps = [repr(p) for p in single.values()]
        c.that(len(set(ps)) == len(ps), R3, 'different results', f"{ps}", A.where(e))
        if not {'pcond_factor', 'pcond_factor_err', 'sta_mean', 'sta_rms'} <= set(single):
            continue
        F, Fe, M, Me = (single[k] for k in ('pcond_factor', 'pcond_factor_err', 'sta_mean', 'sta_rms'))
        spec = {'cal_COND': F * C(s), 'cal_COND_err': Fe * C(s), 'cal_SAL': SP(F * C(s)),
                'cal_SAL_err': fn('abs', SP(F * C(s) + Fe * C(s)) - SP(F * C(s))),
                'sta_SAL': SP(M * C(s)), 'sta_SAL_err': fn('abs', SP(M * C(s) + Me * C(s)) - SP(M * C(s)))}
        for k, want in spec.items():
            v = vals.get(k)
            if not isinstance(v, list):
                c.und(R1, k, str(v), A.where(e))
            elif len(v) == 1 and v[0].same(want):
                c.ok(R1, k, repr(want), A.where(e))
            else:
                c.bad(R1, k, f"is {v}, should be {want}", A.where(e))
    if full is None:
        c.und(R1, 'saved results', 'no calibrated result is saved')
    fits = [e for e in it.events if e.kind == 'axiom' and e.name.endswith(':fit_cond')]
    ratio = C(ms) * power(C(s), -1)
    errs = fn('abs', C(ms) - C(ms + me.scale(.01))).scale(100) * power(C(s), -1)
    for e in fits:
        ps = list(e.extra.items())
        for k, (p, want) in enumerate(zip(('series', 'errors'), (ratio, errs))):
            try:
                v = formulas(ct, ps[k + 1][1])
            except Cannot as x:
                c.und(R2, p + ' ' + A.where(e), str(x), A.where(e))
                continue
            c.that(len(v) == 1 and v[0].same(want), R2, f"{p} given to the fit", f"is {v}, expected {want}", A.where(e))
    if not fits:
        c.und(R2, 'fit', 'fit_cond is not called')


def canon(n, memo):
    """Index in canonical form: layout removed, positions named by the condition they satisfy."""
    n = resolve(n)
    if n in memo:
        return memo[n]
    memo[n] = ('loop', id(n))
    while n.op == 'call' and n.args[0] in LAYOUT_ALL - {'numpy.tile', 'numpy.repeat'} and len(n.args) > 1:
        n = resolve(n.args[1])
    out = None
    if n.op == 'call' and n.args[0] in ('numpy.argwhere', 'numpy.flatnonzero', 'numpy.nonzero', 'numpy.where') and len(n.args) == 2:
        out = ('pos', canon(n.args[1], memo))
    elif is_bool(n) or n.op in ('<', '<=', '=='):
        out = ('pos', (n.op,) + tuple(canon(a, memo) for a in n.args if isinstance(a, N)))
        out = out[1] if n.op == 'not' and False else out
    elif n.op == 'getitem':
        b = canon(n.args[0], memo)
        i = resolve(n.args[1])
        its = i.args if i.op == 'tuple' else (i,)
        if b[:1] == ('pos',) and all(number(x) in (0, 1) or resolve(x).op == 'slice' for x in its):
            out = b if all(number(x) in (0, None) for x in its) else ('comp1', b)
        else:
            out = ('item', b, tuple(canon(x, memo) for x in its))
    elif n.op == 'slice':
        a = [resolve(x) for x in n.args]
        out = ('slice',) + tuple(None if x.op == 'const' and x.args[0] in (None, 0) and k == 0 else canon(x, memo) for k, x in enumerate(a[:2]))
    elif n.op == 'mu':
        out = ('mu', id(n))
    elif n.op == 'const':
        out = ('c', n.args[0])
    elif n.op in ('dim', 'size'):
        b = canon(n.args[0], memo)
        out = ('len', b)
    else:
        out = (n.op,) + tuple(canon(a, memo) if isinstance(a, N) else str(a) for a in n.args)
    if out[:1] == ('pos',) and isinstance(out[1], tuple) and out[1][:1] == ('pos',):
        out = out[1]
    memo[n] = out
    return out


def source(i, cols, memo):
    """(row, column of the full array) of a sample taken from selected columns."""
    row, col = (canon(a, memo) for a in resolve(i).args)
    if cols is not None:
        its = resolve(cols).args if resolve(cols).op == 'tuple' else (cols,)
        col = ('item', canon(its[-1], memo), (col,))
    return row, col


def rows(c, it):
    """Samples of one level and profile of all series come from the same level and profile."""
    seen, todo, groups = set(), [], {}
    for e in it.events:
        if e.kind == 'axiom' and e.name.endswith(':fit_cond'):
            todo += [a for a in e.extra.values() if isinstance(a, N)][:3]
        if e.kind == 'axiom' and e.name.endswith(':build_cov'):
            todo += [a for a in e.extra.values() if isinstance(a, N)][:1]
    if not todo:
        return c.und(R2, 'levels', 'fit_cond is not called')
    places, memo = {}, {}
    while todo:
        n = resolve(todo.pop())
        if n in seen:
            continue
        seen.add(n)
        if n.op == 'store':
            v = n.args[2]
            srcs = set()
            stack = [v]
            while stack:
                x = resolve(stack.pop())
                if x.op == 'getitem':
                    i = resolve(x.args[1])
                    if i.op == 'tuple' and len(i.args) == 2 and resolve(i.args[0]).op != 'slice':
                        srcs.add(x)
                        continue
                    stack.append(x.args[0])
                elif x.op == 'call' and x.args[0] in LAYOUT_ALL:
                    stack.append(x.args[1])
                elif x.op == 'T':
                    stack.append(x.args[0])
            for x in srcs:
                b = x
                cols = None
                while b.op == 'getitem' and not key_of(b):
                    if b is not x:
                        cols = resolve(b.args[1])
                    b = resolve(b.args[0])
                k = key_of(b)
                if k:
                    places.setdefault((canon(n.args[1], memo),) + source(x.args[1], cols, memo), []).append((k, n.loc))
        if n.op == 'mu':
            todo += [x for x in (n.init, n.next) if x is not None]
        todo += [a for a in n.args if isinstance(a, N)]
    keys = {k: p for p, ks in places.items() for k, _l in ks}
    want = {'SAL', 'PTMP', 'la_mapped_sal', 'la_mapsalerrors'}
    if not want <= set(keys):
        return c.und(R2, 'levels', f"samples of the chosen levels found only for {sorted(keys)}")
    main_p = max(places, key=lambda p: len(places[p]))
    for p, ks in places.items():
        for k, l in ks:
            c.that(p == main_p, R2, f"levels taken from {k}", 'same position and same source sample as the other variables' if p == main_p else
                   "stored at or taken from another position than the other variables", l)


from ..algebra import LAYOUT as LAYOUT_ALL  # noqa: E402

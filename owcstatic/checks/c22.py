"""C22: the temperature and pressure windows blank the same samples in every variable."""
import math
from itertools import product as cross
from .. import analyses as A
from ..algebra import Cannot
from ..ir import N, resolve, walk
from ..point import Point, Wrong
from ..report import Check
from ..roles import short
from .c06 import key_of

FIND = 'pyowc.core.finders:find_10thetas'
LIMITS = ('use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt')
CHOICES = (('none', [], []), ('lt only', [4.0], []), ('gt only', [], [4.0]), ('lt below gt', [2.0], [4.0]),
           ('lt equals gt', [4.0], [4.0]), ('lt above gt', [4.0], [2.0]))
THROUGH = ('numpy.array', 'numpy.asarray', 'numpy.copy', 'copy.deepcopy', 'copy.copy', 'numpy.ascontiguousarray')


class Table(Point):
    plane = True


def outside(x, lt, gt):
    """Excluded by the window (values at a limit are kept)."""
    if math.isnan(x):
        return False
    if lt and gt:
        return gt[0] > x > lt[0] if lt[0] < gt[0] else x > lt[0] or x < gt[0]
    return bool(lt and x > lt[0] or gt and x < gt[0])


def samples(lt, gt):
    ts = sorted(set(lt + gt))
    out = [float('nan')]
    out += [3.0] if not ts else [ts[0] - 1.0] + [t for t in ts] + [t + 1.0 for t in ts]
    return out


def var_of(n, leaf, memo, deep=0):
    """The input array a value is an (erased) version of."""
    n = resolve(n)
    if n in memo:
        return memo[n]
    memo[n] = None
    name = leaf(n)
    if name is None:
        if n.op in ('store', 'T'):
            name = var_of(n.args[0], leaf, memo)
        elif n.op == 'mu':
            name = var_of(n.init, leaf, memo)
        elif n.op == 'phi':
            a, b = var_of(n.args[1], leaf, memo), var_of(n.args[2], leaf, memo)
            name = a if a == b else None
        elif n.op == 'call' and n.args[0] == 'numpy.where' and len(n.args) == 4:
            ns = {var_of(x, leaf, memo) for x in n.args[2:]} - {None}
            name = ns.pop() if len(ns) == 1 else None
        elif n.op == 'call' and n.args[0] in THROUGH and len(n.args) > 1:
            name = var_of(n.args[1], leaf, memo)
    memo[n] = name
    return name


def versions(roots, leaf, names):
    """Outermost versions of the arrays that something is computed from."""
    seen, todo, memo, out = set(), list(roots), {}, {}
    while todo:
        n = todo.pop()
        if not isinstance(n, N):
            continue
        n = resolve(n)
        if n in seen:
            continue
        seen.add(n)
        v = var_of(n, leaf, memo)
        if v in names:
            out.setdefault(v, []).append(n)
            continue
        if n.op in ('dim', 'shape', 'size') or short(n) == 'find_10thetas':
            continue
        if n.op == 'mu':
            todo += [n.init, n.next]
        todo += list(n.args)
    return out


def compare(c, name, vers, names, leaf, limit, mapped, loc):
    for v in names:
        if not vers.get(v):
            c.und('windows', f"{name}: {v}", 'no use of this variable is seen', loc)
            continue
        for (tn, tl, tg), (pn, pl, pg) in cross(CHOICES, CHOICES):
            inst = f"{name}: {v}, temperature limits: {tn}, pressure limits: {pn}"
            limits = dict(zip(LIMITS, (tl, tg, pl, pg)))
            bad = open_ = None
            for t, p, m in cross(samples(tl, tg), samples(pl, pg), (1.0, float('nan'))):
                values = {x: 35.0 for x in names}
                values.update({'PTMP': t, 'PRES': p, mapped: m})
                x = values[v]
                want = math.isnan(x) or math.isnan(m) or outside(t, tl, tg) or outside(p, pl, pg)
                for n in vers[v]:
                    try:
                        got = Table(leaf, values, limit, limits).val(n)
                    except Wrong as w:
                        bad = str(w)
                        break
                    except Cannot as w:
                        open_ = str(w)
                        continue
                    if not isinstance(got, (int, float)):
                        open_ = 'value not known'
                    elif math.isnan(got) != want:
                        bad = (f"a sample with temperature {t:g}, pressure {p:g} ({'mapped' if m == m else 'unmapped'}), limits "
                               f"temperature < {tl or '-'} > {tg or '-'}, pressure < {pl or '-'} > {pg or '-'} is "
                               f"{'blanked' if not want else 'used'}")
                    elif not want and got != x:
                        bad = 'values other than those of the variable are used'
                    if bad:
                        break
                if bad:
                    break
            if bad:
                c.bad('windows', inst, bad, loc)
            elif open_:
                c.und('windows', inst, open_, loc)
            else:
                c.ok('windows', inst, '', loc)


def rule_levels(c):
    it = A.fn(FIND)
    if it is None:
        c.und('windows', 'level selection', 'find_10thetas is gone')
        return
    c.covered(it)
    pos = params(FIND)
    roles = dict(zip(pos, ('SAL', 'PTMP', 'PRES', 'la_ptmp') + LIMITS))

    def leaf(n):
        return roles.get(n.args[0]) if n.op == 'param' and roles.get(n.args[0]) not in LIMITS else None

    def limit(n):
        return whole(n, lambda x: roles.get(x.args[0]) if x.op == 'param' and roles.get(x.args[0]) in LIMITS else None)
    vers = versions([it.ret_node], leaf, ('SAL', 'PTMP', 'PRES'))
    compare(c, 'level selection', vers, ('SAL', 'PTMP', 'PRES'), leaf, limit, 'la_ptmp', 'find_10thetas')


def whole(n, f):
    """The limit a value is, also as its only element."""
    n = resolve(n)
    for _ in range(4):
        r = f(n)
        if r is not None:
            return r
        if n.op == 'getitem' and all(resolve(x).op == 'const' and resolve(x).args[0] in (0, -1)
                                     for x in (resolve(n.args[1]).args if resolve(n.args[1]).op == 'tuple' else (n.args[1],))):
            n = resolve(n.args[0])
        elif n.op == 'call' and n.args[0] in THROUGH + ('float', 'numpy.ravel', 'numpy.squeeze', 'numpy.item') and len(n.args) > 1:
            n = resolve(n.args[1])
        else:
            return None
    return None


def params(qual):
    a = A.pkg().find(qual)[1].args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


SEVEN = ('SAL', 'PTMP', 'PRES', 'la_mapped_sal', 'la_mapsalerrors', 'cal_SAL', 'cal_SAL_err')


def rule_plot(c):
    it = A.run('plots', no_inline=(FIND,))
    c.covered(it)
    roots, loc = [], None
    for e in it.events:
        if e.kind == 'call' and (e.func.endswith('sal_var_plot') or any(str(s).endswith('sal_var_plot') for s in e.stack)) \
                and 'matplotlib' in e.name and 'pyplot.figure' not in e.name:
            roots += list(e.args) + [v for v in (e.kwargs.values() if isinstance(e.kwargs, dict) else ())]
            loc = e.loc
    if not roots:
        c.und('windows', 'variance plot', 'no such plot is seen')
        return

    def leaf(n):
        k = key_of(n)
        return k if k in SEVEN + ('la_ptmp',) else None

    def limit(n):
        return whole(n, lambda x: key_of(x) if key_of(x) in LIMITS else None)
    compare(c, 'variance plot', versions(roots, leaf, SEVEN), SEVEN, leaf, limit, 'la_ptmp', loc)


def rule_calls(c):
    """Every call of the level selection hands over each variable and limit in its own place."""
    pos = params(FIND)
    want = dict(zip(pos, ('SAL', 'PTMP', 'PRES', 'la_ptmp') + LIMITS + ('use_percent_gt',)))
    for stage in ('calib', 'plots'):
        it = A.run(stage, no_inline=(FIND,))
        c.covered(it)
        seen = {}
        for e in A.axioms(it, 'find_10thetas'):
            for p, v in e.extra.items():
                if want.get(p) is None:
                    continue
                ks = keys_in(v)
                inst = f"{e.loc.rsplit('/', 1)[-1]} {p}"
                if not ks:
                    c.und('arguments', inst, 'origin of the argument not seen', A.where(e))
                else:
                    c.that(ks == {want[p]}, 'arguments', inst, f"{want[p]} expected, given {sorted(ks)}", A.where(e))


def keys_in(n):
    seen, todo, out = set(), [n], set()
    while todo:
        n = todo.pop()
        if not isinstance(n, N):
            continue
        n = resolve(n)
        if n in seen:
            continue
        seen.add(n)
        k = key_of(n)
        if k is not None:
            out.add(k)
        elif n.op == 'mu':
            todo += [n.init, n.next]
        elif n.op == 'phi':
            todo += n.args[1:]
        elif n.op == 'store':
            todo.append(n.args[0])
            if not walk_missing(n.args[2]):
                todo.append(n.args[2])
        elif n.op in ('getitem', 'T'):
            todo.append(n.args[0])
        elif n.op == 'call' and len(n.args) > 1:
            todo.append(n.args[1])
    return out


def walk_missing(n):
    n = resolve(n)
    return n.op in ('nan', 'const')


def main():
    c = Check('C22', 'temperature and pressure windows exclude the same samples everywhere',
              'For an arbitrary sample and every combination of limits (absent, one, two in either order or equal) and of the sample\'s '
              'place relative to them, missing or mapped, the element of each variable that levels are chosen or the variance plot is '
              'drawn from is followed through all masks, loops and branches; it must be blank exactly when the sample lies outside a '
              'window or has no mapped counterpart. Every call hands each variable and limit to its own parameter.',
              'Comparisons only, so one representative per cell of the line cut by the limits covers all values.')
    c.assume('Each limit holds at most one number, as the calibration settings stage enforces.')
    c.rule(rule_levels)
    c.rule(rule_plot)
    c.rule(rule_calls)
    return c.finish()

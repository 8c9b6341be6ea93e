"""C28: objective mapping gives the optimal linear estimate with estimated mean, and its error."""
from fractions import Fraction

from .. import analyses as A
from ..algebra import Alg, Cannot, Poly, leaf, num as number, power
from ..ir import N, resolve
from ..masks import is_nan, mask_of, num
from ..matrix import Matrices, plus, scaled
from ..report import Check

R1, R2, R3, R4 = 'optimal estimate', 'error of the estimate', 'signal variance', 'noise variance'
COVAR = 'pyowc.core.stats:covar_xyt_pv'
ORDER = ['sal', 'grid_pos', 'data_pos', 'lat', 'long', 'age', 'signal_variance', 'noise_variance', 'phi', 'map_pv_use']


def plain(n):
    n = resolve(n)
    while n.op == 'call' and n.args[0] in ('numpy.array', 'numpy.asarray', 'numpy.atleast_2d', 'numpy.copy') and len(n.args) > 1:
        n = resolve(n.args[1])
    return n


def leaf_of(n):
    if n.op == 'param':
        k = n.args[0]
        if k == 'sal':
            return 'v', 'd', 'data'
        if k in ('signal_variance', 'noise_variance'):
            return 's', leaf(k)
    if n.op == 'call' and n.args[0] == COVAR:
        a = [plain(x) for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
        names = [x.args[0] if x.op == 'param' else str(x)[:60] for x in a]
        tail = '' if names[2:] == agreed else '(' + ', '.join(names[2:]) + ')'
        pair = tuple(names[:2])
        if pair == ('data_pos', 'data_pos'):
            return 'm', 'C' + tail, True
        if pair == ('data_pos', 'grid_pos'):
            return 'm', 'G' + tail, False
        if pair == ('grid_pos', 'data_pos'):
            return 'm', 'G' + tail + "'", False
        if all(p in ('data_pos', 'grid_pos') for p in pair):
            return 'm', f"cov{pair}" + tail, True
    return None


SCALES = ['lat', 'long', 'age', 'phi', 'map_pv_use']
agreed = list(SCALES)


def names_of(a):
    a = [plain(x) for x in a if isinstance(x, N)]
    return [x.args[0] if x.op == 'param' else str(x)[:60] for x in a]


def agree(calls):
    """Which scale plays which part is decided by C04; here all covariances have to be made in the same way."""
    agreed[:] = calls[0] if calls and all(x == calls[0] for x in calls) and sorted(calls[0]) == sorted(SCALES) else SCALES


def rule_mapping(c):
    it = A.fn('pyowc.data.wrangling:map_data_grid', {i: A.strparam(n) for i, n in enumerate(ORDER)}, no_inline=(COVAR,))
    if it is None:
        return c.und(R1, 'map_data_grid', 'not found')
    c.covered(it)
    loc = 'pyowc/data/wrangling.py map_data_grid'
    r = resolve(it.ret_node)
    if r.op not in ('tuple', 'list') or len(r.args) != 4:
        return c.und(R1, 'map_data_grid', 'result is ' + str(r)[:120], loc)
    agree([names_of(e.args[2:]) for e in it.events if e.kind == 'axiom' and e.name == COVAR])
    m = Matrices(leaf_of)
    s, v, one = leaf('signal_variance'), leaf('noise_variance'), {('1',): number(1)}
    m.symmetric.add('C')
    K = m.inverse(plus({('C',): s}, {(): v}))
    d = {('d',): number(1)}
    whole = m.total(one, m.times(K, one))
    mean = m.total(one, m.times(K, d)) * power(whole, -1)
    w = m.times(K, plus(d, scaled(one, mean), -1))

    def value(B):
        return m.elements(('v', plus(m.times(B, w), scaled(one, mean)), None))

    def error(B):
        miss = plus(one, m.times(B, m.times(K, one)), -1)
        e = m.elements(('v', miss, None))
        inner = s - m.diagonal(m.times(m.times(B, K), m.transposed(B))) + e * e * power(whole, -1)
        return power(inner, Fraction(1, 2))
    data, grid = {('C',): s}, {("G'",): s}
    for i, (rule, what, want) in enumerate(((R1, 'value at the float', value(grid)), (R2, 'error at the float', error(grid)),
                                            (R1, 'values at the reference casts', value(data)), (R2, 'errors at the reference casts', error(data)))):
        try:
            x = m.of(r.args[i])
            if x[0] in 'mh':
                raise Cannot('a matrix')
            got = m.elements(x)
            c.that(got.same(want), rule, what, repr(got)[:400] + ('' if got.same(want) else '   expected ' + repr(want)[:400]), loc)
        except Cannot as e:
            c.und(rule, what, str(e), loc)


def rule_signal(c):
    it = A.fn('pyowc.core.stats:signal_variance', {0: A.strparam('sal')})
    if it is None:
        return c.und(R3, 'signal_variance', 'not found')
    c.covered(it)
    loc = 'pyowc/core/stats.py signal_variance'
    n = resolve(it.ret_node)
    for k, got in enumerate(ends(n)):
        f = strip(got)
        name = f.args[0] if f.op == 'call' else None
        if name in ('numpy.nanvar', 'numpy.var'):
            ddof = kwarg(f, 'ddof')
            ok = is_sal(f.args[1]) and (ddof is None or num(ddof) == 0)
            odd = resolve(f.args[1])
            strange = not ok and odd.op == 'getitem' and mask_of(odd.args[1]) is not None      # another selection: left open
            c.that(ok if (ddof is None or num(ddof) is not None) and not strange else None, R3, 'mean squared deviation from the mean',
                   'whole variance' if ok else str(f)[:160], loc)
            continue
        try:
            x = Means(lambda z: 'x' if is_sal(z) else None).of(f)
            want = power(leaf('x') - leaf('mean(x)'), 2)
            c.that(x.same(mean_of(want)), R3, 'mean squared deviation from the mean', repr(x)[:200], loc)
        except Cannot as e:
            c.und(R3, 'mean squared deviation from the mean', str(e), loc)


def strip(n):
    n = resolve(n)
    while n.op == 'call' and n.args[0] in ('float', 'builtins.float', 'numpy.float64', 'numpy.array', 'numpy.asarray') and len(n.args) > 1:
        n = resolve(n.args[1])
    return n


def kwarg(n, k):
    for a in n.args[1:]:
        if isinstance(a, N) and a.op == 'kw' and a.args[0] == k:
            return resolve(a.args[1])
    return None


def is_sal(n):
    n = resolve(n)
    while True:
        if n.op == 'call' and n.args[0] in ('numpy.ravel', 'numpy.array', 'numpy.asarray', 'numpy.copy') and len(n.args) > 1:
            n = resolve(n.args[1])
        elif n.op == 'getitem' and valid(mask_of(n.args[1])):
            n = resolve(n.args[0])
        else:
            return n.op == 'param' and n.args[0] == 'sal'


def valid(m):
    """A mask of the observations that are not missing."""
    if m is None:
        return False
    m = resolve(m)
    if m.op == 'not':
        m = resolve(m.args[0])
        return m.op == 'isnan' and is_sal(m.args[0])
    return m.op == 'isfinite' and is_sal(m.args[0])


def ends(n):
    n = resolve(n)
    return ends(n.args[1]) + ends(n.args[2]) if n.op == 'phi' else [n]


MEAN = ('numpy.mean', 'numpy.nanmean', 'numpy.average')


def mean_of(p):
    """Mean of a formula over its elements: linear in it."""
    out = Poly({})
    for mono, k in p.t.items():
        free = any(moves(a) for a, _e in mono)
        q = Poly({mono: k})
        if not free:
            out = out + q
            continue
        fixed = tuple((a, e) for a, e in mono if not moves(a))
        move = tuple((a, e) for a, e in mono if moves(a))
        out = out + Poly({fixed: k}) * leaf('mean(' + repr(Poly({move: 1.0})) + ')')
    return out


def moves(a):
    return a[0] == 'leaf' and str(a[1]) in ('x', 'y') or a[0] in ('fn', 'sum') and any(moves(b) for part in (a[2] if a[0] == 'fn' else [a[1]])
                                                                                      for _r, m, _c in part for b, _e in m)


def whole(n):
    iv = resolve(n.args[0])
    return iv.op == 'iv' and num(iv.args[0]) == 0 and num(iv.args[2]) == 1 and resolve(n.args[1]) .op == 'const'


class Means:
    def __init__(self, leaf_of):
        self.alg = Alg(leaf_of, extra=self.extra)

    def extra(self, n):
        if n.op == 'comp' and whole(n):
            return self.alg.poly(n.args[2])
        if n.op == 'call' and n.args[0] in ('numpy.median', 'numpy.nanmedian') and len(n.args) == 2:
            return leaf('median(' + repr(self.alg.poly(n.args[1])) + ')')
        if n.op == 'call' and n.args[0] in ('numpy.var', 'numpy.nanvar', 'numpy.std', 'numpy.nanstd') and len(n.args) == 2:
            p = self.alg.poly(n.args[1])
            v = mean_of(p * p) - power(mean_of(p), 2)
            return v if 'var' in n.args[0] else power(v, Fraction(1, 2))
        if n.op == 'call' and n.args[0] in MEAN and len([a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']) == 1:
            ax = kwarg(n, 'axis')
            if ax is None or ax.op == 'const' and ax.args[0] is None:
                return mean_of(self.alg.poly(n.args[1]))
        return None

    def of(self, n):
        return self.alg.poly(n)


def rule_noise(c):
    it = A.fn('pyowc.core.stats:noise_variance', {i: A.strparam(k) for i, k in enumerate(('sal', 'lat', 'long'))})
    if it is None:
        return c.und(R4, 'noise_variance', 'not found')
    c.covered(it)
    loc = 'pyowc/core/stats.py noise_variance'
    for got in ends(it.ret_node):
        if num(got) is not None:
            c.that(num(got) == 0, R4, 'no two casts apart', str(num(got)), loc)
            continue
        index = set()

        def leaf_of(n):
            if is_sal(n):
                return 'x'
            if n.op == 'getitem' and is_sal(n.args[0]):
                i = resolve(n.args[1])
                if i.op == 'iv':
                    return 'x'
                if i.op == 'getitem' and resolve(i.args[1]).op == 'iv':
                    i = resolve(i.args[0])
                index.add(i)
                return 'y'
            return None
        try:
            x = Means(leaf_of).of(strip(got))
            want = mean_of(power(leaf('x') - leaf('y'), 2)).scale(.5)
            c.that(x.same(want), R4, 'half the mean squared difference', repr(x)[:200], loc)
        except Cannot as e:
            c.und(R4, 'half the mean squared difference', str(e), loc)
        for i in index:
            nearest(c, i, loc)


MIN = ('numpy.argmin', 'numpy.nanargmin')
MAX = ('numpy.argmax', 'numpy.nanargmax')


def nearest(c, i, loc):
    what = 'compared with the closest other place'
    i = resolve(i)
    if i.op == 'call' and i.args[0] in MAX:
        return c.bad(R4, what, 'compared with the farthest cast', loc)
    if i.op == 'call' and i.args[0] == 'numpy.argsort' or i.op in ('const', 'iv'):
        return c.bad(R4, what, 'compared with ' + str(i)[:100], loc)
    if not (i.op == 'call' and i.args[0] in MIN):
        return c.und(R4, what, str(i)[:160], loc)
    pos = [a for a in i.args[1:] if a.op != 'kw']
    ax = kwarg(i, 'axis') if len(pos) < 2 else resolve(pos[1])
    if ax is None or num(ax) not in (0, 1, -1):
        return c.und(R4, what, 'axis', loc)
    d = resolve(pos[0])
    masks = []
    for _ in range(4):
        if d.op == 'store' and (is_nan(d.args[2]) or infinite(d.args[2])):
            masks.append((resolve(d.args[1]), d.args[0], is_nan(d.args[2])))
            d = resolve(d.args[0])
        elif d.op == 'call' and d.args[0] == 'numpy.where' and len(d.args) == 4 and (is_nan(d.args[2]) or infinite(d.args[2])):
            masks.append((resolve(d.args[1]), d.args[3], is_nan(d.args[2])))
            d = resolve(d.args[3])
        else:
            break

    def place(n):
        if n.op == 'getitem':
            b, ix = resolve(n.args[0]), resolve(n.args[1])
            if b.op == 'param' and ix.op == 'tuple' and len(ix.args) == 2:
                parts = ['n' if resolve(p).op == 'const' and resolve(p).args[0] is None else 's' if resolve(p).op == 'slice' else '?' for p in ix.args]
                if parts == ['s', 'n']:
                    return b.args[0] + '_i'
                if parts == ['n', 's']:
                    return b.args[0] + '_j'
        if n.op == 'param':
            return n.args[0] + '_j'
        return None
    try:
        a = Alg(place, extra=lambda n: a.poly(n.args[1]) if n.op == 'call' and n.args[0] == 'numpy.astype' else None)
        got = a.poly(d)
        want = power(leaf('lat_i') - leaf('lat_j'), 2) + power(leaf('long_i') - leaf('long_j'), 2)
        good = got.same(want) or got.same(power(want, Fraction(1, 2)))
        c.that(good, R4, 'distance between casts', repr(got)[:200], loc)
    except Cannot as e:
        c.und(R4, 'distance between casts', str(e), loc)
    if not masks:
        return c.bad(R4, what, 'casts at the same place are not left out, each is compared with itself', loc)
    if any(nan for _m, _b, nan in masks) and i.args[0] == 'numpy.argmin':
        return c.bad(R4, what, 'a blanked distance is taken for the smallest', loc)
    for m, b, _nan in masks:
        ok = None
        if m.op == '==' and (num(m.args[1]) == 0 and resolve(m.args[0]) is resolve(b) or num(m.args[0]) == 0 and resolve(m.args[1]) is resolve(b)):
            ok = True
        elif m.op in ('<', '<=') and resolve(m.args[0]) is resolve(b) and num(m.args[1]) is not None:
            k = num(m.args[1])
            ok = True if m.op == '<=' and k == 0 else False if k >= 1e-6 or k <= 0 else None
        elif m.op in ('<', '<=') and resolve(m.args[1]) is resolve(b) and num(m.args[0]) is not None:
            ok = False
        c.that(ok, R4, what, 'coinciding casts left out' if ok else str(m)[:160], loc)


def infinite(n):
    n = resolve(n)
    return n.op == 'ext' and str(n.args[0]) in ('numpy.inf', 'math.inf') or n.op == 'const' and n.args[0] == float('inf')


def main():
    c = Check('C28', 'objective mapping returns the optimal estimate and its error',
              'The results of map_data_grid are read as expressions in matrices, brought to a normal form (sums of scalar multiples of '
              'non-commutative products, with diagonals and sums) and compared with the best linear unbiased estimate with estimated mean and '
              'its error; signal and noise variance are compared with their definitions.',
              'Symbolic in observations, positions, covariances, signal and noise; rounding is not analysed.')
    for r in (rule_mapping, rule_signal, rule_noise):
        c.rule(r)
    c.assume('covariance matrices of a set of positions with itself are symmetric (C34)')
    c.assume('exactly one float position is mapped per call')
    return c.finish()

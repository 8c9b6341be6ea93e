"""C30: the error of the curve is the spread of refits of freshly perturbed series; the errors of the coefficients come from the covariance of the fit."""
from .. import analyses as A
from ..algebra import Alg, Cannot, Poly, leaf, num as number, power
from ..basis import walk
from ..ir import N, resolve
from ..levels import cases, parts, through
from ..masks import num
from ..matrix import Matrices
from ..report import Check
from . import c42
from .c41 import FITTER, basis_of, columns, everything, fits_of, ident, product_at_profiles, results

R1, R2, R3, R4 = 'error of the curve', 'spread of the refits', 'series refitted', 'refit'
R5, R6, R7 = 'variance of the coefficients', 'error of a slope', 'results after the refits'
ARITH = ('+', '-', '*', '/', '**', 'neg', 'T', 'phi', 'const')


def main():
    c = Check('C30', 'errors of the correction curve',
              'The reported error is followed back as a formula to the sum over the repeats, each repeat to the series it refits, and both error factors to the '
              'covariance of the weighted fit as matrix formulas.', 'fit_cond as called with a limit and with break points given')
    for way, run in A.fits():
        if way == 'both':
            continue
        c.covered(run)
        c.rule(check, way, run)
    return c.finish()


class Errors:
    def __init__(self, way, run):
        self.way, self.run = way, run
        self.p = product_at_profiles(None, run)
        if self.p is None:
            raise Cannot('curve is not a product of matrix and coefficients')
        self.e, self.a = resolve(self.p.args[1]), resolve(self.p.args[2])
        self.b = basis_of(self.e)
        if self.b is None:
            raise Cannot('matrix of the curve')
        self.best = columns(self.b)
        self.ytext = f"{way}: "
        first = [f for f in fits_of(run) if not random_in(f.args[1])]
        self.first = first
        self.refits = [f for f in fits_of(run) if random_in(f.args[1])]
        if not first:
            raise Cannot('no fit of the data')
        self.x = {through(f.args[0]) for f in first}
        self.y = {through(f.args[1]) for f in first}
        self.w = {through(f.args[2]) for f in first if len(f.args) > 2}
        self.given = {through(f.args[3]) for f in first if len(f.args) > 3}
        if len(self.w) != 1 or len(self.y) != 1:
            raise Cannot('more than one series fitted')
        w = next(iter(self.w))
        if w.op != 'call' or w.args[0] != 'numpy.diag':
            raise Cannot('weights are not a diagonal')
        self.d = w.args[1]
        es = c42.roots(self.d)
        if len(es) != 1:
            raise Cannot('errors of the samples')
        self.err = next(iter(es))
        self.matrix = Sandwich(self)

    def single(self, n):
        """One number for the whole series, as a name; None if it is not one."""
        n = resolve(n)
        if any(y.op == 'mu' for y in walk(n)):
            return None
        if c42.scalar(n) or n.op in ('dim', 'size'):
            return ('one', n.id)
        return None

    def decide(self, l, best):
        """Truth of a condition on the number of columns."""
        l = resolve(l)
        if l.op == 'not':
            v = self.decide(l.args[0], best)
            return None if v is None else not v
        if l.op in ('==', '<', '<=') and len(l.args) == 2:
            try:
                p, q = (self.columns(a) for a in l.args)
                want = self.columns(self.best)
            except Cannot:
                return None
            d = p - q
            if d.const() is not None:
                k = d.const()
            elif (d - want).const() is not None:
                k = (d - want).const() + best
            elif (d + want).const() is not None:
                k = (d + want).const() - best
            else:
                return None
            return k == 0 if l.op == '==' else k < 0 if l.op == '<' else k <= 0
        return None

    def columns(self, n):
        return ident(n)


def random_in(n):
    return any(is_random(y) for y in everything(n))


def is_random(y):
    return y.op == 'call' and is_name(y.args[0])


def is_name(f):
    return isinstance(f, str) and 'random' in f and not f.endswith('.seed')


class Sandwich(Matrices):
    """Matrix formulas of the covariance of the fit; the error variances are written as m times the inverse of the weights."""

    def __init__(self, f):
        super().__init__(self.leaf)
        self.f = f
        self.symmetric |= {'W', 'W-', 'C'}
        self.size = None

    def leaf(self, n):
        b = basis_of(n)
        if b is not None and b.sites in self.f.x:
            return 'm', 'E', False, None
        x = through(n)
        if x in self.f.w:
            return 'm', 'W', True, None
        if x.op in ('getitem', 'mu', 'phi', 'store', 'param') and of_parameter(x, 'lvcov'):
            return 'm', 'C', True, None
        return None

    def _of(self, n):
        n = resolve(n)
        if n.op == 'call' and n.args[0] == 'numpy.diag' and self.leaf_of(n) is None:
            inner = through(n.args[1])
            if inner.op == 'call' and inner.args[0] in ('numpy.diag', 'numpy.diagonal') and self.of(inner.args[1])[0] == 'm':
                m = self.of(inner.args[1])[1]
                return 'm', {('only the diagonal of ' + '+'.join('.'.join(w) for w in m),): number(1)}
            got = self.variance(n.args[1])
            if got is not None:
                return got
        if n.op == 'call' and n.args[0] == 'numpy.linalg.inv':
            x = self.of(n.args[1])
            if x[0] == 'm':
                ws = sorted(x[1])
                if ws == [('W',)]:
                    return 'm', {('W-',): power(x[1][('W',)], -1)}
                if ws == [('W-',)]:
                    return 'm', {('W',): power(x[1][('W-',)], -1)}
        return super()._of(n)

    def variance(self, d):
        """A diagonal of powers of the errors, in terms of the weights."""
        err = self.f.err
        if not any(y is err for y in everything(d)):
            return None
        g = Alg(lambda y: 'e' if through(y) is err else c42.total(y))
        p, w = g.poly(d), g.poly(self.f.d)
        for name, q, s in (('W', p * power(w, -1), 1), ('W-', p * w, -1)):
            if clean(q):
                return 'm', {(name,): q}
        q = p * p * w
        if clean(q):
            return 'm', {('R',): power(q, 1)}
        return 'm', {('D:' + repr(p)[:40],): number(1)}

    def times(self, a, b):
        out = {}
        for w1, c1 in a.items():
            for w2, c2 in b.items():
                w = shorten(w1 + w2)
                out[w] = out.get(w, Poly({})) + c1 * c2
        return {w: p for w, p in out.items() if p.t}


def of_parameter(x, name):
    """Entries of a parameter, chosen or rearranged."""
    todo, seen, got = [x], set(), False
    while todo:
        y = through(todo.pop())
        if y in seen:
            continue
        seen.add(y)
        if y.op == 'param':
            got = got or y.args[0] == name
        elif y.op in ('getitem', 'store', 'viewstore', 'T'):
            todo.append(y.args[0])
            if y.op != 'T' and y.op != 'getitem' and len(y.args) > 2:
                todo.append(y.args[2])
        elif y.op == 'phi':
            todo += y.args[1:]
        elif y.op == 'mu':
            todo += [z for z in (y.init, y.next) if z is not None]
        elif y.op == 'call' and y.args[0] in ('numpy.take', 'numpy.delete', 'numpy.ones', 'numpy.zeros', 'numpy.full', 'numpy.empty'):
            todo += [z for z in y.args[1:2] if y.args[0] in ('numpy.take', 'numpy.delete')]
        elif y.op not in ('nan', 'const', 'tuple'):
            return False
    return got


def clean(q):
    return not any(a == ('leaf', 'e') for m in q.t for a, _x in m)


def shorten(w):
    """Neighbours that cancel."""
    w = list(w)
    done = False
    while not done:
        done = True
        for i in range(len(w) - 1):
            if {w[i], w[i + 1]} == {'W', 'W-'}:
                del w[i:i + 2]
                done = False
                break
        for i, a in enumerate(w):
            if not done or not a.startswith('inv{'):
                continue
            inside = a[4:-1].split(' ')
            inner = inside[1].split('.') if len(inside) == 2 and inside[0] == '1' else None
            if not inner:
                continue
            k = len(inner)
            if w[i + 1:i + 1 + k] == inner:
                del w[i:i + 1 + k]
                done = False
            elif i >= k and w[i - k:i] == inner:
                del w[i - k:i + 1]
                done = False
    return tuple(w)


def variances(m):
    """(with covariance, without): the diagonals wanted, as forms of the same algebra, but for one number."""
    e, et, w = {('E',): number(1)}, {("E'",): number(1)}, {('W',): number(1)}
    b = m.inverse(m.times(m.times(et, w), e))
    left = m.times(m.times(b, et), w)
    right = m.times(m.times(w, e), b)
    v, cov, r = {('W-',): number(1)}, {('C',): number(1)}, {('R',): number(1)}
    m.symmetric.add('R')
    with_ = [m.times(m.times(left, k), right) for k in (m.times(v, cov), m.times(cov, v), m.times(m.times(r, cov), r))]
    return with_, [m.times(m.times(left, v), right)]


def which_variance(f, n):
    """'with' or 'without' covariance: what a vector of variances of the coefficients is; its formula otherwise."""
    x = through(n)
    if x.op != 'call' or x.args[0] not in ('numpy.diag', 'numpy.diagonal'):
        raise Cannot('not a diagonal')
    got = f.matrix.of(x.args[1])
    if got[0] != 'm':
        raise Cannot('not a matrix')
    with_, without = variances(f.matrix)
    for name, ws in (('with', with_), ('without', without)):
        for w in ws:
            q = ratio(got[1], w, f.matrix)
            if q is not None and single_number(q):
                return name, q
    return '+'.join('.'.join(k) for k in got[1])[:120], None


def ratio(a, b, m):
    """a / b if one is a number times the other (a diagonal is that of the transpose)."""
    for t in (b, m.transposed(b)):
        if set(a) == set(t) and len(a) == 1:
            k = next(iter(a))
            return a[k] * power(t[k], -1)
    return None


def single_number(q):
    return all(isinstance(a, tuple) for mono in q.t for a, _x in mono)


def check(c, way, run):
    f = Errors(way, run)
    rs = results(run)
    repeats = {lid for e in run.events if e.kind == 'call' and is_name(e.name) for lid in e.loops}
    c.rule(reported, f, rs[2])
    c.rule(slope, f, rs[4])
    for k, what in ((0, 'places'), (1, 'curve'), (3, 'slopes'), (4, 'errors of slopes'), (5, 'means'), (6, 'spreads'), (7, 'degrees of freedom'), (8, 'coefficients'), (9, 'breaks')):
        bad = random_in(rs[k]) or any(y.op == 'mu' and y.meta in repeats for y in everything(rs[k]))
        c.that(not bad, R7, f"{way}: {what}", 'of the data alone' if not bad else 'of a perturbed series')


def reported(c, f, r):
    for v, cs in cases(r):
        if through(v).op == 'nan':
            continue
        for best in (1, 2, 3):
            one_size(c, f, v, best)


def one_size(c, f, v, best):
    what = f"{f.way}: " + {1: 'offset only', 2: 'line', 3: 'pieces'}[best]
    found = {}

    def of(y):
        x = through(y)
        if y.op == 'phi' and f.decide(y.args[0], best) is not None:
            return g.poly(y.args[1 if f.decide(y.args[0], best) else 2])
        s = f.single(y)
        if s is not None and y.op != 'const':
            return leaf(s)
        if x.op == 'mu':
            return leaf(('sum', x.id)) if found.setdefault(('sum', x.id), x) is x else None
        if x.op == 'call' and x.args[0] in ('numpy.dot', 'numpy.matmul'):
            a, d = resolve(x.args[1]), x.args[2]
            if not same_array(a, f.e, f, best):
                raise Cannot('product with another matrix')
            k, q = which_variance(f, d)
            return leaf(('profile', k)) * (q if q is not None else number(1))
        if x.op == 'call' and x.args[0].rsplit('.', 1)[-1] in ('mean', 'nanmean', 'sum', 'nansum', 'max', 'amax', 'min', 'amin', 'median', 'trace') and len(x.args) > 1:
            k, q = which_variance(f, x.args[1])
            return leaf((x.args[0].rsplit('.', 1)[-1] + ' of all coefficients', k)) * (q if q is not None else number(1))
        if x.op == 'getitem' and num(x.args[1]) == 0:
            k, q = which_variance(f, x.args[0])
            return leaf(('first', k)) * (q if q is not None else number(1))
        if x.op == 'call' and x.args[0] in ('numpy.ones', 'numpy.ones_like'):
            return number(1)
        if x.op == 'call' and x.args[0] == 'numpy.full' and len(x.args) > 2:
            return g.poly(x.args[2])
        return None
    g = Alg(of)
    try:
        p = g.poly(v)
    except Cannot as e:
        c.und(R1, what, str(e)[:120])
        return
    p2 = p * p
    if best == 1:
        want = leaf(('first', 'with'))
        q = p2 * power(want, -1)
        ok = whole(q)
        c.that(ok, R1, what, 'root of the variance of the offset, with covariance' if ok else f"square of it is {p2!r}"[:200])
        return
    sums = {k: n for k, n in found.items() if any(a == ('leaf', k) for mono in p2.t for a, _x in mono)}
    if len(sums) != 1:
        c.und(R1, what, f"{len(sums)} sums over repeats") if sums else c.bad(R1, what, f"no spread of refits in it: {p2!r}"[:200])
        return
    key, acc = next(iter(sums.items()))
    q = p2 * power(leaf(key), -1) * leaf(('profile', 'without')) * power(leaf(('profile', 'with')), -1)
    ok = whole(q)
    c.that(ok, R1, what, 'root of the mean spread times the factor for correlated errors' if ok else f"square of it is {p2!r}"[:220])
    if not ok:
        return
    rounds(c, f, acc, q, best, what)


def whole(q):
    """One product of numbers that belong to the whole series."""
    return len(q.t) == 1 and all(a[0] == 'leaf' and isinstance(a[1], tuple) and a[1][0] in ('one', 'total', 'dim') for mono in q.t for a, _x in mono)


def same_array(a, b, f, best, seen=()):
    """Is a the array b, in fits with this many columns?"""
    a, b = resolve(a), resolve(b)
    if a is b or through(a) is through(b):
        return True
    if a in seen:
        return True
    if a.op == 'phi':
        d = f.decide(a.args[0], best)
        if d is not None:
            return same_array(a.args[1 if d else 2], b, f, best, seen)
        return all(same_array(x, b, f, best, seen) for x in a.args[1:3])
    if b.op == 'phi':
        d = f.decide(b.args[0], best)
        if d is not None:
            return same_array(a, b.args[1 if d else 2], f, best, seen)
    if a.op == 'mu' and a.init is not None:
        return same_array(a.init, b, f, best, seen + (a,)) and (resolve(a.next) is a or same_array(a.next, b, f, best, seen + (a,)))
    return False


def rounds(c, f, acc, q, best, what):
    """Each repeat adds the squared difference of the curve and a refitted one; the sum is divided by their number."""
    lid = acc.meta
    iv = f.run.loopinfo.get(lid, {}).get('key')
    start = through(acc.init)
    zero = num(start) == 0 or start.op == 'call' and start.args[0] in ('numpy.zeros', 'numpy.zeros_like') \
        or start.op == 'call' and start.args[0] == 'numpy.full' and num(start.args[2]) == 0
    c.that(zero or (None if start.op not in ('const', 'call') else False), R2, what + ': at first', 'nothing')
    prods = {}

    def of(y):
        if y is acc:
            return leaf('sum')
        x = through(y)
        if y.op == 'phi' and f.decide(y.args[0], best) is not None:
            return g.poly(y.args[1 if f.decide(y.args[0], best) else 2])
        if x.op == 'call' and x.args[0] in ('numpy.dot', 'numpy.matmul'):
            prods[x.id] = x
            return leaf(('dot', x.id))
        if f.single(y) is not None and y.op != 'const':
            return leaf(f.single(y))
        return None
    g = Alg(of)
    try:
        step = g.poly(acc.next) - leaf('sum')
    except Cannot as e:
        c.und(R2, what, str(e)[:120])
        return
    mine = [k for k, x in prods.items() if x is f.p or resolve(x.args[2]) is f.a and same_array(x.args[1], f.e, f, best)]
    other = [k for k in prods if k not in mine]
    if len(mine) != 1 or len(other) != 1:
        mixed = [x for x in prods.values() if resolve(x.args[2]) is f.a and any(y.op == 'mu' and y.meta == lid for y in everything(x.args[1]))]
        if not mine and mixed and best > 2 and f.way == 'limit':
            c.bad(R2, what, 'the coefficients of the curve are read on the pieces of the refit')
        elif not other:
            c.bad(R2, what, f"not the difference from a refitted curve: {step!r}"[:160])
        elif not mine and all(random_in(prods[k]) for k in other):
            c.bad(R2, what, f"not the difference from the curve: {step!r}"[:160])
        else:
            c.und(R2, what, 'products not understood')
        return
    d = leaf(('dot', mine[0])) - leaf(('dot', other[0]))
    want = d * d
    ok = step.same(want)
    scale = None
    if not ok:
        scale = fraction(step, want)
        ok = scale is not None
    c.that(ok, R2, what, 'squared difference of the two curves' if ok else repr(step)[:160])
    # mean over the repeats
    if iv is None or iv.op != 'iv' or any(not isinstance(a, N) for a in iv.args[:2]):
        c.und(R2, what + ': repeats', 'loop not understood')
    else:
        lo, hi = (num(a) for a in iv.args[:2])
        n = number(hi - lo) if lo is not None and hi is not None else None
        if n is None:
            try:
                n = ident(iv.args[1]) - ident(iv.args[0])
            except Cannot:
                n = None
        if n is None or n.const() is None:
            c.und(R2, what + ': repeats', 'number not understood')
        else:
            t = q * (scale if scale is not None else number(1)) * n
            k = [v for _m, v in t.t.items()]
            ok = len(k) == 1 and abs(float(k[0]) - 1) < 1e-9
            c.that(ok, R2, what + ': repeats', 'mean of all' if ok else f"sum of {n!r} repeats weighted {k[0] if k else 0}")
    refit(c, f, prods[other[0]], best, what, lid)


def fraction(step, want):
    """step / want if it is a plain number."""
    for m, v in want.t.items():
        if m in step.t:
            s = step.t[m] / v
            if step.same(want.scale(s)):
                return number(s)
    return None


def refit(c, f, prod, best, what, lid):
    a, m = resolve(prod.args[2]), resolve(prod.args[1])
    found = False
    for v, cs in cases(a):
        if any(f.decide(l, best) is (not pos) for l, pos in cs):
            continue
        for fit, k in c42.call_of(v):
            if fit is None or k != 0:
                c.und(R4, what, 'coefficients not understood') if fit is None else c.bad(R4, what, 'misfits in place of coefficients')
                continue
            found = True
            one_refit(c, f, fit, best, what, lid)
            if best > 2 and f.way == 'limit':
                own_pieces(c, f, fit, m, best, what)
    if not found:
        c.und(R4, what, 'no refit found')
        return
    ok = best == 2 and same_array(m, f.e, f, best)
    ok = ok or f.way == 'breaks' and same_array(m, f.e, f, best)
    if not ok:
        b = basis_of(m) or next((b for v, cs in cases(m) if not any(f.decide(l, best) is (not pos) for l, pos in cs) for b in [basis_of(v)] if b is not None), None)
        if b is None:
            c.und(R4, what + ': matrix', 'not understood')
            return
        ok = b.sites is f.b.sites
    c.that(True if ok else None, R4, what + ': matrix', 'pieces at the profiles')


def own_pieces(c, f, fit, m, best, what):
    """The refitted coefficients are read on the pieces they were fitted with."""
    ps = [a for a in fit.args[1:] if isinstance(a, N) and a.op != 'kw']
    if len(ps) < 4:
        return
    for v, cs in cases(m):
        if any(f.decide(l, best) is (not pos) for l, pos in cs):
            continue
        if same_array(v, f.e, f, best):
            c.bad(R4, what + ': pieces of the matrix', 'the refitted coefficients are read on the pieces of the curve')
            continue
        b = basis_of(v)
        t = last_part(b.bounds) if b is not None else None
        if t is None:
            c.und(R4, what + ': pieces of the matrix', 'not understood')
        elif t is through(ps[3]) or t is resolve(ps[3]):
            c.ok(R4, what + ': pieces of the matrix', 'those refitted')
        elif t is last_part(f.b.bounds):
            c.bad(R4, what + ': pieces of the matrix', 'the refitted coefficients are read on the pieces of the curve')
        else:
            c.und(R4, what + ': pieces of the matrix', 'not compared')


def last_part(n):
    n = through(n)
    if n.op == 'call' and n.args[0] in ('numpy.concatenate', 'numpy.hstack', 'numpy.append', 'numpy.insert'):
        if n.args[0] == 'numpy.append':
            return through(n.args[2])
        l = resolve(n.args[1])
        if l.op in ('tuple', 'list') and l.args:
            return through(l.args[-1])
    if n.op == 'concatlist' and n.args:
        return through(n.args[-1])
    return None


def one_refit(c, f, fit, best, what, lid):
    ps = [a for a in fit.args[1:] if isinstance(a, N) and a.op != 'kw']
    c.that(True if through(ps[0]) in f.x else None, R4, what + ': places', 'those of the data')
    if len(ps) < 3:
        c.bad(R4, what + ': weights', 'none')
    else:
        w = through(ps[2])
        ok = w in f.w
        c.that(ok if ok or random_in(w) or w.op in ('list', 'tuple') or w.op == 'call' and w.args[0] in ('numpy.eye', 'numpy.identity') else None,
               R4, what + ': weights', 'those of the data' if ok else 'others')
    has = len(ps) > 3 and resolve(ps[3]).op != 'default' and not (through(ps[3]).op in ('list', 'tuple') and not through(ps[3]).args)
    c.that(has == (best > 2), R4, what + ': pieces', 'as many as the curve' if has == (best > 2) else 'break points' if has else 'no break points')
    if has and f.way == 'breaks' and best > 2:
        b = through(ps[3])
        b = through(b.init) if b.op == 'mu' and b.init is not None else b
        if any(y.op == 'param' and y.args[0] == 'breaks' for v, _c in cases(b) for y in walk(v)):
            c.ok(R4, what + ': break points', 'those given')
    series(c, f, ps[1], what, lid)


def series(c, f, y, what, lid):
    rand, carried = [], []

    def of(n):
        x = through(n)
        if x in f.y:
            return leaf('y')
        if x is f.err:
            return leaf('e')
        if is_random(x):
            rand.append(x)
            return draw(g, x)
        if x.op == 'mu' and x.meta == lid:
            carried.append(x)
            return leaf(('carried', x.id))
        s = f.single(n)
        return leaf(s) if s is not None and n.op != 'const' else None
    g = Alg(of)
    try:
        p = g.poly(y)
    except Cannot as e:
        c.und(R3, what, str(e)[:120])
        return
    if carried and random_in(carried[0].next):
        c.bad(R3, what, 'noise is added to the series of the round before')
        return
    if not rand and p.same(leaf('y')):
        c.bad(R3, what, 'the data themselves')
        return
    if not rand:
        c.und(R3, what, 'noise not found')
        return
    ok = any(p.same(leaf('y') + (leaf('e') * leaf('r')).scale(s)) for s in (1, -1))
    c.that(ok, R3, what, 'data plus normal noise of the size of their errors' if ok else repr(p)[:160])
    for r in rand[:1]:
        es = [e for e in f.run.events if e.kind == 'call' and e.name == r.args[0] and (e.node is r or e.node is None)]
        outside = [e for e in es if lid not in e.loops]
        if not es:
            c.und(R3, what + ': fresh in every repeat', 'draw not found')
        else:
            seeded = [e for e in f.run.events if e.kind == 'call' and str(e.name).endswith('random.seed') and lid in e.loops
                      or str(e.name).endswith(('RandomState', 'default_rng')) and lid in e.loops]
            ok = len(outside) < len(es) and not seeded if len(es) == 1 or outside in ([], es) else None
            c.that(ok, R3, what + ': fresh in every repeat', 'drawn in the round' if ok else 'the same noise in every round')
        ps = [a for a in r.args[1:] if isinstance(a, N) and a.op not in ('kw', 'occurrence')]
        kw = [a for a in r.args[1:] if isinstance(a, N) and a.op == 'kw']
        last = resolve(ps[-1]) if ps and (r.args[0].endswith(('randn', 'standard_normal')) or len(ps) == 3) else None
        for a in kw:
            if a.args[0] == 'size':
                last = resolve(a.args[1])
        if last is not None and last.op in ('tuple', 'list') and len(last.args) == 1:
            last = resolve(last.args[0])
        if last is not None and last.op in ('size', 'dim'):
            c.ok(R3, what + ': one for each sample', str(last.op))
        elif r.args[0].endswith('normal') and not r.args[0].endswith('standard_normal') and len(ps) >= 2 and any(z is f.err for z in everything(ps[1])):
            c.ok(R3, what + ': one for each sample', 'as many as errors')
        else:
            c.that(False if last is None or num(last) == 1 else None, R3, what + ': one for each sample', 'one for all' if last is None or num(last) is not None else 'size')


def draw(g, x):
    """Formula of a random draw in terms of a standard normal one."""
    name = x.args[0].split('.')[-1]
    ps = [a for a in x.args[1:] if isinstance(a, N) and a.op not in ('kw', 'occurrence')]
    kw = {a.args[0]: a.args[1] for a in x.args[1:] if isinstance(a, N) and a.op == 'kw'}
    if name in ('randn', 'standard_normal'):
        return leaf('r')
    if name == 'normal':
        loc = ps[0] if ps else kw.get('loc')
        scale = ps[1] if len(ps) > 1 else kw.get('scale')
        return (g.poly(loc) if loc is not None else number(0)) + (g.poly(scale) if scale is not None else number(1)) * leaf('r')
    return leaf('other noise: ' + name)


def slope(c, f, r):
    """Errors of slopes: root of the variance with covariance of their own coefficient."""
    done = set()
    for n in everything(r):
        if n.op != 'getitem' or n in done:
            continue
        root = next((y for y in chain(n.args[0]) if y.op == 'call' and y.args[0] in ('numpy.sqrt', 'math.sqrt') or y.op == '**' and num(y.args[1]) == .5), None)
        if root is None:
            continue
        v = root.args[1] if root.op == 'call' else root.args[0]
        v = next((y for y in chain(v) if y.op == 'call' and y.args[0] in ('numpy.diag', 'numpy.diagonal')), None)
        if v is None or v in done:
            continue
        done.add(n)
        done.add(v)
        try:
            k, q = which_variance(f, v)
        except Cannot as e:
            c.und(R6, f"{f.way}: variance", str(e)[:100])
            continue
        c.that(k == 'with', R6, f"{f.way}: variance", 'that of the fit, with covariance' if k == 'with' else k)
    if not done:
        c.und(R6, f"{f.way}: variance", 'not found')
    # which case has none, which a line's
    for v, cs in cases(r):
        for best in (1, 2, 3):
            if any(f.decide(l, best) is (not pos) for l, pos in cs) or not any(f.decide(l, best) is not None for l, pos in cs):
                continue
            x = [y for y in everything(v) if y.op == 'call' and y.args[0] in ('numpy.sqrt', 'math.sqrt') and any(z.op == 'call' and z.args[0] == 'numpy.diag' for z in chain(y.args[1]))]
            c.that((best == 1) == (not x), R6, f"{f.way}: {best - 1} pieces", 'none' if not x else 'error of its coefficient')


def chain(n):
    """A value and what it is the scaled or rearranged form of."""
    todo, seen = [resolve(n)], set()
    while todo:
        y = through(todo.pop())
        if y in seen:
            continue
        seen.add(y)
        yield y
        if y.op in ('*', '/', 'neg', 'T', 'getitem', 'phi', '+', '-'):
            todo += [a for a in (y.args[:1] if y.op == 'getitem' else y.args) if isinstance(a, N)]
        elif y.op == 'call' and y.args[0] in ('numpy.multiply', 'numpy.divide'):
            todo += [a for a in y.args[1:] if isinstance(a, N)]

"""C42: of the fits tried, the one with the best criterion is the curve, and everything about it comes from that fit."""
from .. import analyses as A
from ..algebra import Alg, Cannot, leaf, num as number, power
from ..ir import N, resolve
from ..levels import cases, lits, parts, through, whole, writes
from ..masks import is_nan, num
from ..matrix import Matrices
from ..report import Check
from .c41 import FITTER, columns, basis_of, everything, joined, product_at_profiles, results
from ..basis import walk

R1, R2, R3, R4 = 'fits tried', 'their misfit', 'their criterion', 'the fit chosen'
R5, R6 = 'weights', 'degrees of freedom'


def main():
    c = Check('C42', 'the best of the fits tried',
              'Every coefficient, break point, misfit and criterion stored for a number of break points is read as index and formula; '
              'place, number and origin must agree, and the choice must be the smallest criterion among those tried.',
              'fit_cond as called for limited and given break points')
    for way, run in A.fits():
        if way == 'both':
            continue
        c.covered(run)
        c.rule(fits, way, run)
    return c.finish()


class Tried:
    def __init__(self, way, run):
        self.way, self.run = way, run
        p = product_at_profiles(None, run)
        if p is None:
            raise Cannot('curve is not a product of matrix and coefficients')
        a = through(resolve(p.args[2]))
        if a.op != 'getitem' or len(parts(a.args[1])) != 2:
            raise Cannot('coefficients')
        self.chosen, self.table = parts(a.args[1]), a.args[0]
        self.basis = basis_of(resolve(p.args[1]))
        self.coefs = writes(through(a.args[0]))[0]
        ns = {y for i, _v, _c in self.coefs for p in i for y in walk(p) if y.op == 'getitem' and through(y.args[1]).op == 'iv'}
        ns = {y for y in ns if not any(y is not z and y in list(walk(z)) for z in ns)}
        if len(ns) != 1:
            raise Cannot('the number of break points tried')
        self.n = ns.pop()
        self.tried, self.iv = resolve(self.n.args[0]), through(self.n.args[1])

    def kind(self, cs):
        """-1, 0 or 'n': what a case says about the number of break points."""
        not_ = set()
        for l, pos in cs:
            if l.op == '==':
                for a, b in (l.args, l.args[::-1]):
                    if through(b) is self.n and num(a) is not None:
                        if pos:
                            return int(num(a))
                        not_.add(int(num(a)))
            elif l.op in ('<', '<=') and (through(l.args[0]) is self.n or through(l.args[1]) is self.n):
                left = through(l.args[0]) is self.n
                k = num(l.args[1 if left else 0])
                if k is None:
                    continue
                # n < k or k < n
                if left:
                    least = None if pos else k if l.op == '<' else k + 1
                    most = (k - 1 if l.op == '<' else k) if pos else None
                else:
                    least = (k + 1 if l.op == '<' else k) if pos else None
                    most = None if pos else (k if l.op == '<' else k - 1)
                if most is not None and most <= -1:
                    return -1
                if most is not None:
                    not_ |= set(range(int(most) + 1, 3))
                if least is not None:
                    not_ |= set(range(-1, int(least)))
        left = [k for k in (-1, 0) if k not in not_]
        return 'n' if not left else 0 if left == [0] and 1 in not_ else -1 if left == [-1] and 1 in not_ else None if len(left) == 2 else 'n' if left == [0] else None

    def about(self, k):
        """Formulas of the number of break points, for one kind."""
        def of(y):
            if y is self.n or through(y) is self.n:
                return leaf('n') if k in ('n', None) else number(k)
            return None if y.op in ('+', '-', '*', '/', 'const', 'neg', 'int') else leaf(('n', through(y).id))

        class F(Alg):
            def poly(self, y):
                return super().poly(through(y))
        return F(of)


def n_of(k):
    return leaf('n') if k in ('n', None) else number(k)


def upto(p, f):
    """How many entries from the first on an index names."""
    if p.op == 'slice':
        lo, hi = resolve(p.args[0]), resolve(p.args[1])
        if lo.op == 'const' and lo.args[0] in (None, 0) and not (hi.op == 'const' and hi.args[0] is None):
            return f.poly(hi)
        return None
    if p.op == 'call' and p.args[0] == 'numpy.arange':
        ps = [a for a in p.args[1:] if isinstance(a, N) and a.op != 'kw']
        if len(ps) == 1 or len(ps) == 2 and num(ps[0]) == 0:
            return f.poly(ps[-1])
    return number(1) if num(p) == 0 else None


def call_of(v):
    """The fit a value is the coefficients (0) or the misfit (1) of: [(fit, which)] over its branches."""
    out = []
    for x, cs in cases(v):
        x = through(x)
        while x.op == 'getitem' and not (resolve(x.args[0]).op == 'call' and resolve(x.args[0]).args[0] == FITTER):
            x = through(x.args[0])
            if x.op == 'phi':
                out += call_of(x)
                x = None
                break
        if x is None:
            continue
        if x.op == 'getitem':
            out.append((resolve(x.args[0]), num(x.args[1])))
        elif x.op == 'call' and x.args[0] == 'scipy.optimize.least_squares':
            out += [(f, w) for f, w in call_of(x.args[1])]
        else:
            out.append((None, None))
    return out


def coefficient_rows(v, f):
    """The number of coefficients taken from the fit."""
    out = []
    for x, _cs in cases(v):
        x = resolve(x)
        if x.op == 'getitem' and len(parts(x.args[1])) == 1 and parts(x.args[1])[0].op == 'slice':
            out.append(upto(parts(x.args[1])[0], f))
        else:
            out.append('all')
    return out


def fits(c, way, run):
    t = Tried(way, run)
    errs = set()
    done = {}
    kinds = set()
    for i, v, cs in t.coefs:
        k = t.kind(cs)
        what = f"{way}: {words(k)}"
        if relevant(t, i, cs) is False:
            continue
        f = t.about(k)
        try:
            rows, col = upto(i[0], f), f.poly(i[1])
        except Cannot as e:
            c.und(R1, what, str(e)[:80])
            continue
        kinds.add(k)
        n = n_of(k)
        c.that(col.same(n + number(1)), R1, what + ': place', 'column one after its number of break points' if col.same(n + number(1)) else f"column {col!r}")
        c.that(None if rows is None else rows.same(n + number(2)), R1, what + ': number of coefficients', 'intercept and one slope per piece' if rows is not None and rows.same(n + number(2)) else f"{rows!r}")
        if k == -1:
            mean(c, t, what, v)
            done.setdefault(k, []).append(v)
            continue
        for r in coefficient_rows(v, f):
            if r != 'all':
                c.that(None if r is None else r.same(n + number(2)), R1, what + ': coefficients of the fit', 'all' if r is not None and r.same(n + number(2)) else f"{r!r}")
        fs = call_of(v)
        if any(w is None for _f, w in fs):
            c.und(R1, what + ': fit', 'not understood')
        else:
            c.that(all(w == 0 for _f, w in fs), R1, what + ': fit', 'coefficients of a fit' if all(w == 0 for _f, w in fs) else 'not coefficients')
            for g, _w in fs:
                if g is None:
                    continue
                ps = [a for a in g.args[1:] if isinstance(a, N) and a.op != 'kw']
                has = len(ps) > 3 and not (resolve(ps[3]).op == 'call' and resolve(ps[3]).args[0] == 'default' or resolve(ps[3]).op == 'default' or 'default' in str(resolve(ps[3]))[:9])
                if k == 0:
                    c.that(not has or None, R1, what + ': break points', 'none')
                else:
                    c.that(has, R1, what + ': break points', 'given to the fit' if has else 'none given')
                errs |= weights(c, what, ps)
        done.setdefault(k, []).append(v)
    c.that({-1, 0, 'n'} <= kinds or None, R1, f"{way}: offset, line and pieces", 'tried' if {-1, 0, 'n'} <= kinds else str(kinds))
    breaks(c, t, done)
    criterion(c, t, done, errs)
    choice(c, t)


def words(k):
    return {-1: 'offset', 0: 'line', 'n': 'pieces', None: 'any'}[k]


def relevant(t, i, cs):
    """Stores outside the trials (break points given, more to be tried) are not looked at here."""
    return not (t.kind(cs) is None and not any(y is t.n for p in i for y in walk(p)))


def mean(c, t, what, v):
    """The offset is the weighted mean."""
    class F(Matrices):
        def _of(self, y):
            y = resolve(y)
            if y.op == 'call' and y.args[0] == 'numpy.linalg.inv' and self.leaf_of(y) is None:
                x = self.of(y.args[1])
                if x[0] == 's':
                    return 's', power(x[1], -1)
            return super()._of(y)

    def of(y):
        x = through(y)
        if x.op == 'call' and x.args[0] in ('numpy.ones', 'numpy.ones_like'):
            return 'v', '1', 'data'
        if x.op == 'call' and x.args[0] == 'numpy.diag' and any(y.op == 'param' and y.args[0] == 'n_err' for y in everything(x)):
            return 'm', 'W', True, None
        if x in ys:
            return 'v', 'y', 'data'
        return None
    ys = {through(e.args[1]) for e in t.run.events if e.kind == 'axiom' and e.name == FITTER and len(e.args) > 1}
    x = through(v)
    for f in (F(of),):
        f.symmetric.add('W')
        one, y = {('1',): number(1)}, {('y',): number(1)}
        try:
            got = f.of(x)
            w = {('W',): number(1)}
            want = f.total(one, f.times(w, y)) * power(f.total(one, f.times(w, one)), -1)
        except Cannot as e:
            c.und(R1, what + ': mean', str(e)[:80])
            return
        if got[0] != 's':
            c.und(R1, what + ': mean', got[0])
            return
        c.that(got[1].same(want), R1, what + ': mean', 'weighted' if got[1].same(want) else repr(got[1])[:120])


def error_of(n):
    """What a variance is the square of."""
    n = through(n)
    if n.op == '**' and num(n.args[1]) == 2:
        return through(n.args[0])
    if n.op == '*' and through(n.args[0]) is through(n.args[1]):
        return through(n.args[0])
    if n.op == 'call' and n.args[0] in ('numpy.square', 'numpy.power') and (n.args[0] == 'numpy.square' or num(n.args[2]) == 2):
        return through(n.args[1])
    return None


def is_error(e):
    return any(y.op == 'param' and y.args[0] == 'n_err' for y in everything(e))


def squares(n, seen=None):
    out = set()
    for y in everything(n):
        e = error_of(y)
        if e is not None and is_error(e):
            out.add(e)
    return out


def weights(c, what, ps):
    """The weights are proportional to the inverse of the error variance."""
    if len(ps) < 3:
        c.und(R5, what, 'not given')
        return set()
    w = through(ps[2])
    if w.op in ('list', 'tuple') and not w.args:
        c.bad(R5, what, 'none')
        return set()
    if w.op != 'call' or w.args[0] != 'numpy.diag':
        c.und(R5, what, 'not a diagonal matrix')
        return set()
    d = w.args[1]
    es = roots(d)
    if len(es) != 1:
        c.und(R5, what, 'errors not found')
        return set()
    e = next(iter(es))
    f = Alg(lambda y: 'e' if y is e else total(y))
    try:
        p = f.poly(d)
    except Cannot as x:
        c.und(R5, what, str(x)[:80])
        return es
    q = p * power(leaf('e'), 2)
    bad = any(a == ('leaf', 'e') for m in q.t for a, _x in m)
    c.that(not bad, R5, what, 'inverse of the error variance' if not bad else repr(p)[:100])
    return es


def total(y):
    """One number for all samples."""
    y = resolve(y)
    if y.op == 'call' and y.args[0] in ('numpy.mean', 'numpy.sum', 'numpy.median', 'numpy.max', 'numpy.min', 'numpy.nanmean', 'numpy.average'):
        return leaf(('total', y.id))
    if y.op in ('dim', 'size'):
        return leaf(('dim', y.id))
    return None


def roots(n):
    """The errors (not squared) a formula is about."""
    out, seen = set(), set()

    def go(y):
        y = through(y)
        if y in seen:
            return
        seen.add(y)
        if y.op == 'call' and y.args[0] in ('numpy.square', 'numpy.power', 'numpy.reciprocal', 'numpy.sqrt') or y.op in ('*', '**', 'neg') \
                or y.op == '/' and (squares(y.args[1]) or not scalar(y.args[1])):
            for a in y.args:
                if isinstance(a, N):
                    go(a)
            return
        if y.op == 'call' and y.args[0] in ('numpy.mean', 'numpy.sum') or y.op == 'const':
            return
        if is_error(y):
            out.add(y)
    go(n)
    return out


def scalar(y):
    """One number (the spread of the values)."""
    return all(v.op == 'const' or v.op == 'call' and v.args[0] in ('numpy.std', 'numpy.mean', 'numpy.sum') for v, _c in cases(y))


def breaks(c, t, done):
    j = joined(t.basis.bounds)
    if j is None:
        c.und(R1, f"{t.way}: break points", 'not understood')
        return
    tables = set()
    for v, _cs in cases(j[1]):
        v = through(v)
        while v.op == 'T':
            v = through(v.args[0])
        if v.op == 'getitem':
            tables.add(through(v.args[0]))
        elif not (v.op in ('list', 'tuple') and not v.args):
            c.und(R1, f"{t.way}: break points", 'not from a table')
    if len(tables) != 1:
        return
    fits_n = {f for v in done.get('n', ()) for f, _w in call_of(v) if f is not None}
    for i, v, cs in writes(tables.pop())[0]:
        k = t.kind(cs)
        if len(i) != 2 or relevant(t, i, cs) is False:
            continue
        f = t.about(k)
        what = f"{t.way}: {words(k)}: break points"
        try:
            rows, col = upto(i[0], f), f.poly(i[1])
        except Cannot as e:
            c.und(R1, what, str(e)[:80])
            continue
        n = n_of(k)
        c.that(col.same(n), R1, what + ': place', 'column of their number' if col.same(n) else f"column {col!r}")
        c.that(None if rows is None else rows.same(n), R1, what + ': number', 'all' if rows is not None and rows.same(n) else f"{rows!r}")
        if is_nan(v):
            none = any(l.op == '<' and num(l.args[0]) == 0 and not pos for l, pos in cs)
            c.that(none or None, R1, what + ': missing', 'only where there are none')
            continue
        x = through(v)
        while x.op == 'T':
            x = through(x.args[0])
        given = {through(resolve([a for a in g.args[1:] if isinstance(a, N) and a.op != 'kw'][3])) for g in fits_n if len(g.args) > 4}
        leaves = {through(y) for y, _c in cases(x)}
        ok = x in given or leaves <= {through(y) for g in given for y, _c in cases(g)}
        strange = not ok and given and not ({through(y) for y, _c in cases(x)} & {through(y) for g in given for y, _c in cases(g)})
        c.that(True if ok else False if strange else None, R1, what + ': values', 'those the coefficients were fitted with')


def criterion(c, t, done, errs):
    am = chooser(t)
    if am is None:
        if not fixed(t):
            c.und(R4, t.way, 'no choice of a smallest criterion')
        return
    table = am[0]
    for i, v, cs in writes(table)[0]:
        k = t.kind(cs)
        what = f"{t.way}: {words(k)}"
        if relevant(t, i, cs) is False:
            continue
        f = t.about(k)
        try:
            col = f.poly(i[-1])
        except Cannot as e:
            c.und(R3, what, str(e)[:80])
            continue
        n = n_of(k)
        c.that(col.same(n + number(1)), R3, what + ': place', 'that of its coefficients' if col.same(n + number(1)) else f"column {col!r}")
        logs = [y for y in top_logs(v)]
        if not logs and any(y.op == 'call' and y.args[0] == 'numpy.sum' and is_error(y) for y in terms(v)):
            c.bad(R3, what + ': formula', 'the misfit alone, whatever the number of parameters')
            continue
        if len(logs) != 1:
            c.und(R3, what + ': formula', f"{len(logs)} logarithms")
            continue
        freedom = {y for y in terms(v) if y.op == 'call' and y.args[0] in ('numpy.sum', 'numpy.sum0') and any(z.op == 'param' and z.args[0] == 'lvcov' for z in everything(y))}
        if not freedom:
            rows = [y for y in terms(v) if y.op == 'call' and y.args[0] in ('numpy.mean', 'numpy.nanmean', 'numpy.median')
                    and through(y.args[1]).op == 'call' and through(y.args[1]).args[0] in ('numpy.dot', 'numpy.sum', 'numpy.sum0', 'numpy.matmul')
                    and any(z.op == 'param' and z.args[0] == 'lvcov' for z in everything(y))]
            if rows:
                c.bad(R6, t.way, 'correlations are averaged over the samples before the degrees of freedom are formed')
                continue
        if len(freedom) != 1:
            c.und(R3, what + ': formula', 'degrees of freedom not found')
            continue
        df = freedom.pop()
        free(c, t, df)
        g = t.about(k)
        inner = g.leaf_of

        def of(y, df=df, log=logs[0], inner=inner):
            if y is df:
                return leaf('ndf')
            if y is log:
                return leaf('L')
            return inner(y)
        g.leaf_of = of
        try:
            got = g.poly(v)
        except Cannot as e:
            c.und(R3, what + ': formula', str(e)[:80])
            continue
        p = number(1) if k == -1 else (n + number(1)).scale(2)
        d = leaf('ndf')
        want = d * leaf('L') + d * (d + p) * power(d - p - number(2), -1)
        ok = got.same(want)
        c.that(ok, R3, what + ': formula', 'ndf log(misfit/n) + ndf (ndf + p)/(ndf - p - 2)' if ok else repr(got)[:160])
        misfit(c, t, what, k, logs[0], done.get(k, []), errs)


def terms(v):
    """What the value is made of by arithmetic."""
    out, todo = [], [v]
    while todo:
        y = through(todo.pop())
        if y.op in ('+', '-', '*', '/', 'neg', '**'):
            todo += [a for a in y.args if isinstance(a, N)]
        else:
            out.append(y)
    return list(dict.fromkeys(out))


def top_logs(v):
    return [y for y in terms(v) if y.op == 'call' and y.args[0] in ('numpy.log', 'math.log')]


def misfit(c, t, what, k, log, coef, errs):
    sums = [y for y in terms(log.args[1]) if y.op == 'call' and y.args[0] in ('numpy.sum', 'numpy.sum0', 'numpy.dot', 'numpy.mean')]
    for y in terms(log.args[1]):
        if y.op == 'getitem' and through(y.args[0]).op in ('mu', 'store', 'phi'):
            g = t.about(k)
            try:
                d = g.poly(parts(y.args[1])[-1]) - n_of(k) - number(1)
            except Cannot:
                continue
            if d.const() not in (None, 0):
                c.bad(R2, what + ': whose misfit', 'of another fit')
                return
    totals = []
    if len(sums) > 1:
        mine = [y for y in sums if any(is_residual(z) for z in atoms(y.args[1]))]
        totals = [y for y in sums if y not in mine]
        sums = mine
    if len(sums) != 1 or sums[0].args[0] == 'numpy.dot':
        c.und(R2, what, 'sum not found')
        return
    s = sums[0]
    n = [y for y in terms(log.args[1]) if y.op in ('dim', 'size')]
    mean = s.args[0] == 'numpy.mean'
    f = Alg(lambda y: (leaf('S') * power(leaf('n'), -1) if mean else 'S') if y is s else 'n' if y in n else total(y) if y in totals else None)
    try:
        p = f.poly(log.args[1])
    except Cannot as e:
        c.und(R2, what, str(e)[:80])
        return
    factor = number(1)
    if totals:
        factor = p * leaf('n') * power(leaf('S'), -1)
        if len(factor.t) != 1 or any(not (isinstance(a[1], tuple) and a[1][0] == 'total') for m in factor.t for a, _x in m):
            c.und(R2, what, 'sum not found')
            return
        p = leaf('S') * power(leaf('n'), -1)
    ok = p.same(leaf('S') * power(leaf('n'), -1))
    c.that(ok, R2, what + ': mean square', 'sum of squares by number of samples' if ok else repr(p)[:100])
    if len(n) == 1:
        some = [y for y in everything(n[0]) if y.op == 'call' and y.args[0] == 'numpy.unique']
        c.that(not some, R2, what + ': number of samples', 'those fitted' if not some else 'number of profiles')
    inner = s.args[1]
    vs = roots(inner)
    vs = {e for e in vs if not is_residual(e)}
    if not vs and not is_error_factor(inner):
        c.bad(R2, what + ': errors', 'not taken into account')
        return
    if len(vs) != 1:
        c.und(R2, what + ': errors', 'not found')
        return
    e = vs.pop()
    if errs:
        c.that(e in errs, R2, what + ': errors', 'those of the weights' if e in errs else 'others than those of the weights')
    res = [y for y in atoms(inner) if y is not e and not (y.op == 'const')]
    rs = {r for r in res}
    g = Alg(lambda y: 'e' if y is e else 'r' if through(y) in rs else total(y) if totals and total(y) is not None else None)
    if k != -1:
        if len(rs) != 1:
            c.und(R2, what + ': squares', f"{len(rs)} residuals")
            return
        try:
            p = g.poly(inner) * factor
        except Cannot as x:
            c.und(R2, what + ': squares', str(x)[:80])
            return
        want = power(leaf('r'), 2) * power(leaf('e'), -2)
        c.that(p.same(want), R2, what + ': squares', 'squared residual by error variance' if p.same(want) else repr(p)[:100])
        a, b = call_of(rs.pop()), [x for v in coef for x in call_of(v)]
        if any(w is None for _f, w in a + b) or not b:
            c.und(R2, what + ': residual', 'not understood')
            return
        ok = all(w == 1 for _f, w in a)
        c.that(ok, R2, what + ': residual', 'misfit of a fit' if ok else 'not a misfit')
        same = {f for f, _w in a} == {f for f, _w in b}
        c.that(same, R2, what + ': whose misfit', 'of the fit whose coefficients are kept' if same else 'of another fit than the one whose coefficients are kept')
        return
    # the offset: y less the mean kept
    ys = {through(v.args[1]) for v in t.run.events if v.kind == 'axiom' and v.name == FITTER and len(v.args) > 1}
    h = Alg(lambda y: 'e' if y is e else 'y' if through(y) in ys else 'm' if any(through(y) is through(v) for v in coef) else
            number(1) if through(y).op == 'call' and through(y).args[0] in ('numpy.ones', 'numpy.ones_like') else total(y) if total(y) is not None and not squares(y) else None)
    try:
        p = h.poly(inner)
    except Cannot as x:
        c.und(R2, what + ': squares', str(x)[:80])
        return
    want = power(leaf('y') - leaf('m'), 2) * power(leaf('e'), -2)
    c.that(p.same(want), R2, what + ': squares', 'squared distance from the mean by error variance' if p.same(want) else repr(p)[:100])


def is_error_factor(n):
    return any(is_error(y) and not is_residual(y) for y in atoms(n))


def is_residual(y):
    y = through(y)
    if y.op == 'getitem':
        b = through(y.args[0])
        return b.op == 'call' and b.args[0] in (FITTER, 'scipy.optimize.least_squares') or is_residual(y.args[0]) if b.op in ('call', 'getitem') else False
    if y.op == 'phi':
        return any(is_residual(v) for v, _c in cases(y))
    if y.op == 'abs' or y.op == 'call' and y.args[0] in ('numpy.abs', 'numpy.absolute'):
        return is_residual([a for a in y.args if isinstance(a, N)][0])
    return y.op == '-'


def atoms(n):
    """What a formula is made of by products and powers."""
    out, todo = [], [n]
    while todo:
        y = through(todo.pop())
        if y.op in ('*', '/', '**', 'neg') and not scalar_of_errors(y):
            todo += [a for a in y.args if isinstance(a, N)]
        elif y.op == 'abs' or y.op == 'call' and y.args[0] in ('numpy.square', 'numpy.power', 'numpy.abs', 'numpy.absolute'):
            todo += [a for a in y.args if isinstance(a, N)]
        else:
            out.append(y)
    return list(dict.fromkeys(out))


def scalar_of_errors(y):
    """The errors by the spread of the values: one quantity."""
    return y.op == '/' and is_error(y.args[0]) and not is_error(y.args[1]) and scalar(y.args[1]) and error_of(y.args[0]) is None


def free(c, t, df):
    """Degrees of freedom: each sample by the sum of its correlations with all."""
    x = through(df.args[1])
    if x.op == '/':
        top, row = through(x.args[0]), through(x.args[1])
    elif x.op == '**' and num(x.args[1]) == -1:
        top, row = None, through(x.args[0])
    elif x.op == 'call' and x.args[0] == 'numpy.dot' or x.op == 'param':
        c.bad(R6, t.way, 'sum of the correlations themselves')
        return
    else:
        c.und(R6, t.way, 'not understood')
        return
    one = top is None or num(top) == 1 or top.op == 'call' and top.args[0] in ('numpy.ones', 'numpy.ones_like')
    cov = None
    if row.op == 'call' and row.args[0] == 'numpy.dot':
        a, b = through(row.args[1]), through(row.args[2])
        cov = a if b.op == 'call' and b.args[0] in ('numpy.ones', 'numpy.ones_like') else None
    elif row.op == 'call' and row.args[0] == 'numpy.sum' and len(row.args) > 2:
        cov = through(row.args[1])
    if cov is None:
        c.und(R6, t.way, 'sum of the correlations not found')
        return
    c.that(True if one else None, R6, t.way, 'sum over samples of one by the sum of the correlations')


def chooser(t):
    """(table, entries compared, node) of the choice."""
    am = [y for y in walk(t.chosen[1]) if y.op == 'call' and y.args[0] in ('numpy.argmin', 'numpy.nanargmin', 'numpy.argmax', 'numpy.nanargmax')]
    if len(am) != 1:
        return None
    x = through(am[0].args[1])
    neg = False
    if x.op == 'neg':
        neg, x = True, through(x.args[0])
    if x.op != 'getitem':
        return None
    i = parts(x.args[1])
    b = through(x.args[0])
    if len(i) == 1 and b.op == 'getitem' and len(parts(b.args[1])) == 1:
        i, b = parts(b.args[1]) + i, through(b.args[0])
    return b, i, am[0], neg != ('argmax' in am[0].args[0])


def fixed(t):
    return any(through(v).op == '+' for v, _c in cases(t.chosen[1]))


def choice(c, t):
    am = chooser(t)
    if am is None:
        return
    table, i, node, largest = am
    c.that(not largest, R4, f"{t.way}: criterion", 'the smallest' if not largest else 'the largest')
    cand = through(i[-1])
    f = t.about(None)
    inner = f.leaf_of

    def of(y):
        if through(y) is through(t.tried):
            return leaf('tried')
        if through(y).op == 'getitem' and through(through(y).args[1]) is node and through(through(y).args[0]) is cand:
            return leaf('pick')
        if through(y) is node:
            return leaf('position')
        if through(y).op == 'getitem' and through(through(y).args[0]) is through(t.tried) and parts(through(y).args[1])[0].op == 'slice' and not whole(parts(through(y).args[1])[0]):
            return leaf('part')
        if t.tried.op == 'getitem' and parts(t.tried.args[1])[0].op == 'slice' and not whole(parts(t.tried.args[1])[0]) and through(y) is through(t.tried.args[0]):
            return leaf('all')
        return inner(y)
    f.leaf_of = of
    if len(i) > 1:
        c.that(num(i[0]) == 0 or whole(i[0]) or None, R4, f"{t.way}: row", 'the only one')
    for v, cs in tried_cases(cand):
        try:
            p = f.poly(v)
        except Cannot as e:
            c.und(R4, f"{t.way}: among", str(e)[:80])
            continue
        if any(a[0] == 'leaf' and a[1] == 'tried' for m in p.t for a, _e in m):
            ok = p.same(leaf('tried') + number(1))
            c.that(ok, R4, f"{t.way}: among", 'all fits tried' if ok else repr(p)[:80])
        elif any(a[0] == 'leaf' and a[1] in ('part', 'all') for m in p.t for a, _e in m):
            c.bad(R4, f"{t.way}: among", 'not the fits tried')
        elif t.way == 'limit':
            c.und(R4, f"{t.way}: among", repr(p)[:80])
    col = t.chosen[1]
    for v, cs in cases(strip(col)):
        if any(l.op == 'isinstance' and not pos or l.op == 'call' and l.args[0] == 'isinstance' and not pos for l, pos in cs):
            continue
        try:
            p = f.poly(v)
        except Cannot as e:
            c.und(R4, f"{t.way}: chosen", str(e)[:80])
            continue
        off = offset(col)
        if off is None:
            c.und(R4, f"{t.way}: chosen", 'column not understood')
            continue
        p = p + number(off)
        names = {a[1] for m in p.t for a, _e in m if a[0] == 'leaf'}
        if 'pick' in names:
            c.that(p.same(leaf('pick')), R4, f"{t.way}: chosen", 'the fit with the best criterion' if p.same(leaf('pick')) else f"column {p!r}"[:100])
        elif 'position' in names:
            c.bad(R4, f"{t.way}: chosen", 'the position of the best criterion, not the fit found there')
        elif 'tried' in names:
            c.that(p.same(leaf('tried') + number(1)), R4, f"{t.way}: given", 'the only fit' if p.same(leaf('tried') + number(1)) else f"column {p!r}"[:100])
        else:
            c.und(R4, f"{t.way}: chosen", repr(p)[:80])
    w = resolve(t.iv.args[0]), resolve(t.iv.args[1]), resolve(t.iv.args[2])
    n = through(w[1])
    ok = num(w[0]) == 0 and num(w[2]) == 1 and n.op in ('dim', 'size') and through(n.args[0]) is through(t.tried)
    c.that(ok or None, R4, f"{t.way}: trials", 'all of them')


def tried_cases(n):
    return cases(n) if through(n).op == 'phi' else [(n, ())]


def strip(n):
    """The chosen column without what is added to or taken from it."""
    n = through(n)
    while n.op in ('+', '-') and (num(n.args[1]) is not None or num(n.args[0]) is not None and n.op == '+'):
        n = through(n.args[0] if num(n.args[1]) is not None else n.args[1])
    return n


def offset(n):
    k = 0
    n = through(n)
    while n.op in ('+', '-') and (num(n.args[1]) is not None or num(n.args[0]) is not None and n.op == '+'):
        if num(n.args[1]) is not None:
            k += num(n.args[1]) * (1 if n.op == '+' else -1)
            n = through(n.args[0])
        else:
            k += num(n.args[0])
            n = through(n.args[1])
    return k

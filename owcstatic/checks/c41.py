"""C41: the correction is one continuous piecewise linear curve, fitted by weighted least squares and read at the profiles as it was fitted."""
from .. import analyses as A
from ..algebra import Alg, Cannot, Poly, leaf, num as number
from ..basis import Basis, walk
from ..ir import N, resolve
from ..levels import cases, parts, positions, through
from ..masks import num
from ..matrix import Matrices
from ..report import Check

R1, R2, R3, R4 = 'pieces of the curve', 'where the pieces meet', 'weighted least squares', 'misfit'
R5, R6, R7 = 'curve at the profiles', 'number of the piece', 'slope of a piece'
FITTER = 'pyowc.core.stats:brk_pt_fit'
WANT = [(True, 0, 'first column', '1'), (False, -2, 'rows before the piece', '0'), (False, -1, 'rows before the piece', '0'),
        (False, 0, 'rows in the piece', 'x-b'), (False, 1, 'rows after the piece', 'b1-b'), (False, 2, 'rows after the piece', 'b1-b')]


def wanted(k):
    b0, b1 = leaf(('b', 0)), leaf(('b', 1))
    return {'1': number(1), '0': number(0), 'x-b': leaf('x') - b0, 'b1-b': b1 - b0}[k]


def basis_of(n):
    try:
        b = Basis(n)
    except Cannot:
        return None
    return b if b.shapes else None


def pieces(c, b, what):
    for first, d, row, want in WANT:
        try:
            got = b.entry(b.node, first, d)
        except Cannot as e:
            c.und(R1, f"{what}: {row}", str(e)[:100])
            continue
        w = wanted(want)
        c.that(got.same(w), R1, f"{what}: {row}", repr(w) if got.same(w) else f"{got!r} instead of {w!r}")
    k = b.complete()
    c.that(None if k is None else k is True, R1, what + ': all pieces', 'filled' if k is True else k or 'range not understood')


class Fit(Matrices):
    """Matrix formulas of the fit; branches follow the conditions of the case looked at."""

    def __init__(self, leaf_of, known):
        super().__init__(leaf_of)
        self.known = known

    def _of(self, n):
        n = resolve(n)
        if n.op == 'phi' and self.leaf_of(n) is None:
            k, neg = resolve(n.args[0]), False
            while k.op == 'not':
                k, neg = resolve(k.args[0]), not neg
            for l, pos in self.known:
                if l is k:
                    return self.of(n.args[1 if pos != neg else 2])
            p, q = self.of(n.args[1]), self.of(n.args[2])
            if p == q:
                return p
            raise Cannot('condition')
        if n.op == 'getitem' and num(n.args[1]) == 0:
            x = resolve(n.args[0])
            if x.op == 'call' and x.args[0] in ('numpy.linalg.lstsq', 'scipy.linalg.lstsq'):
                a, y = self.of(x.args[1]), self.of(x.args[2])
                if a[0] == 'm':
                    t = self.transposed(a[1])
                    return self.dot(('m', self.inverse(self.times(t, a[1]))), self.dot(('m', t), y))
        return super()._of(n)


def solutions(w):
    """What the coefficients are: (E'WE)^-1 E'Wy."""
    f = Fit(lambda n: None, ())
    f.symmetric.add('W')
    e, et = {('E',): number(1)}, {("E'",): number(1)}
    m = {('W',): number(1)} if w else {(): number(1)}
    y = {('y',): number(1)}
    return f.times(f.inverse(f.times(f.times(et, m), e)), f.times(f.times(et, m), y))


def same(a, b):
    return set(a) == set(b) and all(a[k].same(b[k]) for k in a)


def main():
    c = Check('C41', 'the correction curve',
              'The matrix of the fit is read entry by entry for rows in, before and after each piece; coefficients and misfit are compared as matrix formulas; '
              'the curve at the profiles uses the same matrix, boundaries and coefficients as the fit.', 'brk_pt_fit, sorter and fit_cond as called')
    it = A.fn(FITTER, None, (A.SORTER,))
    if it is None:
        c.und(R1, 'brk_pt_fit', 'function not found')
    else:
        c.covered(it)
        c.rule(fitter, it)
    it = A.fn(A.SORTER, None, ())
    if it is not None:
        c.covered(it)
        c.rule(sorter, it)
    for way, run in A.fits():
        c.covered(run)
        c.rule(curve, way, run)
    return c.finish()


def results(it):
    r = resolve(it.ret_node)
    return [resolve(a) for a in r.args] if r.op == 'tuple' else []


def fitter(c, it):
    rs = results(it)
    if len(rs) != 2:
        c.und(R3, 'results', 'not two')
        return
    coef, miss = rs
    arrays = [n for r in rs for n in everything(r) if n.op in ('mu', 'phi', 'store')]
    bases = {}
    for n in arrays:
        b = basis_of(n)
        if b is not None:
            bases[n] = b
    if not bases:
        c.und(R1, 'matrix of the fit', 'not found')
        return
    used = used_whole(rs, bases)
    for b in {u: bases[u] for u in used}.values():
        pieces(c, b, 'fit')
        meets(c, b, 'fit', 'x_obvs', 'breaks')
    parts_of = set()
    for v, _cs in tree(coef):
        parts_of.add(v)
    for v, cs in cases(coef):
        if v.op == 'call' and v.args[0] in ('numpy.zeros', 'numpy.full') or v.op == 'nan':
            continue
        w = weighted(cs)
        f = Fit(lambda n: place(n, bases, None), cs)
        try:
            got = f.of(v)
        except Cannot as e:
            c.und(R3, 'coefficients', str(e)[:120])
            continue
        if got[0] != 'v':
            c.und(R3, 'coefficients', 'not a vector')
            continue
        if w is None:
            ok = same(got[1], solutions(True)) or same(got[1], solutions(False))
            c.und(R3, 'coefficients', 'weights given or not?') if ok else c.bad(R3, 'coefficients', words(got[1]))
            continue
        ok = same(got[1], solutions(w))
        c.that(ok, R3, 'with weights' if w else 'without weights', 'inv(E\'WE) E\'W y' if ok else words(got[1]))
    for v, cs in cases(miss):
        f = Fit(lambda n: place(n, bases, parts_of), cs)
        try:
            got = f.of(v)
        except Cannot as e:
            c.und(R4, 'misfit', str(e)[:120])
            continue
        if got[0] != 'v':
            c.und(R4, 'misfit', 'not a vector')
            continue
        if same(got[1], {('y',): number(1)}):
            c.ok(R4, 'no fit possible', 'the observations')
            continue
        ok = same(got[1], {('y',): number(1), ('E', 'coef'): number(-1)})
        c.that(ok, R4, 'misfit', 'y - E coef' if ok else words(got[1]))


def words(m):
    return ' + '.join(f"{p!r} {'.'.join(w) or 'I'}" for w, p in m.items())[:160]


def everything(n, seen=None):
    seen = set() if seen is None else seen
    n = resolve(n)
    if n in seen:
        return
    seen.add(n)
    yield n
    for a in list(n.args) + ([n.init, n.next] if n.op == 'mu' else []):
        if isinstance(a, N):
            yield from everything(a, seen)


def used_whole(rs, bases):
    """Arrays that are used other than as an earlier state of themselves."""
    out, seen = [], set()

    def go(n):
        n = resolve(n)
        if n in seen:
            return
        seen.add(n)
        if n in bases:
            if n not in out:
                out.append(n)
            return
        for a in list(n.args) + ([n.init, n.next] if n.op == 'mu' else []):
            if isinstance(a, N):
                go(a)
    for r in rs:
        go(r)
    return out


def tree(n):
    n = resolve(n)
    yield n, None
    if n.op == 'phi':
        yield from tree(n.args[1])
        yield from tree(n.args[2])


def weighted(cs):
    """Does a case hold with weights (True) or without (False)?"""
    got = True
    for l, pos in cs:
        if l.op in ('<', '==') and any(given(x) for x in l.args) and 0 in (num(l.args[0]), num(l.args[1])):
            return pos if l.op == '<' else not pos
        if given(l):
            return pos
        if l.op != '==' and any(y.op == 'param' and y.args[0] == 'w_i' for y in walk(l)):
            got = None
    return got


def given(x):
    x = resolve(x)
    if x.op in ('size', 'dim'):
        x = through(x.args[0])
    return x.op == 'param' and x.args[0] == 'w_i'


def place(n, bases, coefs):
    if n in bases:
        return 'm', 'E', False, None
    if coefs is not None and n in coefs:
        return 'v', 'coef', 'grid'
    x = through(n)
    if x.op == 'param' and x.args[0] == 'y_obvs':
        return 'v', 'y', 'data'
    if x.op == 'param' and x.args[0] == 'w_i':
        return 'm', 'W', True, None
    return None


def joined(n):
    """(first boundary, the breaks) of the boundaries of the pieces."""
    n = through(n)
    if n.op == 'call' and n.args[0] in ('numpy.concatenate', 'numpy.hstack', 'numpy.append', 'numpy.r_'):
        ps = [a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']
        if len(ps) == 1 and resolve(ps[0]).op in ('tuple', 'list'):
            ps = list(resolve(ps[0]).args)
        if len(ps) == 2:
            a = through(ps[0])
            if a.op in ('list', 'tuple') and len(a.args) == 1:
                a = through(a.args[0])
            return a, through(ps[1])
    if n.op == 'call' and n.args[0] == 'numpy.insert':
        ps = [a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']
        if len(ps) == 3 and num(ps[1]) == 0:
            return through(ps[2]), through(ps[0])
    return None


def first_of(n, xs):
    """Is n the first (smallest) of the values?"""
    if n.op == 'getitem' and num(n.args[1]) == 0:
        u = through(n.args[0])
        if u.op == 'getitem' and num(u.args[1]) == 0 and through(u.args[0]).op == 'call' and through(u.args[0]).args[0] == 'numpy.unique':
            u = through(u.args[0])
        if u.op == 'call' and u.args[0] in ('numpy.unique', 'numpy.sort') and through(u.args[1]) is xs:
            return True
    if n.op == 'getitem' and num(n.args[1]) is not None:
        return through(n.args[0]) is xs and num(n.args[1]) == 0
    if n.op == 'call' and n.args[0] in ('numpy.min', 'numpy.nanmin', 'numpy.amin', 'min'):
        return through(n.args[1]) is xs
    if n.op == 'call' and n.args[0] in ('numpy.max', 'numpy.nanmax', 'numpy.amax', 'max', 'numpy.mean', 'numpy.median') or n.op == 'const':
        return False
    return None


def meets(c, b, what, x, breaks):
    j = joined(b.bounds)
    if j is None:
        c.und(R2, what, 'boundaries not understood')
        return
    w = first_of(j[0], b.sites)
    c.that(w, R2, what + ': first boundary', 'the first x' if w else str(j[0])[:80])
    got = {p.args[0] for v, _c in cases(j[1]) for p in walk(v) if p.op == 'param'}
    ok = all(v.op == 'list' and not v.args or through(v).op == 'param' and through(v).args[0] == breaks for v, _c in cases(j[1]))
    c.that(True if ok else None, R2, what + ': further boundaries', 'the breaks' if ok else str(got))
    p = through(b.sites)
    c.that(True if p.op == 'param' and p.args[0] == x else None, R2, what + ': x', p)


def sorter(c, it):
    n = through(it.ret_node)
    what = 'boundaries at or before the place, less one'
    if n.op == '-' and num(n.args[1]) == 1:
        x = through(n.args[0])
        pos = [a for a in x.args[1:] if isinstance(a, N) and a.op != 'kw'] if x.op == 'call' else []
        kw = {a.args[0]: resolve(a.args[1]) for a in x.args[1:] if isinstance(a, N) and a.op == 'kw'} if x.op == 'call' else {}
        if x.op == 'call' and x.args[0] == 'numpy.searchsorted' and len(pos) >= 2:
            side = kw.get('side', resolve(pos[2]) if len(pos) > 2 else None)
            ok = side is not None and side.op == 'const' and side.args[0] == 'right'
            c.that(ok and names(pos[0], 'msites') and names(pos[1], 'sites'), R6, 'sorter', what if ok else 'a place on a boundary counts as before it')
            return
        if x.op == 'call' and x.args[0] == 'numpy.digitize' and len(pos) >= 2:
            ok = 'right' not in kw and len(pos) == 2
            c.that(ok and names(pos[0], 'sites') and names(pos[1], 'msites'), R6, 'sorter', what if ok else 'a place on a boundary counts as before it')
            return
        c.und(R6, 'sorter', 'not understood')
        return
    if n.op != '-':
        c.und(R6, 'sorter', 'not understood')
        return
    found, ranks = through(n.args[0]), through(n.args[1])
    while found.op == 'getitem' or found.op == 'call' and found.args[0] in ('numpy.argwhere', 'numpy.where', 'numpy.flatnonzero', 'numpy.nonzero'):
        found = through(found.args[0] if found.op == 'getitem' else found.args[1])
    order = [y for y in walk(found) if y.op == 'call' and y.args[0] == 'numpy.argsort']
    if len(order) != 1 or found.op not in ('<', '<='):
        c.und(R6, 'sorter', 'not understood')
        return
    o = order[0]
    kw = {a.args[0]: resolve(a.args[1]) for a in o.args[1:] if isinstance(a, N) and a.op == 'kw'}
    stable = 'kind' in kw and kw['kind'].op == 'const' and kw['kind'].args[0] in ('stable', 'mergesort') or \
        'stable' in kw and kw['stable'].op == 'const' and kw['stable'].args[0] is True
    c.that(stable, R6, 'places on a boundary', 'after it (stable order)' if stable else 'before or after it, as the sorting happens to leave them')
    both = through(o.args[1])
    ps = list(resolve(both.args[1]).args) if both.op == 'call' and both.args[0] in ('numpy.concatenate', 'numpy.hstack') else []
    if len(ps) != 2:
        c.und(R6, 'order', 'not understood')
        return
    first = names(ps[0], 'msites') and names(ps[1], 'sites')
    last = names(ps[1], 'msites') and names(ps[0], 'sites')
    c.that(True if first else False if last else None, R6, 'order', 'boundaries come first')
    f = Alg(lambda y: ('order',) if y is o else size(y))
    try:
        d = f.poly(found.args[0]) - f.poly(found.args[1])
        want = leaf(('boundaries',)) - leaf(('order',)) - number(1 if found.op == '<' else 0)
        c.that(d.same(want), R6, 'places', 'positions from the number of boundaries on' if d.same(want) else repr(d))
    except Cannot as e:
        c.und(R6, 'places', str(e)[:80])
    if ranks.op == 'call' and ranks.args[0] == 'numpy.arange':
        ps = [a for a in ranks.args[1:] if isinstance(a, N) and a.op != 'kw']
        try:
            lo = f.poly(ps[0]) if len(ps) > 1 else number(0)
            hi = f.poly(ps[1] if len(ps) > 1 else ps[0])
            ok = lo.same(number(1)) and hi.same(leaf(('places',)) + number(1))
            c.that(ok, R6, 'rank', 'from 1 to the number of places' if ok else f"{lo!r} to {hi!r}")
        except Cannot as e:
            c.und(R6, 'rank', str(e)[:80])
    else:
        c.und(R6, 'rank', 'not understood')


def names(n, p):
    n = through(n)
    return n.op == 'param' and n.args[0] == p


def size(y):
    if y.op in ('dim', 'size'):
        p = through(y.args[0])
        if p.op == 'param':
            return {'msites': ('boundaries',), 'sites': ('places',)}.get(p.args[0])
    return None


# ---- fit_cond

def fits_of(run):
    return [e for e in run.events if e.kind == 'axiom' and e.name == FITTER]


def dots(n):
    """Matrix products met first."""
    out, seen, todo = [], set(), [n]
    while todo:
        x = resolve(todo.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'call' and x.args[0] in ('numpy.dot', 'numpy.matmul'):
            out.append(x)
            continue
        todo += [a for a in list(x.args) + ([x.init, x.next] if x.op == 'mu' else []) if isinstance(a, N)]
    return out


def scaled(n, names_):
    """A formula in which the listed nodes go by one name."""
    f = Alg(lambda y: 'X' if through(y) in names_ else None if y.op in ('+', '-', '*', '/', 'const', 'T', 'neg') else ('n', through(y).id))
    return f.poly(n)


def product_at_profiles(c, run, k=1):
    """The product of matrix and coefficients that the curve is made of."""
    rs = results(run)
    if len(rs) < 10:
        return None
    todo = [v for v, _c in cases(rs[k]) if v.op != 'nan']
    ds = [d for v in todo for d in top(v)]
    return ds[0] if len(ds) == 1 else None


def top(n):
    """Products of a matrix that the value is, but for scale and zero."""
    n = through(n)
    while n.op == 'T':
        n = through(n.args[0])
    if n.op in ('+', '-', '*', '/'):
        return [d for a in n.args for d in top(a)]
    if n.op == 'call' and n.args[0] in ('numpy.dot', 'numpy.matmul'):
        return [n]
    return []


def curve(c, way, run):
    p = product_at_profiles(c, run)
    if p is None:
        c.und(R5, f"{way}: curve", 'not a product of matrix and coefficients')
        return
    e, a = resolve(p.args[1]), resolve(p.args[2])
    b = basis_of(e)
    if b is None:
        c.und(R5, f"{way}: matrix", 'not understood')
        return
    fits = fits_of(run)
    if not fits:
        c.und(R5, f"{way}: fits", 'none found')
        return
    xf = {through(resolve(v.args[0])) for v in fits}
    if len(xf) != 1:
        c.und(R5, f"{way}: x of the fits", f"{len(xf)} different")
        return
    xf = xf.pop()
    pieces(c, b, 'curve')
    at_profiles(c, way, b, xf)
    bounds(c, way, 'curve', b, xf)
    coefficients(c, way, b, a)
    others(c, way, run, b, xf, e)
    slopes(c, way, run, a)


def origin(x, fit):
    """The raw profile numbers of a scaled axis."""
    x = through(x)
    todo, found = [x], []
    while todo:
        y = through(todo.pop())
        if y.op in ('-', '/') and y is not fit:
            todo.append(y.args[0])
        else:
            found.append(y)
    return found[0]


def at_profiles(c, way, b, xf):
    raw_f, raw_p = origin(xf, None), origin(b.sites, None)
    try:
        p, q = scaled(xf, {raw_f}), scaled(b.sites, {raw_p})
    except Cannot as e:
        c.und(R5, f"{way}: scaled axis", str(e)[:80])
        return
    c.that(p.same(q), R5, f"{way}: scaled axis", 'as in the fit' if p.same(q) else f"{q!r} instead of {p!r}"[:150])
    u = raw_p.op == 'call' and raw_p.args[0] == 'numpy.unique' and through(raw_p.args[1]).op == 'param' and through(raw_p.args[1]).args[0] == 'x'
    c.that(True if u else None, R5, f"{way}: places", 'every profile once')


def first_fitted(n, xf, b):
    w = first_of(n, xf)
    if w:
        return True
    if n.op == 'getitem' and num(n.args[1]) is not None or n.op == 'call' and n.args[0] in ('numpy.min', 'numpy.nanmin', 'numpy.amin'):
        return False
    return w


def bounds(c, way, what, b, xf):
    j = joined(b.bounds)
    if j is None:
        c.und(R2, f"{way}: {what}", 'boundaries not understood')
        return
    w = first_fitted(j[0], xf, b)
    c.that(w, R2, f"{way}: {what}: first boundary", 'the first fitted sample' if w else 'not the first fitted sample, where the intercept is: ' + str(j[0])[:60])


def columns(b):
    s = b.shapes[0]
    return through(s.args[1]) if s.op in ('tuple', 'list') and len(s.args) == 2 else None


def ident(n):
    class F(Alg):
        def poly(self, y):
            return super().poly(through(y))
    return F(lambda y: None if y.op in ('+', '-', 'const', 'neg') else ('n', y.id)).poly(n)


def coefficients(c, way, b, a):
    k = columns(b)
    x = through(a)
    if k is None or x.op != 'getitem':
        c.und(R5, f"{way}: coefficients", 'not understood')
        return
    i = parts(x.args[1])
    if len(i) != 2 or i[0].op != 'slice':
        c.und(R5, f"{way}: coefficients", 'place not understood')
        return
    try:
        col, stop, best = ident(i[1]), ident(i[0].args[1]), ident(k)
        lo = resolve(i[0].args[0])
        start = number(0) if lo.op == 'const' and lo.args[0] is None else ident(lo)
    except Cannot as e:
        c.und(R5, f"{way}: coefficients", str(e)[:80])
        return
    c.that(start.same(number(0)) and stop.same(best), R5, f"{way}: number of coefficients", 'one for each column' if stop.same(best) else repr(stop - best))
    ok = col.same(best - number(1))
    c.that(ok, R5, f"{way}: which coefficients", 'those of the curve with as many' if ok else repr(col - best))
    j = joined(b.bounds)
    if j is None:
        return
    for v, cs in cases(j[1]):
        v = through(v)
        while v.op == 'T':
            v = through(v.args[0])
        if v.op in ('list', 'tuple') and not v.args:
            continue
        if v.op != 'getitem':
            c.und(R5, f"{way}: which breaks", 'not understood')
            continue
        i = parts(v.args[1])
        if len(i) != 2:
            c.und(R5, f"{way}: which breaks", 'not understood')
            continue
        rows = count(i[0])
        try:
            col = ident(i[1])
        except Cannot:
            c.und(R5, f"{way}: which breaks", 'not understood')
            continue
        ok = col.same(best - number(2))
        c.that(ok, R5, f"{way}: which breaks", 'those of the same curve' if ok else repr(col - best))
        c.that(None if rows is None else rows.same(best - number(2)), R5, f"{way}: number of breaks", 'all of them')


def count(i):
    if i.op == 'slice':
        lo = resolve(i.args[0])
        if (lo.op == 'const' and lo.args[0] in (None, 0)) and resolve(i.args[1]).op != 'const':
            return ident(i.args[1])
    if i.op == 'call' and i.args[0] == 'numpy.arange':
        ps = [a for a in i.args[1:] if isinstance(a, N) and a.op != 'kw']
        if len(ps) == 1:
            return ident(ps[0])
        if len(ps) == 2 and num(ps[0]) == 0:
            return ident(ps[1])
    return None


def others(c, way, run, main_basis, xf, e):
    """The other matrices of pieces: for the errors and for the repeated fits."""
    done = set()
    given_breaks = {through(resolve(v.args[3])) for v in fits_of(run) if len(v.args) > 3 and isinstance(v.args[3], N)}
    for n in everything(resolve(run.ret_node)):
        if n.op != 'mu' or n in done:
            continue
        b = basis_of(n)
        if b is None or b.segment in done or b.segment is main_basis.segment:
            continue
        done.add(b.segment)
        raw = origin(b.sites, None)
        what = 'errors' if b.sites is xf else 'refit'
        pieces(c, b, what)
        bounds(c, way, what, b, xf)
        if b.sites is not xf:
            same_x = b.sites is main_basis.sites
            c.that(True if same_x else None, R5, f"{way}: {what}: places", 'the profiles' if same_x else str(raw)[:60])
            j = joined(b.bounds)
            c.that(True if j is not None and j[1] in given_breaks else None, R2, f"{way}: {what}: breaks", 'those of the repeated fit')
        else:
            j, k = joined(b.bounds), joined(main_basis.bounds)
            ok = j is not None and k is not None and j[1] is k[1]
            c.that(True if ok else None, R2, f"{way}: {what}: breaks", 'those of the curve')


def slopes(c, way, run, a):
    """The slope reported for a profile is the coefficient of the piece the profile lies in."""
    rs = results(run)
    for what, r in (('slope', rs[3]), ('error of the slope', rs[4])):
        for n in everything(r):
            if n.op not in ('store', 'viewstore'):
                continue
            m = None
            i = parts(n.args[1])
            if len(i) == 1 or num(i[1]) is not None:
                m = positions(i[0])
            if m is None or m.op not in ('==', '<=', '<'):
                continue
            js = [y for y in m.args if resolve(y).op == 'iv']
            ss = [y for y in m.args if resolve(y).op == 'call' and resolve(y).args[0] == A.SORTER]
            if len(js) != 1 or len(ss) != 1:
                continue
            j = resolve(js[0])
            if m.op != '==' and resolve(m.args[0]) is not j:
                c.bad(R7, f"{way}: {what}", 'the last piece is written over the rows of the earlier ones')
                continue
            last = -1 if m.op == '<' else 0          # the piece number written last into a row, less that of the row
            for v, _conds in cases(n.args[2]):
                piece(c, way, what, j, last, through(v))


def piece(c, way, what, j, last, v):
    if v.op == 'nan':
        return
    got = [y for y in walk(v) if y.op == 'getitem' and j in list(walk(y.args[1]))]
    got = [y for y in got if not any(z is not y and z in got and z in list(walk(y)) for z in got)]
    if len(got) != 1:
        c.und(R7, f"{way}: {what}", 'not understood')
        return
    f = Alg(lambda y: 'j' if y is j else None)
    try:
        k = f.poly(parts(got[0].args[1])[0]) - leaf('j')
    except Cannot:
        c.und(R7, f"{way}: {what}", 'not understood')
        return
    k = k.const()
    c.that(None if k is None else k + last == 1, R7, f"{way}: {what}", 'coefficient of its piece (after the intercept)' if k == 1 and not last else f"coefficient of the piece moved by {k}{last or ''}")

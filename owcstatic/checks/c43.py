"""C43: break points are those prescribed, or lie in order inside the series, and are no more than the limit and the data allow."""
from .. import analyses as A
from ..algebra import Alg, Cannot, leaf, num as number, power
from ..ir import N, resolve
from ..levels import cases, parts, through, writes
from ..masks import num
from ..report import Check
from . import c11
from .c41 import FITTER, everything, fits_of
from .c42 import Tried, call_of
from ..basis import walk

R1, R2, R3, R4, R5 = 'numbers tried', 'degrees of freedom', 'order and range of break points', 'prescribed break points', 'limit'
LOWEST = {'limit': -1}


def main():
    c = Check('C43', 'break points as configured and as the data allow',
              'The numbers of break points tried are read as ranges and compared with the limit and the degrees of freedom; the formula that turns the '
              'optimiser\'s values into break points is compared with an increasing sequence between two profiles.',
              'fit_cond for limited and given break points, calc_piecewisefit')
    for way, run in A.fits():
        if way == 'both':
            continue
        c.covered(run)
        c.rule(numbers, way, run)
        c.rule(prescribed if way == 'breaks' else searched, way, run)
    c.rule(calls)
    return c.finish()


class Known:
    """Conditions under the assumptions of one way of calling the fit."""

    def __init__(self, way, ndf=None):
        self.way, self.ndf = way, ndf

    def alg(self):
        k = self

        class F(Alg):
            def poly(self, y):
                return super().poly(k.reduce(through(y)))

        def of(y):
            y = through(y)
            if y.op == 'param' and y.args[0] == 'limit':
                return 'limit'
            if k.given(y):
                return 'given'
            if k.ndf is not None and y is k.ndf:
                return 'ndf'
            return None if y.op in ('+', '-', '*', '/', 'const', 'neg', 'int') else leaf(('n', y.id))
        return F(of)

    def given(self, y):
        """The number of break points given."""
        if y.op not in ('dim', 'size'):
            return False
        x = self.reduce(through(y.args[0]))
        while x.op in ('-', '/', '+', '*'):
            x = through(x.args[0])
        return x.op == 'param' and x.args[0] == 'breaks'

    def reduce(self, y):
        y = through(y)
        while y.op == 'phi':
            v = self.truth(y.args[0])
            if v is None:
                a, b = self.reduce(y.args[1]), self.reduce(y.args[2])
                if a is b:
                    return a
                try:
                    if a.op != 'phi' and b.op != 'phi' and self.alg().poly(a).same(self.alg().poly(b)):
                        return a
                except Cannot:
                    pass
                return y
            y = through(y.args[1 if v else 2])
        return y

    def truth(self, x):
        x = resolve(x)
        if x.op == 'const':
            return bool(x.args[0])
        if x.op == 'not':
            v = self.truth(x.args[0])
            return None if v is None else not v
        if x.op == 'truth':
            return self.truth(x.args[0])
        if x.op in ('and', 'or'):
            vs = [self.truth(a) for a in x.args]
            stop = x.op == 'or'
            return stop if stop in vs else None if None in vs else not stop
        if x.op == 'isinstance' or x.op == 'call' and x.args[0] in ('isinstance', 'builtins.isinstance'):
            v = resolve([a for a in x.args if isinstance(a, N)][0])
            if 'list' not in str(x.args[-1]):
                return None
            if v.op == 'int' or v.op == 'param' and v.args[0] == 'limit':
                return False
            if v.op == 'list' and not v.args:
                return True
            return None
        if x.op == 'phi':
            v = self.truth(x.args[0])
            return None if v is None else self.truth(x.args[1 if v else 2])
        if x.op in ('<', '<=', '=='):
            try:
                f = self.alg()
                d = f.poly(x.args[0]) - f.poly(x.args[1])
            except Cannot:
                return None
            k = d.const()
            if k is not None:
                return k < 0 if x.op == '<' else k <= 0 if x.op == '<=' else k == 0
            # one break point or more is given
            a = b = 0
            for m, v in d.t.items():
                if m == ():
                    b = v
                elif len(m) == 1 and m[0][0] == ('leaf', 'given') and m[0][1] == 1:
                    a = v
                else:
                    return None
            if a > 0 and a + b > 0:
                return False
            if a > 0 and a + b == 0 and x.op == '<':
                return False
            if a < 0 and a + b < 0:
                return True if x.op != '==' else False
            return None
        return None


def ndf_of(t):
    """What the numbers tried depend on, made of the covariance."""
    out = set()
    for _v, cs in cases(t.tried):
        for l, _p in cs:
            if l.op in ('<', '<='):
                for a in l.args:
                    a = through(a)
                    if a.op == 'call' and a.args[0] in ('numpy.sum', 'numpy.sum0') and any(y.op == 'param' and y.args[0] == 'lvcov' for y in everything(a)):
                        out.add(a)
    return out.pop() if len(out) == 1 else None


def numbers(c, way, run):
    t = Tried(way, run)
    ndf = ndf_of(t)
    k = Known(way, ndf)
    if ndf is None:
        c.bad(R2, way, 'the numbers tried do not depend on them') if not any(y.op == 'param' and y.args[0] == 'lvcov' for y in everything(t.tried)) else c.und(R2, way, 'not found')
    allowed = leaf('limit' if way == 'limit' else 'given')
    seen = 0
    for v, cs in cases(t.tried):
        if any(k.truth(l) is (not pos) for l, pos in cs):
            continue
        v = k.reduce(v)
        f = k.alg()
        seen += 1
        if v.op in ('list', 'tuple') and len(v.args) == 1:
            p = f.poly(v.args[0])
            ok = p.same(number(-1)) if way == 'limit' else p.same(leaf('given'))
            c.that(ok, R1, f"{way}: too few degrees of freedom", ('offset only' if way == 'limit' else 'break points given') if ok else repr(p)[:80])
            continue
        if v.op != 'call' or v.args[0] not in ('numpy.arange', 'range'):
            c.und(R1, way, str(v)[:80])
            continue
        ps = [a for a in v.args[1:] if isinstance(a, N) and a.op != 'kw']
        lo, hi = (ps[0], ps[1]) if len(ps) > 1 else (None, ps[0])
        lowest = number(-1) if way == 'limit' else leaf('given')
        try:
            low = f.poly(lo) if lo is not None else number(0)
            c.that(low.same(lowest), R1, f"{way}: from", 'offset only' if way == 'limit' else 'break points given' if low.same(lowest) else repr(low)[:80])
            most, bound = top(f, k, hi)
        except Cannot as e:
            c.und(R1, f"{way}: range", str(e)[:80])
            continue
        if bound is None:
            d = most - allowed
            ok = d.same(number(0))
            c.that(ok if ok or d.const() is not None else None, R1, f"{way}: up to", 'the limit' if way == 'limit' else 'those given' if ok else repr(most)[:80])
            support(c, way, f, cs, most, ndf, k)
        else:
            # 2 (n + 2) + 1 <= ndf
            g = (bound + number(2)).scale(2) + number(1) - leaf('ndf')
            ok = g.const() is not None and g.const() <= 0
            c.that(ok if g.const() is not None else None, R2, f"{way}: fewer tried", 'as many as they allow' if ok else f"up to {bound!r}")
            below = None
            for l, pos in cs:
                e = about_ndf(f, l, pos)
                if e is not None and e[0] == 'below':
                    # ndf < big: bound < (big - 1)/2 - 2
                    big = e[1]
                    h = (big - number(1)).scale(.5) - number(2) - allowed
                    if h.const() is not None:
                        below = h.const() <= 0 or below
            c.that(below, R1, f"{way}: fewer tried", 'only where the limit is too high' if below else 'possibly more than the limit')
    c.that(True if seen else None, R1, way, f"{seen} ranges")


def about_ndf(f, l, pos):
    """('above' or 'below', bound, strictly) of a condition on the degrees of freedom."""
    e = less(f, l, pos)
    if e is None:
        return None
    d = e[1] - e[0]
    one = ((('leaf', 'ndf'), 1),)
    a = d.t.get(one, 0)
    rest = d - leaf('ndf').scale(a)
    if not a or any(x == ('leaf', 'ndf') for m in rest.t for x, _e in m):
        return None
    return ('above' if a > 0 else 'below'), rest.scale(-1 / a), e[2]


def less(f, l, pos):
    """(smaller, larger, strictly)"""
    if l.op not in ('<', '<='):
        return None
    try:
        a, b = f.poly(l.args[0]), f.poly(l.args[1])
    except Cannot:
        return None
    return (a, b, l.op == '<') if pos else (b, a, l.op == '<=')


def support(c, way, f, cs, most, ndf, k):
    """Numbers up to the limit are tried only where 2 (limit + 2) + 1 <= ndf."""
    if ndf is None:
        return
    got = None
    for l, pos in cs:
        e = about_ndf(f, l, pos)
        if e is not None and e[0] == 'above':
            small, strict = e[1:]
            d = (most + number(2)).scale(2) + number(1) - small
            if d.const() is not None:
                got = d.const() <= (1 if strict else 0) or got
                if not got:
                    got = False
    c.that(got if got is not None else False, R2, f"{way}: all tried", 'enough for the largest number' if got else 'too few for the criterion of the largest number')


def top(f, k, hi):
    """(largest number of a range, None) or (None, the number it is rounded down from)."""
    p = f.poly(hi) - number(1)
    floors = []
    for y in walk(hi):
        if y.op == 'call' and y.args[0] in ('numpy.floor', 'math.floor') or y.op == '//':
            floors.append(y)
    outer = [y for y in floors if any(a[0] == 'leaf' and a[1] == ('n', y.id) for m in p.t for a, _e in m)]
    if len(outer) == 1 and outer[0].op == 'call':
        d = p - leaf(('n', outer[0].id))
        if d.const() is None:
            raise Cannot('range')
        return None, f.poly(outer[0].args[1]) + d
    if outer:
        raise Cannot('range')
    return p, None


# ---- the search

def searched(c, way, run):
    done = set()
    for e in fits_of(run):
        a = [x for x in e.args if isinstance(x, N)]
        if len(a) < 4:
            continue
        for v, cs in cases(a[3]):
            v = through(v)
            if v in done or v.op in ('mu', 'list', 'tuple', 'param') or v.op == 'call' and v.args[0] == 'default':
                continue
            done.add(v)
            if v.op in ('store', 'viewstore'):
                jitter(c, way, v)
                v = through(v.args[0])
                if v in done:
                    continue
                done.add(v)
            transform(c, way, v, run)
    c.that(True if done else None, R3, way, 'break points of the search')


def jitter(c, way, v):
    """Break points that coincide are moved apart, to larger values."""
    i = through(v.args[1])
    old = through(v.args[2])
    f = Alg(lambda y: leaf('old') if y.op == 'getitem' and through(y.args[0]) is through(v.args[0]) else None)
    try:
        d = f.poly(old) - leaf('old')
    except Cannot:
        c.und(R3, f"{way}: break points that coincide", 'not understood')
        return
    ok = d.const() is not None and d.const() > 0
    c.that(ok if d.const() is not None else None, R3, f"{way}: break points that coincide", 'moved apart' if ok else repr(d))


def transform(c, way, v, run):
    sums = [y for y in walk(v) if y.op == 'mu' or y.op == 'call' and y.args[0] == 'numpy.cumsum']
    sums = [y for y in sums if increasing(y) is not None]
    sums = [y for y in sums if not any(z is not y and y in list(walk(z)) for z in sums)]
    arrays = list(dict.fromkeys(sums))
    if not arrays:
        cand = [y for y in walk(v) if y.op == 'mu' or y.op == 'call' and y.args[0] == 'numpy.exp']
        if cand:
            c.und(R3, f"{way}: order", 'no running sum found')
        return
    s = arrays[0]
    up = increasing(s)
    c.that(up, R3, f"{way}: order", 'running sum of exponentials' if up else 'not a running sum of positive numbers')
    ends = {}

    def of(y):
        x = through(y)
        if x is s or x in arrays:
            return 'sum'
        if x.op == 'getitem' and through(x.args[0]) in arrays:
            return 'last' if last(x, s) else leaf(('entry', through(x.args[1]).id))
        r = end(x, run)
        if r is not None:
            ends[r] = True
            return r
        return None
    f = Alg(of)
    try:
        p = f.poly(v)
    except Cannot as e:
        c.und(R3, f"{way}: range", str(e)[:80])
        return
    lo, hi = leaf('second'), leaf('last but one')
    want = lo + (hi - lo) * leaf('sum') * power(leaf('last') + number(1), -1)
    c.that(p.same(want), R3, f"{way}: range", 'between the second and the last but one profile' if p.same(want) else repr(p)[:140])


def increasing(y):
    if y.op == 'call':
        a = through(y.args[1])
        return a.op == 'call' and a.args[0] == 'numpy.exp'
    ws, start = writes(y)
    first = [w for w in ws if len(w[0]) == 1 and num(w[0][0]) == 0]
    more = [w for w in ws if len(w[0]) == 1 and through(w[0][0]).op == 'iv']
    if len(first) != 1 or len(more) != 1 or len(ws) != 2:
        return None
    a = through(first[0][1])
    plain = a.op != 'call' or a.args[0] != 'numpy.exp'
    i = through(more[0][0][0])
    v = through(more[0][1])
    if num(i.args[0]) != 1 or v.op != '+':
        return False

    def prev(x):
        x = through(x)
        if x.op != 'getitem' or through(x.args[0]).op not in ('mu', 'store'):
            return False
        d = Alg(lambda z: 'i' if through(z) is i else None)
        try:
            return (d.poly(x.args[1]) - leaf('i')).const() == -1
        except Cannot:
            return False

    def term(x):
        x = through(x)
        if x.op != 'call' or x.args[0] != 'numpy.exp':
            return False
        g = through(x.args[1])
        return g.op == 'getitem' and through(g.args[1]) is i
    if plain:
        return False if prev(v.args[0]) or prev(v.args[1]) else None
    return prev(v.args[0]) and term(v.args[1]) or prev(v.args[1]) and term(v.args[0])


def last(x, s):
    i = through(x.args[1])
    if num(i) == -1:
        return True
    if i.op == '-' and num(i.args[1]) == 1 and through(i.args[0]).op in ('dim', 'size'):
        return True
    return False


def end(x, run):
    """The second or the last but one of the profiles fitted; elsewhere fixed limits."""
    x = through(x)
    if x.op != 'getitem' or num(x.args[1]) is None:
        return None
    lists = [through(v) for v, cs in cases(x.args[0])]
    if not all(v.op in ('list', 'tuple') and len(v.args) == 2 for v in lists):
        return None
    k = num(x.args[1])
    out = None
    for v in lists:
        y = through(v.args[int(k)])
        if y.op == 'const':
            continue
        if y.op != 'getitem':
            return None
        u = through(y.args[0])
        i = through(y.args[1])
        pos = num(i)
        if pos is None and i.op == '-' and through(i.args[0]).op in ('dim', 'size') and through(through(i.args[0]).args[0]) is u:
            pos = None if num(i.args[1]) is None else -num(i.args[1])
        if u in {through(e.args[0]) for e in fits_of(run)}:
            return 'a sample'
        if pos is None or not any(z.op == 'call' and z.args[0] == 'numpy.unique' for z in walk(u)):
            return None
        out = {1: 'second', -2: 'last but one'}.get(pos, f"profile {int(pos)}")
    return out


# ---- given break points

def prescribed(c, way, run):
    t = Tried(way, run)
    k = Known(way)
    n = 0
    for i, v, cs in t.coefs:
        if t.kind(cs) != 'n' or not any(y is t.n for p in i for y in walk(p)):
            continue
        if any(k.truth(l) is (not pos) for l, pos in cs):
            continue
        n += 1
        for x, xs in possible(k, v):
            ws = call_of(x)
            if len(ws) != 1 or ws[0][0] is None:
                c.und(R4, f"{way}: fit", 'not understood')
                continue
            ps = [a for a in ws[0][0].args[1:] if isinstance(a, N) and a.op != 'kw']
            b = through(ps[3]) if len(ps) > 3 else None
            v = None if b is None else given(k, b, set())
            c.that(v, R4, f"{way}: fit", 'at the break points given' if v else 'at others than the break points given')
    c.that(True if n else None, R4, f"{way}: fits", str(n))


def possible(k, v):
    """Branches of a value that the way of calling leaves open."""
    v = resolve(v)
    if v.op == 'phi':
        d = k.truth(v.args[0])
        for j, take in ((1, True), (2, False)):
            if d is None or d is take:
                yield from possible(k, v.args[j])
        return
    if v.op == 'getitem' and resolve(v.args[0]).op == 'phi':
        for x, xs in possible(k, v.args[0]):
            yield x, xs
        return
    yield v, ()


def given(k, b, seen):
    """Are these the break points given (but for scaling)? False if they are others on some open branch."""
    b = through(b)
    if b in seen:
        return True
    seen = seen | {b}
    if b.op == 'mu':
        vs = [given(k, b.init, seen)] + ([given(k, b.next, seen)] if b.next is not None else [])
    elif b.op == 'phi':
        vs = [given(k, x, seen) for x, _s in possible(k, b)]
    elif b.op in ('-', '/', '+', '*'):
        return given(k, b.args[0], seen)
    elif b.op == 'T':
        return given(k, b.args[0], seen)
    else:
        if b.op == 'param':
            return b.args[0] == 'breaks'
        return False if b.op in ('list', 'tuple', 'const', 'store', 'call', 'nan') else None
    return False if False in vs else None if None in vs else True


def calls(c):
    it = c11.calib()
    fits = [e for e in it.events if e.kind == 'axiom' and e.name.endswith(':fit_cond')]
    for e in fits:
        words = [resolve(a).args[0] for a in e.args[4:] if isinstance(a, N) and resolve(a).op == 'const' and isinstance(resolve(a).args[0], str)]
        if 'max_no_breaks' in words:
            c.ok(R5, 'fit with a limit', A.where(e))
            continue
        if any(isinstance(a, N) and resolve(a).op == 'opaque' for a in e.args[4:]) or 'kwargs' in e.kwargs or None in e.kwargs:
            c.und(R5, 'fit', 'arguments put together elsewhere', A.where(e))
            continue
        missing = any(settled(g, pos) for g, pos in guards(e))
        c.that(missing, R5, 'fit without a limit', 'where there is none' if missing else 'although one may be set', A.where(e))
    c.that(True if fits else None, R5, 'fits', str(len(fits)))


def guards(e):
    from ..levels import lits
    for g in e.guards:
        if isinstance(g, tuple):
            yield from lits(g[0], g[1])


def settled(g, pos):
    g = resolve(g)
    about = any(y.op == 'const' and y.args[0] == 'max_breaks' for y in everything(g))
    if not about:
        return False
    return g.op == 'isfinite' and not pos or g.op == 'isnan' and pos

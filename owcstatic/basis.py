"""The matrix of a piecewise linear fit, read entry by entry: what a column holds in a row whose x lies in, before or after the column's segment."""
from . import analyses as A
from .algebra import Alg, Cannot, leaf, num as number
from .ir import N, resolve
from .levels import cases, parts, positions, through, whole
from .masks import num

ZERO = ('numpy.zeros', 'numpy.zeros_like')
ONES = ('numpy.ones', 'numpy.ones_like')


class Segments(Alg):
    """Formulas about one row: x, the number of its segment, the boundaries around the segment of the column."""

    def __init__(self, b, rows=None):
        super().__init__(self.named)
        self.b, self.rows = b, rows

    def named(self, n):
        if n is self.b.segment:
            return leaf('s') if self.rows is None or whole(self.rows) else None
        if n is self.b.sites or through(n) is self.b.sites:
            return leaf('x') if self.rows is None or whole(self.rows) else None
        if n is self.b.j:
            return leaf('j')
        if n.op == 'getitem':
            base, idx = through(n.args[0]), parts(n.args[1])
            if base in (self.b.segment, self.b.sites):
                if len(idx) == 1 and self.rows is not None and (idx[0] is self.rows or same_rows(idx[0], self.rows)):
                    return leaf('s' if base is self.b.segment else 'x')
                if len(idx) == 1 and whole(idx[0]):
                    return leaf('s' if base is self.b.segment else 'x')
                raise Cannot('another row')
            if base is self.b.bounds and len(idx) == 1:
                p = self.poly(idx[0]) - leaf('j')
                if p.const() is None:
                    k = num(idx[0])
                    if k is None:
                        raise Cannot('another boundary')
                    return leaf(('boundary', k))
                return leaf(('b', int(p.const())))
        return None


def walk(n, seen=None):
    """Nodes of an expression, not those that bound its loops."""
    seen = set() if seen is None else seen
    n = resolve(n)
    if n in seen:
        return
    seen.add(n)
    yield n
    if n.op in ('iv', 'mu') or n.op == 'call' and n.args[0] == A.SORTER:
        return
    for a in n.args:
        if isinstance(a, N):
            yield from walk(a, seen)


def same_rows(a, b):
    p, q = positions(a), positions(b)
    return p is not None and p is q


class Basis:
    def __init__(self, n):
        self.node = resolve(n)
        calls, stores = [], []
        for x in self.chain(self.node):
            if x.op in ('store', 'viewstore'):
                stores.append(x)
                for y in walk(x.args[1]):
                    if y.op == 'call' and y.args[0] == A.SORTER:
                        calls.append(y)
                for y in walk(x.args[2]):
                    if y.op == 'call' and y.args[0] == A.SORTER:
                        calls.append(y)
        calls = list(dict.fromkeys(calls))
        if len(calls) != 1:
            raise Cannot('no single division into segments')
        self.segment = calls[0]
        pos = [a for a in self.segment.args[1:] if isinstance(a, N)]
        self.bounds, self.sites = through(pos[0]), through(pos[1])
        js = set()
        for x in stores:
            i = parts(x.args[1])
            if len(i) == 2 and num(i[1]) is None:
                js |= {y for y in walk(i[1]) if y.op == 'iv'}
        if len(js) != 1:
            raise Cannot('no single loop over the segments')
        self.j = js.pop()
        starts = [x for x in self.chain(self.node) if x.op == 'call' and x.args[0] in ZERO + ONES]
        starts = list(dict.fromkeys(starts))
        self.shapes = [through(x.args[1]) for x in starts if isinstance(x.args[1], N)]

    def chain(self, n, seen=None):
        seen = set() if seen is None else seen
        n = resolve(n)
        if n in seen:
            return
        seen.add(n)
        yield n
        if n.op == 'mu':
            yield from self.chain(n.init, seen)
            if n.next is not None:
                yield from self.chain(n.next, seen)
        elif n.op == 'phi':
            yield from self.chain(n.args[1], seen)
            yield from self.chain(n.args[2], seen)
        elif n.op in ('store', 'viewstore'):
            yield from self.chain(n.args[0], seen)
        elif n.op == 'call' and n.args[0] in ('numpy.array', 'numpy.copy', 'copy.deepcopy') and len(n.args) > 1:
            yield from self.chain(n.args[1], seen)

    # a condition about a row d segments behind the start of the column's one
    def holds(self, m, d, rows=None):
        m = resolve(m)
        if m.op == 'not':
            v = self.holds(m.args[0], d, rows)
            return None if v is None else not v
        if m.op in ('and', 'or'):
            vs = [self.holds(a, d, rows) for a in m.args]
            stop = m.op == 'or'
            return stop if stop in vs else None if None in vs else not stop
        if m.op in ('<', '<=', '=='):
            try:
                p = Segments(self, rows)
                q = p.poly(m.args[0]) - p.poly(m.args[1])
                s, j, k = self.split(q)
            except Cannot:
                return None
            if s + j or abs(s) != 1:
                return None
            v = s * d + k
            return v < 0 if m.op == '<' else v <= 0 if m.op == '<=' else v == 0
        return None

    def split(self, q):
        s = j = k = 0
        for m, c in q.t.items():
            if m == ():
                k = c
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] == ('leaf', 's'):
                s = c
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] == ('leaf', 'j'):
                j = c
            else:
                raise Cannot('condition')
        return s, j, k

    def some(self, m):
        """The mask whose rows a condition says exist."""
        m = resolve(m)
        if m.op == '<' and num(m.args[0]) == 0:
            x = resolve(m.args[1])
            if x.op in ('dim', 'size') or x.op == 'call' and x.args[0] in ('numpy.sum', 'numpy.count_nonzero', 'numpy.sum0'):
                return positions(x.args[0] if x.op != 'call' else x.args[1])
        if m.op == 'some' or m.op == 'call' and m.args[0] in ('numpy.any', 'any'):
            x = m.args[0] if m.op == 'some' else m.args[1]
            return positions(x)
        return None

    def entry(self, n, first, d, inside=frozenset()):
        """Entry of the first column (a row of any segment), or of the column of segment j in a row whose segment is j + d.
        A column is written by one pass of a loop; before it the array holds what it started as."""
        n = resolve(n)
        if n.op == 'mu':
            if n in inside or n.next is not None and not self.written(n.next, first):
                return self.entry(n.init, first, d, inside)
            if n.next is None:
                raise Cannot('loop')
            return self.entry(n.next, first, d, inside | {n})
        if n.op == 'phi':
            k = self.branch(n.args[0], first, d)
            if k is not None:
                return self.entry(n.args[1 if k else 2], first, d, inside)
            p, q = self.entry(n.args[1], first, d, inside), self.entry(n.args[2], first, d, inside)
            if p.same(q):
                return p
            raise Cannot('condition')
        if n.op in ('store', 'viewstore'):
            i = parts(n.args[1])
            hit = self.column(i[1], first) if len(i) == 2 else None
            if hit is None:
                raise Cannot('column')
            if hit:
                every = whole(i[0]) or i[0].op == 'iv'
                m = None if every else positions(i[0])
                there = True if every else None if m is None else self.holds(m, d)
                if there is None:
                    raise Cannot('rows')
                if there:
                    return self.value(n.args[2], i[0], d)
            return self.entry(n.args[0], first, d, inside)
        if n.op == 'call':
            if n.args[0] in ZERO:
                return number(0)
            if n.args[0] in ONES:
                return number(1)
            if n.args[0] in ('numpy.array', 'numpy.copy', 'copy.deepcopy'):
                return self.entry(n.args[1], first, d, inside)
        raise Cannot(n.op)

    def written(self, n, first):
        """Does a pass of the loop write the column?"""
        for x in self.chain(n):
            if x.op in ('store', 'viewstore'):
                i = parts(x.args[1])
                if len(i) == 2 and self.column(i[1], first) is not False:
                    return True
        return False

    def column(self, i, first):
        v = num(i)
        if v is not None:
            return v == 0 if first else False if v == 0 else None
        try:
            p = Segments(self).poly(i) - leaf('j')
        except Cannot:
            return None
        if p.const() is None:
            return None
        if first:
            return False if p.const() >= 1 else None
        return p.const() == 1

    def branch(self, k, first, d):
        k = resolve(k)
        neg = False
        while k.op == 'not':
            k, neg = resolve(k.args[0]), not neg
        m = self.some(k)
        if m is not None:
            v = self.holds(m, d)
            return None if not v else not neg
        if k.op in ('<', '<=') and self.columns(k.args[1]) is True and num(k.args[0]) is not None:
            least = num(k.args[0]) + (k.op == '<')
            if not first and least <= 2:
                return not neg
            if first and least <= 1:
                return not neg
        return None

    def columns(self, n):
        """Is n the number of columns?"""
        n = through(n)
        for s in self.shapes:
            if s.op in ('tuple', 'list') and len(s.args) == 2 and through(s.args[1]) is n:
                return True
        return None

    def value(self, v, rows, d):
        out = None
        for x, cs in cases(v):
            ok = True
            for l, pos in cs:
                h = self.holds(l, d, rows)
                if h is None:
                    raise Cannot('condition of a value')
                ok &= h == pos
            if ok:
                p = self.formula(x, rows, d)
                if out is not None and not out.same(p):
                    raise Cannot('two values')
                out = p
        if out is None:
            raise Cannot('no value')
        return out

    def formula(self, x, rows, d):
        f = Segments(self, rows)
        f.choose = lambda c, _a: self.holds(c, d, rows)
        x = resolve(x)
        if x.op == 'T':
            x = resolve(x.args[0])
        if x.op == 'call' and x.args[0] in ONES:
            return number(1)
        return f.poly(x)

    def complete(self):
        """The loop over the segments fills all columns but the first: True, or a text."""
        if num(self.j.args[0]) != 0 or num(self.j.args[2]) != 1:
            return None
        f = Alg(lambda n: None if n.op in ('+', '-', 'const') else leaf(('n', through(n).id)))
        for s in self.shapes:
            if s.op in ('tuple', 'list') and len(s.args) == 2:
                try:
                    d = f.poly(s.args[1]) - f.poly(self.j.args[1])
                except Cannot:
                    return None
                if d.const() is None:
                    return None
                return True if d.const() == 1 else f"{int(d.const())} columns more than segments filled"
        return None

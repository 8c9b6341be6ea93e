"""Matrix expressions in normal form: sums of scalar multiples of products of matrices and
vectors (non-commutative words), with sums, diagonals and elementwise functions of them.
Two expressions are equal when their normal forms are."""
from fractions import Fraction

from .algebra import Cannot, Poly, fn, leaf, num as number, power
from .ir import N, resolve
from .masks import num

INV = ('numpy.linalg.inv', 'scipy.linalg.inv')
SOLVE = ('numpy.linalg.solve', 'scipy.linalg.solve')
SUM = ('numpy.sum', 'numpy.sum0', 'numpy.nansum', 'sum', 'builtins.sum')
LAYOUT = ('numpy.ravel', 'numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.squeeze', 'numpy.atleast_1d', 'numpy.atleast_2d', 'float', 'builtins.float',
          'numpy.ascontiguousarray')
EYE = ('numpy.identity', 'numpy.eye')
ONE = ('1',)


def plus(a, b, k=1):
    out = dict(a)
    for w, c in b.items():
        s = out.get(w, Poly({})) + c.scale(k)
        if s.t:
            out[w] = s
        else:
            out.pop(w, None)
    return out


def scaled(a, p):
    return {w: c * p for w, c in a.items() if (c * p).t}


class Matrices:
    """leaf_of(n) gives ('s', Poly) | ('v', atom, space) | ('m', atom, symmetric, columns) | None."""

    def __init__(self, leaf_of):
        self.leaf_of = leaf_of
        self.symmetric = set()
        self.single = set()        # spaces of one element
        self.memo = {}

    # words
    def flip(self, w):
        return tuple(a if a in self.symmetric else a[:-1] if a.endswith("'") else a + "'" for a in reversed(w))

    def canon(self, w):
        return '.'.join(min(w, self.flip(w)))

    def transposed(self, m):
        return {self.flip(w): c for w, c in m.items()}

    def times(self, a, b):
        out = {}
        for w1, c1 in a.items():
            for w2, c2 in b.items():
                out = plus(out, {w1 + w2: c1 * c2})
        return out

    def total(self, row, col):
        """Scalar row * col of two column forms (row is transposed)."""
        out = Poly({})
        for w, c in self.times(self.transposed(row), col).items():
            out = out + c * leaf('[' + self.canon(w) + ']')
        return out

    def inverse(self, m):
        ws = sorted(m)
        lead = m[ws[0]]
        q = {w: c * power(lead, -1) for w, c in m.items()}
        name = 'inv{' + ' + '.join(f"{q[w]!r} {'.'.join(w) or 'I'}" for w in ws) + '}'
        if all(w == self.flip(w) for w in ws):
            self.symmetric.add(name)
        return {(name,): power(lead, -1)}

    # elementwise
    def elements(self, x):
        k = x[0]
        if k in 'se':
            return x[1]
        if k == 'v':
            out = Poly({})
            for w, c in x[1].items():
                out = out + c * (number(1) if w == ONE else leaf('<' + '.'.join(w) + '>'))
            return out
        raise Cannot('elements of a matrix')

    def diagonal(self, m):
        out = Poly({})
        for w, c in m.items():
            out = out + c * (number(1) if not w else leaf('diag<' + self.canon(w) + '>'))
        return out

    def of(self, n):
        n = resolve(n)
        if n not in self.memo:
            self.memo[n] = None
            try:
                self.memo[n] = self._of(n)
            except Cannot:
                del self.memo[n]
                raise
        if self.memo[n] is None:
            raise Cannot('recursive ' + n.op)
        return self.memo[n]

    def _of(self, n):
        k = self.leaf_of(n)
        if k is not None:
            if k[0] == 's':
                return k
            if k[0] == 'v':
                return 'v', {(k[1],): number(1)}, k[2]
            if k[2]:
                self.symmetric.add(k[1])
            return 'm', {(k[1],): number(1)}
        v = num(n)
        if v is not None:
            return 's', number(v)
        if n.op in ('+', '-', '*', '/', '**') and len(n.args) == 2:
            return self.binary(n.op, n.args[0], n.args[1])
        if n.op == 'neg':
            return self.binary('*', n.args[0], None)
        if n.op == 'T':
            x = self.of(n.args[0])
            return ('m', self.transposed(x[1])) if x[0] == 'm' else ('h', [(c, self.transposed(a), self.transposed(b)) for c, a, b in x[1]]) if x[0] == 'h' else x
        if n.op == 'getitem':
            x = self.of(n.args[0])
            i = resolve(n.args[1])
            if num(i) == 0 and (x[0] == 'v' and x[2] == 'grid' or x[0] == 'e' and x[2] == 'grid'):
                return 'e', self.elements(x), 'one'
            if x[0] in 'vem' and i.op == 'tuple' and all(resolve(p).op == 'slice' and all(resolve(q).op == 'const' and resolve(q).args[0] is None for q in resolve(p).args)
                                                           or resolve(p).op == 'const' and resolve(p).args[0] is None for p in i.args):
                return x
            if x[0] == 'e' and num(i) is not None:
                return 's', leaf(f"({x[1]!r})[{num(i)}]")
            if x[0] == 'v' and num(i) is not None:
                return 's', leaf(f"({self.elements(x)!r})[{num(i)}]")
            if x[0] == 's' and all(resolve(p).op == 'const' and resolve(p).args[0] is None for p in (i.args if i.op == 'tuple' else (i,))):
                return x
            raise Cannot('element ' + str(i)[:60])
        if n.op == 'call':
            return self.call(n)
        if n.op == 'abs':
            x = self.of(n.args[0])
            return (x[0] if x[0] == 's' else 'e', fn('abs', self.elements(x))) + ((x[2],) if x[0] != 's' else ())
        if n.op in ('dim', 'size'):
            x = self.of(n.args[0])
            if x[0] in 'ev' and x[2] == 'data' or x[0] == 'm' and len(n.args) > 1 and self.rows(x[1] if num(n.args[1]) == 0 else self.transposed(x[1])) == 'data':
                return 's', leaf('number of casts')
        raise Cannot(n.op + ' ' + str(n)[:80])

    def call(self, n):
        f = n.args[0]
        pos = [a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']
        kw = {a.args[0]: resolve(a.args[1]) for a in n.args[1:] if isinstance(a, N) and a.op == 'kw'}
        if f in ('numpy.add', 'numpy.subtract', 'numpy.multiply', 'numpy.divide', 'numpy.power', 'numpy.true_divide') and len(pos) == 2:
            return self.binary({'numpy.add': '+', 'numpy.subtract': '-', 'numpy.multiply': '*', 'numpy.power': '**'}.get(f, '/'), *pos)
        if f in ('numpy.dot', 'numpy.matmul') and len(pos) == 2:
            return self.dot(self.of(pos[0]), self.of(pos[1]))
        if f in INV and len(pos) == 1:
            x = self.of(pos[0])
            if x[0] == 'm':
                return 'm', self.inverse(x[1])
        if f in SOLVE and len(pos) == 2:
            x = self.of(pos[0])
            if x[0] == 'm':
                return self.dot(('m', self.inverse(x[1])), self.of(pos[1]))
        if f in EYE and len(pos) == 1:
            return 'm', {(): number(1)}
        if f == 'numpy.ones' and resolve(pos[0]).op not in ('tuple', 'list'):
            return 'v', {ONE: number(1)}, None
        if f == 'numpy.full' and resolve(pos[0]).op not in ('tuple', 'list'):
            return 'v', {ONE: self.scalar(pos[1])}, None
        if f in ('numpy.diag', 'numpy.diagonal') and len(pos) == 1:
            x = self.of(pos[0])
            if x[0] == 'm':
                return 'e', self.diagonal(x[1]), self.rows(x[1])
            if x[0] == 'v' and set(x[1]) <= {ONE}:
                return 'm', {(): x[1].get(ONE, Poly({}))}
        if f in ('numpy.sqrt', 'math.sqrt') and pos:
            x = self.of(pos[0])
            return ('s' if x[0] == 's' else 'e', power(self.elements(x), Fraction(1, 2))) + ((x[2] if len(x) > 2 else None,) if x[0] != 's' else ())
        if f in ('numpy.square',) and pos:
            x = self.of(pos[0])
            return self.combine('*', x, x)
        if f in SUM:
            return self.add_up(self.of(pos[0]), f, kw.get('axis', resolve(pos[1]) if len(pos) > 1 and f != 'builtins.sum' else None))
        if f in LAYOUT and pos:
            return self.of(pos[0])
        if f in ('numpy.mean', 'numpy.nanmean', 'numpy.average', 'numpy.median', 'numpy.nanmedian', 'numpy.max', 'numpy.amax', 'numpy.min', 'numpy.amin') and len(pos) == 1 and not kw:
            x = self.of(pos[0])
            if x[0] in 've' and x[2] == 'data':
                if f in ('numpy.mean', 'numpy.nanmean', 'numpy.average') and x[0] == 'v':
                    return 's', self.total({ONE: number(1)}, x[1]) * power(leaf('number of casts'), -1)
                return 's', fn(f.split('.')[-1], self.elements(x))
        if f == 'numpy.einsum' and len(pos) > 1:
            return self.einsum(resolve(pos[0]), [self.of(a) for a in pos[1:]])
        if f == 'numpy.reshape' and pos:
            x = self.of(pos[0])
            if x[0] in 'vse':
                return x
        raise Cannot('call ' + str(f))

    def rows(self, m):
        first = {w[0] for w in m if w}
        return 'grid' if first and all(a.startswith('G') and a.endswith("'") for a in first) else 'data'

    def einsum(self, spec, xs):
        if spec.op != 'const' or not isinstance(spec.args[0], str) or '->' not in spec.args[0]:
            raise Cannot('einsum')
        ins, out = spec.args[0].replace(' ', '').split('->')
        ins = ins.split(',')
        if len(ins) != len(xs) or len(out) > 1 or any(len(t) != {'m': 2, 'v': 1}.get(x[0]) for t, x in zip(ins, xs)):
            raise Cannot('einsum ' + spec.args[0])
        left = list(zip(ins, xs))

        def walk(at):
            """Product of the operands met from index `at` on; the index reached, None after a vector."""
            m = {(): number(1)}
            while True:
                here = [e for e in left if at in e[0]]
                if not here:
                    return m, at
                if len(here) > 1 and at != out:
                    raise Cannot('einsum with a shared index')
                t, x = e = here[0]
                left.remove(e)
                if x[0] == 'v':
                    return self.times(m, x[1]), None
                m = self.times(m, x[1] if t[0] == at else self.transposed(x[1]))
                at = t[1] if t[0] == at else t[0]
                if at == out:
                    return m, at
        ends = [t for t, x in left if x[0] == 'v']
        if out:
            m, end = walk(out)
            if left:
                raise Cannot('einsum in parts')
            if end == out:
                return 'e', self.diagonal(m), self.rows(m)
            return 'v', m if end is None else self.times(m, {ONE: number(1)}), self.rows(m)
        if not ends:
            raise Cannot('einsum without end')
        t, x = next(e for e in left if e[1][0] == 'v')
        left.remove((t, x))
        m, end = walk(t)
        if left:
            raise Cannot('einsum in parts')
        return 's', self.total(x[1], m if end is None else self.times(m, {ONE: number(1)}))

    def scalar(self, n):
        x = self.of(n)
        if x[0] != 's':
            raise Cannot('not a scalar')
        return x[1]

    def add_up(self, x, f, axis):
        k = x[0]
        ax = None if axis is None or axis.op == 'const' and axis.args[0] is None else num(axis)
        if axis is not None and ax is None and axis.op != 'const':
            raise Cannot('axis')
        if f in ('numpy.sum0', 'sum', 'builtins.sum') and ax is None:
            ax = 0
        if k == 's':
            return x
        if k == 'v':
            return 's', self.total({ONE: number(1)}, x[1])
        if k == 'm':
            if ax is None:
                return 's', self.total({ONE: number(1)}, self.times(x[1], {ONE: number(1)}))
            m = x[1] if ax in (1, -1) else self.transposed(x[1])
            return 'v', self.times(m, {ONE: number(1)}), self.rows(m)
        if k == 'h' and ax is not None:
            out, sp = Poly({}), 'data'
            for c, a, b in x[1]:
                m = self.times(a, self.transposed(b)) if ax in (1, -1) else self.times(self.transposed(a), b)
                out = out + c * self.diagonal(m)
                sp = self.rows(m)
            return 'e', out, sp
        raise Cannot('sum of elementwise values')

    def dot(self, a, b):
        ka, kb = a[0], b[0]
        if 's' in (ka, kb):
            return self.combine('*', a, b)
        if ka == 'm' and kb == 'm':
            return 'm', self.times(a[1], b[1])
        if ka == 'm' and kb == 'v':
            return 'v', self.times(a[1], b[1]), self.rows(a[1])
        if ka == 'v' and kb == 'm':
            m = self.transposed(b[1])
            return 'v', self.times(m, a[1]), self.rows(m)
        if ka == 'v' and kb == 'v':
            return 's', self.total(a[1], b[1])
        raise Cannot('product of ' + ka + kb)

    def binary(self, op, p, q):
        if q is None:
            return self.combine('*', self.of(p), ('s', number(-1)))
        if op == '**':
            e = num(q)
            x = self.of(p)
            if e == 2 and x[0] != 's':
                return self.combine('*', x, x)
            if e is None or x[0] in 'mh':
                raise Cannot('power')
            y = power(self.elements(x), Fraction(e).limit_denominator(64))
            return ('s', y) if x[0] == 's' else ('e', y, x[2])
        return self.combine(op, self.of(p), self.of(q))

    def combine(self, op, a, b):
        ka, kb = a[0], b[0]
        if ka == 's' and kb == 's':
            x, y = a[1], b[1]
            return 's', x + y if op == '+' else x - y if op == '-' else x * y if op == '*' else x * power(y, -1)
        if op in '+-':
            k = 1 if op == '+' else -1
            if ka == 'm' and kb == 'm':
                return 'm', plus(a[1], b[1], k)
            if 'm' in (ka, kb) and 'h' not in (ka, kb):
                # a number or a vector is added to every row
                def wide(x):
                    if x[0] == 'm':
                        return x[1]
                    if x[0] == 's':
                        self.symmetric.add('every entry 1')
                        return {('every entry 1',): x[1]} if x[1].t else {}
                    return {('every row ' + repr(self.elements(x)),): number(1)}
                return 'm', plus(wide(a), wide(b), k)
            if 'm' in (ka, kb) or 'h' in (ka, kb):
                raise Cannot('sum of different shapes')
            if 'e' in (ka, kb):
                return 'e', self.elements(a) + self.elements(b).scale(k), a[2] if ka != 's' else b[2]
            va, vb = (x[1] if x[0] == 'v' else {ONE: x[1]} for x in (a, b))
            return 'v', plus(va, vb, k), a[2] if ka == 'v' and a[2] else b[2] if kb == 'v' else a[2]
        if op == '/':
            if kb == 's':
                return self.combine('*', a, ('s', power(b[1], -1)))
            if ka in 'sev' and kb in 'ev':
                return 'e', self.elements(a) * power(self.elements(b), -1), b[2]
            raise Cannot('quotient')
        if ka == 's' or kb == 's':
            s, x = (a[1], b) if ka == 's' else (b[1], a)
            if x[0] in 'mv':
                return (x[0], scaled(x[1], s)) + x[2:]
            if x[0] == 'h':
                return 'h', [(c * s, p, q) for c, p, q in x[1]]
            return 'e', x[1] * s, x[2]
        if ka == 'm' and kb == 'm':
            return 'h', [(number(1), a[1], b[1])]
        if ka in 'ev' and kb in 'ev':
            return 'e', self.elements(a) * self.elements(b), a[2] or b[2]
        raise Cannot('elementwise product of ' + ka + kb)

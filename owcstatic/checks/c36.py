"""C36: the fit's results come back in the units, and about the zero, of its inputs."""
from fractions import Fraction

from .. import analyses as A
from ..algebra import LAYOUT, Alg, Cannot, leaf, power
from ..ir import N, resolve
from ..masks import is_nan, num
from ..report import Check

R1, R2, R3 = 'results in the units of the inputs', 'quantities combined in one unit', 'converted back by the zero and scale they were converted with'
ANY = 'any'
PLAIN = ((0, 0, 0, 0), 0)
KEEP = {'numpy.' + x for x in '''array asarray ravel copy squeeze atleast_1d atleast_2d astype float64 ascontiguousarray reshape unique sort min max amin amax
        nanmin nanmax mean nanmean median nanmedian flip tile repeat full expand_dims'''.split()} | {'float', 'builtins.float', 'min', 'max', 'builtins.min', 'builtins.max'}
SPREAD = {'numpy.std', 'numpy.nanstd', 'numpy.diff', 'numpy.ptp'}
COUNT = {'numpy.argwhere', 'numpy.argsort', 'numpy.argmin', 'numpy.argmax', 'numpy.nonzero', 'numpy.flatnonzero', 'numpy.ones', 'numpy.arange', 'numpy.isfinite', 'numpy.isnan',
         'numpy.random.randn', 'numpy.eye', 'numpy.identity', 'numpy.floor', 'int', 'builtins.int', 'numpy.all', 'numpy.any', 'len', 'numpy.remainder', 'numpy.ix_', 'numpy.ones_like',
         'numpy.random.normal', 'numpy.random.standard_normal', 'numpy.mod'}
FREE = {'numpy.zeros', 'numpy.empty', 'numpy.zeros_like', 'numpy.empty_like'}
BIN = {'numpy.add': '+', 'numpy.subtract': '-', 'numpy.multiply': '*', 'numpy.divide': '/', 'numpy.true_divide': '/', 'numpy.power': '**'}
X, Y, SLOPE = (1, 0, 0, 0), (0, 1, 0, 0), (-1, 1, 0, 0)       # powers of profile number, value, and the divisors used to scale them
DIVISOR = (0, 0, 1, 0), (0, 0, 0, 1)
RESULTS = ((X, 1, 'profile numbers'), (Y, 1, 'fitted values'), (Y, 0, 'errors of the fitted values'), (SLOPE, 0, 'slopes'), (SLOPE, 0, 'errors of the slopes'),
           (Y, 1, 'means of the profiles'), (Y, 0, 'spreads of the profiles'), ((0, 0, 0, 0), 0, 'degrees of freedom'), None, (X, 1, 'break points'))


def terms(w):
    return dict(w) if isinstance(w, frozenset) else {(): w} if w else {}


def weight(d):
    """Multiple of the zero point: a number, or a sum of numbers times powers of scaling factors."""
    d = {k: v for k, v in d.items() if v}
    return d.get((), 0) if set(d) <= {()} else frozenset(d.items())


def plus(a, b, k=1):
    d = terms(a)
    for m, v in terms(b).items():
        d[m] = d.get(m, 0) + k * v
    return weight(d)


def factors(n, s, out):
    n = resolve(n)
    v = num(n)
    if v is not None:
        out[None] = out.get(None, Fraction(1)) * (Fraction(v) if s > 0 else 1 / Fraction(v))
    elif n.op in ('*', '/') and len(n.args) == 2:
        factors(n.args[0], s, out)
        factors(n.args[1], s if n.op == '*' else -s, out)
    else:
        out[n.id] = out.get(n.id, 0) + s
    return out


def times(w, n, s):
    """Weight of a product with (s = 1) or quotient by (s = -1) n."""
    f = factors(n, s, {})
    k = f.pop(None, 1)
    d = {}
    for m, v in terms(w).items():
        e = dict(m)
        for a, q in f.items():
            e[a] = e.get(a, 0) + q
        d[tuple(sorted((a, q) for a, q in e.items() if q))] = v * k
    return weight(d)


def odd(t):
    """Scaled, but still moving with the zero point."""
    return isinstance(t, tuple) and isinstance(t[1], frozenset)


def show(t):
    if t is None or t == ANY:
        return {None: 'unknown'}.get(t, 'any')
    (x, y, dx, dy), w = t
    s = ' '.join(f"{n}" + ('' if e == 1 else f"^{e}") for n, e in (('value', y), ('profile', x), ('scale of values', dy), ('scale of profiles', dx)) if e) or 'a plain number'
    return s + ('' if w == 0 else ' from its zero' if w == 1 else ' scaled but not about the zero point' if odd(t) else f' with {w} times its zero')


class Scale:
    """(powers of profile number and value, multiple of the zero point); None: not known."""

    def __init__(self):
        self.memo = {}
        self.bad = []
        self.assume = {}
        self.scales = {}

    def find_scales(self, calls):
        """What profile numbers and values are divided by before they are fitted."""
        for e in calls:
            for k in (1,):
                n = resolve(e.args[k]) if len(e.args) > k and isinstance(e.args[k], N) else None
                while n is not None and n.op == 'mu' and n.init is not None:
                    n = resolve(n.init)
                if n is None or n.op not in ('/', '*') or len(n.args) != 2:
                    continue
                d = resolve(n.args[1])
                if n.op == '*':
                    d = resolve(d.args[1]) if d.op == '/' and num(d.args[0]) == 1 else None
                want = (X, 0) if k == 0 else (Y, 0)
                if d is not None and self.of(d) == want:
                    self.scales[d] = DIVISOR[k], 0
        self.memo, self.bad, self.assume = {}, [], {}

    def settle(self, n):
        """Types carried round loops, to a fixed point."""
        for _ in range(12):
            self.memo, self.bad = {}, []
            self.of(n)
            again, done = False, set()
            while set(self.assume) - done:
                for m in set(self.assume) - done:
                    done.add(m)
                    was, t = self.assume[m], self.of(m.next) if m.next is not None else self.assume[m]
                    if t != was and t != ANY and was is not None:
                        self.assume[m] = t if was == ANY else None
                        again = True
            if not again:
                return

    def of(self, n):
        n = resolve(n)
        if n in self.scales:
            return self.scales[n]
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = None
        r = self._of(n)
        self.memo[n] = r
        return r

    def literal(self, n):
        n = resolve(n)
        if n.op == 'const' or n.op in ('dim', 'int', 'iv', 'size'):
            return True
        if n.op == 'call' and n.args[0] in ('numpy.ones',):
            return True
        return n.op in ('list', 'tuple') and all(self.literal(a) for a in n.args)

    def join(self, n, parts, free=()):
        """Elements of one array: one unit."""
        got = [t for t in parts if t != ANY]
        if not got:
            return ANY
        if None in got:
            return None
        if any(t != got[0] for t in got):
            return None
        return got[0]

    def add(self, n, a, b, k):
        ta, tb = self.of(a), self.of(b)
        if ta == ANY or tb == ANY:
            return tb if ta == ANY and tb != ANY else ta
        if ta is None or tb is None:
            return None
        if ta[0] != tb[0]:
            if self.small(b) or self.small(a):
                return ta if self.small(b) else tb
            self.bad.append((n, f"{show(ta)} {'+' if k > 0 else '-'} {show(tb)}"))
            return None
        return ta[0], plus(ta[1], tb[1], k)

    def small(self, n):
        v = num(n)
        return v is not None and abs(v) <= 1e-3

    def mul(self, n, a, b, s):
        ta, tb = self.of(a), self.of(b)
        if ta is None or tb is None:
            return None
        if ta == ANY and tb == ANY:
            return ANY
        if ta == ANY or tb == ANY:
            return ANY
        e = tuple(p + s * q for p, q in zip(ta[0], tb[0]))
        if ta[1] == 0 and tb[1] == 0:
            return e, 0
        if tb == PLAIN and s > 0 and self.ones(b):
            return ta
        if ta == PLAIN and s > 0 and self.ones(a):
            return tb
        if tb[1] == 0 and self.single(b):
            return e, times(ta[1], b, s)
        if s > 0 and ta[1] == 0 and self.single(a):
            return e, times(tb[1], a, s)
        for t, o in ((ta, tb), (tb, ta)):
            if odd(t) and self.single(a) + self.single(b) == 0 and isinstance(o, tuple):
                self.bad.append((n, f"product of {show(ta)} and {show(tb)}"))
                break
        return None

    def single(self, n):
        """One number, not an array."""
        n = resolve(n)
        if num(n) is not None or n in self.scales:
            return True
        if n.op in ('*', '/', '+', '-') and len(n.args) == 2:
            return self.single(n.args[0]) and self.single(n.args[1])
        if n.op == 'phi':
            return self.single(n.args[1]) and self.single(n.args[2])
        if n.op == 'getitem':
            i = resolve(n.args[1])
            return i.op not in ('slice', 'tuple', 'list') and self.least(i) is not None or num(i) is not None or i.op == '-' and resolve(i.args[0]).op in ('dim', 'size')
        if n.op == 'call':
            f = str(n.args[0])
            if f in ('numpy.sqrt', 'math.sqrt', 'numpy.abs', 'abs'):
                return self.single(n.args[1])
            return f in ('numpy.std', 'numpy.mean', 'numpy.max', 'numpy.min', 'numpy.ptp', 'numpy.nanstd', 'numpy.nanmean', 'numpy.sum', 'numpy.var')
        return False

    def ones(self, n):
        n = resolve(n)
        return n.op == 'call' and n.args[0] in ('numpy.ones', 'numpy.ones_like')

    def power(self, n, a, e):
        t = self.of(a)
        if t is None or t == ANY:
            return t
        if odd(t):
            self.bad.append((n, f"power of {show(t)}"))
        if e is None or t[1] != 0:
            return None
        e = Fraction(e).limit_denominator(16)
        return tuple(p * e for p in t[0]), 0

    def plain(self, n, a, what):
        t = self.of(a)
        if t is None:
            return None
        if t != ANY and t != PLAIN:
            self.bad.append((n, f"{what} of {show(t)}"))
            return None
        return PLAIN

    def _of(self, n):
        op = n.op
        if op == 'param':
            return {'x': (X, 1), 'y': (Y, 1), 'n_err': (Y, 0), 'breaks': (X, 1), 'lvcov': PLAIN, 'limit': PLAIN}.get(n.args[0])
        if op in ('nan', 'undef', 'absent') or is_nan(n):
            return ANY
        if op == 'const':
            v = n.args[0]
            return ANY if v == 0 or v is None or v != v else PLAIN
        if op in ('dim', 'size', 'int', 'iv', 'shape', 'isnan', 'isfinite', 'not', 'and', 'or', 'contains', 'pi', 'str', 'slice', 'ndim'):
            for a in n.args:
                if isinstance(a, N) and op in ('not', 'and', 'or', 'dim'):
                    self.of(a)
            return PLAIN
        if op in ('<', '<=', '=='):
            ta, tb = (self.of(a) for a in n.args)
            if isinstance(ta, tuple) and isinstance(tb, tuple) and ta != tb and not self.literal(n.args[0]) and not self.literal(n.args[1]):
                self.bad.append((n, f"{show(ta)} compared with {show(tb)}"))
            return PLAIN
        if op in ('+', '-') and len(n.args) == 2:
            return self.add(n, n.args[0], n.args[1], 1 if op == '+' else -1)
        if op in ('*', '/') and len(n.args) == 2:
            return self.mul(n, n.args[0], n.args[1], 1 if op == '*' else -1)
        if op == '**':
            return self.power(n, n.args[0], num(n.args[1]))
        if op == 'neg':
            t = self.of(n.args[0])
            return t if t in (None, ANY) else (t[0], -t[1])
        if op == 'abs':
            t = self.of(n.args[0])
            return t if t in (None, ANY) or t[1] == 0 else None
        if op == 'T':
            return self.of(n.args[0])
        if op in ('list', 'tuple'):
            return self.join(n, [self.of(a) for a in n.args])
        if op == 'phi':
            a, b = n.args[1:]
            self.of(n.args[0])
            ta, tb = self.of(a), self.of(b)
            if ta == tb:
                return ta
            if ta == ANY or tb == ANY:
                return tb if ta == ANY else ta
            if self.literal(a) or self.literal(b):
                return tb if self.literal(a) else ta
            return None
        if op == 'mu':
            self.memo[n] = self.assume.get(n, ANY)
            if n not in self.assume:
                self.assume[n] = self.of(n.init) if n.init is not None else ANY
            return self.assume[n]
        if op == 'append':
            return self.join(n, [self.of(n.args[0]), self.of(n.args[1])])
        if op == 'comp' and len(n.args) == 3:
            return self.of(n.args[2])
        if op == 'getitem':
            return self.item(n.args[0], n.args[1])
        if op == 'store':
            base = self.of(n.args[0])
            v = self.of(n.args[2])
            if base == v or v == ANY:
                return base
            return v if base == ANY or self.literal(n.args[0]) else None
        if op == 'call':
            return self.call(n)
        return None

    def least(self, x):
        """Smallest value of an index."""
        x = resolve(x)
        if num(x) is not None:
            return int(num(x))
        if x.op == 'iv':
            return self.least(x.args[0])
        if x.op == '+':
            parts = [self.least(a) for a in x.args]
            return None if None in parts else sum(parts)
        return None

    def root(self, n):
        n = resolve(n)
        while n.op == 'store':
            n = resolve(n.args[0])
        return n

    def item(self, b, i):
        b, i = resolve(b), resolve(i)
        n_item = b
        if not self.literal(i) and i.op != 'slice':
            self.of(i)
        if b.op == 'store':
            j = resolve(b.args[1])
            lo = self.least
            if j is i or num(i) is not None and num(i) == num(j):
                return self.of(b.args[2])
            if j.op == 'slice':
                start = num(j.args[0]) if resolve(j.args[0]).args and resolve(j.args[0]).op == 'const' and resolve(j.args[0]).args[0] is not None else 0
                if lo(i) is not None and start is not None:
                    return self.of(b.args[2]) if lo(i) >= start else self.item(b.args[0], i)
            if num(j) is not None and lo(i) is not None:
                return self.item(b.args[0], i)
            if num(j) is not None and i.op == 'slice':
                s = num(i.args[0]) if resolve(i.args[0]).op == 'const' and resolve(i.args[0]).args[0] is not None else None
                if s is not None and s > num(j):
                    return self.item(b.args[0], i)
        if b.op == 'call' and b.args[0] == 'numpy.diag':
            return self.item(b.args[1], i)
        if b.op == 'phi':
            k = resolve(b.args[0])
            if k.op == '<' and resolve(k.args[1]).op == 'dim' and num(k.args[0]) is not None and (self.least(i) or 0) >= num(k.args[0]) and \
                    self.root(b.args[1]) is self.root(b.args[2]):
                return self.item(b.args[1], i)      # the other array has no such element (arrays of coefficients have one length)
            p, q = self.item(b.args[1], i), self.item(b.args[2], i)
            return p if p == q or q == ANY else q if p == ANY else None
        if b.op == 'call' and b.args[0] == A.FIT:
            tx, ty = self.of(b.args[1]), self.of(b.args[2])
            for t, what in ((tx, 'profile numbers'), (ty, 'values')):
                if odd(t):
                    self.bad.append((n_item, f"{what} given to the fit: {show(t)}"))
            if num(i) == 1:
                return ty if ty in (None, ANY) else (ty[0], 0)
            if num(i) == 0 and tx == PLAIN and isinstance(ty, tuple) and ty[1] == 0:
                return ty
            return None
        if b.op in ('list', 'tuple') and num(i) is not None and 0 <= num(i) < len(b.args):
            return self.of(b.args[int(num(i))])
        if b.op == 'call' and b.args[0] == 'numpy.unique' and any(isinstance(a, N) and a.op == 'kw' for a in b.args[1:]):
            return self.of(b.args[1]) if num(i) == 0 else PLAIN
        t = self.of(b)
        return None if isinstance(t, tuple) and t[0] == 'mixed' else t

    def call(self, n):
        f = n.args[0]
        pos = [a for a in n.args[1:] if isinstance(a, N) and a.op not in ('kw', 'raw')]
        if f in BIN and len(pos) == 2:
            k = BIN[f]
            return self.add(n, *pos, 1 if k == '+' else -1) if k in '+-' else self.power(n, pos[0], num(pos[1])) if k == '**' else self.mul(n, *pos, 1 if k == '*' else -1)
        if f in FREE:
            return ANY
        if f == 'numpy.random.normal':
            par = {a.args[0]: a.args[1] for a in n.args[1:] if isinstance(a, N) and a.op == 'kw'}
            size = pos[0] if pos else par.get('loc')
            scale = pos[1] if len(pos) > 1 else par.get('scale')
            ts = [self.of(a) for a in (size, scale) if a is not None and not self.literal(a)]
            if not ts:
                return PLAIN
            if None in ts or ANY in ts:
                return None
            if len(ts) == 2 and ts[0][0] != ts[1][0]:
                self.bad.append((n, f"noise of {show(ts[1])} about {show(ts[0])}"))
                return None
            return ts[0]
        if f in COUNT:
            for a in pos:
                self.of(a)
            return PLAIN
        if f == 'numpy.full' and len(pos) > 1:
            return self.of(pos[1])
        if f in KEEP and pos:
            t = self.of(pos[0])
            return t
        if f in SPREAD and pos:
            t = self.of(pos[0])
            return t if t in (None, ANY) else (t[0], 0) if t[0] != 'mixed' else None
        if f in ('numpy.var', 'numpy.nanvar', 'numpy.square'):
            t = self.of(pos[0])
            return t if t in (None, ANY) or f == 'numpy.square' and t[1] != 0 else (tuple(2 * e for e in t[0]), 0)
        if f in ('numpy.sqrt', 'math.sqrt'):
            return self.power(n, pos[0], Fraction(1, 2))
        if f in ('numpy.exp', 'numpy.log', 'math.exp', 'math.log', 'numpy.round', 'numpy.around', 'round', 'builtins.round'):
            return self.plain(n, pos[0], f.split('.')[-1])
        if f in ('numpy.sum', 'numpy.sum0', 'numpy.nansum', 'sum', 'builtins.sum', 'numpy.cumsum', 'numpy.trace'):
            t = self.of(pos[0])
            return t if t in (None, ANY) or t[1] == 0 else None
        if f == 'numpy.diag':
            return self.of(pos[0])
        if f in ('numpy.linalg.inv', 'scipy.linalg.inv'):
            t = self.of(pos[0])
            return t if t in (None, ANY) or t[0] == 'mixed' else (tuple(-e for e in t[0]), 0)
        if f in ('numpy.dot', 'numpy.matmul', 'numpy.outer') and len(pos) == 2:
            t = self.mul(n, pos[0], pos[1], 1)
            return t if t is None or t == ANY or t[1] == 0 else None
        if f in ('numpy.concatenate', 'numpy.hstack', 'numpy.append', 'numpy.r_'):
            parts = []
            for a in pos:
                a = resolve(a)
                parts += list(a.args) if a.op in ('list', 'tuple') and f != 'numpy.append' else [a]
            ts = [(p, self.of(p)) for p in parts]
            got = [t for p, t in ts if isinstance(t, tuple) and not self.literal(p)]
            if got and any(t != got[0] for t in got):
                self.bad.append((n, 'in one sequence: ' + ', '.join(sorted({show(t) for t in got if t[0] != 'mixed'}))))
                return None
            return None if any(t is None for _p, t in ts) else got[0] if got else PLAIN if any(t == PLAIN for _p, t in ts) else ANY
        if f == A.SORTER:
            a, b = self.of(pos[0]), self.of(pos[1])
            if isinstance(a, tuple) and isinstance(b, tuple) and a != b and not self.literal(pos[0]) and 'mixed' not in (a[0], b[0]):
                self.bad.append((n, f"points in {show(b)} sorted between limits in {show(a)}"))
            return PLAIN
        if f == A.FIT:
            b = self.of(pos[3]) if len(pos) > 3 else ANY
            x = self.of(pos[0])
            if isinstance(b, tuple) and isinstance(x, tuple) and b != x and 'mixed' not in (b[0], x[0]):
                self.bad.append((n, f"profile numbers in {show(x)}, break points in {show(b)}"))
            return None
        if str(f).startswith('optimiser.'):
            return PLAIN if f == 'optimiser.point' else None
        return None


def alternatives(n):
    n = resolve(n)
    return alternatives(n.args[1]) + alternatives(n.args[2]) if n.op == 'phi' else [n]


def rule(c):
    runs = A.fits()
    if not runs:
        return c.und(R1, 'fit_cond', 'not found')
    loc = 'pyowc/core/stats.py fit_cond'
    seen = set()
    for way, it in runs:
        c.covered(it)
        s = Scale()
        res = resolve(it.ret_node)
        s.find_scales([e for e in it.events if e.name == A.FIT])
        s.settle(res)
        if res.op not in ('tuple', 'list') or len(res.args) != 10:
            c.und(R1, 'results with ' + way, str(res)[:100], loc)
            continue
        for n, want in zip(res.args, RESULTS):
            if want is None:
                for what, k, u in (('offset', 0, (Y, 1)), ('slopes of the segments', 1, (SLOPE, 0))):
                    t = s.item(n, raw_const(k))
                    judge(c, t, u, f"coefficients: {what} ({way})", loc, n)
                continue
            judge_all(c, s, n, (want[0], want[1]), f"{want[2]} ({way})", loc)
        for e in it.events:
            if e.name in (A.FIT, A.SORTER):
                s.call(call_node(e))
            if e.name == A.FIT:
                for k, what in ((0, 'profile numbers'), (1, 'values')):
                    t = s.of(e.args[k]) if len(e.args) > k else None
                    if odd(t):
                        s.bad.append((e.args[k], f"{what} given to the fit: {show(t)}"))
        for k, what in ((0, 'profile numbers'), (1, 'values')):
            got = {show(t): e.args[k] for e in it.events if e.name == A.FIT and len(e.args) > k for t in [s.of(e.args[k])] if isinstance(t, tuple)}
            if len(got) > 1:
                s.bad.append((list(got.values())[-1], f"{what} fitted in different units: {', '.join(sorted(got))}"))
        c.rule(back, way, it, res, loc)
        for n, why in s.bad:
            if why not in seen:
                seen.add(why)
                c.bad(R2, why, str(n)[:160], loc)
        if not s.bad:
            c.ok(R2, way, f"{sum(isinstance(t, tuple) for t in s.memo.values())} quantities with known unit", loc)


def arithmetic(y):
    y = resolve(y)
    if y.op in ('+', '-', '*', '/', 'neg', 'const', 'T') or y.op == 'call' and y.args[0] in LAYOUT | set(BIN):
        return None
    return leaf(y.id)


def scaled(n):
    """(zero, scale) by which the argument of a fit was made, as formulas: (u - zero) / scale."""
    n = resolve(n)
    while n.op == 'mu' and n.init is not None:
        n = resolve(n.init)
    if n.op not in ('/', '*') or len(n.args) != 2:
        return None
    top = resolve(n.args[0])
    if top.op != '-':
        return None
    g = Alg(arithmetic)
    s = g.poly(n.args[1])
    return g.poly(top.args[1]), s if n.op == '/' else power(s, -1)


def lone(q):
    return len(q.t) == 1 and all(abs(float(v) - 1) < 1e-12 and len(m) == 1 and m[0][1] == 1 for m, v in q.t.items())


def back(c, way, it, res, loc):
    """Each result is (scaled quantity) * scale + zero with the scale and zero of what was fitted."""
    made = [{}, {}]
    for e in it.events:
        if e.name == A.FIT:
            for k in (0, 1):
                if len(e.args) > k and isinstance(e.args[k], N):
                    try:
                        got = scaled(e.args[k])
                    except Cannot:
                        got = None
                    if got is not None:
                        made[k][repr(got)] = got
            if len(e.args) > 3 and isinstance(e.args[3], N):
                b = resolve(e.args[3])
                if b.op in ('/', '*'):
                    try:
                        got = scaled(b)
                    except Cannot:
                        got = None
                    if got is not None:
                        made[0][repr(got)] = got
    for k, what in ((0, 'profile numbers'), (1, 'values')):
        if len(made[k]) != 1:
            (c.bad if len(made[k]) > 1 else c.und)(R3, f"{what} ({way})", f"{len(made[k])} ways of scaling")
            return
    (zx, sx), (zy, sy) = (next(iter(m.values())) for m in made)
    g = Alg(arithmetic)
    for k, z, s, what in ((0, zx, sx, 'profile numbers'), (9, zx, sx, 'break points'), (1, zy, sy, 'fitted values'), (5, zy, sy, 'means of the profiles'),
                          (6, None, sy, 'spreads of the profiles')):
        for a in alternatives(res.args[k]):
            a = resolve(a)
            while a.op == 'T' or a.op == 'call' and a.args[0] in LAYOUT and len(a.args) > 1 and isinstance(a.args[1], N):
                a = resolve(a.args[0] if a.op == 'T' else a.args[1])
            if a.op in ('list', 'tuple', 'nan') or is_nan(a) or a.op == 'const':
                continue
            try:
                p = g.poly(a)
                q = (p - z if z is not None else p) * power(s, -1)
            except Cannot as e:
                c.und(R3, f"{what} ({way})", str(e)[:100], loc)
                continue
            if lone(q):
                c.ok(R3, f"{what} ({way})", 'scale and zero of the fit', loc)
            elif k == 0 and lone(p):
                c.ok(R3, f"{what} ({way})", 'as given', loc)
            elif a.op in ('+', '-', '*', '/'):
                d = p - z if z is not None else p
                only = len(d.t) == 1 and not lone(q)
                c.that(False if only or len(d.t) > 1 and a.op in ('+', '-') and simple(a) else None, R3, f"{what} ({way})", f"not by the scale and zero used for the fit: {q!r}"[:200], loc)
            else:
                c.und(R3, f"{what} ({way})", a.op, loc)
    coefficients(c, way, res.args[8], g, zy, sx, sy, loc)


def simple(a):
    """quantity * scale + zero"""
    a = resolve(a)
    return any(resolve(x).op in ('*', '/') for x in a.args)


def coefficients(c, way, n, g, zy, sx, sy, loc):
    todo, seen = [n], set()
    while todo:
        x = resolve(todo.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            todo += x.args[1:]
        elif x.op in ('store', 'viewstore'):
            todo.append(x.args[0])
            i = resolve(x.args[1])
            first = num(i) == 0
            tail = i.op == 'slice' and num(i.args[0]) == 1
            if not first and not tail:
                continue
            try:
                p = g.poly(x.args[2])
            except Cannot as e:
                c.und(R3, f"coefficients ({way})", str(e)[:100], loc)
                continue
            q = (p - zy) * power(sy, -1) if first else p * sx * power(sy, -1)
            what = 'offset' if first else 'slopes of the segments'
            ok = lone(q)
            if not ok and first and lone(p * sx * power(sy, -1)):
                continue
            c.that(ok if ok or len(q.t) == 1 or first and len(p.t) > 1 else None, R3, f"{what} ({way})", 'scale and zero of the fit' if ok else f"{q!r}"[:160], loc)
            if tail:
                stop = resolve(i.args[1])
                if stop.op == 'const' and stop.args[0] is None:
                    continue
                if num(stop) is not None and num(stop) < 0:
                    c.bad(R3, f"{what}: all ({way})", 'the last one is left in the units of the fit', loc)
                    continue
                if stop.op in ('+', '-') and len(stop.args) == 2 and any(num(z) is not None for z in stop.args):
                    k = num(stop.args[1]) if num(stop.args[1]) is not None else num(stop.args[0])
                    core = resolve(stop.args[0] if num(stop.args[1]) is not None else stop.args[1])
                    cut = [y for y in lengths(n)]
                    if any(y is core for y in cut):
                        c.that((k > 0) == (stop.op == '+') or k == 0, R3, f"{what}: all ({way})", 'the last one is left in the units of the fit', loc)


def lengths(n):
    """Ends of the slices the coefficients were taken with."""
    todo, seen = [n], set()
    while todo:
        x = resolve(todo.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            todo += x.args[1:]
        elif x.op in ('store', 'viewstore'):
            todo.append(x.args[0])
        elif x.op == 'mu':
            todo += [y for y in (x.init, x.next) if y is not None]
        elif x.op == 'getitem':
            i = resolve(x.args[1])
            for y in (i.args if i.op == 'tuple' else (i,)):
                y = resolve(y)
                if y.op == 'slice':
                    yield resolve(y.args[1])
        elif x.op == 'call' and len(x.args) > 1 and isinstance(x.args[1], N) and x.args[0] in KEEP | {'copy.deepcopy'}:
            todo.append(x.args[1])


def call_node(e):
    from ..ir import raw
    return raw('call', A.FIT, *e.args)


def raw_const(k):
    from ..ir import const
    return const(k)


def judge_all(c, s, n, want, inst, loc):
    """Each form the result can take."""
    got = {}
    for a in alternatives(n):
        t = s.of(a)
        if t != ANY:
            got.setdefault(t, a)
    if not got:
        return judge(c, ANY, want, inst, loc, n)
    for t, a in got.items():
        if t != want and t is not None or len(got) == 1:
            return judge(c, t, want, inst, loc, a)
    judge(c, None, want, inst, loc, got[None])


def judge(c, t, want, inst, loc, n):
    if t is None or isinstance(t, tuple) and t[0] == 'mixed':
        return c.und(R1, inst, str(resolve(n))[:160], loc)
    if t == ANY:
        return c.ok(R1, inst, 'missing or empty', loc)
    c.that(t == want, R1, inst, show(t) if t == want else f"{show(t)}, not {show(want)}", loc)


def main():
    c = Check('C36', 'the results of the fit come back in the units of its inputs',
              'Type inference over the value graph of fit_cond: every quantity gets its powers of value and profile number and its multiple of the zero point; '
              'sums, comparisons, logarithms and sequences need matching types, and each of the ten results has the type of what it reports.',
              'All three ways of calling the fit, symbolic in the data.')
    c.rule(rule)
    return c.finish()

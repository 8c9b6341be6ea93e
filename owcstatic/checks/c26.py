"""C26: interpolated salinity and pressure come from the same place in the same cast."""
from .. import analyses as A
from ..algebra import Alg, Cannot, LAYOUT, leaf
from ..ir import N, resolve, walk
from ..masks import is_nan, num
from ..report import Check

R1 = 'salinity and pressure use the same bracketing samples and weight'
R2 = 'the crossing closest in pressure is used for both'
R3 = 'missing where no interpolation is possible'
R4 = 'samples of a cast stay together'
R5 = 'the inputs are not changed'
FN = 'pyowc.data.wrangling:interp_climatology'
LOC = 'pyowc/data/wrangling.py interp_climatology'
VARS = {'grid_sal': 'sal', 'grid_theta': 'theta', 'grid_pres': 'pres'}
FLOAT = ('float_sal', 'float_theta', 'float_pres')
NA = float('nan')


class Bad(Exception):
    pass


def const(n):
    n = resolve(n)
    return n.args[0] if n.op == 'const' else '?'


def positional(n):
    return [a for a in n.args[1:] if isinstance(a, N) and resolve(a).op != 'kw']


def axis(n, default=None):
    for a in n.args[1:]:
        a = resolve(a)
        if a.op == 'kw' and a.args[0] == 'axis':
            return const(a.args[1])
    p = positional(n)
    return const(p[1]) if len(p) > 1 else default


def call(n, *names):
    n = resolve(n)
    return n.op == 'call' and n.args[0] in ['numpy.' + x for x in names]


def full_slice(n):
    n = resolve(n)
    return n.op == 'slice' and all(const(a) is None or k == 0 and const(a) == 0 or k == 2 and const(a) == 1 for k, a in enumerate(n.args))


def peel(n):
    """Through branches and copies that give nothing else than missing values otherwise."""
    n = resolve(n)
    while call(n, 'array', 'asarray', 'copy'):
        n = resolve(n.args[1])
    return n


class Scene:
    def __init__(self, c, it):
        self.c, self.it = c, it
        self.params = VARS
        self.memo, self.done, self.places, self.levels = {}, {}, [], []
        self.masked, self.skips = {}, []

    # -- pieces
    def pick(self, n):
        """An element of a tuple that exists on one branch only."""
        n = peel(n)
        if n.op == 'getitem' and isinstance(const(n.args[1]), int):
            base = self.branch(n.args[0])
            if base.op in ('tuple', 'list') and 0 <= const(n.args[1]) < len(base.args):
                return self.pick(base.args[const(n.args[1])])
        if n.op == 'phi':
            b = self.branch(n)
            if b is not n:
                return self.pick(b)
        return n

    def branch(self, n):
        n = peel(n)
        if n.op == 'phi':
            for keep, drop in ((1, 2), (2, 1)):
                d = resolve(n.args[drop])
                if d.op == 'const' and d.args[0] is None or d.op in ('undef', 'absent'):
                    self.emptiness(n.args[0])
                    return self.branch(n.args[keep])
        return n

    def emptiness(self, cond):
        """A condition under which nothing is interpolated must say that nothing can be."""
        cond = resolve(cond)
        if cond.op in ('and', 'or'):
            for a in cond.args:
                self.emptiness(a)
            return
        if cond.op == 'not':
            return self.emptiness(cond.args[0])
        if cond.op in ('<', '<=', '=='):
            a, b = (resolve(x) for x in cond.args)
            if cond.op == '==' and {a.op, b.op} == {'shape'}:
                return
            if cond.op == '==' and any(x.op == 'const' and x.args[0] is None for x in (a, b)):
                other = b if a.op == 'const' else a
                self.branch(other)
                return
            k = next((num(x) for x in (a, b) if num(x) is not None), None)
            x = next((x for x in (a, b) if num(x) is None), None)
            if x is not None and self.counts(x):
                zero = {('<', 0): 0, ('<=', 0): 1, ('==', 0): 0, ('<', 1): 1, ('<=', 1): 0, ('==', 1): 0}
                left = num(a) is not None
                # the set of counts told apart: {0} against the rest
                test = {'<': lambda v: k < v if left else v < k, '<=': lambda v: k <= v if left else v <= k, '==': lambda v: v == k}[cond.op]
                got = [test(v) for v in (0, 1, 2, 3, 50, 5000)]
                if got in ([True] + [False] * 5, [False] + [True] * 5):
                    return
                raise Bad(f"left out by {cond}"[:200])
            if x is not None and x.op in ('dim', 'size') and k >= 2 and resolve(x.args[0]).op == 'param':
                raise Bad(f"left out by {cond}"[:200])
        if call(cond, 'any'):
            x = positional(cond)[0]
            if self.counts(x) or self.mask(x) is not None:
                return
        raise Cannot('condition ' + str(cond)[:150])

    def counts(self, x):
        """A number that is zero exactly when there is nothing to interpolate."""
        x = resolve(x)
        if call(x, 'max', 'sum', 'count_nonzero', 'nanmax'):
            p = positional(x)[0]
            return call(p, 'count_nonzero', 'sum') and self.mask(positional(resolve(p))[0]) is not None or self.mask(p) is not None
        if x.op in ('size', 'dim'):
            y = resolve(x.args[0])
            while y.op == 'getitem' or call(y, 'unique', 'ravel'):
                y = resolve(y.args[0] if y.op == 'getitem' else y.args[1])
            return call(y, 'nonzero', 'where', 'argwhere', 'flatnonzero') and (self.mask(positional(y)[0]) is not None or y in self.places)
        return False

    def mask(self, n):
        """The inputs whose finiteness a mask demands."""
        n = resolve(n)
        if n.op == 'and' or call(n, 'logical_and'):
            got = set()
            for a in (n.args if n.op == 'and' else positional(n)):
                m = self.mask(a)
                if m is None:
                    return None
                got |= m
            return got
        if n.op == 'or' or call(n, 'logical_or'):
            got = [self.mask(a) for a in (n.args if n.op == 'or' else positional(n))]
            return None if None in got else set.intersection(*got)
        if n.op == 'isfinite':
            x = resolve(n.args[0])
            if x.op == 'getitem' and resolve(x.args[0]).op == 'param':
                x = resolve(x.args[0])
            if x.op == 'param':
                return {x.args[0]}
            if x.op in ('+', '-', '*'):
                got = [self.mask(N_isfinite(a)) for a in x.args]
                return None if None in got else set().union(*got)
        if n.op == 'not':
            x = resolve(n.args[0])
            if x.op == 'isnan' and resolve(x.args[0]).op == 'param':
                return {resolve(x.args[0]).args[0]}
            if x.op == 'or' or call(x, 'logical_or'):
                got = set()
                for a in (x.args if x.op == 'or' else positional(x)):
                    a = resolve(a)
                    if a.op != 'isnan' or resolve(a.args[0]).op != 'param':
                        return None
                    got.add(resolve(a.args[0]).args[0])
                return got
        return None

    def variable(self, n):
        """Cleaned reference data of one variable: name, or None."""
        n = self.pick(n)
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = None
        self.memo[n] = self._variable(n)
        return self.memo[n]

    def _variable(self, n):
        if n.op == 'param' and n.args[0] in VARS:
            return VARS[n.args[0]]
        if n.op == 'getitem':
            i = resolve(n.args[1])
            parts = [resolve(a) for a in i.args] if i.op == 'tuple' else [i]
            if parts[0].op == 'slice' and all(full_slice(p) for p in parts[1:]):
                name = self.variable(n.args[0])
                if name is None:
                    return None
                lo, hi, st = parts[0].args
                if const(lo) in (None, 0) and const(st) in (None, 1):
                    if const(hi) is None:
                        return name
                    h = resolve(hi)
                    if self.most(h):
                        return name
                    if h.op in ('-', '+') or num(h) is not None and num(h) != -1:
                        if h.op in ('-', '+') and any(self.most(a) for a in h.args) and resolve(n.args[0]).op == 'mu':
                            self.c.that(False if h.op == '-' else None, R4, name, f"levels cut at {h}"[:160], LOC)
                            return name
                return None
            return None
        if n.op == 'mu':
            return self.packed(n)
        return None

    def most(self, h):
        """The largest number of good levels in any cast."""
        h = resolve(h)
        if call(h, 'max', 'nanmax'):
            p = resolve(positional(h)[0])
            return call(p, 'count_nonzero', 'sum') and axis(p) == 0 and self.mask(positional(p)[0]) is not None
        return False

    def packed(self, n):
        base, nxt = resolve(n.init), resolve(n.next)
        if not ((call(base, 'full', 'empty', 'zeros') or base.op == 'param') and nxt.op == 'store' and resolve(nxt.args[0]) is n):
            return None
        it, place, value = self.it, resolve(nxt.args[1]), resolve(nxt.args[2])
        iv = resolve(it.loopinfo[n.meta]['key'])
        if base.op == 'param' and base.args[0] in VARS:
            self.c.that(False, R5, base.args[0], 'rewritten in place', LOC)
        # value: X[mask[:, k], k]
        x = value
        idx = []
        while x.op == 'getitem':
            idx.append(resolve(x.args[1]))
            x = resolve(x.args[0])
        if x.op != 'param' or x.args[0] not in VARS:
            return None
        name = VARS[x.args[0]]
        if not call(base, 'full') or not is_nan(base.args[2]):
            self.c.that(False, R4, name + ' padding', f"levels without data start as {base}"[:150], LOC)
        col = mask = None
        for i in idx:
            for p in (i.args if i.op == 'tuple' else (i,)):
                p = resolve(p)
                if full_slice(p):
                    continue
                if p.op == 'iv' or p.op in ('+', '-', 'const'):
                    col = p
                elif p.op == 'getitem' or self.mask(p) is not None:
                    mask = p
        if mask is None or col is None:
            return None
        mcol = None
        m = mask
        if m.op == 'getitem':
            i = resolve(m.args[1])
            parts = [resolve(a) for a in i.args] if i.op == 'tuple' else [i]
            mcol = parts[-1]
            m = resolve(m.args[0])
        kinds = self.mask(m)
        if kinds is None:
            return None
        parts = [resolve(a) for a in place.args] if place.op == 'tuple' else [place]
        if len(parts) != 2 or parts[0].op != 'slice':
            return None
        lo, hi, _st = parts[0].args
        h = resolve(hi)
        rows = None
        if const(lo) in (None, 0) and h.op == 'getitem':
            cnt = resolve(h.args[0])
            if call(cnt, 'count_nonzero', 'sum') and resolve(positional(cnt)[0]) is m:
                rows = axis(cnt) == 0 and resolve(h.args[1]) is parts[1]
        elif const(lo) in (None, 0) and call(h, 'count_nonzero', 'sum') and resolve(positional(h)[0]) is mask:
            rows = True
        same = col is iv and mcol is iv and parts[1] is iv
        whole = iv.op == 'iv' and num(iv.args[0]) == 0 and self.casts(iv.args[1])
        self.c.that(True if same and rows and whole else False if not same or whole is False or rows is False else None, R4, name,
                    f"cast {parts[1]}: rows {parts[0]} from column {col}, mask column {mcol}, casts {iv}"[:250], LOC)
        self.masked[name] = m
        self.c.that(kinds == set(VARS), R4, name + ' samples kept', 'finite ' + ', '.join(sorted(kinds)), LOC)
        return name

    def casts(self, n):
        n = resolve(n)
        if n.op == 'dim' and num(n.args[1]) == 1 and resolve(n.args[0]).op == 'param' and resolve(n.args[0]).args[0] in VARS:
            return True
        if n.op in ('+', '-') or n.op == 'dim' and num(n.args[1]) == 0:
            return False
        return None

    # -- values on an interval
    def row(self, i, ctx):
        i = resolve(i)
        parts = [resolve(a) for a in i.args] if i.op == 'tuple' else [i]
        if parts[0].op == 'slice' and all(full_slice(p) for p in parts[1:]) and len(parts) <= 2:
            lo, hi, st = (const(a) for a in parts[0].args)
            if st not in (None, 1):
                raise Cannot('step')
            if lo in (None, 0) and hi is None:
                return ctx
            if ctx in ('pair',) and lo in (None, 0) and hi == -1:
                return 'b'
            if ctx in ('pair',) and lo == 1 and hi is None:
                return 'a'
        return None

    def place(self, i):
        """Row shift when an index picks the bracketing places, else None."""
        i = resolve(i)
        if call(i, 'nonzero', 'where') and len(positional(i)) == 1:
            self.use(i)
            return 0
        if i.op in ('and', '<=', '<', 'not') and self.is_place(i):
            self.use(i)
            return 0
        if i.op == 'tuple' and len(i.args) == 2:
            r, k = (resolve(a) for a in i.args)
            shift = 0
            if r.op == '+' and any(num(a) == 1 for a in r.args):
                shift, r = 1, next(resolve(a) for a in r.args if num(a) != 1)
            if r.op == k.op == 'getitem' and resolve(r.args[0]) is resolve(k.args[0]) and const(r.args[1]) == 0 and const(k.args[1]) == 1:
                s = resolve(r.args[0])
                if call(s, 'nonzero', 'where') and len(positional(s)) == 1:
                    self.use(s)
                    return shift
        return None

    def is_place(self, i):
        return any(resolve(x).op == 'param' and resolve(x).args[0] == 'float_theta' for x in walk(i))

    def use(self, s):
        if s not in self.places:
            self.places.append(s)

    def level(self, n):
        """float_X[fi] -> X, remembering the level."""
        n = resolve(n)
        if n.op == 'getitem' and resolve(n.args[0]).op == 'param' and resolve(n.args[0]).args[0] in FLOAT:
            i = resolve(n.args[1])
            if i.op == 'tuple' and all(full_slice(p) or num(p) == 0 for p in i.args[1:]):
                i = resolve(i.args[0])
            if i not in self.levels:
                self.levels.append(i)
            return resolve(n.args[0]).args[0]
        return None

    def formula(self, n, ctx):
        return Alg(lambda x: self.leaf(x, ctx)).poly(n)

    def leaf(self, n, ctx):
        f = self.level(n)
        if f:
            return leaf('theta before') + leaf('E') if f == 'float_theta' else leaf(f)
        v = self.variable(n)
        if v:
            w = {'pair': 'b', 'pair+1': 'a'}.get(ctx, ctx)
            if w not in ('a', 'b'):
                raise Cannot('level of ' + v)
            if v == 'theta':
                return leaf('theta before') + leaf('D') if w == 'a' else leaf('theta before')
            return leaf((v, w))
        if call(n, 'diff'):
            if axis(n, -1) != 0 or ctx != 'pair':
                raise Bad('differences along the wrong direction') if axis(n, -1) in (1, -1) else Cannot('diff')
            return self.formula(n.args[1], 'a') - self.formula(n.args[1], 'b')
        if n.op == 'getitem':
            s = self.place(n.args[1])
            if s is not None and ctx is None:
                return self.formula(n.args[0], 'pair' if not s else 'pair+1')
            r = self.row(n.args[1], ctx)
            if r:
                return self.formula(n.args[0], r)
        return None

    # -- the test for a bracketing pair, on numbers standing for an order
    def number(self, n, ctx, v):
        n = resolve(n)
        k = num(n)
        if k is not None:
            return float(k)
        if is_nan(n):
            return NA
        f = self.level(n)
        if f:
            return v[f]
        x = self.variable(n)
        if x:
            w = {'pair': 'b', 'pair+1': 'a'}.get(ctx, ctx)
            if w not in ('a', 'b') or x != 'theta':
                raise Cannot('sample of ' + x)
            return v[w]
        if n.op == 'getitem':
            r = self.row(n.args[1], ctx)
            if r:
                return self.number(n.args[0], r, v)
        if call(n, 'diff') and axis(n, -1) == 0 and ctx == 'pair':
            a, b = self.number(n.args[1], 'a', v), self.number(n.args[1], 'b', v)
            return a - b
        if n.op in ('+', '-', '*') and len(n.args) == 2:
            a, b = (self.number(x, ctx, v) for x in n.args)
            return {'+': a + b, '-': a - b, '*': a * b}[n.op]
        if n.op == 'neg':
            return -self.number(n.args[0], ctx, v)
        if n.op == 'abs':
            return abs(self.number(n.args[0], ctx, v))
        if n.op == 'call' and n.args[0] in ('numpy.sign', 'numpy.minimum', 'numpy.maximum', 'numpy.multiply', 'numpy.subtract', 'numpy.fmin', 'numpy.fmax'):
            a = [self.number(x, ctx, v) for x in positional(n)]
            if n.args[0] == 'numpy.sign':
                return NA if a[0] != a[0] else float((a[0] > 0) - (a[0] < 0))
            if n.args[0] == 'numpy.multiply':
                return a[0] * a[1]
            if n.args[0] == 'numpy.subtract':
                return a[0] - a[1]
            if any(x != x for x in a):
                rest = [x for x in a if x == x]
                return rest[0] if rest and 'f' in n.args[0][6:8] else NA
            return min(a) if 'min' in n.args[0] else max(a)
        if n.op in ('<', '<=', '==', 'and', 'or', 'not', 'isnan', 'isfinite'):
            return float(self.truth(n, ctx, v))
        raise Cannot('test on ' + str(n)[:100])

    def truth(self, n, ctx, v):
        n = resolve(n)
        if n.op in ('and', 'or'):
            t = [self.truth(a, ctx, v) for a in n.args]
            return all(t) if n.op == 'and' else any(t)
        if n.op in ('not', 'truth'):
            return self.truth(n.args[0], ctx, v) != (n.op == 'not')
        if n.op in ('<', '<=', '=='):
            a, b = (self.number(x, ctx, v) for x in n.args)
            return {'<': a < b, '<=': a <= b, '==': a == b}[n.op]
        if n.op in ('isnan', 'isfinite'):
            a = self.number(n.args[0], ctx, v)
            return (a != a) == (n.op == 'isnan')
        if call(n, 'logical_and', 'logical_or'):
            t = [self.truth(a, ctx, v) for a in positional(n)]
            return all(t) if n.args[0] == 'numpy.logical_and' else any(t)
        return bool(self.number(n, ctx, v))

    # -- candidates and choice
    def blank(self, n, seen=(), empty=()):
        """An array of missing values: True / False / None."""
        n = peel(n)
        if n in seen:
            return True
        seen = seen + (n,)
        if call(n, 'full', 'full_like'):
            return True if is_nan(n.args[2]) else False
        if call(n, 'zeros', 'ones', 'empty', 'zeros_like', 'empty_like'):
            return False
        if n.op == 'phi':
            none, which = self.nothing(n.args[0])
            got = [self.blank(a, seen, empty + none if (k == 0) == which else empty) for k, a in enumerate(n.args[1:])]
            return False if False in got else None if None in got else True
        if n.op == 'mu':
            got = [self.blank(n.init, seen, empty)] + ([self.blank(n.next, seen, empty)] if n.next is not None else [])
            return False if False in got else None if None in got else True
        if n.op == 'store' and resolve(n.args[1]) in empty:
            return self.blank(n.args[0], seen, empty)
        if n.op == 'store':
            if is_nan(n.args[2]):
                i, b = resolve(n.args[1]), resolve(n.args[0])
                if i.op == 'slice' and full_slice(i) or full_slice(i):
                    return True
                while b.op == 'store' and resolve(b.args[1]) is i:
                    b = resolve(b.args[0])
                return self.blank(b, seen, empty)
            return False
        return None

    def nothing(self, cond):
        """(places, truth): places known to be none when this condition has that truth."""
        cond = resolve(cond)
        if cond.op in ('not', 'truth'):
            p, t = self.nothing(cond.args[0])
            return p, t != (cond.op == 'not')
        x = y = None
        if cond.op in ('==', '<', '<=', '!='):
            a, b = cond.args
            if cond.op == '==' and 0 in (num(a), num(b)):
                x, y = resolve(b if num(a) == 0 else a), True
            elif cond.op == '<' and num(a) == 0 or cond.op == '<=' and num(a) == 1:
                x, y = resolve(b), False
            elif cond.op == '<' and num(b) == 1 or cond.op == '<=' and num(b) == 0:
                x, y = resolve(a), True
        elif cond.op in ('size', 'dim'):
            x, y = cond, False
        if x is not None and x.op in ('size', 'dim'):
            x = resolve(x.args[0])
            while x.op == 'getitem' or call(x, 'unique', 'ravel'):
                x = resolve(x.args[0] if x.op == 'getitem' else x.args[1])
            return (x,), y
        return (), True

    def candidates(self, n):
        """All interpolated values of one variable at one float level: name of the variable."""
        n = peel(n)
        if n in self.done:
            return self.done[n]
        self.done[n] = None
        if n.op != 'store':
            raise Cannot('candidates made by ' + n.op)
        base = resolve(n.args[0])
        while base.op == 'store' and resolve(base.args[1]) is resolve(n.args[1]):
            base = resolve(base.args[0])
        b = self.blank(base)
        if self.place(n.args[1]) != 0:
            raise Cannot('place of candidates')
        p = self.formula(n.args[2], None)
        got = None
        for v in ('pres', 'sal', 'theta'):
            want = leaf((v, 'b')) + (leaf((v, 'a')) - leaf((v, 'b'))) * leaf('E') * _inv(leaf('D'))
            if p.same(want):
                got = v
        names = sorted({a[1][0] for mono in p.t for a, _e in mono if a[0] == 'leaf' and isinstance(a[1], tuple)})
        want = 'before + (T - theta before)/(theta after - theta before) * (after - before)'
        self.c.that(bool(got), R1, 'interpolant of ' + ' and '.join(names), f"{p} (D, E: theta after and T less theta before); expected {want}"[:400], LOC)
        self.c.that(b, R1, 'other places of ' + ' and '.join(names), 'missing before the candidates are written' if b else f"{base}"[:150], LOC)
        self.done[n] = got or (names[0] if len(names) == 1 else None)
        return self.done[n]

    def stations(self, n):
        n = resolve(n)
        if call(n, 'unique'):
            x = resolve(positional(n)[0])
            if x.op == 'getitem' and const(x.args[1]) in (0, 1) and self.place(x.args[0]) == 0:
                if const(x.args[1]) == 0:
                    raise Bad('casts taken from the level index')
                return True
        return None

    def nearest(self, n, sts):
        """The choice among the crossings of each cast."""
        n = resolve(n)
        if n.op != 'call':
            raise Cannot('choice by ' + n.op)
        if n.args[0] in ('numpy.nanargmax', 'numpy.argmax', 'numpy.argmin'):
            return False, 'chosen by ' + n.args[0]
        if n.args[0] != 'numpy.nanargmin':
            raise Cannot('choice by ' + str(n.args[0]))
        if axis(n) != 0:
            return (False, f"along axis {axis(n)}") if axis(n) in (1, -1, None) else (None, '')
        x = resolve(positional(n)[0])
        if x.op == 'abs':
            d = resolve(x.args[0])
        elif call(x, 'square') or x.op == '**' and num(x.args[1]) == 2:
            d = resolve(x.args[1] if x.op == 'call' else x.args[0])
        elif x.op == '*' and resolve(x.args[0]) is resolve(x.args[1]):
            d = resolve(x.args[0])
        elif x.op == '-':
            return False, 'signed difference'
        else:
            raise Cannot('distance ' + x.op)
        if d.op != '-':
            return (False, 'distance is not a difference') if d.op in ('+', 'getitem', 'store') else (None, d.op)
        a, b = d.args
        if self.level(a):
            a, b = b, a
        f = self.level(b)
        for x in (a, b):
            x = resolve(x)
            if x.op == 'call' and x.args[0].replace('nan', '') in ('numpy.min', 'numpy.max', 'numpy.mean', 'numpy.median', 'numpy.amin', 'numpy.amax') \
                    and len(positional(x)) == 1 and resolve(positional(x)[0]).op == 'param':
                return False, f"distance from {x}"
        if f is None:
            raise Cannot('distance from ' + str(b)[:80])
        a = resolve(a)
        if a.op != 'getitem':
            raise Cannot('crossings ' + a.op)
        i = resolve(a.args[1])
        if i.op == 'tuple' and len(i.args) == 2 and full_slice(i.args[0]):
            if resolve(i.args[1]) is not sts:
                return False, 'crossings of other casts'
            v = self.candidates(a.args[0])
        else:
            raise Cannot('crossings of ' + str(i)[:80])
        return v == 'pres' and f == 'float_pres', f"crossing of nearest {v} to {f}"

    def result(self, n, want, seen):
        """Every way the result matrix is made."""
        n = peel(n)
        if n in seen:
            return
        seen.add(n)
        if call(n, 'full', 'full_like'):
            self.c.that(is_nan(n.args[2]) or False, R3, want + ': default', f"{n}"[:150], LOC)
            if n.args[0] == 'numpy.full':
                s = resolve(n.args[1])
                if s.op == 'tuple' and len(s.args) == 2:
                    r, k = (resolve(a) for a in s.args)
                    def dim_of(x, names, ks):
                        return x.op == 'dim' and num(x.args[1]) in ks and resolve(x.args[0]).op == 'param' and resolve(x.args[0]).args[0] in names or \
                            x.op == 'size' and resolve(x.args[0]).op == 'param' and resolve(x.args[0]).args[0] in names and ks == (0,)
                    ok = dim_of(r, FLOAT, (0,)) and dim_of(k, VARS, (1,))
                    self.c.that(True if ok else False if r.op == k.op == 'dim' else None, R3, want + ': shape', f"{s}"[:150], LOC)
            return
        if n.op == 'phi':
            a, b = (peel(x) for x in n.args[1:])
            for x, y in ((a, b), (b, a)):
                if call(x, 'full', 'full_like') and not call(y, 'full', 'full_like') or y.op == 'store' and x.op == 'mu' or y.op == 'phi' and x.op == 'mu':
                    self.skips.append((n.args[0], want))
            self.result(a, want, seen)
            self.result(b, want, seen)
            return
        if n.op == 'mu':
            self.result(n.init, want, seen)
            if n.next is not None:
                self.result(n.next, want, seen)
            return
        if n.op == 'store':
            self.result(n.args[0], want, seen)
            self.written(n, want)
            return
        if call(n, 'zeros', 'ones', 'empty'):
            raise Bad('result starts as ' + n.args[0])
        raise Cannot('result made by ' + n.op)

    def skipped(self, cond, want):
        try:
            self.unneeded(cond)
        except Bad as e:
            self.c.that(False, R3, want + ': nothing interpolated', str(e), LOC)
        except Cannot as e:
            self.c.und(R3, want + ': nothing interpolated', str(e)[:200], LOC)

    def unneeded(self, cond):
        cond = resolve(cond)
        if cond.op == 'not':
            return self.unneeded(cond.args[0])
        if cond.op in ('and', 'or'):
            for a in cond.args:
                self.unneeded(a)
            return
        if cond.op == 'getitem' and self.mask(cond.args[0]) is not None:
            if resolve(cond.args[1]) in self.levels or True:
                return
        self.emptiness(cond)

    def written(self, n, want):
        i, x = resolve(n.args[1]), peel(n.args[2])
        if i.op != 'tuple' or len(i.args) != 2:
            raise Cannot('place of results')
        fi, sts = (resolve(a) for a in i.args)
        if x.op != 'getitem':
            raise Cannot('value of results ' + x.op)
        j = resolve(x.args[1])
        if j.op != 'tuple' or len(j.args) != 2:
            raise Cannot('choice of results')
        got = self.candidates(x.args[0])
        self.c.that(got == want, R1, f"{want} result", f"filled with {got}", LOC)
        ok = self.stations(sts)
        self.c.that(True if ok and resolve(j.args[1]) is sts else False if ok else None, R2, want + ': cast', f"{j.args[1]} into {sts}"[:200], LOC)
        good, why = self.nearest(j.args[0], sts)
        self.c.that(good, R2, want, why, LOC)
        if fi not in self.levels:
            self.levels.append(fi)
        self.c.that(len(self.levels) == 1, R1, want + ': float level', f"{len(self.levels)} level(s) used together", LOC)
        self.fi = fi


def N_isfinite(a):
    from ..ir import mk
    return mk('isfinite', a)


def _inv(p):
    from ..algebra import power
    return power(p, -1)


def rule_results(c, it):
    ret = resolve(it.ret_node)
    if ret.op != 'tuple' or len(ret.args) != 2:
        c.und(R1, FN, 'result is ' + ret.op, LOC)
        return
    s = Scene(c, it)
    for want, n in zip(('sal', 'pres'), ret.args):
        try:
            s.result(n, want, set())
        except Bad as e:
            c.that(False, R1, want, str(e)[:200], LOC)
        except Cannot as e:
            c.und(R1, want, str(e)[:200], LOC)
    for cond, want in dict.fromkeys(s.skips):
        s.skipped(cond, want)
    for v in VARS.values():
        if v not in s.masked and s.places:
            c.und(R4, v, 'samples not seen to be brought together', LOC)
    c.that(len(s.places) == 1 or (None if not s.places else False), R1, 'places', f"{len(s.places)} set(s) of bracketing places", LOC)
    choice(c, s, it)
    for p in s.places:
        bracket(c, s, p)
    for fi in s.levels[:1]:
        levels(c, s, it, fi)


def choice(c, s, it):
    """Choosing among no crossings fails: it must be reached only when there are some."""
    for e in it.events:
        if e.kind != 'call' or e.name not in ('numpy.nanargmin', 'numpy.argmin', 'numpy.nanargmax'):
            continue
        ok = False
        for g, p in e.guards:
            places, t = s.nothing(g)
            if places and (places[0] in s.places) and bool(p) != t:
                ok = True
            if any(resolve(x) in s.places for x in walk(g)) and not places:
                ok = ok or None
        if not ok and [t for t in e.tries if t[0] == 'try']:
            ok = None
        c.that(ok, R3, 'choice at ' + A.where(e), 'reached only when the float temperature is bracketed somewhere' if ok else 'reached when no cast brackets the float temperature, where it fails', A.where(e))


def bracket(c, s, p):
    cond = positional(p)[0] if p.op == 'call' else p
    for b in (1.0, 2.0, 3.0, 1.5, 2.5, NA):
        for a in (1.0, 2.0, 3.0, 1.5, 2.5, NA):
            want = (b - 2.0) * (a - 2.0) <= 0 and a != b
            def name(x):
                return 'missing' if x != x else {1.0: 'below', 1.5: 'below, nearer', 2.0: 'equal', 2.5: 'above, nearer', 3.0: 'above'}[x]
            inst = f"theta before {name(b)}, after {name(a)}"
            try:
                got = s.truth(cond, 'pair', {'float_theta': 2.0, 'a': a, 'b': b, 'float_pres': 100.0, 'float_sal': 35.0})
            except Cannot as e:
                c.und(R3, inst, str(e)[:200], LOC)
                return
            c.that(got == want, R3, inst, f"{'used' if got else 'not used'} as a bracket", LOC)


def levels(c, s, it, fi):
    if fi.op == 'getitem':
        x, iv = resolve(fi.args[0]), resolve(fi.args[1])
        while x.op == 'getitem' and (const(x.args[1]) == 0 or resolve(x.args[1]).op == 'tuple'):
            x = resolve(x.args[0])
        while call(x, 'ravel', 'squeeze', 'array', 'asarray'):
            x = resolve(x.args[1])
        if call(x, 'nonzero', 'where', 'flatnonzero', 'argwhere') and iv.op == 'iv':
            m = s.mask(positional(x)[0])
            if m is None:
                c.und(R3, 'float levels', str(x)[:150], LOC)
                return
            c.that('float_pres' in m and m <= set(FLOAT), R3, 'float levels', 'those with finite ' + ', '.join(sorted(m)), LOC)
            c.that(num(iv.args[0]) == 0 and num(iv.args[2]) == 1 and resolve(iv.args[1]).op in ('dim', 'size') or (False if num(iv.args[0]) not in (0, None) else None), R3,
                   'every float level', f"{iv}"[:120], LOC)
            return
    c.und(R3, 'float levels', str(fi)[:150], LOC)


def rule_inputs(c, it):
    pars = set(list(VARS) + list(FLOAT))
    n = 0
    for e in it.events:
        if e.kind != 'mutate':
            continue
        n += 1
        tags = {t for r in (e.roots or ()) for t in (it.meta.get(r) or {}).get('tags', ())}
        hit = sorted(p for p in pars if 'param:' + p in tags)
        c.that(not hit, R5, 'write at ' + A.where(e), 'changes ' + ', '.join(hit) if hit else 'an array made here', A.where(e))
    c.that(True, R5, 'writes seen', str(n), LOC)


def main():
    c = Check('C26', 'interpolated salinity and pressure come from the same place in the same cast',
              'Both results are followed back through selection, candidates, weights and bracketing places to the reference samples: each candidate must be the formula '
              'before + (T - theta before)/(theta after - theta before)*(after - before) of its own variable at one common set of places, the test for these places is decided '
              'for every order of the three temperatures, the choice among crossings must minimise the distance in pressure for both, and every array changed must be one made here.',
              'Every float profile and reference data set; temperatures are represented by their order.')
    it = A.fn(FN)
    if it is None:
        c.und(R1, FN, 'function not found')
        raise SystemExit(c.finish())
    c.covered(it)
    c.rule(rule_results, it)
    c.rule(rule_inputs, it)
    raise SystemExit(c.finish())

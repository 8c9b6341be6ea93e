"""C35: in the fit, profile number, value, error and covariance of a sample stay together."""
from .. import analyses as A
from ..ir import N, resolve
from ..masks import num
from ..report import Check

R1, R2, R3 = 'samples kept together', 'covariance in the order of the samples', 'statistics of a profile'
FIT = 'pyowc.core.stats:brk_pt_fit'
ARITH = {'+', '-', '*', '/', '**', 'and', 'or', '<', '<=', '==', 'add'}
UNARY = {'isnan', 'isfinite', 'not', 'abs', 'neg'}
SAME = {'numpy.ravel', 'numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.squeeze', 'numpy.sqrt', 'numpy.square', 'numpy.exp', 'numpy.log', 'numpy.abs',
        'numpy.isfinite', 'numpy.isnan', 'numpy.reciprocal', 'numpy.atleast_1d', 'numpy.astype', 'numpy.ascontiguousarray', 'numpy.float64'}
PAIR = {'numpy.add', 'numpy.subtract', 'numpy.multiply', 'numpy.divide', 'numpy.true_divide', 'numpy.power', 'numpy.logical_and', 'numpy.logical_or',
        'numpy.where', 'numpy.maximum', 'numpy.minimum'}
REDUCE = {'numpy.mean', 'numpy.nanmean', 'numpy.std', 'numpy.nanstd', 'numpy.sum', 'numpy.sum0', 'numpy.nansum', 'numpy.max', 'numpy.min', 'numpy.amax',
          'numpy.amin', 'numpy.var', 'numpy.median', 'sum', 'builtins.sum', 'numpy.average', 'numpy.unique', 'numpy.ones', 'numpy.zeros', 'numpy.random.randn', 'numpy.all',
          'numpy.any', 'numpy.ones_like', 'numpy.zeros_like', 'numpy.full', 'numpy.eye', 'numpy.identity', 'numpy.arange'}
WHERE = {'numpy.argwhere', 'numpy.flatnonzero', 'numpy.nonzero'}
UNKNOWN = '?'


class Mismatch(Exception):
    pass


def step(s):
    return {'where': 'filtered', 'order': 'ordered', 'sub': 'selected'}.get(s[0], s[0]) if isinstance(s, tuple) else s


def text(p):
    return ' then '.join(f"{step(s)} by {str(s[1])[:90]}" if isinstance(s, tuple) else str(s) for s in p) if isinstance(p, tuple) else str(p)


class Records:
    """Which samples, in which order, each array of the fit holds.
    None: no sample axis; ('s', path): one entry per sample; ('c', rows, columns); ('m', by): levels x profiles."""

    def __init__(self):
        self.memo = {}
        self.bad = []       # (node, detail)
        self.joined = 0

    def of(self, n):
        n = resolve(n)
        if n not in self.memo:
            self.memo[n] = self.start(n)
            r = self._of(n)
            self.memo[n] = r
        return self.memo[n]

    def start(self, n):
        if n.op == 'mu' and n.init is not None:
            return self.of(n.init)
        return UNKNOWN

    def join(self, n, parts):
        """Elementwise combination."""
        got = [p for p in parts if p is not None]
        if not got:
            return None
        if UNKNOWN in got:
            return UNKNOWN
        if any(p != got[0] for p in got):
            if {p[0] for p in got} == {'s'}:
                a = got[0]
                b = next(p for p in got if p != a)
                self.bad.append((n, text(a[1]) + '  combined with  ' + text(b[1])))
            return UNKNOWN
        self.joined += len(got) > 1
        return got[0]

    def _of(self, n):
        op = n.op
        if op == 'param':
            k = n.args[0]
            return ('m', 'level') if k in ('x', 'y', 'n_err') else ('c', ('profile by profile',), ('profile by profile',)) if k == 'lvcov' else None
        if op in ('const', 'nan', 'pi', 'iv', 'dim', 'shape', 'size', 'int', 'str', 'raw', 'default', 'absent', 'undef'):
            return None
        if op == 'T':
            p = self.of(n.args[0])
            if p and p[0] == 'm':
                return 'm', {'level': 'profile', 'profile': 'level'}[p[1]]
            return ('c', p[2], p[1]) if p and p[0] == 'c' else p
        if op in ARITH:
            return self.join(n, [self.of(a) for a in n.args])
        if op in UNARY:
            return self.of(n.args[0])
        if op == 'phi':
            a, b = self.of(n.args[1]), self.of(n.args[2])
            return a if a == b or b is None else b if a is None else UNKNOWN
        if op == 'mu':
            a = self.of(n.init) if n.init is not None else None
            c = self.counted(n)
            if c is not None:
                return c
            b = self.of(n.next) if n.next is not None else a
            return a if a == b or b is None else b if a is None else UNKNOWN
        if op == 'getitem':
            return self.item(n)
        if op == 'store':
            return self.of(n.args[0]) if len(n.args) > 2 else UNKNOWN
        if op == 'comp' and len(n.args) == 3:
            iv = resolve(n.args[0])
            if iv.op == 'iv':
                return UNKNOWN
        if op == 'call':
            return self.call(n)
        return UNKNOWN

    # the covariance of the chosen samples, filled entry by entry
    def counted(self, n):
        outer = n
        for _ in range(3):
            x = resolve(outer.next) if outer.next is not None else None
            if x is None:
                return None
            if x.op == 'mu':
                outer = x
                continue
            break
        if x.op != 'store' or x.args[0] is not outer and resolve(x.args[0]) is not outer:
            return None
        if len(x.args) == 4:
            pos, val = x.args[1:3], resolve(x.args[3])
        else:
            i = resolve(x.args[1])
            pos, val = (i.args if i.op == 'tuple' else ()), resolve(x.args[2])
        if len(pos) != 2 or val.op != 'getitem':
            return None
        src = self.of(val.args[0])
        k = resolve(val.args[1])
        if not src or src[0] != 'c' or k.op != 'tuple' or len(k.args) != 2:
            return None
        loops = {}
        paths = []
        for p, at in zip(src[1:], k.args):
            at = resolve(at)
            at = self.flatindex(at)
            if at.op != 'getitem':
                iv = self.position(at)
                stop = resolve(iv.args[1]) if iv is not None and iv.op == 'iv' else None
                if stop is not None and stop.op in ('dim', 'size') and (self.where(stop.args[0]) is not None or self.chosen(stop.args[0], p)):
                    self.bad.append((n, 'entries of the first samples are stored for the samples chosen'))
                    return UNKNOWN
                return None
            iv = resolve(at.args[1])
            w = self.where(at.args[0])
            if iv.op != 'iv' or w is None:
                return None
            paths.append((iv, self.narrow(n, p, w)))
        where = [self.position(p) for p in pos]
        if None in where:
            return None
        (la, ra), (lb, rb) = paths
        if where == [la, lb]:
            return 'c', ra, rb
        if where == [lb, la]:
            return 'c', rb, ra
        self.bad.append((n, 'covariance entries are stored at other places than their samples'))
        return UNKNOWN

    def flatindex(self, n):
        while n.op == 'getitem' and num(n.args[1]) == 0:
            n = resolve(n.args[0])
        return n

    def position(self, n):
        """The loop whose iteration number the index is."""
        n = resolve(n)
        if n.op == 'iv' and num(n.args[0]) == 0 and num(n.args[2]) == 1:
            return n
        if n.op == 'mu' and n.next is not None:
            x = resolve(n.next)
            if x.op == '+' and any(num(a) == 1 for a in x.args) and any(resolve(a) is n for a in x.args):
                i = resolve(n.init)
                if i.op == 'mu' and num(i.init) == 0 and num(i.next) == 0 or num(i) == 0:
                    k = self.it.loopinfo.get(n.meta, {}).get('key')
                    return resolve(k) if isinstance(k, N) else None
        return None

    def where(self, n):
        """Mask of an index array selecting samples, in their order."""
        n = resolve(n)
        while n.op == 'call' and n.args[0] in ('numpy.ravel', 'numpy.array', 'numpy.squeeze', 'numpy.asarray') or n.op == 'getitem' and num(n.args[1]) == 0 and resolve(n.args[0]).op == 'call' and resolve(n.args[0]).args[0] in ('numpy.nonzero', 'numpy.where'):
            n = resolve(n.args[1] if n.op == 'call' else n.args[0])
        if n.op == 'call' and (n.args[0] in WHERE or n.args[0] == 'numpy.where' and len(n.args) == 2):
            return resolve(n.args[1])
        return n if n.op in ('and', 'or', 'not', 'isfinite', 'isnan', '==', '<', '<=') else None

    def chosen(self, n, path):
        """An array of some of the samples of a path."""
        p = self.of(n)
        return bool(p) and p != UNKNOWN and p[0] == 's' and len(p[1]) > len(path)

    def narrow(self, n, path, mask):
        p = self.of(mask)
        if p is None or p == UNKNOWN or p[0] != 's':
            return path + (('where', mask),) if p is None else path + (('?', mask),)
        if p[1] != path:
            self.bad.append((n, f"samples {text(path)} selected with a mask over samples {text(p[1])}"))
        return path + (('where', mask),)

    def index(self, n, path, i):
        i = resolve(i)
        if i.op == 'slice' and all(resolve(a).op == 'const' and resolve(a).args[0] is None for a in i.args):
            return path
        w = self.where(i)
        if w is not None and (i.op != 'call' or True):
            p = self.of(w)
            if p and p != UNKNOWN and p[0] == 's':
                return self.narrow(n, path, w)
        j = i
        while j.op == 'call' and j.args[0] in ('numpy.ravel', 'numpy.array', 'numpy.squeeze'):
            j = resolve(j.args[1])
        if j.op == 'call' and j.args[0] in ('numpy.argsort', 'numpy.lexsort'):
            p = self.of(j.args[1])
            if p and p != UNKNOWN and p[0] == 's':
                if p[1] != path:
                    self.bad.append((n, f"samples {text(path)} put in the order of samples {text(p[1])}"))
                return path + (('order', j),)
            return None
        if num(i) is not None or i.op in ('iv',) or i.op in ('+', '-', 'dim', 'size', 'int'):
            return 'one'
        return path + (('sub', i),)

    def item(self, n):
        a, i = self.of(n.args[0]), resolve(n.args[1])
        if a is None or a == UNKNOWN:
            return a
        if a[0] == 's':
            if i.op == 'tuple':
                if len(i.args) == 2 and all(resolve(x).op == 'slice' or resolve(x).op == 'const' and resolve(x).args[0] is None for x in i.args):
                    return a
                return UNKNOWN
            p = self.index(n, a[1], i)
            return UNKNOWN if p is None else None if p == 'one' else ('s', p)
        if a[0] == 'c':
            if i.op == 'call' and i.args[0] == 'numpy.ix_' and len(i.args) == 3:
                rows, cols = i.args[1:]
            elif i.op == 'tuple' and len(i.args) == 2:
                rows, cols = map(resolve, i.args)
                if rows.op != 'slice' and cols.op != 'slice':
                    return UNKNOWN
            else:
                rows, cols = i, None
            r = self.index(n, a[1], rows)
            c = self.index(n, a[2], cols) if cols is not None else a[2]
            if r is None or c is None:
                return UNKNOWN
            if r == 'one' or c == 'one':
                return None if r == c else ('s', c if r == 'one' else r)
            return 'c', r, c
        return UNKNOWN

    def call(self, n):
        f = n.args[0]
        pos = [a for a in n.args[1:] if isinstance(a, N) and a.op not in ('kw', 'raw')]
        kw = {a.args[0]: resolve(a.args[1]) for a in n.args[1:] if isinstance(a, N) and a.op == 'kw'}
        if f == 'numpy.ravel':
            p = self.of(pos[0])
            if p and p[0] == 'm':
                by = p[1]
                o = kw.get('order', resolve(pos[1]) if len(pos) > 1 else None)
                if o is not None and o.op == 'const' and o.args[0] == 'F':
                    by = {'level': 'profile', 'profile': 'level'}[by]
                return 's', (by + ' by ' + by,)
            return p
        if f in SAME and pos:
            return self.of(pos[0])
        if f == 'numpy.sort' and pos:
            p = self.of(pos[0])
            return ('s', p[1] + (('sorted', n),)) if p and p[0] == 's' else p
        if f in PAIR:
            return self.join(n, [self.of(a) for a in pos])
        if f in REDUCE:
            if 'axis' in kw and self.of(pos[0]) not in (None,):
                return UNKNOWN
            return None
        if f in ('numpy.diag', 'numpy.diagonal') and pos:
            p = self.of(pos[0])
            if p is None or p == UNKNOWN:
                return p
            if p[0] == 's':
                return 'c', p[1], p[1]
            if p[0] == 'c':
                return ('s', p[1]) if p[1] == p[2] else UNKNOWN
        if f == 'numpy.dot' and len(pos) == 2:
            a, b = map(self.of, pos)
            if UNKNOWN in (a, b):
                return UNKNOWN
            ra = a[1] if a and a[0] == 'c' else None
            ca = a[-1] if a and a[0] in 'cs' else None
            rb = b[1] if b and b[0] in 'cs' else None
            cb = b[2] if b and b[0] == 'c' else None
            if ca is not None and rb is not None:
                if ca != rb:
                    self.bad.append((n, text(ca) + '  multiplied with  ' + text(rb)))
                    return UNKNOWN
                self.joined += 1
            return ('c', ra, cb) if ra and cb else ('s', ra) if ra else ('s', cb) if cb else None
        if f == FIT:
            ps = [self.of(a) for a in pos[:3]]
            flat = [p[1] for p in ps if p and p != UNKNOWN and p[0] in 'cs']
            return UNKNOWN if len(set(flat)) != 1 else ('fit', flat[0])
        return UNKNOWN


def nodes(*roots):
    seen, todo = set(), list(roots)
    while todo:
        n = resolve(todo.pop())
        if n in seen:
            continue
        seen.add(n)
        if n.op == 'mu':
            todo += [z for z in (n.init, n.next) if z is not None]
        todo += [a for a in n.args if isinstance(a, N)]
    return seen


class Once:
    """Obligations met in several forms of the call are listed once unless they fail."""

    def __init__(self, c):
        self.c, self.seen = c, set()

    def that(self, ok, rule, inst, *rest):
        getattr(self, 'und' if ok is None else 'ok' if ok else 'bad')(rule, inst, *rest)

    def __getattr__(self, kind):
        def add(rule, inst, *rest):
            if (kind, rule, inst) + rest not in self.seen:
                self.seen.add((kind, rule, inst) + rest)
                getattr(self.c, kind)(rule, inst, *rest)
        return add


def rule_records(c):
    runs = A.fits()
    if not runs:
        return c.und(R1, 'fit_cond', 'not found')
    once = Once(c)
    for _way, it in runs:
        c.covered(it)
        records(once, it)


def records(c, it):
    loc = 'pyowc/core/stats.py fit_cond'
    r = Records()
    r.it = it
    fits = [e for e in it.events if e.name == FIT]
    every = nodes(it.ret_node, *[a for e in fits for a in e.args])
    for n in every:
        r.of(n)
    for n, why in r.bad[:6]:
        c.bad(R1, n.op if n.op != 'call' else str(n.args[0]), why, loc)
    if not r.bad:
        c.ok(R1, 'combinations of sample arrays', f"{r.joined} combinations of arrays of the same samples in the same order", loc)
    order = set()
    for e in fits:
        ps = [r.of(a) for a in e.args[:3]]
        flat = [p[1] for p in ps if p and p != UNKNOWN and p[0] in 'sc' and (p[0] == 's' or p[1] == p[2])]
        where = A.where(e)
        if len(flat) < 3:
            c.und(R1, 'fit at ' + where.split(':')[-1], ', '.join(map(text, [p if p in (None, UNKNOWN) else p[1] for p in ps]))[:200], where)
        else:
            c.that(len(set(flat)) == 1, R1, 'profile numbers, values and weights of a fit', '; '.join(sorted({text(p) for p in flat})), where)
            order.add(flat[0])
    cov = {p for n in every for p in [r.memo.get(n)] if n.op == 'call' and n.args[0] == 'numpy.dot' for a in n.args[1:] if isinstance(a, N)
           for p in [r.memo.get(resolve(a))] if p and p[0] == 'c' and 'lvcov' in names(a)}
    if not cov:
        c.und(R2, 'covariance of the samples', 'not followed', loc)
    for p in cov:
        ok = p[1] == p[2] and set(order) == {p[1]}
        c.that(ok, R2, 'rows and columns', 'rows ' + text(p[1]) + ('' if ok else '   columns ' + text(p[2]) + '   samples ' + '/'.join(map(text, order))), loc)
    rule_statistics(c, r, it, loc)


def names(n):
    return {x.args[0] for x in nodes(n) if x.op == 'param'}


def rule_statistics(c, r, it, loc):
    res = [x for x in ends(it.ret_node) if x.op in ('tuple', 'list') and len(x.args) > 6]
    if not res:
        return c.und(R3, 'samples of the profile', 'results not found', loc)
    seen, subs = set(), set()
    for x in res:
        for n in nodes(x.args[5], x.args[6]):
            if n.op != 'getitem':
                continue
            p, q = r.of(n), r.of(n.args[0])
            if p and q and p[0] == q[0] == 's' and len(p[1]) == len(q[1]) + 1 and any(s[0] == 'order' for s in q[1]):
                subs.add(p[1][-1])
    for kind, i in subs:
        if kind == 'where':
            i = resolve(i)
            own = i.op == '==' and any(r.of(a) and r.of(a)[0] == 's' and 'x' in names(a) and not names(a) & {'y', 'n_err'} for a in i.args)
            c.that(True if own else None, R3, 'samples of the profile', 'samples whose profile number is that of the profile' if own else str(i)[:150], loc)
            continue
        got = Span(r).of(i)
        if got is None:
            c.und(R3, 'samples of the profile', str(i)[:150], loc)
            continue
        first, lo, dlo, hi, dhi = got
        ok = (lo, dlo, hi, dhi) == ((0, 0, 1, 0) if first else (-1, 1, 0, 1))
        say = lambda k, d: f"{'first' if first else 'last'}[k{k:+d}]{d:+d}".replace('+0', '')
        c.that(ok, R3, 'samples of the profile' if ok else f"{say(lo, dlo)} to {say(hi, dhi - 1)}",
               f"the samples {say(lo, dlo)} to {say(hi, dhi - 1)}, where {'first' if first else 'last'}[k] is the {'first' if first else 'last'} sample of the profile", loc)
    if not subs:
        c.und(R3, 'samples of the profile', 'not found', loc)


def ends(n):
    n = resolve(n)
    return ends(n.args[1]) + ends(n.args[2]) if n.op == 'phi' else [n]


class Span:
    """Range of samples in terms of the first (last) sample of each profile."""

    def __init__(self, r):
        self.r = r
        self.first = set()
        self.base = set()

    def of(self, i):
        i = resolve(i)
        while i.op == 'call' and i.args[0] in ('numpy.array', 'list', 'numpy.ravel'):
            i = resolve(i.args[1])
        if i.op == 'call' and i.args[0] in ('numpy.arange', 'range') and len(i.args) == 3:
            a, b = i.args[1:]
        elif i.op == 'slice' and (len(i.args) < 3 or resolve(i.args[2]).args[0] is None):
            a, b = i.args[:2]
        else:
            return None
        a, b = self.bound(a), self.bound(b)
        if a is None or b is None or len(self.first) != 1 or len(self.base) > 1:
            return None
        return next(iter(self.first)), a[0], a[1], b[0], b[1]

    def bound(self, n):
        """(shift of the profile, offset): first[k + shift] + offset."""
        n = resolve(n)
        if n.op in ('+', '-') and len(n.args) == 2:
            for x, y in (n.args, n.args[::-1]):
                k = num(y)
                if k is not None and float(k).is_integer():
                    b = self.bound(x)
                    return b and (b[0], b[1] + (int(k) if n.op == '+' else -int(k)))
            return None
        if n.op == 'int' or n.op == 'call' and n.args[0] in ('int', 'numpy.squeeze'):
            return self.bound(n.args[-1])
        if n.op == 'getitem':
            i = resolve(n.args[1])
            if num(i) == 0 or i.op == 'tuple' and all(num(x) == 0 for x in i.args):
                return self.bound(n.args[0])
            k = self.number(i)
            if k is None:
                return None
            return self.table(n.args[0], k)
        return None

    def number(self, i):
        """Shift of a profile position from the position of the profile."""
        i = resolve(i)
        if i.op in ('+', '-') and len(i.args) == 2:
            for x, y in (i.args, i.args[::-1]):
                if num(y) is not None:
                    k = self.number(x)
                    return k if k is None else k + (int(num(y)) if i.op == '+' else -int(num(y)))
            return None
        while i.op == 'getitem' and (num(i.args[1]) == 0 or resolve(i.args[1]).op == 'tuple' and all(num(x) == 0 for x in resolve(i.args[1]).args)):
            i = resolve(i.args[0])
        while i.op == 'call' and i.args[0] in ('numpy.ravel', 'numpy.squeeze'):
            i = resolve(i.args[1])
        self.base.add(i)
        return 0

    def table(self, n, k):
        n = resolve(n)
        while n.op == 'call' and n.args[0] in ('numpy.ravel', 'numpy.array', 'numpy.asarray'):
            n = resolve(n.args[1])
        if n.op == 'call' and n.args[0] in ('numpy.concatenate', 'numpy.append', 'numpy.hstack', 'numpy.insert'):
            parts = resolve(n.args[1]).args if n.args[0] in ('numpy.concatenate', 'numpy.hstack') else n.args[1:3]
            parts = [resolve(p) for p in parts if isinstance(p, N)]
            if len(parts) == 2 and (parts[0].op == 'list' and len(parts[0].args) == 1 or num(parts[0]) is not None):
                return self.table(parts[1], k - 1)
            if len(parts) == 2 and (parts[1].op == 'list' and len(parts[1].args) == 1 or num(parts[1]) is not None or parts[1].op in ('dim', 'size')):
                return self.table(parts[0], k)
            return None
        if n.op in ('+', '-') and len(n.args) == 2 and num(n.args[1]) is not None:
            b = self.table(n.args[0], k)
            return b and (b[0], b[1] + (int(num(n.args[1])) if n.op == '+' else -int(num(n.args[1]))))
        if n.op == 'getitem' and num(n.args[1]) == 1:
            u = resolve(n.args[0])
            if u.op == 'call' and u.args[0] == 'numpy.unique' and self.ordered(u.args[1]):
                self.first.add(True)
                return k, 0
        if n.op == 'call' and n.args[0] == 'numpy.searchsorted' and self.ordered(n.args[1]):
            side = [resolve(a.args[1]).args[0] for a in n.args[1:] if isinstance(a, N) and a.op == 'kw' and a.args[0] == 'side']
            if side in ([], ['left']):
                self.first.add(True)
                return k, 0
            self.first.add(True)
            return k + 1, 0
        return None

    def ordered(self, n):
        p = self.r.of(n)
        return bool(p) and p[0] == 's' and p[1][-1][0] == 'order' and 'x' in names(n)


def main():
    c = Check('C35', 'in the fit a sample keeps its profile number, value, error and covariance',
              'Each array of fit_cond is followed from the inputs through flattening, selection and ordering; the sequence of selections and orderings is '
              'part of its type, and arrays are combined only when these agree; covariance rows and columns carry the same type.',
              'Every array of fit_cond and its break-point function, symbolic in the data.')
    c.rule(rule_records)
    return c.finish()

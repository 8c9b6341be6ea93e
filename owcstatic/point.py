"""The value of one arbitrary element of an array through erasures, case by case.

A scene gives the element's value in every input array and the values of the limits; stores under
masks, loops over the rows of an index list and branches are followed for that element only."""
import math
from .ir import N, resolve
from .algebra import Cannot
from .masks import component, crossed, num, is_nan, shortened, walk_nan

NAN = float('nan')
UNK = object()          # a truth value that depends on other elements
AXIS0 = ('numpy.argwhere', 'numpy.nonzero', 'numpy.where', 'numpy.flatnonzero')
SAME = ('numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.ascontiguousarray', 'copy.deepcopy', 'copy.copy', 'numpy.atleast_2d',
        'numpy.asanyarray', 'numpy.squeeze', 'numpy.float64', 'float', 'bool', 'numpy.bool_', 'numpy.astype', 'numpy.item',
        'numpy.logical_and0', 'numpy.ravel')


class Wrong(Exception):
    """An element is treated by the test of another one."""


class Point:
    plane = False       # every input is a table: its elements are found by two positions

    def __init__(self, leaf_of, values, limit_of=None, limits=None):
        self.leaf_of, self.values = leaf_of, values
        self.limit_of, self.limits = limit_of or (lambda n: None), limits or {}
        self.memo, self.active = {}, frozenset()

    def val(self, n):
        n = resolve(n)
        k = (n, self.active)
        if k not in self.memo:
            self.memo[k] = self._val(n)
        return self.memo[k]

    def _val(self, n):
        v = num(n)
        if v is not None:
            return v
        if n.op == 'const':
            return n.args[0]
        if is_nan(n):
            return NAN
        name = self.limit_of(n)
        if name is not None:
            if not self.limits.get(name, []):
                raise Cannot('value of an absent limit')
            return self.limits[name][0]
        name = self.leaf_of(n)
        if name is not None:
            return self.values[name]
        if n.op == 'store':
            b, i, x = n.args
            hit = self.own(i)
            if hit is UNK:
                raise Cannot('store at unknown place')
            return self.element(x, i) if hit else self.val(b)
        if n.op == 'mu':
            if n.meta in self.active or n.next is None:
                return self.val(n.init)
            before = self.active
            self.active = before | {n.meta}
            try:
                return self.val(n.next)
            finally:
                self.active = before
        if n.op == 'phi':
            c = self.truth(n.args[0])
            if c is UNK:
                a, b = self.val(n.args[1]), self.val(n.args[2])
                if a is UNK or b is UNK or not same(a, b):
                    return self.undecided()
                return a
            return self.val(n.args[1] if c else n.args[2])
        if n.op == 'comp':
            c = self.truth(n.args[1])
            if c is True:
                return self.val(n.args[2])
            raise Cannot('filtered sequence')
        if n.op == 'getitem':
            hit = self.own(n.args[1])
            if hit is True:
                return self.val(n.args[0])
            if hit is False:
                raise Cannot('another element')
            raise Cannot('unknown element')
        if n.op == 'T':
            return self.val(n.args[0])
        if n.op in ('dim', 'size'):
            return self.count(n)
        if n.op == 'isnan':
            return math.isnan(self.number(n.args[0]))
        if n.op == 'isfinite':
            return math.isfinite(self.number(n.args[0]))
        if n.op in ('not', 'and', 'or', 'truth'):
            vs = [self.truth(a) for a in n.args]
            if n.op == 'truth':
                return vs[0]
            if n.op == 'not':
                return UNK if vs[0] is UNK else not vs[0]
            stop = n.op == 'or'
            if any(v is stop for v in vs):
                return stop
            return UNK if UNK in vs else not stop
        if n.op in ('<', '<=', '=='):
            a, b = self.val(n.args[0]), self.val(n.args[1])
            if UNK in (a, b):
                return UNK
            if isinstance(a, Count) or isinstance(b, Count):
                return order(n.op, a, b)
            if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
                raise Cannot(n.op)
            return {'<': a < b, '<=': a <= b, '==': a == b}[n.op]
        if n.op in ('+', '-', '*', '/', 'neg', 'abs'):
            vs = [self.number(a) for a in n.args]
            try:
                return {'+': lambda: vs[0] + vs[1], '-': lambda: vs[0] - vs[1], '*': lambda: vs[0] * vs[1],
                        '/': lambda: vs[0] / vs[1], 'neg': lambda: -vs[0], 'abs': lambda: abs(vs[0])}[n.op]()
            except (ZeroDivisionError, IndexError):
                raise Cannot(n.op)
        if n.op == 'call':
            return self.call(n)
        raise Cannot('element of ' + n.op)

    def undecided(self):
        raise Cannot('depends on other elements')

    def number(self, n):
        v = self.val(n)
        if v is UNK or isinstance(v, Count) or not isinstance(v, (int, float)):
            raise Cannot('not a number')
        return v

    def truth(self, n):
        v = self.val(n)
        if v is UNK:
            return UNK
        if isinstance(v, Count):
            return order('<', 0, v)
        if isinstance(v, (bool, int, float)):
            return bool(v)
        raise Cannot('truth of ' + str(v))

    def element(self, x, i):
        return self.val(x)

    def call(self, n):
        f, a = n.args[0], [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
        if f in ('numpy.where', 'numpy.logical_where') and len(a) == 3:
            return self.val(a[1] if self.sure(a[0]) else a[2])
        if walk_nan(n):
            return NAN
        if f in ('numpy.zeros', 'numpy.zeros_like', 'numpy.ones', 'numpy.ones_like'):
            return 1.0 if 'ones' in f else 0.0
        if f in ('numpy.full', 'numpy.full_like') and len(a) > 1:
            return self.val(a[1])
        if f in SAME and a:
            return self.val(a[0])
        if f == 'numpy.logical_xor' and len(a) == 2:
            return self.sure(a[0]) != self.sure(a[1])
        if f in ('numpy.any', 'any', 'numpy.sum', 'numpy.count_nonzero', 'numpy.sum0') and a:
            v = self.val(a[0])
            if isinstance(v, bool):
                if f in ('numpy.any', 'any'):
                    return True if v else UNK
                return Count(v)
            if self.limit_of(resolve(a[0])) is not None:
                return bool(v)
            return UNK
        if f in ('numpy.all', 'all') and a:
            v = self.val(a[0])
            return UNK if v is not False else False
        if f in AXIS0:
            return Count(self.sure(a[0]))
        raise Cannot('element of ' + f)

    def sure(self, n):
        v = self.truth(n)
        if v is UNK:
            raise Cannot('mask not known')
        return v

    def count(self, n):
        b = resolve(n.args[0])
        name = self.limit_of(b)
        if name is not None:
            return len(self.limits.get(name, []))
        hit = self.listed(b)
        if hit is None:
            raise Cannot('size')
        return Count(hit)

    def listed(self, n):
        """Whether an index list (rows of argwhere, tuple of nonzero) holds our element; None if it is no such list."""
        n = resolve(n)
        if n.op == 'phi':
            t = self.truth(n.args[0])
            if t is UNK:
                a, b = self.listed(n.args[1]), self.listed(n.args[2])
                return a if a is b else None
            return self.listed(n.args[1] if t else n.args[2])
        if n.op == 'call' and n.args[0] in AXIS0 and len(n.args) == 2:
            return self.sure(n.args[1])
        if n.op == 'call' and n.args[0] in ('zip', 'list', 'tuple', 'numpy.array', 'numpy.asarray', 'numpy.transpose', 'iter', 'sorted'):
            got = [self.listed(x) for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
            return got[0] if got and all(g is got[0] for g in got) else None
        if n.op == 'call' and n.args[0] in ('numpy.vstack', 'numpy.concatenate', 'numpy.append', 'numpy.unique'):
            parts = []
            for x in n.args[1:]:
                if isinstance(x, N) and x.op != 'kw':
                    x = resolve(x)
                    parts += x.args if x.op in ('tuple', 'list') else (x,)
            got = [self.listed(x) for x in parts]
            return None if any(g is None for g in got) or not got else any(got)
        if n.op == 'T':
            return self.listed(n.args[0])
        if n.op == 'getitem':
            hit = self.listed(n.args[0])
            return False if hit is True and shortened(n) else hit     # our element is the one left out
        if n.op == 'tuple' and n.args:
            for k, x in enumerate(n.args):
                if component(x) != k:
                    return None
            got = [self.listed(x) for x in n.args]
            return got[0] if all(g is got[0] for g in got) else None
        if n.op == 'comp':
            i = resolve(n.args[2])
            if i.op in ('tuple', 'list'):
                return self.sure(n.args[1]) and self.positions(i.args)
        return None

    def found(self, n):
        """The test whose hits a list of positions holds."""
        n = resolve(n)
        while n.op == 'getitem' or n.op == 'iv':
            n = resolve(n.args[0])
        return n.args[1] if n.op == 'call' and n.args[0] in AXIS0 and len(n.args) == 2 else None

    def each(self, n):
        """A test of every element of the inputs by itself."""
        if n is None:
            return False
        n = resolve(n)
        if self.leaf_of(n) is not None:
            return True
        if n.op in ('isnan', 'isfinite', 'not', 'store', 'T', 'neg', 'abs'):
            return self.each(n.args[0])
        if n.op in ('and', 'or', '<', '<=', '=='):
            return any(self.each(a) for a in n.args)
        if n.op == 'mu':
            return self.each(n.init)
        return n.op == 'phi' and self.each(n.args[1]) and self.each(n.args[2])

    def own(self, idx):
        """Whether the index covers our element (in that iteration of the loops it belongs to)."""
        i = resolve(idx)
        if i.op == 'phi':
            t = self.truth(i.args[0])
            if t is UNK:
                a, b = self.own(i.args[1]), self.own(i.args[2])
                return a if a is b else UNK
            return self.own(i.args[1] if t else i.args[2])
        hit = self.listed(i)
        if hit is not None:
            if i.op == 'getitem' and component(i) is not None:
                return UNK
            return hit
        return self.positions(i.args if i.op == 'tuple' else (i,))

    def positions(self, parts):
        hits, lists = [], set()
        for k, p in enumerate(parts):
            p = resolve(p)
            while p.op == 'int' or p.op == 'call' and p.args[0] in ('int', 'builtins.int'):
                p = resolve(p.args[0] if p.op == 'int' else p.args[1])
            if p.op == 'slice':
                if any(resolve(x).op != 'const' or resolve(x).args[0] is not None for x in p.args):
                    raise Cannot('stretch of an array')
                continue
            if p.op == 'iv':
                if num(p.args[0]) != 0 or num(p.args[2]) != 1:
                    raise Cannot('loop range')
                stop = resolve(p.args[1])
                if stop.op == 'dim' and num(stop.args[1]) is not None and len(parts) > 1 and num(stop.args[1]) != k:
                    raise Wrong(f"a loop over dimension {num(stop.args[1])} is used as index {k}")
                if stop.op not in ('dim', 'getitem', 'size'):
                    raise Cannot('loop range')
                continue
            hit = self.listed(p)
            if hit is not None:
                c = component(p)
                if p.op == 'getitem' and len(parts) > 1 and c is not None and c != k:
                    raise Wrong(f"coordinate {c} of the found samples is used as index {k}")
                if len(parts) > 1 and p.op == 'getitem' and c is None:
                    raise Cannot('coordinate')
                if self.plane and c is not None and len(parts) == 2 and resolve(parts[1 - k]).op == 'slice' and self.each(self.found(p)):
                    raise Wrong('samples found one by one are erased with the whole ' + ('row' if k == 0 else 'column') + ' they are in')
                hits.append(hit)
                lists.add(p.op == 'getitem')
                continue
            if p.op in ('const',):
                if p.args[0] is None or p.args[0] is Ellipsis:
                    continue
                if num(p) is not None and any(j != k and crossed(q, j) for j, q in enumerate(parts)):
                    raise Wrong(f"samples found anywhere are erased at the fixed position {num(p)} of dimension {k}")
                raise Cannot('fixed position')
            hits.append(self.sure(p))
        if len(set(hits)) > 1:
            raise Cannot('coordinates of different lists')
        return hits[0] if hits else True


class Count:
    """A number of elements: at least one, or any number."""

    def __init__(self, some):
        self.some = bool(some)


def order(op, a, b):
    for x, y, flip in ((a, b, False), (b, a, True)):
        if isinstance(x, Count) and isinstance(y, (int, float)):
            if op == '==':
                return False if y == 0 and x.some or y < 0 else UNK
            if flip:        # y op count
                return True if (y < x.some if op == '<' else y <= x.some) else UNK
            return False if (x.some >= y if op == '<' else x.some > y) else UNK
    return UNK


def same(a, b):
    return a == b or isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b)


class Member(Point):
    """One element of a group all of whose values are known; tests on the whole array look at every member."""
    ARRAYS = ('numpy.amin', 'numpy.min', 'numpy.nanmin', 'numpy.amax', 'numpy.max', 'numpy.nanmax', 'builtins.min', 'builtins.max', 'min', 'max',
              'numpy.any', 'any', 'builtins.any', 'numpy.all', 'all', 'builtins.all', 'numpy.sum', 'numpy.count_nonzero', 'builtins.sum', 'numpy.ptp')

    def __init__(self, leaf_of, values, rows=False):
        super().__init__(leaf_of, values)
        self.group, self.rows = [self], rows

    def truth(self, n):
        try:
            return super().truth(n)
        except Cannot:
            return UNK

    def many(self, n):
        return [m.val(n) for m in self.group]

    def count(self, n):
        b = resolve(n.args[0])
        got = [m.listed(b) for m in self.group]
        if any(g is None for g in got):
            return len(self.group)
        return sum(1 for g in got if g)

    def item(self, n, k):
        """Item k of a short list held in the code."""
        n = resolve(n)
        if n.op == 'store':
            i = num(n.args[1])
            if i is None:
                raise Cannot('position in a list')
            return self.val(n.args[2]) if i == k else self.item(n.args[0], k)
        if n.op == 'phi':
            t = self.truth(n.args[0])
            if t is UNK:
                raise Cannot('condition')
            return self.item(n.args[1] if t else n.args[2], k)
        if n.op in ('list', 'tuple'):
            return self.val(n.args[k])
        if n.op == 'append':
            return self.item(n.args[0], k)
        if n.op == 'comp' and resolve(n.args[1]).op == 'const':
            raise Cannot('list')
        if n.op == 'call' and n.args[0] in ('numpy.array', 'numpy.asarray'):
            return self.item(n.args[1], k)
        raise Cannot('item of ' + n.op)

    def _val(self, n):
        if n.op == 'getitem' and self.leaf_of(n) is None:
            k = num(n.args[1])
            if isinstance(k, int) and listlike(n.args[0]):
                return self.item(n.args[0], k)
            if k is not None and (len(self.group) == 1 or self.rows and k == 0):
                return self.val(n.args[0])
        return super()._val(n)

    def call(self, n):
        f, a = n.args[0], [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
        if f in self.ARRAYS and len(a) == 1:
            vs = self.many(a[0])
            if any(v is UNK for v in vs):
                raise Cannot('test of the group')
            tail = f.rsplit('.', 1)[-1]
            real = [v for v in vs if not (isinstance(v, float) and math.isnan(v))]
            if tail in ('any', 'all'):
                return any(vs) if tail == 'any' else all(vs)
            if tail in ('sum', 'count_nonzero'):
                return sum(vs) if tail == 'sum' else sum(1 for v in vs if v)
            if 'nan' not in f and len(real) < len(vs):
                return NAN
            return {'min': min, 'max': max}[tail.replace('nan', '').replace('a', '', 1) if tail.startswith('a') else tail.replace('nan', '')](real) if tail != 'ptp' else max(real) - min(real)
        if f in ('numpy.maximum', 'numpy.minimum') and len(a) == 2:
            return (max if f.endswith('maximum') else min)(self.number(a[0]), self.number(a[1]))
        if f in ('numpy.mod', 'numpy.remainder', 'operator.mod') and len(a) == 2:
            return self.number(a[0]) % self.number(a[1])
        return super().call(n)


def listlike(n):
    n = resolve(n)
    if n.op in ('store', 'append'):
        return listlike(n.args[0])
    if n.op == 'phi':
        return listlike(n.args[1]) and listlike(n.args[2])
    return n.op in ('list', 'tuple')


def group(leaf_of, values, rows=False):
    """rows: arrays are single rows, so that a fixed first index only drops the row."""
    ms = [Member(leaf_of, r, rows) for r in values]
    for m in ms:
        m.group = ms
    return ms

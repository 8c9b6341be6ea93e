"""Lists of positions as compositions of selections.

factors(n) reads a list of positions as f1∘f2∘…: [A[B[i]] for i in C] is A∘B∘C.  A factor is
('where', mask)      positions at which the mask holds, ascending
('range', a, b)      a, a+1, …, b-1
('perm', key, sign)  the order that sorts key (ascending: +1)
('rest', ids, n)     the numbers below n that do not occur in the listed sequences
('leaf', node)       anything else
All of them but 'leaf' are injective, so two compositions with the same head are disjoint
exactly when their tails are."""
import math

from .algebra import Alg, Cannot, LAYOUT, Poly, leaf
from .ir import N, const, resolve, raw
from .masks import num

ZERO = const(0)
FLAT = (LAYOUT - {'numpy.tile', 'numpy.broadcast_to', 'numpy.repeat'}) | {
    'list', 'tuple', 'numpy.tolist', 'numpy.int64', 'numpy.int_', 'builtins.list', 'numpy.flatten', 'numpy.intp', 'numpy.stack', 'numpy.row_stack'}
ORDER = {'numpy.unique', 'numpy.sort', 'sorted', 'builtins.set', 'set', 'builtins.sorted', 'builtins.frozenset'}


def pos_args(n):
    return [a for a in n.args[1:] if isinstance(a, N) and a.op not in ('kw', 'occurrence')]


def kws(n):
    return {a.args[0]: a.args[1] for a in n.args[1:] if isinstance(a, N) and a.op == 'kw'}


def flat(n):
    """The same numbers without layout and type conversions."""
    n = resolve(n)
    while True:
        if n.op == 'call' and n.args[0] in FLAT and len(n.args) > 1:
            n = resolve(n.args[1])
        elif n.op == 'call' and n.args[0] in ('numpy.concatenate', 'numpy.hstack', 'numpy.vstack') and resolve(n.args[1]).op not in ('tuple', 'list'):
            n = resolve(n.args[1])
        elif n.op in ('T', 'int') and n.args:
            n = resolve(n.args[0])
        elif n.op == 'call' and n.args[0] in ('int', 'builtins.int') and len(n.args) == 2:
            n = resolve(n.args[1])
        elif n.op == 'getitem' and outer_only(n.args[1]):
            n = resolve(n.args[0])
        else:
            return n


def outer_only(i):
    """[:], [:, 0] of a column, [0] of a one-element tuple result is handled by the caller."""
    i = resolve(i)
    if i.op == 'slice':
        return all(resolve(a).op == 'const' and resolve(a).args[0] is None for a in i.args)
    if i.op == 'tuple' and len(i.args) == 2:
        a, b = map(resolve, i.args)
        return outer_only(a) and (num(b) == 0 or outer_only(b) or b.op == 'const' and b.args[0] is None)
    return False


def members(n):
    """The node that fixes which numbers occur (order and repetition removed)."""
    n = flat(n)
    while n.op == 'call' and n.args[0] in ORDER and len(n.args) > 1:
        n = flat(n.args[1])
    return n


ELEM = {'+', '-', '*', '/', '**', 'neg', 'abs', 'phi', '<', '<=', '==', 'and', 'or', 'not', 'isnan', 'isfinite', '%', '//', 'truth'}
EWCALL = {'numpy.sqrt', 'numpy.exp', 'numpy.sin', 'numpy.cos', 'numpy.abs', 'numpy.radians', 'numpy.deg2rad', 'numpy.square', 'numpy.hypot',
          'numpy.where', 'numpy.power', 'numpy.nan_to_num', 'math.sqrt', 'math.sin', 'numpy.any', 'numpy.all', 'any', 'all'}


def leaves(n, out, seen):
    """Array operands of an elementwise formula."""
    n = resolve(n)
    if n in seen:
        return
    seen.add(n)
    if n.op in ELEM or n.op == 'call' and n.args[0] in FLAT | EWCALL:
        f = flat(n)
        if f is not n and f.op in ('param',):
            out.append(f)
            return
        for a in n.args:
            if isinstance(a, N) and a.op != 'kw':
                leaves(a, out, seen)
        return
    if n.op in ('const', 'pi', 'nan'):
        return
    out.append(n)


def sized(n, depth=0):
    """A node with the same number of elements."""
    n = flat(n)
    if depth > 30:
        return n
    if n.op == 'comp' and resolve(n.args[1]).op == 'const' and resolve(n.args[0]).op == 'iv':
        i = resolve(n.args[0])
        b = resolve(i.args[1])
        if num(i.args[0]) == 0 and num(i.args[2]) == 1 and b.op in ('dim', 'size', 'len') and b.args:
            return sized(b.args[0], depth + 1)
    if n.op == 'call' and n.args[0] in ('numpy.argsort', 'numpy.sort') and len(n.args) > 1:
        return sized(n.args[1], depth + 1)
    if n.op in ELEM or n.op == 'call' and n.args[0] in EWCALL:
        out = []
        leaves(n, out, set())
        arr = [x for x in out if x.op == 'comp']
        if arr:
            return sized(arr[0], depth + 1)
    return n


def poly(n):
    def lf(x):
        if x.op in ('dim', 'size', 'len') and x.args:
            return ('size', sized(x.args[0]).id)
        if x.op in ('param',):
            return ('param', x.args[0])
        if x.op == 'call' and x.args[0] in ('numpy.ceil', 'math.ceil', 'numpy.floor', 'numpy.round', 'builtins.round'):
            a = poly(x.args[1])
            return (x.args[0].rsplit('.', 1)[-1], a.frozen())
        if x.op in ('int',) or x.op == 'call' and x.args[0] in ('int', 'builtins.int'):
            return poly(x.args[0] if x.op == 'int' else x.args[1])
        if x.op == '//':
            return ('floor', Alg(lf).binary('/', x.args[0], x.args[1]).frozen())
        return None
    return Alg(lf).poly(n)


def poly_eq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        def p(x):
            return leaf(('size', x[1].id)) if isinstance(x, tuple) else poly(x)
    else:
        p = poly
    try:
        return p(a).same(p(b))
    except Cannot:
        return False


def value(p, env):
    """The formula at one assignment of its lengths and parameters; None if it mentions anything else."""
    total = 0.0
    for m, c in p.t.items():
        for a, e in m:
            v = None
            if a[0] == 'leaf':
                k = a[1]
                if k in env:
                    v = env[k]
                elif isinstance(k, tuple) and k[0] in ('ceil', 'floor', 'round'):
                    x = value(Poly({mm: cc for _r, mm, cc in k[1]}), env)
                    v = None if x is None else {'ceil': math.ceil, 'floor': math.floor, 'round': round}[k[0]](x)
            if v is None:
                return None
            c = c * v ** float(e)
        total += c
    return total


class Seqs:
    def __init__(self):
        self.memo = {}

    def factors(self, n):
        """Compose left to right; ordered sequence (sorting is a leaf unless members() was applied first)."""
        n = flat(n)
        k = n
        if k not in self.memo:
            self.memo[k] = None
            self.memo[k] = self._factors(n)
        if self.memo[k] is None:
            raise Cannot('recursive selection')
        return self.memo[k]

    def length(self, n):
        """How many elements the sequence has, as a comparable value."""
        n = flat(n)
        if n.op == 'comp' and resolve(n.args[1]).op == 'const' and resolve(n.args[0]).op == 'iv':
            i = resolve(n.args[0])
            if num(i.args[0]) == 0:
                b = resolve(i.args[1])
                return self.length(b.args[0]) if b.op in ('dim', 'size', 'len') and b.args else b
        return ('size', sized(n))

    def compose(self, outer, inner, over):
        """outer∘inner; a full range over the outer list is the identity."""
        if len(inner) == 1 and inner[0][0] == 'range' and num(inner[0][1]) == 0 and self.full(inner[0][2], over):
            return outer
        return outer + inner

    def full(self, stop, over):
        stop = resolve(stop)
        if stop.op in ('dim', 'size', 'len') and stop.args:
            a, b = self.length(stop.args[0]), self.length(over)
            return a == b or (isinstance(a, N) and isinstance(b, N) and poly_eq(a, b))
        L = self.length(over)
        return isinstance(L, N) and poly_eq(stop, L)

    def _factors(self, n):
        if n.op == 'param':
            return (('arr', n.args[0]),)
        if n.op == 'call':
            name, a = n.args[0], pos_args(n)
            if name in ('numpy.argwhere', 'numpy.flatnonzero'):
                return self.where(a[0])
            if name in ('numpy.nonzero', 'numpy.where') and len(a) == 1:
                return self.where(a[0])
            if name == 'numpy.argsort':
                return self.perm(a[0], n)
            if name in ('numpy.arange', 'range', 'builtins.range') and len(a) in (1, 2):
                return (('range', ZERO, a[0]) if len(a) == 1 else ('range', a[0], a[1]),)
            if name == 'numpy.arange' and len(a) == 3 and num(a[2]) == 1:
                return (('range', a[0], a[1]),)
            if name == 'numpy.setdiff1d' and len(a) >= 2:
                return self.minus(a[0], a[1])
            if name == 'numpy.delete' and len(a) >= 2:
                f = self.factors(a[0])
                s = self.dims(a[0])
                return f[:-1] + (('rest', (members(a[1]),), f[-1][2]),) if f[-1][0] == 'range' and num(f[-1][1]) == 0 else \
                    f + (('rest', (members(a[1]),), s),)
            if name in ('numpy.take',) and len(a) >= 2:
                return self.compose(self.factors(a[0]), self.factors(a[1]), a[0])
            if name in ('sorted', 'builtins.sorted') and len(a) == 2:
                b = flat(a[0])
                if b.op == 'range' or b.op == 'call' and b.args[0] in ('numpy.arange',):
                    return (('perm', resolve(a[1]), 1),)
            if name in ORDER:
                return (('leaf', n),)
        if n.op == 'range':
            a = [x for x in n.args if isinstance(x, N)]
            if len(a) < 3 or num(a[2]) == 1:
                return (('range', a[0], a[1]),)
        if n.op == 'list' or n.op == 'tuple':
            return (('leaf', n),)
        if n.op == 'without' and len(n.args) == 2:
            return self.minus(*n.args)
        if n.op == 'comp':
            return self.comp(n)
        if n.op == '-' and all(flat(x).op == 'call' and flat(x).args[0] in ('builtins.set', 'set') for x in n.args):
            return self.minus(*n.args)
        if n.op == 'getitem':
            b, i = n.args
            b, i = resolve(b), resolve(i)
            if b.op == 'call' and b.args[0] in ('numpy.nonzero', 'numpy.where') and len(pos_args(b)) == 1 and num(i) == 0:
                return self.where(pos_args(b)[0])
            if i.op == 'slice':
                lo, hi, st = map(resolve, i.args)
                none = lambda x: x.op == 'const' and x.args[0] is None
                f = self.factors(b)
                if none(st) or num(st) == 1:
                    lo = ZERO if none(lo) else lo
                    hi = self.dims(b) if none(hi) else hi
                    return self.compose(f, (('range', lo, hi),), b)
                if num(st) == -1 and none(lo) and none(hi):
                    if f[-1][0] == 'perm':
                        return f[:-1] + (('perm', f[-1][1], -f[-1][2]),)
                return (('leaf', n),)
            m = boolean(i)
            if m is not None:
                return self.compose(self.factors(b), self.where(m), b)
            if i.op not in ('tuple', 'const', 'iv'):
                return self.compose(self.factors(b), self.factors(i), b)
        return (('leaf', n),)

    def dims(self, n):
        return raw('dim', resolve(n), ZERO)

    def minus(self, a, b):
        f = self.factors(a)
        if f[-1][0] == 'range' and num(f[-1][1]) == 0:
            return f[:-1] + (('rest', (members(b),), f[-1][2]),)
        raise Cannot('difference of lists')

    def perm(self, key, n=None):
        key = resolve(key)
        while key.op == 'call' and key.args[0] in FLAT and len(key.args) > 1:
            key = resolve(key.args[1])
        if key.op == 'neg':
            return (('perm', resolve(key.args[0]), -1),)
        return (('perm', key, 1),)

    def where(self, m):
        m = resolve(m)
        # a mask that excludes listed positions: ones with the listed positions cleared
        while m.op == 'call' and m.args[0] in FLAT and len(m.args) > 1:
            m = resolve(m.args[1])
        x = m
        neg = False
        while x.op == 'not':
            x, neg = resolve(x.args[0]), not neg
        if x.op == 'call' and x.args[0] in ('numpy.isin', 'numpy.in1d') and len(pos_args(x)) >= 2:
            inv = kws(x).get('invert')
            if inv is not None and resolve(inv).op == 'const' and resolve(inv).args[0]:
                neg = not neg
            r = flat(pos_args(x)[0])
            f = self.factors(r)
            if neg and len(f) == 1 and f[0][0] == 'range' and num(f[0][1]) == 0:
                return (('rest', (members(pos_args(x)[1]),), f[0][2]),)
        if x.op == 'store' and not neg:
            out = []
            while x.op == 'store' and resolve(x.args[2]).op == 'const' and not resolve(x.args[2]).args[0]:
                out.append(members(x.args[1]))
                x = flat(x.args[0])
            if out and x.op == 'call' and x.args[0] in ('numpy.ones', 'numpy.full'):
                a = pos_args(x)
                if x.args[0] == 'numpy.ones' or resolve(a[1]).op == 'const' and resolve(a[1]).args[0]:
                    return (('rest', tuple(out), a[0]),)
        return (('where', m),)

    def comp(self, n):
        i, cond, expr = map(resolve, n.args)
        if i.op != 'iv' or num(i.args[2]) != 1:
            return (('leaf', n),)
        inner = self.expr(expr, i)
        if inner is None:
            return (('leaf', n),)
        steps, over = inner                        # nodes A1, A2, … of A1[A2[…[i]]]
        tail = (('range', i.args[0], i.args[1]),)
        if cond.op != 'const':
            # filter: numbers not listed elsewhere
            tail = self.filtered(i, cond, steps)
            if tail is None:
                return (('leaf', n),)
        f = ()
        for s in steps:
            f = f + self.factors(s)
        if steps and tail[0][0] == 'range':
            return self.compose(f, tail, steps[-1])
        return f + tail

    def filtered(self, i, cond, steps):
        parts, todo = [], [cond]
        while todo:
            x = resolve(todo.pop())
            if x.op == 'and':
                todo += list(x.args)
                continue
            neg = False
            while x.op == 'not':
                x, neg = resolve(x.args[0]), not neg
            if x.op == 'in' and neg and flat(x.args[0]) is i and num(i.args[0]) == 0:
                parts.append(members(x.args[1]))
            else:
                return None
        return (('rest', tuple(sorted(parts, key=lambda q: q.id)), i.args[1]),)

    def expr(self, e, i):
        e = flat(e)
        while e.op in ('list', 'tuple') and len(e.args) == 1:
            e = flat(e.args[0])
        if e is i:
            return [], None
        if e.op == 'getitem':
            r = self.expr(e.args[1], i)
            if r is None:
                return None
            return [resolve(e.args[0])] + r[0], None
        return None


def boolean(i):
    from .masks import mask_of
    i = resolve(i)
    if i.op in ('not', 'and', 'or', '<', '<=', '==') or i.op == 'call' and i.args[0] in ('numpy.isin', 'numpy.in1d', 'numpy.logical_not'):
        return i
    if i.op == 'store' or i.op == 'call' and i.args[0] in ('numpy.argwhere', 'numpy.flatnonzero', 'numpy.nonzero', 'numpy.where'):
        return mask_of(i) if i.op == 'store' and resolve(i.args[2]).op == 'const' and isinstance(resolve(i.args[2]).args[0], bool) else None
    return None


def show(f):
    out = []
    for x in f:
        if x[0] == 'where':
            out.append('positions{' + str(x[1])[:40] + '}')
        elif x[0] == 'range':
            out.append(f"range({str(x[1])[:40]}, {str(x[2])[:60]})")
        elif x[0] == 'perm':
            out.append('order{' + ('' if x[2] > 0 else '-') + str(x[1])[:30] + '}')
        elif x[0] == 'rest':
            out.append('others')
        elif x[0] == 'arr':
            out.append(x[1])
        else:
            out.append('list{' + str(x[1])[:40] + '}')
    return '∘'.join(out)

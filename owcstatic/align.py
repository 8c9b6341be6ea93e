"""Selection terms: which casts (or levels) end up in an array, independent of the values.

term(n) keeps takes, drops, appends, branches and loops and forgets element-wise
arithmetic, padding with missing values and reshaping.  Two arrays are aligned when their terms are equal;
loops are compared coinductively by loop identity."""
from .ir import N, resolve, mk, is_bool, NAN
from .masks import component, mask_of, is_nan, num

ELEM = {'+', '-', '*', '/', '**', 'neg', 'abs', '//', '%'}
SAME = {'numpy.array', 'numpy.asarray', 'numpy.ravel', 'numpy.reshape', 'numpy.copy', 'numpy.atleast_1d', 'numpy.atleast_2d',
        'numpy.squeeze', 'numpy.float64', 'float', 'numpy.ascontiguousarray', 'numpy.round', 'numpy.radians', 'numpy.deg2rad',
        'numpy.nan_to_num', 'numpy.transpose', 'numpy.clip', 'numpy.mod', 'numpy.abs', 'numpy.floor', 'list', 'tuple', 'numpy.around'}
APP = {'numpy.append', 'numpy.concatenate', 'numpy.hstack', 'numpy.vstack', 'numpy.r_'}

REORDER = {'numpy.' + x for x in 'unique sort diff flip roll resize repeat tile trim_zeros extract compress fliplr flipud sorted rot90 rollaxis '
           'swapaxes random.permutation random.choice intersect1d union1d setdiff1d partition'.split()} | {'reversed', 'set', 'sorted'}


def padding(n):
    """Only missing values (or an empty array)."""
    n = resolve(n)
    if is_nan(n):
        return True
    if n.op == 'call' and n.args[0] == 'numpy.full':
        return any(isinstance(a, N) and is_nan(a) for a in n.args[1:])
    if n.op == '*':
        return any(is_nan(a) for a in n.args)
    if n.op == 'call' and n.args[0] in ('numpy.reshape', 'numpy.array'):
        return padding(n.args[1])
    return False


def turned(i, depth=0):
    """The index lists its positions in another order than ascending."""
    i = resolve(i)
    if depth > 6:
        return False
    if i.op == 'getitem':
        x = resolve(i.args[1])
        for y in (x.args if x.op == 'tuple' else (x,)):
            y = resolve(y)
            if y.op == 'slice' and resolve(y.args[2]).op == 'const' and (resolve(y.args[2]).args[0] or 1) < 0:
                return not turned(i.args[0], depth + 1)
        return turned(i.args[0], depth + 1)
    if i.op == 'call' and len(i.args) > 1 and isinstance(i.args[1], N):
        if i.args[0] in ('numpy.flip', 'numpy.flipud', 'numpy.fliplr', 'reversed'):
            return not turned(i.args[1], depth + 1)
        if i.args[0] in ('numpy.roll',):
            return True
        if i.args[0] in ('numpy.ravel', 'numpy.array', 'numpy.asarray', 'numpy.squeeze', 'list', 'tuple', 'numpy.reshape'):
            return turned(i.args[1], depth + 1)
    return False


class Align:
    def __init__(self, cast_only=False, rewrite=None):
        self.cast = cast_only
        self.rewrite = rewrite          # node -> node to continue with, or None
        self.defs = {}
        self.stack = []
        self.memo = {}

    # -- helpers ------------------------------------------------------------------
    def idx(self, i, ordered=False):
        m = mask_of(i)
        if m is not None and not (ordered and turned(i)):
            return ('mask', m.id)
        return ('idx', resolve(i).id)

    def take(self, i, x):
        i = resolve(i)
        if i.op == 'tuple':
            parts = []
            for p in i.args:
                p = resolve(p)
                if p.op == 'slice' and all(a.op == 'const' and a.args[0] is None for a in p.args):
                    continue
                if p.op == 'const' and p.args[0] is None:
                    continue
                parts.append(self.idx(p, True))
            if not parts:
                return x
            if self.cast:
                parts = parts[-1:]
            return ('take', tuple(parts), x)
        if i.op == 'slice' and all(a.op == 'const' and a.args[0] is None for a in i.args):
            return x
        return ('take', (self.idx(i, True),), x)

    def drop(self, i, x, ax=None):
        m = mask_of(i)
        if m is not None:
            nm = mk('not', m)
            k = component(i)
            # without an axis, positions are those of the first coordinate
            return ('take', (('mask', nm.id) if ax is not None or k in (None, 0) else ('mask', nm.id, k),), x)
        return ('drop', self.idx(i), x)

    def kw(self, n, name):
        for a in n.args[1:]:
            if isinstance(a, N) and a.op == 'kw' and a.args[0] == name:
                return a.args[1]
        return None

    # -- terms ----------------------------------------------------------------------
    def term(self, n):
        n = resolve(n)
        if n in self.memo:
            return self.memo[n]
        t = self._term(n)
        if n.op != 'mu':
            self.memo[n] = t
        return t

    def _term(self, n):
        if self.rewrite:
            r = self.rewrite(n)
            if r is not None:
                return self.term(r)
        op = n.op
        if op == 'mu':
            key = ('mu', f'L{n.meta}')
            if n in self.stack:
                return key
            self.stack.append(n)
            a = self.term(n.init)
            b = self.term(n.next) if n.next is not None else key
            self.stack.pop()
            self.memo.clear()
            if b == key:
                return a
            return ('loop', f'L{n.meta}', a, b)
        if op == 'phi':
            c, x, y = n.args
            a, b = self.term(x), self.term(y)
            if a == b:
                return a
            for p, q in ((a, b), (b, a)):
                # nothing to take away in the other branch: the branch only avoids an empty selection
                if p[0] in ('take', 'drop') and p[2] == q and self.empties(c, p):
                    return p
                if p[0] == 'app' and p[2] == self.level(q) and empty_test(c):
                    return p
                if q == ('empty',) and False:
                    return p
            return ('if', resolve(c).id, a, b)
        if op == 'call':
            name = n.args[0]
            pos = [a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']
            if name in SAME and pos:
                return self.term(pos[0])
            if name in APP and pos:
                parts = []
                for p in pos[:1] if name != 'numpy.append' else pos[:2]:
                    p = resolve(p)
                    parts += list(p.args) if p.op in ('tuple', 'list') and name != 'numpy.append' else [p]
                t = None
                for p in parts:
                    if t is not None and padding(p):
                        continue
                    v = self.term(p)
                    t = v if t is None or t == ('empty',) and False else ('app', t, self.level(v))
                return t if t is not None else ('empty',)
            if name == 'numpy.delete' and len(pos) >= 2:
                ax = pos[2] if len(pos) > 2 else self.kw(n, 'axis')
                t = self.drop(pos[1], self.term(pos[0]), ax)
                if not self.cast and ax is not None:
                    t = t + (resolve(ax).id,)
                return t
            if name == 'numpy.take' and len(pos) >= 2:
                return self.take(pos[1], self.term(pos[0]))
            if name == 'numpy.where' and len(pos) == 3:
                a, b = self.term(pos[1]), self.term(pos[2])
                return self.merge(a, b, n)
            if name in ('numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.full') and pos:
                if num(pos[0]) == 0:
                    return ('empty',)
                d = resolve(pos[0])
                d = resolve(d.args[0]) if d.op in ('tuple', 'list') and d.args else d
                if d.op in ('dim', 'shape', 'size'):
                    return self.term(d.args[0])
            if name.startswith('pyowc.') or name.startswith('scipy.io') or name.startswith('pymatreader'):
                return ('node', n.id)
            if name in REORDER and pos:
                return ('sel', name, self.term(pos[0]))
            ts = [self.term(p) for p in pos if not constant(p)]
            ts = [t for t in ts if t[0] != 'scalar']
            if ts and all(t == ts[0] for t in ts) and name.startswith(('numpy.', 'gsw.', 'math.')):
                return ts[0]
            return ('node', n.id)
        if op == 'apply':
            ts = [self.term(p) for p in n.args[1:] if isinstance(p, N) and p.op != 'kw' and not constant(p)]
            if ts and all(t == ts[0] for t in ts):
                return ts[0]
            return ('node', n.id)
        if op == 'append':
            return ('app', self.term(n.args[0]), self.level(self.term(n.args[1])))
        if op == 'T':
            t = self.term(n.args[0])
            return t if self.cast or t[0] == 'T' and False else ('T', t) if t[0] != 'T' else t[1]
        if op == 'getitem':
            b, i = n.args
            i = resolve(i)
            from .roles import short, RESULTS
            if i.op == 'const' and short(resolve(b)) in RESULTS:
                return ('src', resolve(b).id)
            if i.op == 'const' and isinstance(i.args[0], str):
                return ('src', self.source(b))
            return self.take(i, self.term(b))
        if op in ('store', 'viewstore'):
            b, i, v = n.args[:3]
            if op == 'store' and misplaced(i, v):
                return ('node', n.id)
            return self.term(b)
        if op in ELEM:
            ts = [self.term(a) for a in n.args if not constant(a)]
            if ts and all(t == ts[0] for t in ts):
                return ts[0]
            ts2 = [t for t, a in zip(ts, n.args) if t[0] != 'node']
            if len(ts2) == 1:
                return ts2[0]
            return ('node', n.id)
        if op == 'list' and not n.args:
            return ('empty',)
        if op == 'list' and len(n.args) == 1:
            return self.term(n.args[0])
        if op == 'comp':
            t = self.term(n.args[2])
            return self.each(resolve(n.args[0]), resolve(n.args[1]), t) or ('comp', n.args[0].id, resolve(n.args[1]).id, t)
        if op == 'sorted':
            return ('sel', 'sorted', self.term(n.args[0]))
        if op == 'const':
            return ('scalar',)
        return ('node', n.id)

    def each(self, iv, cond, t):
        """Element by element over a whole array: the array itself."""
        if iv.op != 'iv' or cond.op != 'const' or cond.args[0] is not True or num(iv.args[0]) != 0 or num(iv.args[2]) != 1:
            return None
        stop = resolve(iv.args[1])
        if stop.op not in ('dim', 'size') or stop.op == 'dim' and num(stop.args[1]) != 0:
            return None
        zero = ('idx', mk('const', 0).id)
        while t[0] == 'take' and all(p == zero for p in t[1]):
            t = t[2]
        if t[0] != 'take' or ('idx', iv.id) not in t[1] or any(p not in (zero, ('idx', iv.id)) for p in t[1]):
            return None
        return t[2] if self.term(stop.args[0]) == t[2] else None

    def source(self, b):
        b = resolve(b)
        if b.op in ('dictover', 'without', 'copyof'):
            return self.source(b.args[0])
        return b.id

    def level(self, t):
        """One cast's levels: forget which levels are kept, keep which cast it is."""
        if not self.cast:
            return t
        while t[0] in ('take', 'drop') and t[2][0] == 'take' and (t[1][0][0] if t[0] == 'take' else t[1][0]) == 'mask':
            t = t[2]
        return t

    def merge(self, a, b, n):
        if a == b or b[0] == 'scalar' or b[0] == 'node':
            return a
        if a[0] in ('scalar', 'node'):
            return b
        return ('node', n.id)

    def empties(self, c, p):
        """The condition c is about the selection p being non-empty."""
        want = {x for x in flatten(p[1])}
        from .ir import walk
        for x in walk(resolve(c)):
            if x.id in want or mk('not', x).id in want and is_bool(x):
                return True
            m = mask_of(x) if x.op in ('call', 'getitem') else None
            if m is not None and (m.id in want or mk('not', m).id in want):
                return True
        return False


def misplaced(i, v):
    """A value read at another position of the running index than the one it is stored at."""
    i = resolve(i)
    ivs = {i} if i.op == 'iv' else {resolve(x) for x in i.args if isinstance(x, N) and resolve(x).op == 'iv'} if i.op == 'tuple' else set()
    if not ivs:
        return False
    seen, stack = set(), [v]
    while stack:
        x = resolve(stack.pop())
        if x in seen or x.op == 'mu':
            continue
        seen.add(x)
        if x.op == 'getitem' and x.args[1] is not i and x.args[1].op not in ('iv', 'tuple', 'const') and \
                any(y in ivs for y in x.args[1].args if isinstance(y, N)):
            return True
        stack += [y for y in x.args if isinstance(y, N)]
    return False


def empty_test(c):
    c = resolve(c)
    if c.op == 'not':
        return empty_test(c.args[0])
    if c.op in ('==', '<', '<='):
        return any(num(a) == 0 for a in c.args) and any(resolve(a).op in ('dim', 'size') for a in c.args)
    return c.op in ('dim', 'size')


def flatten(t):
    if isinstance(t, tuple):
        for x in t:
            yield from flatten(x)
    elif isinstance(t, int):
        yield t


def constant(n):
    n = resolve(n)
    return n.op in ('const', 'nan', 'pi') or (n.op in ELEM and all(constant(a) for a in n.args)) or \
        (n.op == 'getitem' and n.args[1].op == 'const' and resolve(n.args[0]).op == 'param')


def differ(a, b):
    """First pair of unequal subterms."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and len(a) == len(b) and a[0] == b[0] and \
            a[0] in ('loop', 'if', 'sel', 'take', 'drop', 'app', 'comp', 'T'):
        if a[0] in ('take', 'drop') and a[1] != b[1] and a[2] == b[2]:
            return a, b
        for x, y in zip(a[1:], b[1:]):
            d = differ(x, y)
            if d:
                return (d if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] not in ('idx', 'mask') else (a, b))
    return a, b


def opaque(t):
    if isinstance(t, tuple):
        return (t and t[0] == 'node') or any(opaque(x) for x in t)
    return False


def text(t, depth=4):
    from .ir import _TABLE
    byid = getattr(text, 'ids', None)
    if byid is None or len(byid) != len(_TABLE):
        byid = text.ids = {n.id: n for n in _TABLE.values()}
    def sh(t, d):
        if isinstance(t, int):
            n = byid.get(t)
            return str(n)[:160] if n is not None else f"#{t}"
        if not isinstance(t, tuple):
            return str(t)
        if d == 0:
            return '…'
        if t[0] in ('idx', 'mask', 'node', 'src') and len(t) == 2:
            return f"{t[0]} {sh(t[1], d)}"
        return '(' + ' '.join(sh(x, d - 1) for x in t) + ')'
    return sh(t, depth)


def compare(c, rule, inst, named, cast_only, loc=None, rewrite=None):
    """named: list of (name, node).  All must have the same selection term (reference: the majority)."""
    terms = []
    for name, n in named:
        terms.append((name, Align(cast_only, rewrite).term(n)))
    best = max({t for _n, t in terms}, key=lambda t: sum(1 for _n, u in terms if u == t))
    refs = [n for n, t in terms if t == best]
    if len(refs) == 1 and len(terms) > 2:
        best = terms[0][1]
        refs = [terms[0][0]]
    for name, t in terms:
        if t == best:
            if name != refs[0] or len(terms) == 1:
                c.ok(rule, f"{inst}: {name} with {refs[0]}", '', loc)
            continue
        d = differ(best, t)
        und = opaque(d[0]) or opaque(d[1])
        (c.und if und else c.bad)(rule, f"{inst}: {name} with {refs[0]}",
                                  f"{refs[0]} is selected by {text(d[0])[:400]} but {name} by {text(d[1])[:400]}", loc)

"""C09: incremental mapping extends every per-profile record in lockstep."""
from itertools import product
from .. import analyses as A, stages
from ..algebra import Alg, Cannot, Poly, leaf, num as pnum
from ..ir import N, const as const0, iv, mk, resolve, walk
from ..masks import is_nan, num
from ..report import Check

R1 = 'every record grows by one entry per new profile, at the same place'
R2 = 'only the new entry is written'
R3 = 'only the profiles not yet mapped are processed, each with its own data'
R4 = 'one ordering by profile number, applied once to every record'
R5 = 'earlier results are taken over completely'
R6 = 'a first run starts from empty records'
MATRICES = ('la_mapped_sal', 'la_mapsalerrors', 'la_noise_sal', 'la_ptmp', 'la_signal_sal')
VECTORS = ('la_profile_no', 'p_delta', 'p_exclude', 'scale_age_large', 'scale_age_small', 'scale_lat_large', 'scale_lat_small',
           'scale_long_large', 'scale_long_small', 'scale_phi_large', 'scale_phi_small', 'use_pv', 'use_saf')
RECORDS = MATRICES + VECTORS
COPY = ('numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.ascontiguousarray', 'numpy.asanyarray')
FLAT = ('numpy.ravel', 'numpy.squeeze', 'numpy.atleast_1d')
ROWS = ('SAL', 'TEMP', 'PTMP', 'PRES', 'LAT', 'LONG', 'DATES', 'PROFILE_NO')


NAMED = tuple(('leaf', x) for x in ('n0', 'i', 'place', 'levels', 'old levels'))


class Bad(Exception):
    pass


def pos(n):
    return [resolve(a) for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']


def kw(n, name):
    for a in n.args[1:]:
        if isinstance(a, N) and a.op == 'kw' and a.args[0] == name:
            return resolve(a.args[1])
    return None


def const(n):
    n = resolve(n)
    return n.args[0] if n.op == 'const' else '?'


def full(s):
    s = resolve(s)
    return s.op == 'slice' and all(resolve(y).op == 'const' and resolve(y).args[0] is None for y in s.args) or s.op == 'ellipsis'


def items(i):
    i = resolve(i)
    return [resolve(x) for x in i.args] if i.op == 'tuple' else [i]


def calls(n, *names):
    return n.op == 'call' and n.args[0] in names


def loaded(n, which):
    """Node is what was read from the float's mapped or source file."""
    n = resolve(n)
    while n.op in ('without', 'dictover') or n.op == 'phi':
        n = resolve(n.args[1] if n.op == 'phi' else n.args[0])
    if n.op == 'call' and n.args[0] == 'scipy.io.loadmat':
        keys = {const(x.args[1]) for x in walk(n) if x.op == 'getitem'}
        return ('FLOAT_MAPPED_DIRECTORY' in keys) if which == 'mapped' else ('FLOAT_SOURCE_DIRECTORY' in keys)
    return False


class World:
    """Numbers and truths for one situation: earlier results exist or not."""

    def __init__(self, it, mus, there):
        self.it, self.mus, self.there = it, mus, there   # mus: main loop mu -> record name
        self.main = {m.meta for m in mus}
        self.alg = Alg(self.leaf)
        self.counters, self.busy = {}, set()
        self.known, self.places = None, set()
        self.n0 = leaf('n0') if there else pnum(0)

    # -- truths ---------------------------------------------------------------
    def truth(self, n):
        """True, False or None."""
        n = resolve(n)
        if self.known is not None:
            try:
                return self.known.truth(n, False)
            except Cannot:
                pass
        if n.op in ('and', 'or'):
            ts = [self.truth(a) for a in n.args]
            if n.op == 'and':
                return False if False in ts else None if None in ts else True
            return True if True in ts else None if None in ts else False
        if n.op in ('not', 'truth'):
            t = self.truth(n.args[0])
            return None if t is None else t != (n.op == 'not')
        if calls(n, 'pathlib.is_file', 'pathlib.exists', 'os.path.isfile', 'os.path.exists'):
            return self.there if 'FLOAT_MAPPED_DIRECTORY' in {const(x.args[1]) for x in walk(n) if x.op == 'getitem'} else None
        if n.op == 'in' and loaded(n.args[1], 'mapped') and isinstance(const(n.args[0]), str):
            return const(n.args[0]) in RECORDS + ('profile_index', 'selected_hist')
        if n.op in ('<', '<=', '=='):
            try:
                d = (self.poly(n.args[1]) - self.poly(n.args[0])).const()
            except Cannot:
                return None
            if d is None:
                return None
            return {'<': d > 0, '<=': d >= 0, '==': d == 0}[n.op]
        return None

    def choose(self, n):
        """The alternatives that are possible here."""
        n = resolve(n)
        while n.op == 'phi':
            t = self.truth(n.args[0])
            if t is None:
                return n
            n = resolve(n.args[1] if t else n.args[2])
        return n

    def above(self, d):
        """d >= 0 (True) or d <= 0 (False) for every number of earlier (at least one) and new profiles."""
        own = {m: k for m, k in d.t.items() if m}
        if any(m not in (tuple(leaf('n0').t)[0], tuple(leaf('i').t)[0]) for m in own):
            return None
        least = d.t.get((), 0) + sum(k for m, k in own.items() if m == tuple(leaf('n0').t)[0])
        if all(k >= 0 for k in own.values()) and least >= 0:
            return True
        if all(k <= 0 for k in own.values()) and least <= 0:
            return False
        return None

    # -- numbers: n0 old entries, i iterations done, n = n0 + i entries now ------
    def poly(self, n):
        return self.alg.poly(n)

    def leaf(self, n):
        if n.op == 'iv' and n in {resolve(self.it.loopinfo[m]['key']) for m in self.main if self.it.loopinfo.get(m, {}).get('key') is not None}:
            return leaf('i') if self.known is None else leaf('place')
        if n.op == 'int':
            return self.poly(n.args[0])
        if n.op == 'phi':
            t = self.truth(n.args[0])
            return None if t is None else self.poly(n.args[1 if t else 2])
        if n.op == 'call' and n.args[0] in ('builtins.max', 'builtins.min', 'max', 'min', 'numpy.maximum', 'numpy.minimum') and len(n.args) == 3:
            p, q = self.poly(n.args[1]), self.poly(n.args[2])
            up = self.above(p - q)
            if up is None:
                return None
            return p if up == ('max' in n.args[0]) else q
        if self.there and n.op == 'call' and n.args[0] in ('numpy.max', 'numpy.amax', 'numpy.nanmax', 'builtins.max', 'max') and len(n.args) == 2:
            x = self.choose(n.args[1])
            while x.op == 'call' and x.args[0] in COPY + FLAT:
                x = self.choose(x.args[1])
            if x.op == 'getitem' and loaded(x.args[0], 'mapped') and const(x.args[1]) == 'la_profile_no':
                return leaf('highest earlier number')
        if n.op == 'dim':
            return self.extent(n.args[0], const(n.args[1]))
        if n.op == 'getitem' and resolve(n.args[0]).op == 'shape' and isinstance(const(n.args[1]), int):
            return self.extent(resolve(n.args[0]).args[0], const(n.args[1]))
        if n.op == 'size':
            return self.extent(n.args[0], 0)
        if n.op == 'mu' and n.meta in self.main and n not in self.mus:
            if n not in self.counters:
                if n in self.busy:
                    return leaf(('counter', n.id))
                self.busy.add(n)
                start, nxt = self.poly(n.init), None
                self.counters[n] = leaf(('counter', n.id))
                self.alg.memo.clear()
                try:
                    nxt = self.step(n.next)
                finally:
                    self.busy.discard(n)
                    own = self.counters.pop(n)
                    self.alg.memo.clear()
                step = (nxt - own).const()
                if step is None:
                    raise Cannot('counter')
                self.counters[n] = start + leaf('i').scale(step)
            return self.counters[n]
        return None

    def step(self, n):
        n = self.choose(n)
        if n.op != 'phi':
            return self.poly(n)
        a, b = self.step(n.args[1]), self.step(n.args[2])
        if a.same(b):
            return a
        if (a - b).const() is not None:
            raise Bad(f"a place that moves by {(a - b).const():+g} more if {str(n.args[0])[:120]} is used")
        raise Cannot('counter')

    def extent(self, n, k):
        """Length of an array along axis k, as far as it is one of the records."""
        n = resolve(n)
        if n.op == 'phi':
            t = self.truth(n.args[0])
            return None if t is None else self.extent(n.args[1 if t else 2], k)
        if n.op == 'shape' and k == 0:
            return None
        if n in self.mus:
            if self.mus[n] in MATRICES:
                return self.n0 + leaf('i') if k in (1, -1) else None
            return self.n0 + leaf('i') if k in (0, -1) else None
        if n.op == 'mu' and n.meta in self.main:
            return None
        if n.op == 'call' and n.args[0] in COPY + FLAT:
            m = resolve(n.args[1])
            if n.args[0] == 'numpy.ravel' and m.op in ('getitem', 'phi'):
                m = self.choose(m)
                if m.op == 'getitem' and loaded(m.args[0], 'mapped') and const(m.args[1]) in VECTORS:
                    return self.n0
            return self.extent(m, k)
        if n.op == 'getitem' and loaded(n.args[0], 'mapped'):
            key = const(n.args[1])
            if key in RECORDS:
                if k in (1, -1):
                    return self.n0
                return leaf('old levels') if key in MATRICES and k == 0 else pnum(1) if k == 0 else None
            return None
        if n.op == 'getitem' and loaded(n.args[0], 'source') and k == 0 and const(n.args[1]) in ('SAL', 'PTMP', 'PRES', 'TEMP'):
            return leaf('levels')
        if n.op == 'list' and k == 0:
            return pnum(len(n.args))
        if calls(n, 'numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.full'):
            s = items(n.args[1])
            if k in range(len(s)):
                return self.poly(s[k])
        if n.op in ('*', '+') and any(is_nan(x) for x in n.args):
            return self.extent([x for x in n.args if not is_nan(x)][0], k)
        try:
            g = Growth(self).of(n)
        except (Cannot, Bad):
            return None
        if g[0] is not None and k == (1 if self.mus[g[0]] in MATRICES else 0):
            return self.n0 + leaf('i') + pnum(g[1])
        if g[0] is not None and k == 0:
            return self.extent(g[0], 0)
        return None


class Growth:
    """What one iteration does to a record: (record at the start, number of entries added, entries)."""

    def __init__(self, w, start=None):
        self.w, self.env, self.entries, self.writes = w, {}, [], []

    def of(self, n):
        n = resolve(n)
        w = self.w
        if n in self.env:
            return self.env[n]
        if n in w.mus:
            return (n, 0, ())
        if n.op == 'phi':
            t = w.truth(n.args[0])
            if t is not None:
                return self.of(n.args[1 if t else 2])
            a, b = self.of(n.args[1]), self.of(n.args[2])
            if a[:2] != b[:2]:
                if a[0] is b[0]:
                    raise Uneven(n.args[0], a[1], b[1])
                raise Cannot('different arrays')
            return a if a == b else a[:2] + (('either', a[2], b[2]),)
        if n.op == 'mu':
            e = self.of(n.init)
            self.env[n] = e
            f = self.of(n.next)
            if f[:2] != e[:2]:
                raise Bad(f"{f[1] - e[1]} entries are added in every round of an inner loop at {n.loc or ''}")
            return e
        if n.op in ('store', 'viewstore'):
            g = self.of(n.args[0])
            self.write(g, n.args[1], n.args[2])
            return g
        if n.op == 'append':
            g = self.of(n.args[0])
            return (g[0], g[1] + 1, (resolve(n.args[1]),))
        if n.op == 'call' and n.args[0] in COPY and len(pos(n)) >= 1:
            return self.of(n.args[1])
        if n.op == 'getitem' and all(full(x) for x in items(n.args[1])):
            return self.of(n.args[0])
        if n.op == 'T' and resolve(n.args[0]).op == 'call':
            # stacking on the transposed matrix
            m = resolve(n.args[0])
            if m.args[0] in ('numpy.vstack', 'numpy.concatenate', 'numpy.row_stack'):
                parts = self.parts(m)
                if parts and resolve(parts[0]).op == 'T':
                    g = self.of(resolve(parts[0]).args[0])
                    return (g[0], g[1] + len(parts) - 1, tuple(parts[1:]))
        if n.op == 'call':
            return self.call(n)
        raise Cannot(f"{n.op} {str(n)[:100]}")

    def parts(self, n):
        p = pos(n)
        return [resolve(x) for x in p[0].args] if p and p[0].op in ('list', 'tuple') else None

    def call(self, n):
        name, p, w = n.args[0], pos(n), self.w
        if name == 'numpy.append' and len(p) >= 2:
            g = self.of(p[0])
            ax = kw(n, 'axis') or (p[2] if len(p) > 2 else None)
            if self.matrix(g):
                if ax is None or num(ax) not in (1, -1):
                    raise Bad(f"appended along axis {const(ax) if ax is not None else None}")
                return (g[0], g[1] + self.width(p[1]), (p[1],))
            return (g[0], g[1] + self.length(p[1]), (p[1],))
        if name == 'numpy.insert' and len(p) >= 3:
            g = self.of(p[0])
            ax = kw(n, 'axis') or (p[3] if len(p) > 3 else None)
            if self.matrix(g) and (ax is None or num(ax) not in (1, -1)):
                raise Bad('inserted along the wrong axis')
            self.at_end(g, p[1], 'inserted')
            return (g[0], g[1] + (self.width(p[2]) if self.matrix(g) and resolve(p[2]).op == 'call' else self.length(p[2])), (p[2],))
        if name in ('numpy.hstack', 'numpy.concatenate', 'numpy.column_stack', 'numpy.r_', 'numpy.c_'):
            parts = self.parts(n)
            if not parts:
                raise Cannot(name)
            g, first = None, None
            for k, x in enumerate(parts):
                try:
                    g, first = self.of(x), k
                    break
                except (Cannot, Bad):
                    continue
            if g is None:
                raise Cannot(name)
            if first:
                raise Bad('the new entry is put before the existing ones')
            ax = kw(n, 'axis') or (p[1] if len(p) > 1 else None)
            if self.matrix(g) and name == 'numpy.concatenate' and (ax is None or num(ax) not in (1, -1)):
                raise Bad('joined along the wrong axis')
            if not self.matrix(g) and name == 'numpy.column_stack':
                raise Cannot(name)
            more = sum(self.width(x) if self.matrix(g) else self.length(x) for x in parts[1:])
            return (g[0], g[1] + more, tuple(parts[1:]))
        if name == 'numpy.pad' and len(p) >= 2:
            g = self.of(p[0])
            return (g[0], g[1] + self.padded(n, p, g), (kw(n, 'constant_values') or n,))
        if name in ('numpy.delete', 'numpy.resize'):
            raise Bad(f"{name}: entries are removed")
        raise Cannot(f"call {name}")

    def padded(self, n, p, g):
        rows = [[num(y) for y in items(x)] for x in items(p[1])] if p[1].op in ('tuple', 'list') else None
        if rows == [[0, 0], [0, 1]] and self.matrix(g) or not self.matrix(g) and rows in ([[0], [1]], [[0, 1]]):
            return 1
        raise Cannot('pad')

    def matrix(self, g):
        return self.w.mus[g[0]] in MATRICES

    def length(self, x):
        x = resolve(x)
        if x.op in ('list', 'tuple'):
            return len(x.args)
        if x.op in ('const', 'nan') or num(x) is not None or x.op == 'getitem' and self.scalar(x):
            return 1
        if stages.config_key(x):
            return 1
        if calls(x, 'numpy.array', 'numpy.asarray', 'numpy.ravel', 'float', 'int', 'numpy.float64'):
            return self.length(x.args[1])
        if calls(x, 'numpy.full', 'numpy.ones', 'numpy.zeros') and all(num(y) is not None for y in items(x.args[1])):
            t = 1
            for y in items(x.args[1]):
                t *= int(num(y))
            return t
        if x.op == '*' and any(is_nan(y) for y in x.args):
            return self.length([y for y in x.args if not is_nan(y)][0])
        raise Cannot('length of ' + str(x)[:80])

    def scalar(self, x):
        """An element picked out of a two-dimensional source array."""
        if source_index(x) is None:
            return False
        left = source_index(x)[2]
        return left == 0

    def width(self, x):
        x = resolve(x)
        if is_nan(x) or num(x) is not None:
            return 1
        if x.op == '*' and any(is_nan(y) for y in x.args):
            return self.width([y for y in x.args if not is_nan(y)][0])
        if calls(x, 'numpy.full', 'numpy.ones', 'numpy.zeros', 'numpy.empty'):
            s = items(x.args[1])
            if len(s) == 1:
                return 1
            if len(s) == 2 and num(s[1]) is not None:
                return int(num(s[1]))
        if calls(x, 'numpy.full_like', 'numpy.ones_like', 'numpy.zeros_like') and len(pos(x)) > 0:
            m = resolve(x.args[1])
            if m.op == 'getitem' and len(items(m.args[1])) == 2 and full(items(m.args[1])[0]):
                s = items(m.args[1])[1]
                if s.op != 'slice':
                    return 1
        if calls(x, 'numpy.reshape') and len(items(x.args[2])) == 2:
            s = [num(y) for y in items(x.args[2])]
            if s[0] == -1 and s[1] is not None:
                return int(s[1])
            if s[1] is not None:
                return int(s[1])
        if x.op == 'getitem' and len(items(x.args[1])) == 2 and full(items(x.args[1])[0]) and const(items(x.args[1])[1]) is None:
            return 1
        raise Cannot('width of ' + str(x)[:80])

    def at_end(self, g, where, what):
        if profile_place(self.w, where):
            raise Bad(f"{what} at the place the profile has in the source file, not at the end of the record")
        at = self.w.poly(where)
        d = (at - self.w.n0 - leaf('i') - pnum(g[1])).const()
        if d == 0:
            return
        if d is None:
            if any(v != 0 for m, v in at.t.items()) and foreign(at):
                raise Cannot('place ' + repr(at))
            raise Bad(f"{what} at place {at} of a record that has n0 + i + {g[1]} entries (n0 earlier ones, i added so far)")
        raise Bad(f"{what} at place {at}, but the record has n0 + i + {g[1]} entries")

    def write(self, g, idx, value):
        w = self.w
        it = items(idx)
        if self.matrix(g):
            if len(it) == 1 and stages.mask_of(it[0]) is not None or len(it) == 2 and any(stages.mask_of(x) is not None and x.op != 'getitem' for x in it):
                raise Cannot('masked store')
            if len(it) == 1:
                if it[0].op == 'iv' or num(it[0]) is not None:
                    raise Bad('a whole level of every profile is overwritten')
                raise Cannot('store index')
            p = it[1]
        else:
            if len(it) != 1:
                raise Cannot('store index')
            p = it[0]
        if full(p):
            raise Bad('the entries of every profile are overwritten')
        if p.op == 'slice':
            lo = resolve(p.args[0])
            if g[1] == 1 and num(lo) == -1 and const(p.args[1]) is None:
                return
            raise Cannot('store slice')
        if num(p) == -1:
            if g[1] < 1:
                raise Bad('the last earlier entry is overwritten')
            return
        si = source_index(p)
        at = w.poly(p) if not profile_place(w, p) else None
        if at is None:
            raise Bad('written at the place the profile has in the source file, not at the place of its record')
        d = (at - w.n0 - leaf('i')).const()
        if d is not None and 0 <= d < g[1]:
            return
        if d is None and 'highest earlier number' in repr(at):
            raise Bad('written at a place counted from the highest earlier profile number, not after the entries there are')
        if d is None and foreign(at):
            raise Cannot('store place')
        raise Bad(f"written at place {at}, but the entry of this profile is at place n0 + i (n0 earlier ones, i added so far)"
                  + (' and has not been added yet' if g[1] == 0 else ''))


class Uneven(Bad):
    def __init__(self, cond, a, b):
        super().__init__(f"{a} entries are added if {str(cond)[:160]}, else {b}")
        self.cond = cond


def foreign(p):
    """A quantity other than the numbers of entries and constants."""
    return any(a not in NAMED for m in p.t for a, _e in m)


def profile_place(w, p):
    """p is the place of the current profile in the source file."""
    p = resolve(p)
    if p.op == 'int':
        p = resolve(p.args[0])
    return p in w.places


def source_index(n):
    """Key, list of (axis, index) and axes left of a selection from the float source data."""
    n, idx = resolve(n), []
    while True:
        if n.op == 'getitem' and not isinstance(const(n.args[1]), str) or n.op == 'getitem' and const(n.args[1]) == '?':
            idx.append(items(n.args[1]))
        elif n.op == 'getitem':
            if not loaded(n.args[0], 'source') or const(n.args[1]) not in ROWS:
                return None
            break
        elif n.op == 'T':
            idx.append('T')
        elif n.op == 'call' and n.args[0] in FLAT:
            idx.append('flat')
        elif n.op == 'call' and n.args[0] in COPY:
            pass
        else:
            return None
        n = resolve(n.args[0] if n.op != 'call' else n.args[1])
    key = const(n.args[1])
    axes, got = ['level', 'profile'], []
    for step in reversed(idx):
        if step == 'T':
            axes.reverse()
        elif step == 'flat':
            if len(axes) > 1:
                if key in ('LAT', 'LONG', 'DATES', 'PROFILE_NO'):
                    axes = ['profile']
                else:
                    return None
        else:
            keep = list(axes)
            out = []
            for x in step:
                if x.op == 'const' and x.args[0] is None:
                    continue
                if x.op == 'ellipsis':
                    return None
                if not keep:
                    return None
                a = keep.pop(0)
                if x.op == 'slice' or stages.mask_of(x) is not None and not single(x):
                    if not full(x):
                        got.append((a, x))
                    out.append(a)
                else:
                    got.append((a, x))
            axes = out + keep
    return key, got, len(axes)


def single(x):
    return x.op == 'getitem' and resolve(x.args[1]).op in ('iv', 'const', 'mu')


# -- the saved variables ------------------------------------------------------
def value(n, shape_of):
    """Number computed from sizes."""
    n = resolve(n)
    v = num(n)
    if v is not None:
        return v
    if n.op == 'size':
        t = 1
        for x in shape_of(n.args[0]):
            t *= x
        return t
    if n.op == 'dim':
        if resolve(n.args[0]).op == 'shape':
            return len(shape_of(resolve(n.args[0]).args[0]))
        return shape_of(n.args[0])[const(n.args[1])]
    if n.op == 'ndim' or calls(n, 'numpy.ndim'):
        return len(shape_of(n.args[-1]))
    if n.op in ('+', '-', '*'):
        a, b = (value(x, shape_of) for x in n.args)
        return {'+': a + b, '-': a - b, '*': a * b}[n.op]
    raise Cannot(str(n)[:80])


def numbers(cond, shape_of):
    """Truth of a condition about sizes, for concrete sizes."""
    n = resolve(cond)
    if n.op in ('and', 'or'):
        ts = [numbers(a, shape_of) for a in n.args]
        return all(ts) if n.op == 'and' else any(ts)
    if n.op in ('not', 'truth'):
        return numbers(n.args[0], shape_of) != (n.op == 'not')
    if n.op in ('<', '<=', '=='):
        a, b = (value(x, shape_of) for x in n.args)
        return {'<': a < b, '<=': a <= b, '==': a == b}[n.op]
    return bool(value(n, shape_of))


class Final:
    """From the saved array back to the record kept by the loop over new profiles."""

    def __init__(self, it, main, number):
        self.it, self.main, self.number = it, main, number

    def base(self, n, seen=None):
        """Main-loop mu a value comes from."""
        n = resolve(n)
        seen = set() if seen is None else seen
        if n in seen:
            return None
        seen.add(n)
        if n.op == 'mu':
            return n if n.meta == self.main else self.base(n.init, seen)
        if n.op == 'phi':
            return self.base(n.args[1], seen) or self.base(n.args[2], seen)
        if n.op in ('getitem', 'store', 'viewstore', 'T', 'without'):
            return self.base(n.args[0], seen)
        if n.op == 'call' and n.args[0] in COPY + FLAT + ('numpy.take', 'numpy.reshape', 'numpy.where', 'numpy.delete', 'numpy.sort', 'numpy.flip', 'numpy.unique'):
            for x in pos(n):
                b = self.base(x, seen)
                if b is not None:
                    return b
        return None

    def shape_of(self, name_of, levels, count):
        def f(n):
            b = self.base(n)
            if b is None or b not in name_of:
                raise Cannot('size of ' + str(n)[:80])
            return (levels, count) if name_of[b] in MATRICES else (count,)
        return f

    def peel(self, n, name, name_of, levels, count):
        """(orderings applied, mu) for concrete sizes."""
        n = resolve(n)
        if n.op == 'mu' and n.meta == self.main:
            return [], n
        if n.op == 'phi':
            t = None
            try:
                t = numbers(n.args[0], self.shape_of(name_of, levels, count))
            except Cannot:
                pass
            if t is not None:
                return self.peel(n.args[1 if t else 2], name, name_of, levels, count)
            a, b = (self.peel(x, name, name_of, levels, count) for x in n.args[1:])
            if a != b:
                raise Bad(f"ordered only if {str(n.args[0])[:160]}")
            return a
        if n.op == 'mu':
            a = self.peel(n.init, name, name_of, levels, count)
            self.erasing(n.next, n)
            return a
        if n.op == 'store':
            if not is_nan(n.args[2]):
                raise Cannot('store after the loop')
            return self.peel(n.args[0], name, name_of, levels, count)
        if n.op == 'call' and n.args[0] == 'numpy.where' and len(pos(n)) == 3:
            c, a, b = pos(n)
            if is_nan(a) or is_nan(b):
                return self.peel(b if is_nan(a) else a, name, name_of, levels, count)
        if n.op == 'call' and n.args[0] in COPY:
            return self.peel(n.args[1], name, name_of, levels, count)
        if n.op == 'call' and n.args[0] == 'numpy.take' and len(pos(n)) > 1:
            ax = kw(n, 'axis') or (pos(n)[2] if len(pos(n)) > 2 else None)
            s, m = self.peel(pos(n)[0], name, name_of, levels, count)
            axis = (-1 if name not in MATRICES else None) if ax is None else value(ax, self.shape_of(name_of, levels, count))
            self.axis(axis, name)
            return s + [self.order(pos(n)[1])], m
        if n.op == 'getitem':
            it = items(n.args[1])
            if all(full(x) for x in it):
                return self.peel(n.args[0], name, name_of, levels, count)
            sel = [(k, x) for k, x in enumerate(it) if not full(x) and not (x.op == 'const' and x.args[0] is None)]
            if len(sel) == 1 and any(is_order(sel[0][1], o) for o in ('numpy.argsort', 'numpy.lexsort', 'slice', 'rev')):
                s, m = self.peel(n.args[0], name, name_of, levels, count)
                k = sel[0][0]
                if it and it[0].op == 'ellipsis':
                    k = -1
                self.axis(k, name)
                return s + [self.order(sel[0][1])], m
        if n.op == 'call' and n.args[0] in ('numpy.sort',):
            raise Bad('each record is sorted by its own values')
        if n.op == 'sorted':
            raise Bad('each record is sorted by its own values')
        raise Cannot(f"{n.op} {str(n)[:100]}")

    def erasing(self, n, mu):
        n = resolve(n)
        if n is mu:
            return
        if n.op == 'phi':
            for x in n.args[1:]:
                self.erasing(x, mu)
            return
        if n.op == 'store' and is_nan(n.args[2]):
            return self.erasing(n.args[0], mu)
        raise Cannot('loop after the mapping')

    def axis(self, k, name):
        want = (1, -1) if name in MATRICES else (0, -1)
        if k not in want:
            raise Bad(f"ordered along axis {k}")

    def order(self, n):
        """Description of an ordering: (what it sorts, whether that was already ordered, reversed)."""
        n = resolve(n)
        if n.op == 'slice':
            if num(n.args[2]) == -1:
                return ('reversed',)
            raise Cannot('slice')
        if n.op == 'getitem' and items(n.args[1])[0].op == 'slice' and num(items(n.args[1])[0].args[2]) == -1:
            return ('descending',) + self.order(n.args[0])
        if calls(n, 'numpy.argsort') or calls(n, 'numpy.lexsort'):
            x = resolve(n.args[1])
            if calls(n, 'numpy.lexsort'):
                x = resolve(x.args[-1])
            if x.op == 'neg':
                return ('descending',) + self.order_of(resolve(x.args[0]))
            return self.order_of(x)
        raise Cannot('ordering ' + str(n)[:80])

    def order_of(self, x):
        flat = False
        while x.op == 'call' and x.args[0] in COPY + FLAT or x.op == 'phi':
            if x.op == 'phi':
                b = self.base(x)
                if b is None:
                    raise Cannot('ordering')
                if resolve(x.args[2]) is not b and resolve(x.args[1]) is not b:
                    raise Cannot('ordering')
                # an already ordered copy
                return ('of the ordered ' + self.nm(b),)
            flat = flat or x.args[0] == 'numpy.ravel'
            x = resolve(x.args[1])
        if x.op == 'getitem':
            b = self.base(x)
            return ('of part of ' + (self.nm(b) if b is not None else '?'),)
        if x.op == 'mu' and x.meta == self.main:
            return ('by ' + self.nm(x), 'flat' if flat else '')
        if x.op == 'getitem' and loaded(x.args[0], 'source'):
            return ('by the source file',)
        raise Cannot('ordering of ' + str(x)[:80])

    def nm(self, m):
        return self.number.get(m, '?')


def is_order(x, what):
    x = resolve(x)
    if what == 'slice':
        return x.op == 'slice'
    if what == 'rev':
        return x.op == 'getitem' and is_order(x.args[0], 'numpy.argsort')
    return calls(x, what)


# -- rules -------------------------------------------------------------------
def spot(it):
    return 'pyowc/calibration.py update_salinity_mapping'


def find_main(saved):
    """Loop over new profiles: the loop whose mu the saved profile numbers come from."""
    seen, stack = set(), [saved]
    while stack:
        x = resolve(stack.pop(0))
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'mu':
            y = x
            # the outermost mu that grows
            return y.meta
        stack += [a for a in x.args if isinstance(a, N)]
    return None


def prepare(it):
    ev = stages.saved(it)
    if not ev:
        return None
    e, d = ev[-1]
    if 'la_profile_no' not in d:
        return None
    main = find_main(d['la_profile_no'])
    if main is None:
        return None
    f = Final(it, main, {})
    mus = {}
    for k in RECORDS:
        if k in d:
            b = f.base(d[k])
            if b is not None:
                if b in mus:
                    f.number[b] = mus[b]
                mus.setdefault(b, k)
                f.number.setdefault(b, k)
    return e, d, main, mus, f


def rule_final(c, it, prep):
    e, d, main, mus, f = prep
    loc = A.where(e)
    seen = {}
    for k in RECORDS:
        if k not in d:
            c.und(R4, k, 'not among the enumerable saved variables', loc)
            continue
        b = f.base(d[k])
        if b is None:
            c.und(R4, k, 'not built by the loop over new profiles as far as can be seen', loc)
            continue
        if mus[b] != k:
            c.bad(R4, k, f"the values saved under {k} are those of {mus[b]}", loc)
            continue
        for levels, count in ((1, 2), (50, 1000), (3, 2), (50, 1), (1, 1)):
            inst = f"{k}, {levels} levels and {count} profiles" if k in MATRICES else f"{k}, {count} profiles"
            if k in VECTORS and (k, count) in seen:
                continue
            seen[k, count] = 1
            try:
                s, m = f.peel(d[k], k, mus, levels, count)
            except Bad as x:
                c.bad(R4, inst, str(x), loc)
                continue
            except Cannot as x:
                c.und(R4, inst, str(x), loc)
                continue
            if count == 1:
                # any number of orderings of a single entry leaves it in place
                c.ok(R4, inst, 'one entry stays where it is', loc)
                continue
            want = 'by la_profile_no'
            if len(s) == 1 and s[0][0] == want:
                if s[0][1] != 'flat' and not flat_start(it, m_of(mus, 'la_profile_no')):
                    c.bad(R4, inst, 'the profile numbers read from an earlier run are still a row of a matrix when they are sorted', loc)
                    continue
                c.ok(R4, inst, 'ordered once by profile number', loc)
            elif not s:
                c.bad(R4, inst, 'saved without being put in order of profile number', loc)
            elif len(s) > 1:
                c.bad(R4, inst, f"reordered {len(s)} times: {s}", loc)
            else:
                c.bad(R4, inst, f"ordered {' '.join(s[0])}, not by profile number", loc)


def m_of(mus, k):
    return next((m for m, v in mus.items() if v == k), None)


def flat_start(it, m):
    """The record read from the file is one-dimensional when the loop starts."""
    n = resolve(m.init)
    while n.op == 'phi':
        n = resolve(n.args[1])
    return n.op == 'call' and n.args[0] in FLAT + ('numpy.reshape', 'list', 'numpy.concatenate', 'numpy.append') or \
        n.op == 'getitem' and num(n.args[1]) is not None


def world(it, main, mus, there):
    w = World(it, mus, there)
    w.places, coll, key = places(it, main)
    if coll is None and key is not None:
        # known profiles are passed over inside the loop; what is asked is what happens for a new one
        w.known = Known(mus, key)
    return w


def places(it, main):
    """Nodes that name the place of the current profile in the source file, and the mask they satisfy."""
    key = it.loopinfo[main].get('key')
    return over(resolve(key)) if key is not None else (set(), None, None)


def over(key):
    """(place nodes, condition, iv of that condition) of a loop; the condition is None when every profile is visited."""
    if key.op == 'iv':
        stop = resolve(key.args[1])
        if stop.op == 'dim' and const(stop.args[1]) == 0:
            b = resolve(stop.args[0])
            m = None if b.op == 'comp' else stages.mask_of(b)
            if b.op == 'comp' or m is not None:
                return {resolve(mk('getitem', b, key))}, b, key
        return {key}, None, key
    return {key}, None, key


def rule_growth(c, it, prep):
    e, d, main, mus, f = prep
    for there in (True, False):
        w = world(it, main, mus, there)
        when = 'earlier results exist' if there else 'first run'
        for m, k in mus.items():
            inst = f"{k}, {when}"
            loc = f"{spot(it)}"
            g = Growth(w)
            try:
                base, more, _v = g.of(m.next)
                if base is not m:
                    c.bad(R1, inst, f"replaced by {mus[base]}", loc)
                elif more == 1:
                    c.ok(R1, inst, 'one entry at the end per new profile', loc)
                else:
                    c.bad(R1, inst, f"{more} entries are added per new profile", loc)
            except Bad as x:
                rule = R2 if 'written' in str(x) else R1
                c.bad(rule, inst, str(x), loc)
            except Cannot as x:
                c.und(R1, inst, str(x), loc)


def source_of(m):
    """Source array a mask is about."""
    for x in walk(m):
        if x.op == 'call' and x.args[0] in ('numpy.isin', 'numpy.in1d') and source_index(x.args[1]):
            return resolve(x.args[1])
    return None


class Known:
    """Truth of conditions on whether the current profile number is among those mapped before."""

    def __init__(self, mus, place):
        self.mus, self.place = mus, place
        self.record = next((m for m, k in mus.items() if k == 'la_profile_no'), None)
        self.number, self.at = 1, 0

    def isnum(self, n):
        s = source_index(n)
        return s is not None and s[0] == 'PROFILE_NO' and s[2] == 0 and [x for a, x in s[1] if a == 'profile'] == [self.place]

    def listed(self, n):
        """Which list of numbers a node is."""
        n = resolve(n)
        if n in self.mus:
            return self.mus[n]
        if n.op == 'phi':
            a, b = self.listed(n.args[1]), self.listed(n.args[2])
            return a if a == b or b == 'empty' else b if a == 'empty' else None
        if n.op == 'call' and n.args[0] in FLAT + COPY + ('numpy.unique', 'numpy.sort', 'set', 'list', 'builtins.set', 'builtins.list') and len(n.args) > 1:
            return self.listed(n.args[1])
        if n.op in ('set', 'sorted') and n.args and isinstance(n.args[0], N):
            return self.listed(n.args[0])
        if n.op == 'getitem' and loaded(n.args[0], 'mapped'):
            return const(n.args[1])
        if n.op == 'list' and not n.args or calls(n, 'numpy.empty', 'numpy.zeros', 'numpy.array') and (num(n.args[1]) == 0 or resolve(n.args[1]).op == 'list' and not resolve(n.args[1]).args):
            return 'empty'
        if n.op == 'getitem':
            k = self.listed(n.args[0])
            if num(n.args[1]) == 0 and resolve(n.args[0]).op == 'getitem':
                return k
            return k and 'part of ' + k
        return None

    def islist(self, n):
        return self.listed(n) == 'la_profile_no'

    def match(self, m):
        """Boolean array that is true where the list equals the number (True), or where it does not (False)."""
        m = resolve(m)
        if m.op == 'not':
            r = self.match(m.args[0])
            return None if r is None else not r
        if m.op == '==':
            a, b = resolve(m.args[0]), resolve(m.args[1])
            for x, y in ((a, b), (b, a)):
                if self.islist(x) and self.isnum(y):
                    return True
                if self.islist(x):
                    s = source_index(y)
                    if y is self.place or num(y) is not None or s and (s[0] != 'PROFILE_NO' or s[2] == 0 and len(s[1]) == 2):
                        raise Bad(f"the loaded profile numbers are compared with {str(y)[:100]}")
                if x.op == '-' and num(y) == 0:
                    p, q = (resolve(z) for z in x.args)
                    if self.islist(p) and self.isnum(q) or self.islist(q) and self.isnum(p):
                        return True
        if m.op == 'call' and m.args[0] in ('numpy.isin', 'numpy.in1d') and len(m.args) > 2:
            b = resolve(m.args[2])
            if self.islist(m.args[1]) and (self.isnum(b) or b.op in ('list', 'tuple') and len(b.args) == 1 and self.isnum(b.args[0])):
                return True
        return None

    def count(self, m, known):
        if self.match(m) is not True:
            return sum(map(bool, self.vec(m, known)))
        return 1 if known else 0

    def vec(self, n, known):
        """Element by element over a list of numbers mapped earlier (some below, some above the current one)."""
        n = resolve(n)
        if self.islist(n):
            return [self.number + d for d in self.others] + ([self.number] if known else [])
        if n.op in ('not', 'truth', 'abs', 'neg'):
            f = {'not': lambda v: not v, 'truth': bool, 'abs': abs, 'neg': lambda v: -v}[n.op]
            return [f(v) for v in self.vec(n.args[0], known)]
        if n.op in ('<', '<=', '==', '+', '-', 'and', 'or') and len(n.args) == 2:
            vs = []
            for x in n.args:
                try:
                    vs.append((False, self.val(x, known)))
                except Cannot:
                    vs.append((True, self.vec(x, known)))
            size = [len(v) for a, v in vs if a]
            if not size or len(set(size)) > 1:
                raise Cannot(str(n)[:80])
            a, b = (v if arr else [v] * size[0] for arr, v in vs)
            f = {'<': lambda p, q: p < q, '<=': lambda p, q: p <= q, '==': lambda p, q: p == q, '+': lambda p, q: p + q, '-': lambda p, q: p - q,
                 'and': lambda p, q: p and q, 'or': lambda p, q: p or q}[n.op]
            return [f(p, q) for p, q in zip(a, b)]
        raise Cannot(str(n)[:80])

    others = (-1, 2)

    def val(self, n, known):
        n = resolve(n)
        v = num(n)
        if v is not None:
            return v
        if self.isnum(n):
            return self.number
        if n is self.place:
            return self.at
        if n.op in ('+', '-', '*', '%', 'int') or n.op == 'call' and n.args[0] in ('int', 'builtins.int', 'float'):
            vs = [self.val(x, known) for x in n.args if isinstance(x, N)]
            return {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '%': lambda a, b: a % b if b else 0}.get(n.op, lambda a: int(a))(*vs)
        if n.op in ('size', 'dim'):
            m, k = resolve(n.args[0]), 0
            while calls(m, 'numpy.argwhere', 'numpy.nonzero', 'numpy.flatnonzero', 'numpy.where') and len(m.args) == 2 \
                    or m.op == 'getitem' and const(m.args[1]) == 0:
                if calls(m, 'numpy.nonzero', 'numpy.where') and not k and n.op == 'dim':
                    return 1
                k += 1
                m = resolve(m.args[1] if m.op == 'call' else m.args[0])
            if k:
                return self.count(m, known)
            if m.op == 'getitem':
                return self.count(stages.mask_of(m.args[1]) or m.args[1], known)
        for names, fn in ((('numpy.amax', 'numpy.max', 'numpy.nanmax', 'max', 'builtins.max'), max), (('numpy.amin', 'numpy.min', 'numpy.nanmin', 'min', 'builtins.min'), min)):
            if calls(n, *names) and len(n.args) == 2:
                return fn(self.vec(n.args[1], known))
        if calls(n, 'numpy.sum', 'numpy.sum0', 'sum', 'numpy.count_nonzero', 'builtins.sum'):
            return self.count(n.args[1], known)
        raise Cannot(str(n)[:80])

    def truth(self, n, known):
        n = resolve(n)
        if n.op in ('not', 'truth'):
            return self.truth(n.args[0], known) != (n.op == 'not')
        if n.op in ('and', 'or'):
            ts = [self.truth(a, known) for a in n.args]
            return all(ts) if n.op == 'and' else any(ts)
        if n.op == 'in' and self.isnum(n.args[0]) and self.islist(n.args[1]):
            return known
        if calls(n, 'numpy.isin', 'numpy.in1d') and self.isnum(n.args[1]) and self.islist(n.args[2]):
            return known
        if n.op == 'getitem' and resolve(n.args[1]) is self.place:
            # one element of a membership mask over all profile numbers
            m, neg = resolve(n.args[0]), False
            while m.op == 'not':
                m, neg = resolve(m.args[0]), not neg
            if calls(m, 'numpy.isin', 'numpy.in1d') and self.islist(m.args[2]):
                s = source_index(m.args[1])
                inv = kw(m, 'invert')
                if s and s[0] == 'PROFILE_NO' and not [1 for a, _x in s[1] if a == 'profile']:
                    return known != (neg != (inv is not None and const(inv) is True))
        if calls(n, 'numpy.any', 'any', 'builtins.any', 'bool'):
            r = self.match(n.args[1])
            if r is True:
                return known
            if not calls(n, 'bool'):
                return any(self.vec(n.args[1], known))
        if calls(n, 'numpy.all', 'all', 'builtins.all'):
            return not known if self.match(n.args[1]) is False else all(self.vec(n.args[1], known))
        if n.op in ('<', '<=', '=='):
            a, b = self.val(n.args[0], known), self.val(n.args[1], known)
            return {'<': a < b, '<=': a <= b, '==': a == b}[n.op]
        return bool(self.val(n, known))


def rule_which(c, it, prep):
    e, d, main, mus, f = prep
    loc = spot(it)
    key = it.loopinfo[main].get('key')
    if key is None:
        c.und(R3, 'profiles visited', 'the loop over new profiles is not understood', loc)
        return
    key = resolve(key)
    pl, coll, _ = over(key)
    record = m_of(mus, 'la_profile_no')
    skip = coll is None
    if skip:
        place = key
        kn = Known(mus, place)
        n = resolve(record.next)
        if n.op != 'phi' or not ({resolve(n.args[1]), resolve(n.args[2])} & {record}):
            c.bad(R3, 'profiles visited', 'every profile of the source file is added, also those already mapped', loc)
            return
        cond = n.args[0] if resolve(n.args[2]) is record else mk('not', n.args[0])
    elif coll.op == 'comp':
        place, cond, expr = (resolve(x) for x in coll.args[:3])
        kn = Known(mus, place)
        if expr is not place:
            c.und(R3, 'profiles visited', f"list of {str(expr)[:100]}", loc)
            return
    else:
        m = resolve(stages.mask_of(coll))
        place = iv(const0(0), mk('dim', source_of(m) or m, const0(0)), const0(1), 90)
        kn = Known(mus, place)
        cond = mk('getitem', m, place)
    cond = resolve(cond)
    lists = {kn.listed(x) for x in walk(cond) if kn.listed(x)} - {'empty'}
    wrong = {x for x in lists if x != 'la_profile_no'}
    try:
        for (kn.number, kn.at), kn.others in product(((1, 0), (0, 0), (2, 1), (57, 6), (400, 399)), ((-1, 2), (-1,), (2,), (-3, -2, 1, 5))):
            tk, tn = (kn.truth(cond, k) for k in (True, False))
            if tk or not tn:
                break
        if not tk and tn:
            c.ok(R3, 'profiles visited', 'those whose number is not among the loaded ones', loc)
        else:
            c.bad(R3, 'profiles visited', f"a profile already mapped is {'processed again' if tk else 'skipped'}, "
                                          f"a new one is {'processed' if tn else 'skipped'}", loc)
    except Bad as x:
        c.bad(R3, 'profiles visited', str(x), loc)
    except Cannot as x:
        if wrong and 'la_profile_no' not in lists:
            c.bad(R3, 'profiles visited', f"compared with {', '.join(sorted(wrong))} of the earlier results, not with the profile numbers", loc)
        elif any(x.startswith('part of') for x in wrong) and not any(kn.islist(y) for z in walk(cond) if z.op in ('==', 'in') or calls(z, 'numpy.isin')
                                                                      for y in z.args if isinstance(y, N)):
            c.bad(R3, 'profiles visited', f"compared with {', '.join(sorted(wrong))} only", loc)
        else:
            c.und(R3, 'profiles visited', str(x), loc)
    # the whole source file is looked at
    st = resolve(place.args[0]), resolve(place.args[1]), resolve(place.args[2])
    whole = num(st[0]) == 0 and num(st[2]) == 1
    stop = st[1]
    si = None
    if stop.op == 'dim' or stop.op == 'size':
        si = source_index(stop.args[0])
    if whole and si is not None and not si[1] or whole and si and [x for a, x in si[1] if a == 'profile'] == [] and (si[2] == 1 or const(stop.args[1]) == 1):
        c.ok(R3, 'profiles looked at', 'all of the source file', loc)
    elif num(st[0]) is not None and num(st[0]) != 0 or stop.op in ('-',) and num(stop.args[1]) is not None:
        c.bad(R3, 'profiles looked at', f"from {st[0]} to {str(stop)[:100]}", loc)
    else:
        c.und(R3, 'profiles looked at', f"from {st[0]} to {str(stop)[:100]}", loc)
    # every new profile is worked on
    a, b, st = (resolve(x) for x in key.args[:3])
    if skip:
        pass
    elif num(a) == 0 and num(st) == 1 and b.op == 'dim':
        c.ok(R3, 'rounds', 'one per new profile', loc)
    elif num(a) is not None and num(a) != 0:
        c.bad(R3, 'rounds', f"begins with new profile number {num(a)}", loc)
    else:
        c.und(R3, 'rounds', str(key)[:100], loc)
    # the number recorded and the data used belong to this profile
    want = next(iter(pl))
    seen = {}
    for m, k in mus.items():
        for n in walk_main(m, main):
            s = source_index(n) if n.op == 'getitem' else None
            if s is None or in_list(n, coll):
                continue
            at = [x for a, x in s[1] if a == 'profile']
            if not at:
                continue
            seen.setdefault(s[0], set()).add(at[0])
    for ev in it.events:
        if main not in [l[0] if isinstance(l, tuple) else l for l in ev.loops]:
            continue
        for x in list(ev.args or ()) + list((ev.kwargs or {}).values()):
            if not isinstance(x, N):
                continue
            s = source_index(x) if resolve(x).op == 'getitem' else None
            if s:
                at = [y for a, y in s[1] if a == 'profile']
                if at:
                    seen.setdefault(s[0], set()).add(at[0])
    for k in sorted(seen):
        wrong = [x for x in seen[k] if resolve(x) is not want and not (x.op == 'int' and resolve(x.args[0]) is want)]
        if not wrong:
            c.ok(R3, f"{k} of the profile", 'taken at the place of the new profile', loc)
        else:
            x = wrong[0]
            plain = x.op in ('iv', 'const', 'mu') or x.op in ('+', '-')
            (c.bad if plain else c.und)(R3, f"{k} of the profile", f"taken at {str(x)[:120]} of the source file, the new profile is at {str(want)[:100]}", loc)
    for k in ('LAT', 'LONG', 'SAL', 'PRES', 'PROFILE_NO'):
        if k not in seen:
            c.und(R3, f"{k} of the profile", 'not seen being read for the profile', loc)
    # recorded number
    w = world(it, main, mus, True)
    g = Growth(w)
    try:
        _b, _more, vals = g.of(record.next)
        v = resolve(vals[0]) if len(vals) == 1 and isinstance(vals[0], N) else None
        while v is not None and v.op in ('list', 'tuple') and len(v.args) == 1:
            v = resolve(v.args[0])
        s = source_index(v) if v is not None else None
        if s and s[0] == 'PROFILE_NO' and [x for a, x in s[1] if a == 'profile'] == [want]:
            c.ok(R3, 'recorded number', 'the number of the new profile', loc)
        elif v is not None and (s and s[0] != 'PROFILE_NO' or v.op in ('iv', 'const', 'nan', 'mu') or v is want):
            c.bad(R3, 'recorded number', f"{str(v)[:120]} is recorded as profile number", loc)
        elif s and s[0] == 'PROFILE_NO':
            pass        # the place is reported above
        else:
            c.und(R3, 'recorded number', str(v)[:120], loc)
    except (Cannot, Bad) as x:
        c.und(R3, 'recorded number', str(x), loc)


def in_list(n, coll):
    """Selection at the index of the search for new profiles."""
    return coll is not None and coll.op == 'comp' and any(resolve(x) is resolve(coll.args[0]) for _a, x in source_index(n)[1])


def walk_main(m, main):
    seen, stack = set(), [m.next]
    while stack:
        x = resolve(stack.pop())
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == 'comp':
            continue
        if x.op == 'mu':
            if x.meta != main:
                stack += [y for y in (x.init, x.next) if y is not None]
            continue
        if x.op == 'iv':
            continue
        stack += [y for y in x.args if isinstance(y, N)]


SIZES = [(3, 2), (3, 3), (3, 4), (3, 5), (2, 40)]


def rule_loading(c, it, prep):
    e, d, main, mus, f = prep
    loc = 'pyowc/helper.py load_varibales_from_file'
    for m, k in mus.items():
        w = World(it, mus, True)
        try:
            for old, new in SIZES if k in MATRICES else SIZES[:1]:
                ld = Load(w, k, old, new)
                got = ld.of(m.init)
                inst = f"{k}, {old} stored levels, {new} levels in the float" if k in MATRICES else k
                if k in MATRICES:
                    rows, key = got
                    if key != k:
                        c.bad(R5, inst, f"continued from {key}", loc)
                    elif rows != max(old, new):
                        c.bad(R5, inst, f"has {rows} levels when the new profiles are added, {max(old, new)} are needed", loc)
                    else:
                        c.ok(R5, inst, f"{rows} levels, missing ones at the bottom", loc)
                elif got == k:
                    c.ok(R5, inst, 'continued from its own earlier values', loc)
                else:
                    c.bad(R5, inst, f"continued from {got}", loc)
        except Bad as x:
            c.bad(R5, k, str(x), loc)
        except Cannot as x:
            c.und(R5, k, str(x), loc)
        w = World(it, mus, False)
        try:
            n = w.choose(m.init)
            while n.op == 'call' and n.args[0] in COPY + FLAT:
                n = resolve(n.args[1])
            if n.op == 'list':
                if n.args or k in MATRICES:
                    raise Bad('does not start empty')
                c.ok(R6, k, 'empty', loc)
            elif calls(n, 'numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.full'):
                s = items(n.args[1])
                if k in MATRICES:
                    if len(s) != 2:
                        raise Bad(f"starts with shape {n.args[1]}")
                    if num(s[1]) != 0:
                        raise Bad(f"starts with {s[1]} profiles")
                    p = w.poly(s[0])
                    if (p - leaf('levels')).const() == 0:
                        c.ok(R6, k, 'one row per level, no profiles', loc)
                    elif not foreign_levels(p):
                        raise Bad(f"starts with {p} levels")
                    else:
                        raise Cannot('levels ' + repr(p))
                elif len(s) == 1 and num(s[0]) == 0:
                    c.ok(R6, k, 'empty', loc)
                elif all(num(x) is not None for x in s) and 0 not in [num(x) for x in s]:
                    raise Bad(f"starts with shape {n.args[1]}")
                else:
                    raise Cannot('shape ' + str(n.args[1]))
            else:
                raise Cannot(str(n)[:80])
        except Bad as x:
            c.bad(R6, k, str(x), loc)
        except Cannot as x:
            c.und(R6, k, str(x), loc)
    for k in ('selected_hist',):
        if k in d:
            b = f.base(d[k]) or next((x for x in walk(d[k]) if x.op == 'mu' and x.meta == main), None)
            w = World(it, mus, True)
            if b is None:
                c.und(R5, k, 'not found', loc)
                continue
            n = w.choose(b.init)
            if n.op == 'getitem' and loaded(n.args[0], 'mapped'):
                c.that(const(n.args[1]) == k, R5, k, f"continued from {const(n.args[1])}", loc)
            elif n.op == 'list' or calls(n, 'numpy.empty', 'numpy.zeros'):
                c.bad(R5, k, 'the casts selected for earlier profiles are forgotten', loc)
            else:
                c.und(R5, k, str(n)[:80], loc)


def foreign_levels(p):
    return any(a != ('leaf', 'levels') for m in p.t for a, _e in m)


class Load:
    """What a record holds when the loop starts, given stored results with old levels and a float with new ones."""

    def __init__(self, w, name, old, new):
        self.w, self.name, self.levels, self.new = w, name, old, new

    def value(self, n):
        p = self.w.poly(n)
        t = 0
        for m, v in p.t.items():
            x = v
            for a, ex in m:
                known = {('leaf', 'old levels'): self.levels, ('leaf', 'levels'): self.new, ('leaf', 'n0'): 7}
                if a not in known:
                    raise Cannot('number ' + repr(p))
                x *= known[a] ** float(ex)
            t += x
        return t

    def truth(self, n):
        n = resolve(n)
        if n.op in ('and', 'or'):
            ts = [self.truth(a) for a in n.args]
            return all(ts) if n.op == 'and' else any(ts)
        if n.op in ('not', 'truth'):
            return self.truth(n.args[0]) != (n.op == 'not')
        t = self.w.truth(n)
        if t is not None:
            return t
        if n.op in ('<', '<=', '=='):
            a, b = self.value(n.args[0]), self.value(n.args[1])
            return {'<': a < b, '<=': a <= b, '==': a == b}[n.op]
        raise Cannot('condition ' + str(n)[:100])

    def of(self, n):
        n = resolve(n)
        while n.op == 'phi':
            n = resolve(n.args[1 if self.truth(n.args[0]) else 2])
        if n.op == 'getitem' and loaded(n.args[0], 'mapped'):
            k = const(n.args[1])
            return (self.levels, k) if self.name in MATRICES else k
        if n.op == 'list' and not n.args or calls(n, 'numpy.empty', 'numpy.zeros', 'numpy.full', 'numpy.ones'):
            raise Bad('earlier values are forgotten')
        if n.op == 'getitem' and self.name in VECTORS and num(n.args[1]) == 0:
            return self.of(n.args[0])
        if n.op == 'getitem' and all(full(x) for x in items(n.args[1])):
            return self.of(n.args[0])
        if n.op == 'getitem' and any(x.op == 'slice' and (num(x.args[2]) or 1) < 0 for x in items(n.args[1])) or \
                calls(n, 'numpy.flip', 'numpy.fliplr', 'numpy.flipud', 'numpy.roll', 'numpy.sort', 'numpy.unique'):
            self.of(n.args[0] if n.op == 'getitem' else n.args[1])
            raise Bad('earlier values are taken over in another order')
        if n.op == 'call' and n.args[0] in COPY + FLAT or calls(n, 'numpy.reshape', 'list'):
            return self.of(n.args[1])
        if self.name not in MATRICES:
            raise Cannot(str(n)[:100])
        if calls(n, 'numpy.insert') and len(pos(n)) >= 3:
            p = pos(n)
            rows, key = self.of(p[0])
            ax = kw(n, 'axis') or (p[3] if len(p) > 3 else None)
            if ax is None or num(ax) not in (0, -2):
                raise Bad(f"extended along axis {const(ax) if ax is not None else None}")
            at = self.value(p[1])
            if at != rows:
                raise Bad(f"new levels are put at row {at:g} of {rows}")
            return rows + self.filler(p[2]), key
        if calls(n, 'numpy.append') and len(pos(n)) >= 2:
            p = pos(n)
            rows, key = self.of(p[0])
            ax = kw(n, 'axis') or (p[2] if len(p) > 2 else None)
            if ax is None or num(ax) not in (0, -2):
                raise Bad('extended along the wrong axis')
            return rows + self.filler(p[1]), key
        if calls(n, 'numpy.vstack', 'numpy.concatenate'):
            p = pos(n)
            ax = kw(n, 'axis') or (p[1] if len(p) > 1 else None)
            if n.args[0] == 'numpy.concatenate' and ax is not None and num(ax) not in (0, -2):
                raise Bad('extended along the wrong axis')
            parts = [resolve(x) for x in p[0].args] if p[0].op in ('list', 'tuple') else []
            if len(parts) != 2:
                raise Cannot(n.args[0])
            if filler_like(parts[0]) and not filler_like(parts[1]):
                raise Bad('new levels are put above the stored ones')
            rows, key = self.of(parts[0])
            return rows + self.filler(parts[1]), key
        if calls(n, 'numpy.pad'):
            p = pos(n)
            rows, key = self.of(p[0])
            w = [items(x) for x in items(p[1])]
            if len(w) == 2 and len(w[0]) == 2 and [num(x) for x in w[1]] == [0, 0]:
                if self.value(w[0][0]) != 0:
                    raise Bad('new levels are put above the stored ones')
                v = kw(n, 'constant_values')
                if v is None or not is_nan(v):
                    raise Bad(f"new levels are filled with {v}, not with missing values")
                return rows + self.value(w[0][1]), key
        if n.op == 'getitem':
            i = items(n.args[1])
            if i[0].op == 'slice' and all(full(x) for x in i[1:]):
                raise Bad('levels are cut off')
        raise Cannot(str(n)[:100])

    def filler(self, v):
        v = resolve(v)
        if v.op in ('*', '+') and any(is_nan(x) for x in v.args):
            s = [resolve(x) for x in v.args if not is_nan(x)][0]
        elif calls(v, 'numpy.full') and len(pos(v)) > 1:
            if not is_nan(pos(v)[1]):
                raise Bad(f"new levels are filled with {pos(v)[1]}, not with missing values")
            s = v
        elif calls(v, 'numpy.ones', 'numpy.zeros') or v.op == '*' and any(num(x) is not None for x in v.args):
            raise Bad('new levels are filled with numbers, not with missing values')
        else:
            raise Cannot('filling ' + str(v)[:80])
        if not calls(s, 'numpy.ones', 'numpy.zeros', 'numpy.full', 'numpy.empty'):
            raise Cannot('filling ' + str(v)[:80])
        sh = items(s.args[1])
        if len(sh) != 2:
            raise Cannot('filling shape')
        if self.value(sh[1]) != 7:
            raise Bad(f"the new levels have {sh[1]} columns")
        return self.value(sh[0])


def filler_like(n):
    return n.op in ('*', '+') and any(is_nan(x) for x in n.args) or calls(n, 'numpy.full', 'numpy.ones')


def main():
    c = Check('C09', 'incremental mapping extends every per-profile record in lockstep',
              'Each saved per-profile variable is traced back to the record carried through the loop over new profiles. By induction '
              'over that loop (n0 entries loaded, i added) the effect of one round is computed for every record under every condition: it '
              'must add exactly one entry, at the end, and write only that entry. The list of profiles worked on is decided for known and '
              'unknown numbers, every use of the source data must be at the place of the new profile, the loaded values are followed for '
              'more, fewer and equally many levels, and the ordering before saving must be one application of the order of the profile '
              'numbers along the profile axis.',
              'The induction covers any number of earlier and new profiles.')
    it = A.core()
    c.covered(it)
    prep = prepare(it)
    if prep is None:
        c.und(R1, 'all', 'the loop over new profiles was not found')
        return c.finish()
    for r in (rule_growth, rule_which, rule_final, rule_loading):
        c.rule(r, it, prep)
    return c.finish()

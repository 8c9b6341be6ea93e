"""Which elements of an array are erased (set to a missing value), as a predicate over the
element's value: predicates are normalised to thresholds and compared cell by cell of the
partition of the real line that the thresholds induce (exact for such predicates)."""
from .ir import N, resolve, walk, is_const, mk, raw, NAN, is_bool

CMP = ('<', '<=', '==')
RESHAPE = ('numpy.ravel', 'numpy.reshape', 'numpy.squeeze', 'numpy.expand_dims')


def num(n):
    n = resolve(n)
    if n.op == 'const' and isinstance(n.args[0], (int, float)) and not isinstance(n.args[0], bool):
        return n.args[0]
    return None


def is_nan(n):
    n = resolve(n)
    return n is NAN or n.op == 'nan'


def mask_of(idx, deep=0):
    """Boolean mask node whose true positions the index node enumerates, else None."""
    n = resolve(idx)
    if deep > 8:
        return None
    if is_bool(n) or n.op in CMP:
        return n
    if n.op == 'call' and n.args[0] in ('numpy.argwhere', 'numpy.nonzero', 'numpy.flatnonzero', 'numpy.where') and len(n.args) == 2:
        return resolve(n.args[1])
    if n.op == 'getitem':
        m = mask_of(n.args[0], deep + 1)
        return mk('some', m) if m is not None and m.op != 'some' and shortened(n) else m
    if n.op == 'call' and n.args[0] in ('numpy.ravel', 'numpy.array', 'numpy.asarray', 'numpy.concatenate', 'numpy.vstack',
                                        'numpy.append', 'numpy.unique', 'numpy.sort', 'numpy.squeeze', 'tuple', 'list', 'zip'):
        ms = []
        for a in n.args[1:]:
            if not isinstance(a, N) or a.op == 'kw':
                continue
            a = resolve(a)
            parts = a.args if a.op in ('tuple', 'list') else (a,)
            for p in parts:
                m = mask_of(p, deep + 1)
                if m is None:
                    return None
                ms.append(m)
        r = None
        for m in ms:
            r = m if r is None else mk('or', r, m)
        return r
    if n.op == 'tuple' and n.args:
        # one index array per dimension, in order
        ms = []
        for k, a in enumerate(n.args):
            a = resolve(a)
            if a.op != 'getitem' or component(a) != k:
                return None
            ms.append(mask_of(a, deep + 1))
        return ms[0] if ms[0] is not None and all(m is ms[0] for m in ms) else None
    if n.op == 'list' and not n.args:
        return mk('const', False)
    if n.op == 'phi':
        # whichever list is taken: what both name, an empty one leaving nothing out
        c, a, b = n.args
        ma, mb = mask_of(a, deep + 1), mask_of(b, deep + 1)
        if ma is None or mb is None:
            return None
        if ma is mb:
            return ma
        return mk('and', either(ma, vacant(c, True)), either(mb, vacant(c, False)))
    if n.op in ('concatlist',):
        r = None
        for p in n.args:
            m = mask_of(p, deep + 1)
            if m is None:
                return None
            r = m if r is None else mk('or', r, m)
        return r
    return None


def either(m, more):
    return m if more is None else mk('or', m, more)


def vacant(c, held):
    """Mask of which nothing is true, given that c holds (or not); None if none is known."""
    c = resolve(c)
    if c.op == 'not':
        return vacant(c.args[0], not held)
    if c.op == 'truth':
        return vacant(c.args[0], held)
    if c.op in ('and', 'or'):
        got = [vacant(x, held) for x in c.args]
        if (c.op == 'and') == held:
            got = [g for g in got if g is not None]
            r = None
            for g in got:
                r = either(g, r)
            return r
        if any(g is None for g in got):
            return None
        r = got[0]
        for g in got[1:]:
            r = mk('and', r, g)
        return r
    if c.op in ('<', '<=', '=='):
        a, b = (resolve(x) for x in c.args)
        if c.op == '==' and 0 in (num(a), num(b)):
            return counted(b if num(a) == 0 else a) if held else None
        if (c.op, num(a)) in (('<', 0), ('<=', 1)):
            return None if held else counted(b)
        if (c.op, num(b)) in (('<', 1), ('<=', 0)):
            return counted(a) if held else None
        return None
    return None if held else counted(c)


def counted(n):
    """n is the number of entries of an index list (or the list itself): its mask."""
    n = resolve(n)
    if n.op == 'size' or n.op == 'dim' and num(n.args[1]) == 0:
        return mask_of(n.args[0])
    return None


def stretch(p):
    """A slice that leaves something out of a long enough array."""
    p = resolve(p)
    if p.op != 'slice':
        return False
    start, stop, step = (resolve(x) for x in p.args[:3])
    none = [x.op == 'const' and x.args[0] is None for x in (start, stop, step)]
    return num(start) not in (None, 0) or not none[1] and num(stop) is not None or not none[2] and num(step) not in (None, 1, -1)


def shortened(n):
    """An index list taken in part: entries of it can be left out whatever it holds."""
    i = resolve(n.args[1])
    p = resolve(i.args[0]) if i.op == 'tuple' and i.args else i
    b = resolve(n.args[0])
    if b.op == 'tuple' or b.op == 'call' and b.args[0] in ('numpy.nonzero', 'numpy.where'):
        return False        # picks the list of one dimension
    if p.op == 'slice':
        return stretch(p)
    if p.op == 'iv':
        return num(p.args[0]) not in (None, 0) or num(p.args[2]) not in (None, 1, -1)
    return False


def component(n):
    """Which coordinate an index expression derived from argwhere/nonzero selects."""
    n = resolve(n)
    got = None
    while n.op == 'getitem':
        i = resolve(n.args[1])
        parts = i.args if i.op == 'tuple' else (i,)
        for p in parts:
            p = resolve(p)
            if p.op == 'const' and isinstance(p.args[0], int) and got is None:
                got = p.args[0]
        n = resolve(n.args[0])
    return got


class Erase:
    """Peel an array value into (erasing masks, versions of the same array, base)."""

    SEL = ('numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.ascontiguousarray', 'numpy.take', 'numpy.take_along_axis', 'numpy.atleast_2d')

    def __init__(self):
        self.masks = []      # (mask node, ivs tuple or None)
        self.versions = set()
        self.unknown = []
        self.base = None
        self.wrong = []      # erasing steps that hit another element than the tested one
        self.partial = []    # tests that look at a stretch of the array only
        self.unclear = []    # erasing steps that are not understood

    def peel(self, v, cond=None, deep=0):
        while deep < 60:
            deep += 1
            v = resolve(v)
            self.versions.add(v)
            if v.op == 'phi':
                self.phi(v, deep)
                return self
            if v.op == 'store':
                b, i, x = v.args
                inner = self.stretch(b, i, x)
                if inner is not None:
                    self.masks += inner
                    v = b
                    continue
                if not is_nan(x) and not (resolve(x).op == 'call' and walk_nan(x)):
                    break
                m = mask_of(i)
                if m is not None:
                    self.masks.append(m)
                    v = b
                    continue
                break
            if v.op == 'viewstore':
                break
            if v.op == 'call' and v.args[0] == 'numpy.where' and len(v.args) == 4:
                m, x, y = v.args[1:]
                if is_nan(x):
                    self.masks.append(resolve(m))
                    v = y
                    continue
                if is_nan(y):
                    self.masks.append(mk('not', resolve(m)))
                    v = x
                    continue
                break
            if v.op == 'call' and v.args[0] in self.SEL:
                v = v.args[1]
                continue
            if v.op == 'T' or (v.op == 'call' and v.args[0] in RESHAPE):
                v = v.args[0 if v.op == 'T' else 1]
                continue
            if v.op == 'getitem' and self.selection(v.args[1]):
                v = v.args[0]
                continue
            if v.op == 'mu':
                w = self.loop(v)
                if w is None:
                    break
                v = w
                continue
            break
        self.base = v
        return self

    def stretch(self, b, i, x):
        """Masks erased by writing back an erased copy of b[i]; None if x is not that."""
        x = resolve(x)
        if x.op not in ('store', 'call') or is_nan(x):
            return None
        e = Erase()
        e.peel(x)
        n = resolve(e.base) if e.base is not None else None
        if not e.masks or e.unknown or n is None or n.op != 'getitem' or n.args[1] is not i or resolve(n.args[0]) is not resolve(b):
            return None
        self.versions |= e.versions
        if not self.complete(b, i):
            self.partial.append(n)
        return list(e.masks)

    def complete(self, b, i):
        """Every element of b is met as the loop positions in i advance."""
        i = resolve(i)
        parts = i.args if i.op == 'tuple' else (i,)
        for k, p in enumerate(parts):
            p = resolve(p)
            if p.op == 'slice':
                if partial(p):
                    return False
            elif p.op == 'iv':
                start, stop, step = (resolve(x) for x in p.args[:3])
                if num(start) != 0 or num(step) != 1 or not self.extent(stop, k):
                    return False
            elif p.op == 'const' or is_bool(p):
                return False
        return True

    def extent(self, n, k):
        if n.op == 'dim' and num(n.args[1]) == k:
            return True        # the arrays of one record share their shape
        if n.op == 'getitem' and num(n.args[1]) == k:
            return True
        return False

    @staticmethod
    def selection(i):
        i = resolve(i)
        if i.op == 'tuple':
            return any(Erase.selection(x) for x in i.args) and all(
                resolve(x).op == 'slice' or Erase.selection(x) for x in i.args)
        return i.op == 'call' and i.args[0] in ('numpy.argsort', 'numpy.lexsort', 'sorted', 'numpy.flip')

    def loop(self, mu):
        """A loop whose only effect on the array is to erase elements."""
        got = []
        vers = set()

        def back(n, conds):
            n = resolve(n)
            if n is mu:
                return True
            vers.add(n)
            if n.op == 'phi':
                c, a, b = n.args
                return back(a, conds + [(c, True)]) and back(b, conds + [(c, False)])
            if n.op == 'store' and not conds:
                inner = self.stretch(*n.args)
                if inner is not None:
                    got.extend(inner)
                    return back(n.args[0], conds)
            if n.op == 'store' and is_nan(n.args[2]):
                idx = resolve(n.args[1])
                m = self.row_mask(idx)
                if m is not None and not conds:
                    got.append(m)
                    return back(n.args[0], conds)
                if conds:
                    r = None
                    for c, pol in conds:
                        t = c if pol else mk('not', c)
                        r = t if r is None else mk('and', r, t)
                    got.append(r if m is None else mk('and', r, m))
                    return back(n.args[0], conds)
                return False
            if n.op == 'mu':
                inner = Erase()
                inner.wrong = self.wrong
                w = inner.loop(n)
                if w is None:
                    return False
                got.extend(inner.masks)
                vers.update(inner.versions)
                vers.add(n)
                return back(w, conds)
            return False
        if mu.next is None or not back(mu.next, []):
            if any(x.op == 'store' and is_nan(x.args[2]) for x in vers):
                self.unclear.append(mu)
            return None
        self.masks.extend(got)
        self.versions |= vers | {mu}
        return mu.init

    def row_mask(self, idx):
        """idx = the coordinates of one row of an argwhere-like list."""
        parts = idx.args if idx.op == 'tuple' else (idx,)
        if len(parts) == 2:
            # rows of one column: X[rows-of-X[:, col], col]
            for k in (0, 1):
                m, o = mask_of(parts[k]), resolve(parts[1 - k])
                if m is None or mask_of(o) is not None:
                    continue
                sub = subjects(m)
                want = [a for a in sub if resolve(resolve(a.args[1]).args[1 - k]) is o]
                if sub and len(want) == len(sub) and self.complete(sub[0].args[0], sub[0].args[1]):
                    return m
        ms = []
        for k, p in enumerate(parts):
            p = resolve(p)
            if p.op == 'const' and num(p) is not None and any(
                    k != j and crossed(q, j) for j, q in enumerate(parts)):
                self.wrong.append(idx)
                return None
            if p.op != 'getitem':
                return None
            m = mask_of(p)
            if m is None:
                return None
            if len(parts) > 1 and component(p) != k:
                self.wrong.append(idx)
                return None
            ms.append(m)
        if any(m is not ms[0] for m in ms):
            return None
        return ms[0]

    def phi(self, v, deep):
        c, a, b = v.args
        A = Erase()
        B = Erase()
        A.wrong = B.wrong = self.wrong
        A.peel(a, deep=deep)
        B.peel(b, deep=deep)
        self.versions |= A.versions | B.versions
        if A.base is B.base:
            # a branch on whether anything is to be erased, or on the layout of the array
            common = [m for m in A.masks if m in B.masks]
            for own, other in ((A, B), (B, A)):
                for m in own.masks:
                    if m in common:
                        continue
                    if any(x is m or mask_of(x) is m for x in walk(c)):
                        common.append(m)
                    else:
                        self.unknown.append((m, c))
            self.masks += common
            self.unclear += A.unclear + B.unclear
            self.base = A.base
        else:
            self.unclear += A.unclear + B.unclear
            self.base = v

    def member(self, n):
        """n is an element (or the whole) of the array under consideration."""
        n = resolve(n)
        if n in self.versions or n is self.base:
            return True
        if n.op == 'getitem' and (resolve(n.args[0]) in self.versions or n.args[0] is self.base):
            if partial(n.args[1]):
                self.partial.append(n)
            return True
        if n.op == 'T':
            return self.member(n.args[0])
        if n.op == 'call' and n.args[0] in RESHAPE:
            return self.member(n.args[1])
        if n.op == 'store':
            # the array after an earlier erasing step of the same stretch
            return is_nan(n.args[2]) and self.member(n.args[0])
        return False


def subjects(m):
    """The array elements a mask tests (two-dimensional accesses)."""
    m = resolve(m)
    if m.op == 'getitem' and resolve(m.args[1]).op == 'tuple':
        return [m]
    if m.op in ('and', 'or', 'not', 'isnan', 'isfinite', 'abs', 'neg', '+', '-', '*', '/') + CMP:
        return [y for a in m.args for y in subjects(a)]
    return []


def crossed(q, j):
    """Coordinate j of samples found by a test of an array of several dimensions."""
    q = resolve(q)
    if q.op != 'getitem' or component(q) != j:
        return False
    m = mask_of(q)
    return m is not None and not subjects(m)


def partial(i):
    """An index that takes a proper stretch of some dimension."""
    i = resolve(i)
    for p in (i.args if i.op == 'tuple' else (i,)):
        p = resolve(p)
        if p.op == 'slice' and any(is_none(x) is False for x in p.args):
            return True
    return False


def is_none(x):
    x = resolve(x)
    return x.op == 'const' and x.args[0] in (None, 0, 1) and not isinstance(x.args[0], bool)


def walk_nan(x):
    """nan * ones(...), full(..., nan): arrays of missing values."""
    x = resolve(x)
    if x.op == 'call' and x.args[0] == 'numpy.full':
        return any(is_nan(a) for a in x.args[1:] if isinstance(a, N))
    if x.op == '*':
        return any(is_nan(a) for a in x.args)
    return False


class Unknown(Exception):
    pass


def affine(n, member):
    """n as k*x + c with x the element: returns (k, c); raises Unknown."""
    n = resolve(n)
    v = num(n)
    if v is not None:
        return 0.0, float(v)
    if member(n):
        return 1.0, 0.0
    if n.op == 'neg':
        k, c = affine(n.args[0], member)
        return -k, -c
    if n.op in ('+', '-'):
        k1, c1 = affine(n.args[0], member)
        k2, c2 = affine(n.args[1], member)
        s = 1 if n.op == '+' else -1
        return k1 + s * k2, c1 + s * c2
    if n.op in ('*', '/'):
        k1, c1 = affine(n.args[0], member)
        k2, c2 = affine(n.args[1], member)
        if k2 == 0 and (n.op == '*' or c2):
            return (k1 * c2, c1 * c2) if n.op == '*' else (k1 / c2, c1 / c2)
        if k1 == 0 and n.op == '*':
            return k2 * c1, c2 * c1
    if n.op == 'call' and n.args[0] in ('numpy.array', 'float', 'numpy.asarray', 'numpy.ravel'):
        return affine(n.args[1], member)
    raise Unknown(n)


def pieces(n, member):
    """n as alternatives [(guard tree, k, c)]: k*x + c wherever the guard holds."""
    n = resolve(n)
    f = n.args[0] if n.op == 'call' else None
    if f == 'numpy.where' and len(n.args) == 4:
        t = norm(n.args[1], member)
        return [(('and', t, g), k, c) for g, k, c in pieces(n.args[2], member)] + [(('and', ('not', t), g), k, c) for g, k, c in pieces(n.args[3], member)]
    if f == 'numpy.nan_to_num':
        return pieces(n.args[1], member)
    if f == 'numpy.clip' and len(n.args) == 4 and num(n.args[2]) is not None and num(n.args[3]) is not None:
        return bounded(bounded(pieces(n.args[1], member), '<', num(n.args[2])), '>', num(n.args[3]))
    if f in ('numpy.maximum', 'numpy.minimum', 'numpy.fmax', 'numpy.fmin') and len(n.args) == 3:
        for a, b in (n.args[1:], n.args[:0:-1]):
            if num(b) is not None:
                return bounded(pieces(a, member), '<' if 'max' in f else '>', num(b))
    return [(True, *affine(n, member))]


def bounded(ps, op, t):
    out = []
    for g, k, c in ps:
        out.append((('and', g, holds(op, k, c - t)), 0.0, float(t)))
        out.append((('and', g, ('not', holds(op, k, c - t))), k, c))
    return out


def holds(op, k, c):
    """k*x + c OP 0 as a tree."""
    if k == 0:
        return {'<': c < 0, '<=': c <= 0, '==': c == 0, '>': c > 0}[op]
    t = round(-c / k, 9)
    if op == '==' or k > 0:
        return ('t', op, t)
    return ('t', {'<': '>', '<=': '>=', '>': '<'}[op], t)


def norm(pred, member):
    """Predicate tree over thresholds: ('t', op, thr) | ('and'|'or', a, b) | ('not', a) | True | False."""
    n = resolve(pred)
    if n.op == 'const' and isinstance(n.args[0], bool):
        return n.args[0]
    if n.op in ('and', 'or'):
        r = norm(n.args[0], member)
        for x in n.args[1:]:
            r = (n.op, r, norm(x, member))
        return r
    if n.op == 'not':
        return ('not', norm(n.args[0], member))
    if n.op == 'truth':
        return norm(n.args[0], member)
    if n.op == 'some':
        return False        # a value can be left out
    if n.op == 'isnan' and member(n.args[0]):
        return False
    if n.op == 'isfinite' and member(n.args[0]):
        return True
    if n.op == 'getitem':
        return norm(n.args[0], member)
    if n.op in CMP:
        a, b = (resolve(x) for x in n.args)
        # abs(e) against a constant
        for p, q, flip in ((a, b, False), (b, a, True)):
            if p.op == 'abs' and num(q) is not None:
                e, t = p.args[0], num(q)
                lo, hi = mk('-', e, mk('neg', q)), mk('-', e, q)
                z = raw('const', 0)
                if n.op == '==':
                    return ('or', norm(raw('==', lo, z), member), norm(raw('==', hi, z), member))
                if t < 0:
                    return flip
                if not flip:      # |e| < t
                    return ('and', norm(raw(n.op, mk('neg', q), e), member), norm(raw(n.op, e, q), member))
                return ('or', norm(raw(n.op, e, mk('neg', q)), member), norm(raw(n.op, q, e), member))
        r = False
        for g1, k1, c1 in pieces(a, member):
            for g2, k2, c2 in pieces(b, member):
                t = holds(n.op, k1 - k2, c1 - c2)
                if g1 is not True:
                    t = ('and', g1, t)
                if g2 is not True:
                    t = ('and', g2, t)
                r = t if r is False else ('or', r, t)
        return r
    raise Unknown(n)


def thresholds(t):
    if isinstance(t, tuple):
        if t[0] == 't':
            return {t[2]}
        return set().union(*[thresholds(x) for x in t[1:]])
    return set()


def cells(ts):
    """Cells of the partition induced by thresholds: ('p', t) points and ('o', lo, hi) intervals."""
    ts = sorted(ts)
    out = []
    prev = None
    for t in ts:
        out.append(('o', prev, t))
        out.append(('p', t))
        prev = t
    out.append(('o', prev, None))
    return out


def in_cell(t, cell):
    """Truth of the predicate tree on a cell (constant there by construction)."""
    if isinstance(t, bool):
        return t
    if t[0] == 'not':
        return not in_cell(t[1], cell)
    if t[0] == 'and':
        return in_cell(t[1], cell) and in_cell(t[2], cell)
    if t[0] == 'or':
        return in_cell(t[1], cell) or in_cell(t[2], cell)
    op, thr = t[1], t[2]
    if cell[0] == 'p':
        x = cell[1]
        return {'<': x < thr, '<=': x <= thr, '>': x > thr, '>=': x >= thr, '==': x == thr}[op]
    below = cell[2] is not None and cell[2] <= thr
    return {'<': below, '<=': below, '>': not below, '>=': not below, '==': False}[op]


def compare(trees, spec):
    """Cells on which the union of trees and spec differ: list of (cell, erased, wanted)."""
    t = False
    for x in trees:
        t = ('or', t, x)
    out = []
    for cell in cells(thresholds(t) | thresholds(spec)):
        a, b = in_cell(t, cell), in_cell(spec, cell)
        if a != b:
            out.append((cell, a, b))
    return out


def show_cell(c):
    return f"value {c[1]:g}" if c[0] == 'p' else f"values in ({'-inf' if c[1] is None else format(c[1], 'g')}, {'inf' if c[2] is None else format(c[2], 'g')})"

"""C45: every series of the fit, and every result, lists its samples in one order."""
from .. import analyses as A
from ..algebra import LAYOUT
from ..ir import N, resolve
from ..masks import is_nan, num
from ..report import Check
from ..roles import Kinds, columns
from .. import stages
from .c06 import key_of
from .c32 import calib, fit_position
from .c46 import arms

R1, R2, R3 = 'series handed to the fit in one order', 'coordinates of the fit', 'results put back in the order of the fit'
TURN = {'numpy.flip': 'reversed', 'numpy.fliplr': 'reversed', 'numpy.flipud': 'reversed', 'numpy.roll': 'rolled', 'numpy.sort': 'sorted',
        'numpy.rot90': 'turned', 'sorted': 'sorted', 'reversed': 'reversed', 'numpy.take': None, 'numpy.delete': None}
EW = {'+', '-', '*', '/', 'neg', 'abs', 'and', 'or', 'not', '<', '<=', '==', 'isnan', 'isfinite', '**', 'apply'}


class Orders:
    """Every array a value is computed from elementwise, with the rearrangements it goes through."""

    def __init__(self):
        self.out, self.seen = [], set()

    def of(self, n, path=()):
        n = resolve(n)
        if (n, path) in self.seen:
            return self
        self.seen.add((n, path))
        if is_nan(n):
            return self
        k = key_of(n)
        if k is not None or fit_position(n) is not None:
            name = k if k is not None else f"result {fit_position(n)} of the fit"
            self.out.append((name, path, n.loc))
            return self
        if n.op in ('const', 'dim', 'size', 'shape', 'iv', 'undef', 'absent', 'slice', 'str'):
            return self
        if n.op == 'getitem':
            i = resolve(n.args[1])
            for k, x in enumerate(i.args if i.op == 'tuple' else (i,)):
                x = resolve(x)
                t = turned(x)
                if t:
                    path = path + (t,)
            return self.of(n.args[0], path)
        if n.op == 'call':
            pos = [a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']
            if n.args[0] in TURN:
                t = TURN[n.args[0]]
                return self.of(pos[0], path + ((t,) if t else ())) if pos else self
            if n.args[0] in LAYOUT:
                return self.of(pos[0], path) if pos else self
            for a in pos:
                self.of(a, path)
            return self
        if n.op == 'mu':
            for x in (n.init, n.next):
                if x is not None:
                    self.of(x, path)
            return self
        if n.op in ('store', 'viewstore'):
            self.of(n.args[0], path)
            i = resolve(n.args[1])
            p = path
            for x in (i.args if i.op == 'tuple' else (i,)):
                t = turned(resolve(x))
                if t:
                    p = p + (t,)
            return self.of(n.args[2], p)
        if n.op == 'phi':
            self.of(n.args[1], path)
            return self.of(n.args[2], path)
        if n.op == 'comp':
            return self.of(n.args[2], path)
        for a in n.args:
            if isinstance(a, N):
                self.of(a, path)
        return self


def turned(x, depth=0):
    """Rearrangement an index makes, or None: only what it says itself, not the arrays it was found in."""
    x = resolve(x)
    if depth > 6:
        return None
    if x.op == 'slice':
        s = num(x.args[2]) if len(x.args) > 2 else None
        return 'reversed' if s is not None and s < 0 else None
    if x.op == 'iv':
        s = num(x.args[2])
        return 'reversed' if s is not None and s < 0 else None
    if x.op == 'getitem':
        i = resolve(x.args[1])
        for y in (i.args if i.op == 'tuple' else (i,)):
            t = turned(y, depth + 1)
            if t:
                return t
        return turned(x.args[0], depth + 1)
    if x.op == 'call' and len(x.args) > 1 and isinstance(x.args[1], N):
        if TURN.get(x.args[0]):
            inner = resolve(x.args[1])
            while inner.op == 'getitem' or inner.op == 'call' and inner.args[0] in LAYOUT:
                inner = resolve(inner.args[0] if inner.op == 'getitem' else inner.args[1])
            if TURN[x.args[0]] == 'sorted' and inner.op == 'call' and inner.args[0] in ('numpy.argwhere', 'numpy.where', 'numpy.flatnonzero', 'numpy.nonzero'):
                return None                   # already ascending
            return TURN[x.args[0]]
        if x.args[0] in LAYOUT or x.args[0] in ('numpy.unique',):
            return turned(x.args[1], depth + 1)
    if x.op in ('T',):
        return turned(x.args[0], depth + 1)
    return None


def rules(c):
    it = calib()
    c.covered(it)
    fits = A.axioms(it, 'fit_cond')
    if not fits:
        return c.und(R1, 'fit', 'fit_cond is not called')
    for k, e in enumerate(fits):
        vals = list(e.extra.items())
        got = {}
        for name, v in (('profile numbers', vals[0][1]), ('series', vals[1][1]), ('errors', vals[2][1])):
            got[name] = Orders().of(v).out
        for b in A.axioms(it, 'build_cov'):
            args = list(b.extra.values())
            got['temperatures of the covariance'] = Orders().of(args[0]).out
            got['coordinates of the covariance'] = Orders().of(args[1]).out
        compare(c, R1, f"fit ({k})", got, A.where(e))
    for e in A.axioms(it, 'build_cov'):
        coords(c, e)
    for e, d in stages.saved(it):
        for key in ('pcond_factor', 'pcond_factor_err', 'time_deriv', 'time_deriv_err', 'sta_mean', 'sta_rms', 'cal_SAL', 'cal_SAL_err', 'cal_COND', 'cal_COND_err',
                    'sta_SAL', 'sta_SAL_err'):
            if key in d:
                got = Orders().of(d[key]).out
                if got:
                    compare(c, R3, key, {key: got}, A.where(e))


def compare(c, rule, inst, got, loc):
    flat = [(s, n, p) for s, v in got.items() for n, p, _l in v]
    missing = [s for s, v in got.items() if not v]
    if missing:
        c.und(rule, inst, f"no measurements found in {missing}", loc)
    odd = sorted({(s, n, p) for s, n, p in flat if p})
    if not odd:
        c.ok(rule, inst, f"{len(flat)} arrays, none rearranged", loc)
    elif rule == R1 and len({p for _s, _n, p in flat}) == 1:
        c.und(rule, inst, f"all rearranged alike: {odd[0][2]}", loc)
    else:
        s, n, p = odd[0]
        c.bad(rule, inst, f"{n} in {s} is {', '.join(p)}, other arrays of the fit are not", loc)


def coords(c, e):
    n = resolve(list(e.extra.values())[1])
    loc = A.where(e)
    while n.op == 'getitem':
        n = resolve(n.args[0])
    some = False
    for a in arms(n):
        if a.op == 'undef':
            continue
        cols = columns(a)
        if not cols:
            c.und(R2, 'columns', str(a)[:120], loc)
            continue
        some = True
        for k, want in ((0, 'lat'), (1, 'long')):
            x = cols[k] if k < len(cols) else None
            ks = Kinds().kind(x) if x is not None else set()
            if not ks:
                c.und(R2, f"column {k}", str(x)[:120], loc)
            else:
                c.that(ks == {want}, R2, f"column {k}", f"{' '.join(sorted(ks))}, {want} is expected", loc)
    if not some:
        c.und(R2, 'columns', 'no coordinates found', loc)


def main():
    c = Check('C45', 'in the fit, every series lists the same samples in the same order',
              'The arrays every series of the fit, its covariance and the saved results are computed from are followed through elementwise operations, stores, selections and loops; '
              'reversals, rolls, sorts and reordered indices met on the way are collected and must agree for all of them.',
              'Symbolic in the data; which profiles and levels are selected is decided by C11 and C32.')
    c.rule(rules)
    return c.finish()

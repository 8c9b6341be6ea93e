"""Units of value-graph nodes: powers of the quantities (latitude, date, salinity, ...) a value is made of.

A unit is a mapping quantity -> exponent; ANY stands for a literal, a missing value or an
empty array, which go with everything; None for what is not known.  The numeric factor
relative to the stored quantity is kept where it is known (degrees or radians)."""
import math
from fractions import Fraction

from .ir import N, resolve
from .masks import is_nan, num
from .roles import KEYS, RESULTS, columns, short

ANY = 'any'
NUMBER = {}
BASE = {'scale_lat': 'lat', 'scale_long': 'long', 'scale_date': 'date', 'p_delta': 'pres', 'p_exclude': 'pres', 'sal_err': 'sal',
        'elev': 'z'}
PURE = {'scale_phi', 'use_pv', 'use_saf', 'max_casts'}
EXTRA = {'la_noise_sal': {'sal': 2}, 'la_signal_sal': {'sal': 2}, 'use_theta_gt': {'ptmp': 1}, 'use_theta_lt': {'ptmp': 1},
         'scale_lat_large': {'lat': 1}, 'scale_lat_small': {'lat': 1}, 'scale_long_large': {'long': 1}, 'scale_long_small': {'long': 1},
         'scale_age_large': {'date': 1}, 'scale_age_small': {'date': 1}, 'p_delta': {'pres': 1}, 'p_exclude': {'pres': 1},
         'cal_SAL': {'sal': 1}, 'cal_SAL_err': {'sal': 1}, 'cal_COND': {'cond': 1}, 'cal_COND_err': {'cond': 1}, 'sta_SAL': {'sal': 1},
         'sta_SAL_err': {'sal': 1}, 'hist_long': {'long': 1}, 'hist_lat': {'lat': 1}, 'use_pres_gt': {'pres': 1}, 'use_pres_lt': {'pres': 1}}
COLUMNS = {'selected_hist': ('long', 'lat', 'prof')}
SAME = {'numpy.' + x for x in '''array asarray ravel reshape copy atleast_1d atleast_2d squeeze float64 ascontiguousarray round nan_to_num
        transpose clip floor ceil around mean nanmean max min nanmax nanmin amin amax median nanmedian sort unique diff repeat tile delete
        take sum nansum sum0 cumsum std nanstd fabs absolute abs diag insert resize flip expand_dims swapaxes broadcast_to'''.split()} | {
    'float', 'list', 'tuple', 'builtins.float', 'abs', 'max', 'min', 'sum', 'sorted', 'builtins.max', 'builtins.min', 'math.fabs'}
JOIN = {'numpy.append', 'numpy.concatenate', 'numpy.hstack', 'numpy.vstack', 'numpy.r_', 'numpy.maximum', 'numpy.minimum', 'numpy.fmax', 'numpy.fmin'}
BIN = {'numpy.add': '+', 'numpy.subtract': '-', 'numpy.multiply': '*', 'numpy.divide': '/', 'numpy.true_divide': '/', 'numpy.power': '**',
       'math.pow': '**', 'numpy.dot': '*', 'numpy.matmul': '*', 'numpy.outer': '*', '@': '*', 'numpy.mod': '-'}
INTERP = ('scipy.interpolate.interp1d', 'scipy.interpolate.interp2d')


def clean(u):
    return {k: v for k, v in u.items() if v != 0}


def mul(a, b, s=1):
    if a is None or b is None:
        return None
    a, b = ({} if x == ANY else x for x in (a, b))
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return clean(r)


def power(u, e):
    if u is None or u == ANY:
        return u
    return clean({k: Fraction(v) * Fraction(e).limit_denominator(16) for k, v in u.items()})


def show(u):
    if u is None or u == ANY:
        return {None: 'unknown'}.get(u, u)
    return ' '.join(f"{k}" + ('' if v == 1 else f"^{v}") for k, v in sorted(u.items())) or 'a plain number'


def of_key(k):
    if k in EXTRA:
        return EXTRA[k]
    if k in KEYS:
        q = KEYS[k]
        return NUMBER if q in PURE else {BASE.get(q, q): 1}
    return None


class Units:
    def __init__(self, nodes=()):
        """Least solution over all given nodes: everything starts as ANY and is worked out again until nothing changes."""
        self.memo, self.late = {}, set()
        todo = sorted({resolve(n) for n in nodes}, key=lambda n: n.id)
        for n in todo:
            self.memo[n] = ANY
        changed, rounds = True, 0
        while changed:
            changed, rounds = False, rounds + 1
            for n in todo:
                u = self.memo[n]
                if u is None and rounds > 12:
                    continue
                v = self._of(n)
                if rounds > 12 and v is not None and u != ANY and u != v:
                    v = None            # does not settle: not known
                if v != u:
                    self.memo[n] = v
                    changed = True
            for n in self.late:
                self.memo.pop(n, None)
            self.late = set()

    # -- units -----------------------------------------------------------------
    def of(self, n):
        n = resolve(n)
        if n not in self.memo:
            # a node made up while answering
            self.memo[n] = ANY
            self.late.add(n)
            self.memo[n] = self._of(n)
        return self.memo[n]

    def join(self, us):
        r = ANY
        for u in us:
            if u is None:
                return None
            if u == ANY:
                continue
            if r == ANY:
                r = u
            elif r != u:
                return None
        return r

    def _of(self, n):
        op = n.op
        if num(n) is not None or is_nan(n) or op == 'pi' or op == 'const':
            return ANY
        if op == 'list' and not n.args:
            return ANY
        if op == 'getitem':
            return self.item(n)
        if op == 'phi':
            return self.join([self.of(x) for x in n.args[1:]])
        if op == 'mu':
            return self.join([self.of(x) for x in (n.init, n.next) if x is not None])
        if op in ('T', 'neg', 'abs', 'without'):
            return self.of(n.args[0])
        if op in ('store', 'viewstore'):
            return self.join([self.of(n.args[0]), self.of(n.args[2])]) if len(n.args) > 2 else self.of(n.args[0])
        if op in ('append', 'list', 'tuple', 'concatlist', 'sorted'):
            return self.join([self.of(x) for x in n.args if isinstance(x, N)])
        if op == 'comp':
            return self.of(n.args[2])
        if op in ('+', '-', '*', '/', '**', '%') and len(n.args) == 2:
            return self.binary(op, n.args[0], n.args[1])
        if op == 'apply':
            return self.applied(n)
        if op == 'call':
            return self.call(n)
        return None

    def item(self, n):
        i, b = resolve(n.args[1]), resolve(n.args[0])
        if i.op == 'const' and isinstance(i.args[0], str):
            if i.args[0] in COLUMNS:
                return None
            return of_key(i.args[0])
        s = short(b)
        if s in RESULTS and i.op == 'const' and isinstance(i.args[0], int) and 0 <= i.args[0] < len(RESULTS[s]):
            q = RESULTS[s][i.args[0]]
            return {'elev': {'z': 1}, 'topo_x': {'long': 1}, 'topo_y': {'lat': 1}}.get(q, {q: 1})
        if b.op in ('tuple', 'list') and i.op == 'const' and isinstance(i.args[0], int) and -len(b.args) <= i.args[0] < len(b.args):
            return self.of(b.args[i.args[0]])
        c = self.column(n)
        if c is not False:
            return c
        return self.of(b)

    def column(self, n):
        """Unit of a selected column of a matrix of positions; False if it is not such a selection."""
        idx, b = [], resolve(n)
        while True:
            if b.op == 'getitem' and not (resolve(b.args[1]).op == 'const' and isinstance(resolve(b.args[1]).args[0], str)):
                idx.append(resolve(b.args[1]))
                b = resolve(b.args[0])
            elif b.op == 'phi':
                us = {repr(self.column_of(x, idx)) for x in b.args[1:]}
                v = [self.column_of(x, idx) for x in b.args[1:]]
                v = [x for x in v if x != ANY]
                return v[0] if v and all(x == v[0] for x in v) else (False if not v or False in v else None) if len(us) else False
            elif b.op == 'call' and b.args[0] in ('numpy.atleast_2d', 'numpy.asarray', 'numpy.array', 'numpy.copy') and columns(b) is None and len(b.args) > 1:
                b = resolve(b.args[1])
            else:
                break
        return self.pick(b, idx)

    def column_of(self, x, idx):
        x = resolve(x)
        if x.op in ('undef', 'absent') or x.op in ('list', 'const') and not [a for a in x.args if isinstance(a, N)] or is_nan(x):
            return ANY
        if x.op == 'getitem' or x.op == 'phi' or x.op == 'call':
            from .ir import mk
            y = x
            for i in reversed(idx):
                y = mk('getitem', y, i)
            y = resolve(y)
            if y.op == 'getitem':
                return self.column(y)
        return self.pick(x, idx)

    def pick(self, b, idx):
        names = None
        if b.op == 'getitem' and resolve(b.args[1]).op == 'const' and resolve(b.args[1]).args[0] in COLUMNS:
            names = [{q: 1} for q in COLUMNS[resolve(b.args[1]).args[0]]]
        else:
            cs = columns(b)
            if cs is not None and len(cs) in (3, 4) and b.op != 'list' and b.op != 'tuple':
                names = cs
        if names is None:
            return False
        axes = ['row', 'col']
        for step in reversed(idx):
            items = list(step.args) if step.op == 'tuple' else [step]
            rest, out = list(axes), []
            for x in items:
                x = resolve(x)
                if x.op == 'const' and x.args[0] is None:
                    continue
                if not rest:
                    return None
                a = rest.pop(0)
                if x.op == 'slice':
                    if a == 'col' and not all(resolve(y).op == 'const' and resolve(y).args[0] is None for y in x.args):
                        return None
                    out.append(a)
                elif a == 'col':
                    k = num(x)
                    if k is None:
                        return None
                    u = names[int(k)]
                    return self.of(u) if isinstance(u, N) else u
                elif x.op == 'call' or x.op == 'getitem' and resolve(x.args[0]).op == 'call' and resolve(resolve(x.args[1]).args[0] if resolve(x.args[1]).op == 'tuple' else x.args[1]).op == 'slice':
                    out.append(a)       # an array of row numbers
                elif x.op in ('iv', 'int', 'mu') or num(x) is not None or x.op == 'getitem' and resolve(x.args[1]).op in ('iv', 'const'):
                    pass
                else:
                    out.append(a)
            axes = out + rest
        return None

    def binary(self, op, a, b):
        u, v = self.of(a), self.of(b)
        if op in ('+', '-', '%'):
            if u is None or v is None:
                # a known quantity plus something unknown is that quantity, if the sum makes sense at all
                return None
            if u == ANY or v == ANY:
                return v if u == ANY else u
            return u if u == v else None
        if op == '*':
            return mul(u, v) if not (u == ANY and v == ANY) else ANY
        if op == '/':
            return mul(u, v, -1) if not (u == ANY and v == ANY) else ANY
        e = num(b)
        return power(u, e) if e is not None else None

    def call(self, n):
        name = n.args[0]
        pos = [a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']
        if name in ('numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.identity', 'numpy.eye', 'numpy.zeros_like', 'numpy.ones_like'):
            if name == 'numpy.full' and len(pos) > 1:
                return self.of(pos[1])
            return ANY
        if name in BIN and len(pos) >= 2:
            return self.binary(BIN[name], pos[0], pos[1])
        if name in SAME and pos:
            p = resolve(pos[0])
            return self.join([self.of(x) for x in p.args]) if p.op in ('list', 'tuple') else self.of(p)
        if name in JOIN and pos:
            ps = []
            for p in pos[:2]:
                p = resolve(p)
                ps += p.args if p.op in ('list', 'tuple') else [p]
            return self.join([self.of(x) for x in ps if num(x) is None])
        if name in ('numpy.sqrt', 'math.sqrt'):
            return power(self.of(pos[0]), Fraction(1, 2))
        if name in ('numpy.square', 'numpy.var', 'numpy.nanvar'):
            return power(self.of(pos[0]), 2)
        if name in ('numpy.linalg.inv', 'numpy.linalg.pinv', 'numpy.reciprocal', 'scipy.linalg.inv'):
            return power(self.of(pos[0]), -1)
        if name in ('numpy.exp', 'math.exp', 'numpy.log', 'math.log'):
            return NUMBER
        if name in ('numpy.sin', 'math.sin'):
            return {'sinlat': 1}
        if name in ('numpy.cos', 'math.cos', 'numpy.tan', 'math.tan'):
            return None
        if name in ('numpy.radians', 'numpy.deg2rad', 'math.radians', 'numpy.degrees', 'math.degrees', 'numpy.rad2deg'):
            return self.of(pos[0])
        if name == 'numpy.where' and len(pos) == 3:
            return self.join([self.of(x) for x in pos[1:]])
        if name == 'numpy.hypot':
            return self.join([self.of(x) for x in pos])
        if name == 'numpy.interp' and len(pos) == 3:
            return self.of(pos[2])
        if short(n) in ('change_dates', 'wrap_longitude') and pos:
            return self.of(pos[0])
        if short(n) == 'signal_variance' and pos:
            return power(self.of(pos[0]), 2)
        g = name.rsplit('.', 1)[-1] if name.startswith('gsw') else None
        if g in GSW:
            return GSW[g][1]
        return None

    def applied(self, n):
        f = resolve(n.args[0])
        while f.op == 'call' and f.args[0] in ('numpy.vectorize',) and len(f.args) > 1:
            f = resolve(f.args[1])
        if f.op == 'call' and f.args[0] in INTERP:
            pos = [a for a in f.args[1:] if isinstance(a, N) and a.op != 'kw']
            k = 1 if f.args[0].endswith('1d') else 2
            if len(pos) > k:
                return None if table(pos[k]) else self.of(pos[k])
        return None

    # -- numeric factor ----------------------------------------------------------
    def factor(self, n):
        """Literal factor by which a stored quantity was multiplied, or None."""
        n = resolve(n)
        if n.op in ('*', '/') and len(n.args) == 2:
            a, b = n.args
            v = literal(b)
            if v is not None:
                f = self.factor(a)
                return None if f is None else f * v if n.op == '*' else f / v
            v = literal(a)
            if v is not None and n.op == '*':
                f = self.factor(b)
                return None if f is None else f * v
            return None
        if n.op == 'call':
            pos = [a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']
            if n.args[0] in ('numpy.radians', 'numpy.deg2rad', 'math.radians'):
                f = self.factor(pos[0])
                return None if f is None else f * math.pi / 180
            if n.args[0] in ('numpy.degrees', 'numpy.rad2deg', 'math.degrees'):
                f = self.factor(pos[0])
                return None if f is None else f * 180 / math.pi
            if n.args[0] in SAME and pos:
                return self.factor(pos[0])
        if n.op in ('neg', 'T', 'abs'):
            return self.factor(n.args[0])
        if n.op == 'phi':
            a, b = self.factor(n.args[1]), self.factor(n.args[2])
            return a if a == b else None
        if n.op in ('getitem', 'store', 'param', 'mu', 'comp', 'apply'):
            return 1.0
        if n.op in ('+', '-'):
            a, b = (None if literal(x) is not None else self.factor(x) for x in n.args)
            return a if b is None else b if a is None or a == b else None
        return None


def table(n):
    """A written-out table of numbers: it can stand for any quantity."""
    n = resolve(n)
    if n.op == 'call' and n.args[0] in SAME and len(n.args) > 1:
        return table(n.args[1])
    return n.op in ('list', 'tuple') and bool(n.args) and all(literal(x) is not None or table(x) for x in n.args)


def literal(n):
    """Value of an expression of literals and pi."""
    n = resolve(n)
    if n.op == 'pi':
        return math.pi
    v = num(n)
    if v is not None:
        return float(v)
    if n.op in ('+', '-', '*', '/', '**') and len(n.args) == 2:
        a, b = (literal(x) for x in n.args)
        if a is None or b is None:
            return None
        try:
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '**': lambda: a ** b}[n.op]()
        except (ZeroDivisionError, OverflowError):
            return None
    if n.op == 'neg':
        v = literal(n.args[0])
        return None if v is None else -v
    return None


# conversions of the sea water library: quantities taken (0: the surface, where the two temperatures agree), quantity given
GSW = {'C_from_SP': (('sal', 'temp', 'pres'), {'cond': 1}), 'SP_from_C': (('cond', 'temp', 'pres'), {'sal': 1}),
       't_from_CT': (('sal', 'ptmp', 'pres'), {'temp': 1}), 'CT_from_t': (('sal', 'temp', 'pres'), {'ptmp': 1}),
       'pt0_from_t': (('sal', 'temp', 'pres'), {'ptmp': 1}), 'SA_from_SP': (('sal', 'pres', 'long', 'lat'), {'sal': 1}),
       'rho': (('sal', 'ptmp', 'pres'), None), 'sigma0': (('sal', 'ptmp'), None)}

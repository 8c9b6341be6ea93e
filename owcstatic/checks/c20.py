"""C20: extremes, means and variances over data with missing values ignore the missing ones."""
from .. import analyses as A
from ..algebra import LAYOUT
from ..ir import N, resolve, is_bool
from ..masks import is_nan, mask_of, num, walk_nan
from ..report import Check
from ..roles import short
from .c06 import key_of

PLAIN = {'max', 'min', 'amax', 'amin', 'mean', 'average', 'sum', 'sum0', 'var', 'std', 'median', 'ptp', 'percentile', 'quantile',
         'argmax', 'argmin', 'prod'}
AWARE = {'nan' + x for x in PLAIN}
MODULES = ('numpy.', 'builtins.', 'statistics.', 'scipy.stats.')
MEASURED = {'SAL', 'PTMP', 'PRES', 'TEMP', 'LAT', 'LONG', 'sal', 'ptmp', 'pres', 'temp', 'la_mapped_sal', 'la_mapsalerrors', 'la_ptmp', 'la_noise_sal',
            'la_signal_sal', 'cal_SAL', 'cal_SAL_err', 'sta_SAL', 'sta_SAL_err', 'cal_COND', 'cal_COND_err'}
WISE = ('+', '-', '*', '/', '**', 'neg', 'abs', '%', '//')
FUNCS = {'sqrt', 'exp', 'log', 'floor', 'ceil', 'round', 'around', 'abs', 'fabs', 'power', 'square', 'multiply', 'add', 'subtract', 'divide',
         'sin', 'cos', 'radians', 'deg2rad', 'rad2deg', 'maximum', 'minimum', 'float64', 'float', 'diff', 'cumsum', 'sort', 'real', 'interp1d0'}
STACKS = {'append', 'concatenate', 'hstack', 'vstack', 'column_stack', 'stack'}
CHECKS = {'isnan', 'isfinite'}


LISTS = {'argwhere', 'where', 'nonzero', 'flatnonzero', 'ravel', 'array', 'asarray', 'intersect1d', 'delete', 'unique', 'concatenate', 'all', 'any',
         'sum', 'sum0', 'count_nonzero', 'squeeze', 'setdiff1d', 'sort', 'isin', 'in1d', 'union1d', 'append', 'hstack', 'vstack', 'reshape',
         'compress', 'logical_and', 'logical_or', 'logical_not', 'list', 'tuple', 'zip', 'sorted', 'len', 'flip', 'prod', 'ix_', 'T', 'argsort', 'int'}


def tests_missing(n):
    """The condition or index looks at missingness (in its own structure, not inside the values it compares)."""
    seen, todo = set(), [n]
    while todo:
        x = resolve(todo.pop())
        if x in seen:
            continue
        seen.add(x)
        f = x.args[0].rsplit('.', 1)[-1] if x.op == 'call' else None
        if x.op in CHECKS or f in CHECKS | {'isnull', 'notnull', 'dropna'}:
            return True
        if x.op == '==' and x.args[0] is x.args[1]:
            return True
        if x.op in ('and', 'or', 'not', 'truth', 'tuple', 'list', 'T', 'int', 'append', 'concatlist', 'comp', 'phi') or f in LISTS:
            todo += [a for a in x.args if isinstance(a, N)]
        elif x.op == 'getitem':
            todo += list(x.args[:2])
        elif x.op in ('<', '<=', '=='):
            todo += [a for a in x.args if resolve(a).op in ('dim', 'size', 'isnan', 'isfinite', 'and', 'or', 'not') or
                     resolve(a).op == 'call' and resolve(a).args[0].rsplit('.', 1)[-1] in ('sum', 'sum0', 'count_nonzero', 'all', 'any')]
        elif x.op in ('dim', 'size'):
            todo.append(x.args[0])
        elif x.op == 'mu':
            todo += [y for y in (x.next, x.init) if y is not None and (x.meta, 'seen') not in seen]
        elif x.op in ('store', 'without'):
            todo += [a for a in x.args if isinstance(a, N)]
        elif x.op == '%':
            todo += list(x.args)
    return False


class Missing:
    """May an element of this value be a missing measurement? True, False, or None when not understood."""

    def __init__(self, source):
        self.source, self.memo = source, {}

    def any(self, ns):
        out = False
        for n in ns:
            if not isinstance(n, N):
                continue
            r = self.of(n)
            if r:
                return r
            if r is None:
                out = None
        return out

    def of(self, n):
        n = resolve(n)
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = False
        r = self._of(n)
        self.memo[n] = r
        return r

    def _of(self, n):
        s = self.source(n)
        if s:
            return s
        if is_nan(n) or walk_nan(n):
            return 'an array of missing values'
        if n.op in ('const', 'iv', 'dim', 'size', 'shape', 'isnan', 'isfinite', 'not', 'and', 'or', '<', '<=', '==', 'int', 'str', 'path',
                    'find', 'in', 'contains', 'exc', 'fn', 'absent', 'undef', 'brk'):
            return False
        if is_bool(n):
            return False
        if n.op in WISE or n.op in ('tuple', 'list', 'replist', 'concatlist'):
            return self.any(n.args)
        if n.op == 'T':
            return self.of(n.args[0])
        if n.op == 'getitem':
            i = resolve(n.args[1])
            if tests_missing(i):
                return False
            parts = [resolve(p) for p in (i.args if i.op == 'tuple' else (i,))]
            if all(p.op in ('iv', 'const') for p in parts) and any(p.op == 'iv' for p in parts) and self.of(n.args[0]) in ('LAT', 'LONG'):
                return None        # one position
            if any(whole_slice(p) for p in parts):
                return self.of(n.args[0])
            if self.chosen(i):
                return None if self.of(n.args[0]) else False
            return self.of(n.args[0])
        if n.op == 'without':
            return None if self.of(n.args[0]) else False
        if n.op == 'store':
            b, i, x = n.args
            m = mask_of(i)
            if m is not None and resolve(m).op == 'isnan' and not is_nan(x):
                return self.of(x)
            return self.any((b, x))
        if n.op == 'append':
            return self.any(n.args)
        if n.op == 'mu':
            first = self.of(n.init)
            if first == 'an array of missing values':
                # stays so unless every element is given a value
                return 'an array of missing values that is filled only in part' if self.partly(n) else (
                    None if self.filled(n) is None else self.values(n))
            rest = self.of(n.next) if n.next is not None else False
            return first or rest if True in (bool(first), bool(rest)) else (None if None in (first, rest) else False)
        if n.op == 'phi':
            if tests_missing(n.args[0]):
                r = self.any(n.args[1:])
                return None if r else r
            return self.any(n.args[1:])
        if n.op == 'comp':
            if tests_missing(n.args[1]):
                return False
            return self.of(n.args[2])
        if n.op == 'call':
            f = n.args[0].rsplit('.', 1)[-1]
            a = [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
            if f == 'where' and len(a) == 3:
                return (None if self.any(a[1:]) else False) if tests_missing(a[0]) else self.any(a[1:])
            if f in ('where', 'argwhere', 'nonzero', 'flatnonzero', 'unique0', 'arange', 'ones', 'zeros', 'ones_like', 'zeros_like', 'linspace',
                     'nan_to_num', 'argsort', 'count_nonzero', 'searchsorted', 'size', 'len', 'range', 'isin', 'eye', 'dropna') or f in PLAIN and f.startswith('arg'):
                return False
            if f in ('delete', 'compress', 'extract') and any(tests_missing(x) for x in a):
                return False
            if f in AWARE:
                return False
            if f in PLAIN and n.args[0].startswith(MODULES):
                return False        # reported where it happens
            if n.args[0] in LAYOUT or f in FUNCS or f in ('unique', 'delete', 'array', 'asarray', 'copy', 'deepcopy', 'ravel', 'reshape', 'tile', 'repeat'):
                return self.any(a[:1] if f in ('delete', 'reshape', 'tile', 'repeat') or n.args[0] in LAYOUT else a)
            if f in STACKS:
                return self.any(a)
            return None if self.any(a) or self.any(a) is None else False
        return None

    @staticmethod
    def chosen(i):
        """The index selects elements by some condition or by positions computed from data."""
        for p in (i.args if i.op == 'tuple' else (i,)):
            p = resolve(p)
            if p.op in ('slice', 'const', 'iv'):
                continue
            return True
        return False

    def partly(self, mu):
        """Some pass through the loop leaves its element as it was."""
        def keeps(n, deep=0):
            n = resolve(n)
            if n is mu:
                return True
            if deep > 30:
                return False
            if n.op == 'phi':
                return keeps(n.args[1], deep + 1) or keeps(n.args[2], deep + 1)
            if n.op == 'store' and mask_of(n.args[1]) is not None and resolve(n.args[1]).op != 'getitem':
                return keeps(n.args[0], deep + 1)       # only the elements a condition selects
            if n.op == 'mu':
                return keeps(n.init, deep + 1) and (n.next is None or self.partly(n))
            return False
        return mu.next is not None and keeps(mu.next)

    def filled(self, mu):
        """Every element is stored to: plain stores at loop positions only."""
        def ok(n, deep=0):
            n = resolve(n)
            if n is mu:
                return True
            if deep > 30:
                return None
            if n.op == 'store':
                i = resolve(n.args[1])
                parts = [resolve(p) for p in (i.args if i.op == 'tuple' else (i,))]
                if all(p.op == 'iv' or p.op == 'slice' and all(resolve(y).op == 'const' and resolve(y).args[0] is None for y in p.args) for p in parts):
                    return ok(n.args[0], deep + 1)
                return None
            if n.op == 'mu':
                return None if self.filled(n) is None else ok(n.init, deep + 1)
            if n.op == 'phi':
                a, b = ok(n.args[1], deep + 1), ok(n.args[2], deep + 1)
                return True if a and b else None
            return None
        return None if mu.next is None else ok(mu.next)

    def values(self, mu):
        seen, todo, vs = set(), [mu.next], []
        while todo:
            n = resolve(todo.pop())
            if n in seen or n is mu:
                continue
            seen.add(n)
            if n.op == 'store':
                vs.append(n.args[2])
                todo.append(n.args[0])
            elif n.op == 'phi':
                todo += n.args[1:]
            elif n.op == 'mu':
                todo += [n.next, n.init]
        return self.any(vs)


def whole_slice(p):
    return p.op == 'slice' and all(resolve(y).op == 'const' and resolve(y).args[0] is None for y in p.args)


def loaded(n):
    k = key_of(n)
    return k if k in MEASURED else None


def events(c, name, it, source):
    m = Missing(source)
    seen = set()
    for e in it.events:
        if e.kind != 'call' or not e.args:
            continue
        f = e.name.rsplit('.', 1)[-1]
        if f not in PLAIN | AWARE or not (e.name.startswith(MODULES) or e.name in ('max', 'min', 'sum')):
            continue
        arg = e.args[0]
        key = (e.loc, e.name, resolve(arg) if isinstance(arg, N) else None)
        if key in seen or not isinstance(arg, N):
            continue
        seen.add(key)
        inst = f"{name}: {e.name} at {e.loc.rsplit('/', 1)[-1]}"
        if f in AWARE:
            c.ok('missing values ignored', inst, '', A.where(e))
            continue
        if pandas(arg):
            c.ok('missing values ignored', inst, 'pandas skips missing values', A.where(e))
            continue
        if any(is_true_where(k, v) for k, v in (e.kwargs or {}).items()) if isinstance(e.kwargs, dict) else False:
            c.und('missing values ignored', inst, 'restricted by a where argument', A.where(e))
            continue
        r = m.of(arg)
        if r and any(clears(g, p) and related(g, arg) for g, p in e.guards):
            c.und('missing values ignored', inst, 'under a condition on missing values', A.where(e))
        elif r:
            c.bad('missing values ignored', inst, f"{e.name} is taken over values that may be missing ({r})", A.where(e))
        elif r is None:
            c.und('missing values ignored', inst, 'not known whether a value can be missing', A.where(e))
        else:
            c.ok('missing values ignored', inst, 'no value is missing', A.where(e))


def clears(g, pol):
    """The condition may rule out missing values (and does not just say that some are present)."""
    g = resolve(g)
    if not tests_missing(g):
        return False
    if g.op == 'not':
        return clears(g.args[0], not pol)
    if g.op == 'truth':
        return clears(g.args[0], pol)
    if g.op == ('and' if pol else 'or'):
        return any(clears(x, pol) for x in g.args)
    if g.op == 'call' and g.args[0] in ('numpy.all', 'numpy.any', 'all', 'any') and len(g.args) > 1:
        a, neg = resolve(g.args[1]), False
        while a.op == 'not' or a.op == 'call' and a.args[0] in ('numpy.argwhere', 'numpy.nonzero', 'numpy.where') and len(a.args) == 2:
            a, neg = resolve(a.args[0 if a.op == 'not' else 1]), neg ^ (a.op == 'not')
        if a.op in ('isnan', 'isfinite'):
            says_valid = (a.op == 'isfinite') != neg
            every = g.args[0].endswith('all')
            # all missing does not hold / some valid holds: nothing is ruled out
            if every and not says_valid and not pol or not every and says_valid and pol:
                return False
        return True
    if g.op in ('<', '<=') and num(g.args[0]) is not None and resolve(g.args[1]).op in ('dim', 'size') and pol:
        return False        # at least so many
    if g.op in ('<', '<=', '==') and any(num(x) == 0 for x in g.args):
        n = next(resolve(x) for x in g.args if num(x) != 0 or x is g.args[1])
        if n.op in ('dim', 'size') and (g.op == '<' and num(g.args[0]) == 0) == pol:
            return False
    return True


def names_in(n):
    seen, todo, out = set(), [n], set()
    while todo:
        x = resolve(todo.pop())
        if x in seen:
            continue
        seen.add(x)
        k = key_of(x)
        if k is not None or x.op == 'param':
            out.add(k or x.args[0])
            continue
        if x.op == 'mu':
            todo += [y for y in (x.init, x.next) if y is not None]
        if x.op == 'getitem':
            todo.append(x.args[0])
        elif x.op == 'store':
            todo += [x.args[0], x.args[2]]
        elif x.op == 'phi':
            todo += x.args[1:]
        elif x.op not in ('dim', 'size', 'shape'):
            todo += [a for a in x.args if isinstance(a, N)]
    return out


def related(g, arg):
    """The condition is about the data the statistic is taken over."""
    a, b = names_in(g) - {'config'}, names_in(arg) - {'config'}
    return not a or not b or bool(a & b)


def is_true_where(k, v):
    return k == 'where'


def pandas(n):
    n = resolve(n)
    for _ in range(4):
        if n.op == 'call' and n.args[0].startswith('pandas.'):
            return True
        if n.op in ('getitem', 'T'):
            n = resolve(n.args[0])
        else:
            return False
    return False


ALONE = ('pyowc.core.stats:signal_variance', 'pyowc.core.stats:noise_variance')


def rule_stages(c):
    for k, it in A.four().items():
        c.covered(it)
        events(c, k, it, loaded)


def rule_alone(c):
    for q in ALONE:
        it = A.fn(q)
        if it is None:
            c.und('missing values ignored', q, 'function is gone')
            continue
        c.covered(it)
        a = A.pkg().find(q)[1].args
        first = (a.posonlyargs + a.args)[0].arg
        events(c, q.rsplit(':', 1)[1], it, lambda n, f=first: f if n.op == 'param' and n.args[0] == f else None)


def main():
    c = Check('C20', 'missing measurements never poison statistics of the remaining ones',
              'Every maximum, minimum, mean, sum, variance, standard deviation, median or position of an extreme that is reached from a stage '
              'is examined: unless the function ignores missing values, its argument, followed back through arithmetic, selections, stores '
              'and loops, must not contain elements of float, archive or mapped data that no test for missing values has excluded.',
              'A selection whose condition tests for missing values is taken to exclude them; the selections themselves are compared in C02, C21 and C31.')
    c.assume('A selection by a condition that tests for missing values removes the missing ones.')
    c.rule(rule_stages)
    c.rule(rule_alone)
    return c.finish()

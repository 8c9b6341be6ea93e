"""Arrays filled entry by entry on theta levels, and the choice of an extreme entry."""
from .ir import N, resolve
from .masks import is_nan, num
from .shapes import INT_CALLS  # noqa: F401

WHERE = ('numpy.argwhere', 'numpy.where', 'numpy.nonzero', 'numpy.flatnonzero')
LOW = {'numpy.nanmin', 'numpy.min', 'numpy.amin', 'min', 'builtins.min'}
HIGH = {'numpy.nanmax', 'numpy.max', 'numpy.amax', 'max', 'builtins.max'}
KEEP = {'numpy.array', 'numpy.asarray', 'numpy.copy', 'copy.deepcopy', 'copy.copy', 'numpy.ravel', 'numpy.squeeze', 'numpy.float64',
        'float', 'numpy.item', 'numpy.asanyarray', 'numpy.astype', 'numpy.reshape', 'numpy.atleast_1d', 'list', 'numpy.ascontiguousarray'}


def through(n):
    """n without conversions that keep its values."""
    n = resolve(n)
    while True:
        if n.op == 'call' and n.args[0] in KEEP and len(n.args) > 1 and isinstance(n.args[1], N):
            n = resolve(n.args[1])
        elif n.op == 'int':
            n = resolve(n.args[0])
        elif n.op == 'call' and n.args[0] in ('int', 'builtins.int') and len(n.args) == 2:
            n = resolve(n.args[1])
        else:
            return n


def lits(n, pos=True):
    """Literals of a condition: [(node, polarity)]; a disjunction stays whole."""
    n = resolve(n)
    if n.op == 'not':
        return lits(n.args[0], not pos)
    if n.op == 'truth':
        return lits(n.args[0], pos)
    if n.op == 'and' and pos or n.op == 'or' and not pos:
        return [x for a in n.args for x in lits(a, pos)]
    return [(n, pos)]


def cases(n, conds=()):
    """(value, literals) of every branch of a value."""
    n = resolve(n)
    if n.op == 'phi':
        yield from cases(n.args[1], conds + tuple(lits(n.args[0])))
        yield from cases(n.args[2], conds + tuple(lits(n.args[0], False)))
    else:
        yield n, conds


def parts(i):
    i = resolve(i)
    return tuple(resolve(x) for x in i.args) if i.op == 'tuple' else (i,)


def whole(p):
    return p.op == 'slice' and all(resolve(x).op == 'const' and resolve(x).args[0] is None for x in p.args)


def writes(n):
    """Everything stored into an array: [(index parts, value, literals)], and the array it started as."""
    out, start, seen, todo = [], [], set(), [(n, ())]
    while todo:
        n, conds = todo.pop()
        n = resolve(n)
        if n.op == 'mu':
            if n in seen:
                continue
            seen.add(n)
            todo.append((n.init, ()))
            if n.next is not None:
                todo.append((n.next, ()))
        elif n.op == 'phi':
            todo.append((n.args[1], conds + tuple(lits(n.args[0]))))
            todo.append((n.args[2], conds + tuple(lits(n.args[0], False))))
        elif n.op in ('store', 'viewstore') and len(n.args) == 3:
            for v, cs in cases(n.args[2], conds):
                out.append((parts(n.args[1]), v, cs))
            todo.append((n.args[0], conds))
        elif n.op == 'comp':
            inner = resolve(n.args[2])
            if inner.op == 'comp':
                for v, cs in cases(inner.args[2], conds):
                    out.append(((resolve(n.args[0]), resolve(inner.args[0])), v, cs))
            else:
                for v, cs in cases(inner, conds):
                    out.append(((resolve(n.args[0]),), v, cs))
        elif n.op == 'call' and n.args[0] in KEEP and len(n.args) > 1:
            todo.append((n.args[1], conds))
        else:
            start.append(n)
    return out, start


def blank(n):
    return is_nan(n) or n.op in ('list', 'tuple') and n.args and all(is_nan(resolve(x)) for x in n.args)


def base(n, leaf=None):
    """The array a value was loaded as: a parameter (through blanking and copies), or the start of an array filled here."""
    seen, todo, found = set(), [n], set()
    while todo:
        n = through(todo.pop())
        if n in seen:
            continue
        seen.add(n)
        if leaf is not None and leaf(n) is not None:
            found.add(leaf(n))
        elif n.op == 'mu':
            todo += [x for x in (n.init, n.next) if x is not None]
        elif n.op == 'phi':
            todo += n.args[1:]
        elif n.op in ('store', 'viewstore'):
            todo.append(n.args[0])
            if not blank(through(n.args[2])):
                return None
        elif n.op == 'param':
            found.add(n.args[0])
        else:
            return None
    return found.pop() if len(found) == 1 else None


def element(n):
    """(array, index parts) of an element read; chained subscripts joined."""
    n = through(n)
    idx = []
    while n.op == 'getitem' and not result(n):
        idx = list(parts(n.args[1])) + idx
        n = through(n.args[0])
    return n, tuple(idx)


def result(n):
    """One of the results of a package function."""
    f = resolve(n.args[0])
    return f.op == 'call' and f.args[0].startswith('pyowc.') and num(n.args[1]) is not None


class Pick:
    def __init__(self, low, of, among=None, same=True, args=None):
        self.low, self.of, self.among, self.same, self.args = low, of, among, same, args


def extreme(n):
    """(is smallest, ignores missing values, array, restriction) of a minimum or maximum."""
    n = through(n)
    if n.op == 'call' and n.args[0] in LOW | HIGH and len([a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']) == 1:
        a = through(n.args[1])
        among = None
        neg = False
        while a.op in ('neg', 'getitem'):
            if a.op == 'neg':
                neg, a = not neg, through(a.args[0])
            elif among is None:
                among, a = a.args[1], through(a.args[0])
            else:
                return None
        return (n.args[0] in LOW) != neg, 'nan' in n.args[0], a, among, neg
    if n.op == 'neg':
        r = extreme(n.args[0])
        return r and (r[0], r[1], r[2], r[3], not r[4])
    return None


def signed(n):
    n = through(n)
    neg = False
    while n.op == 'neg':
        neg, n = not neg, through(n.args[0])
    return n, neg


def pick(n):
    """The position of the smallest or largest entry of an array, or None."""
    n = through(n)
    while True:
        if n.op == 'getitem' and all(num(p) is not None for p in parts(n.args[1])):
            n = through(n.args[0])
        elif n.op == 'call' and n.args[0] in LOW | HIGH and len(n.args) == 2 and through(n.args[1]).op in ('call', 'getitem') and found(n.args[1]):
            n = through(n.args[1])
        else:
            break
    if n.op == 'call' and n.args[0] in ('numpy.nanargmin', 'numpy.argmin', 'numpy.nanargmax', 'numpy.argmax') and len(n.args) == 2:
        of, neg = signed(n.args[1])
        return Pick(('min' in n.args[0]) != neg, of, args='nan' in n.args[0])
    if n.op == 'call' and n.args[0] in WHERE and len(n.args) == 2:
        m = resolve(n.args[1])
        if m.op == '==':
            for a, b in ((m.args[0], m.args[1]), (m.args[1], m.args[0])):
                e = extreme(b)
                if e is not None:
                    of, neg = signed(a)
                    return Pick(e[0], of, e[3], of is e[2] and neg == e[4], e[1])
    return None


def found(n):
    n = through(n)
    while n.op == 'getitem' and all(num(p) is not None for p in parts(n.args[1])):
        n = through(n.args[0])
    return n.op == 'call' and n.args[0] in WHERE


def positions(n):
    """The mask whose positions a list holds."""
    n = resolve(n)
    while n.op == 'getitem' and all(num(p) is not None for p in parts(n.args[1])) or n.op == 'call' and n.args[0] in KEEP:
        n = resolve(n.args[0] if n.op == 'getitem' else n.args[1])
    if n.op == 'call' and n.args[0] in WHERE and len(n.args) == 2:
        return resolve(n.args[1])
    if n.op in ('<', '<=', '==', 'not', 'and', 'or', 'isnan', 'isfinite'):
        return n
    return None


def difference(n):
    """(a, b) of a-b."""
    n = through(n)
    if n.op == '-':
        return through(n.args[0]), through(n.args[1])
    return None

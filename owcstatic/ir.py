"""Value-graph IR: hash-consed pure nodes with algebraic simplification.

A node is (op, args).  args are nodes or plain constants.  'mu' nodes (loop
headers) are the only nodes with identity and back edges (attributes init/next).
"""
import itertools
import math

_TABLE = {}
_COUNTER = itertools.count()


class N:
    __slots__ = ('op', 'args', 'id', 'loc', 'init', 'next', 'meta')

    def __init__(self, op, args, loc=None):
        self.op, self.args, self.loc = op, args, loc
        self.id = next(_COUNTER)
        self.init = self.next = None
        self.meta = None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def raw(op, *args, loc=None):
    key = (op,) + tuple((type(a).__name__, a) if not isinstance(a, N) else a for a in args)
    node = _TABLE.get(key)
    if node is None:
        node = _TABLE[key] = N(op, args, loc)
    return node


def const(v):
    if isinstance(v, float) and v != v:
        return raw('nan')
    return raw('const', v)


def is_const(n, v=None):
    return n.op == 'const' and (v is None or (n.args[0] == v and isinstance(n.args[0], bool) == isinstance(v, bool)))


def cval(n):
    return n.args[0] if n.op == 'const' else None


def new_mu(name, init, loop, loc=None):
    m = N('mu', (name,), loc)
    m.init = init
    m.meta = loop
    return m


def iv(start, stop, step, depth):
    return raw('iv', start, stop, step, depth)


ZERO, ONE = const(0), const(1)
TRUE, FALSE, NONE = const(True), const(False), const(None)
NAN = raw('nan')
UNDEF = raw('undef')
ABSENT = raw('absent')

FOLD = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
        '/': lambda a, b: a / b, '**': lambda a, b: a ** b, '//': lambda a, b: a // b,
        '%': lambda a, b: a % b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
        '==': lambda a, b: a == b}


def _num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def mk(op, *args, loc=None):
    """Smart constructor."""
    f = SIMP.get(op)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    return raw(op, *args, loc=loc)


def _s_bin(op):
    def f(a, b):
        if a.op == 'const' and b.op == 'const':
            x, y = a.args[0], b.args[0]
            try:
                if (_num(x) and _num(y)) or (isinstance(x, str) and isinstance(y, str) and op in ('+', '==')):
                    if op == '**' and (abs(x) > 1e6 or abs(y) > 64):
                        return None
                    return const(FOLD[op](x, y))
                if op == '==' and a is b and not isinstance(x, float):
                    return TRUE
                if op == '==' and type(x) is not type(y) and (x is None or y is None):
                    return FALSE
            except Exception:
                return None
        if op == '*' and (a is NAN or b is NAN):
            return NAN if (a.op in ('const', 'nan') and b.op in ('const', 'nan')) else None
        if op == '==':
            # isnan(x) == 0  ->  not isnan(x)
            for p, q in ((a, b), (b, a)):
                if is_bool(p) and q.op == 'const' and q.args[0] in (0, 1):
                    return p if q.args[0] in (1, True) and q.args[0] else mk('not', p)
            # find(s, t) == -1
            for p, q in ((a, b), (b, a)):
                if p.op == 'find' and is_const(q, -1):
                    return mk('not', raw('contains', p.args[0], p.args[1]))
            if b.id < a.id:
                return raw('==', b, a)
        return None
    return f


def is_bool(n):
    return n.op in ('not', 'and', 'or', '<', '<=', '==', 'isnan', 'isfinite', 'contains', 'in', 'isinstance',
                    'isinf') or (n.op == 'call' and n.args[0] in ('numpy.any', 'numpy.all')) \
        or (n.op == 'const' and isinstance(n.args[0], bool)) \
        or (n.op == 'getitem' and is_bool(n.args[0])) or (n.op == 'T' and is_bool(n.args[0]))


def _s_not(a):
    if a.op == 'not':
        return a.args[0] if is_bool(a.args[0]) else raw('truth', a.args[0])
    if a.op == 'const':
        return const(not a.args[0])
    if a.op == 'truth':
        return mk('not', a.args[0])
    return None


def _s_and(a, b):
    if a is b:
        return a
    for p, q in ((a, b), (b, a)):
        if p.op == 'const':
            return q if p.args[0] else FALSE
    items = sorted(set(flat('and', a) + flat('and', b)), key=lambda n: n.id)
    return raw('and', *items)


def _s_or(a, b):
    if a is b:
        return a
    for p, q in ((a, b), (b, a)):
        if p.op == 'const':
            return TRUE if p.args[0] else q
    items = sorted(set(flat('or', a) + flat('or', b)), key=lambda n: n.id)
    return raw('or', *items)


def flat(op, n):
    return list(n.args) if n.op == op else [n]


def _s_phi(c, a, b):
    if a is b:
        return a
    if c.op == 'const':
        return a if c.args[0] else b
    if c.op == 'not':
        return mk('phi', c.args[0], b, a)
    if c.op == 'truth':
        return mk('phi', c.args[0], a, b)
    if a.op == 'phi' and a.args[0] is c:
        return mk('phi', c, a.args[1], b)
    if b.op == 'phi' and b.args[0] is c:
        return mk('phi', c, a, b.args[2])
    return None


def _s_dim(a, k):
    if a.op == 'store':
        return mk('dim', a.args[0], k)
    if a.op in ('list', 'tuple') and is_const(k, 0):
        return const(len(a.args))
    if a.op == 'const' and isinstance(a.args[0], (str,)) and is_const(k, 0):
        return const(len(a.args[0]))
    if a.op == 'T' and k.op == 'const':
        return None
    if a.op in ('+', '-', '*', '/', '**') and is_const(a.args[1]) and a.args[1].op == 'const':
        return mk('dim', a.args[0], k)
    if a.op in ('neg', 'abs', 'isnan', 'isfinite', 'not'):
        return mk('dim', a.args[0], k)
    return None


def _s_getitem(a, i):
    if a.op == 'shape':
        return mk('dim', a.args[0], i)
    if a.op in ('list', 'tuple') and i.op == 'const' and isinstance(i.args[0], int):
        k = i.args[0]
        if -len(a.args) <= k < len(a.args):
            return a.args[k]
    if a.op == 'store':
        if a.args[1] is i:
            return a.args[2]
        if _disjoint(a.args[1], i):
            return mk('getitem', a.args[0], i)
    if a.op == 'comp' and i.op == 'iv' and False:
        return None
    if a.op == 'T' and i.op == 'tuple' and len(i.args) == 2:
        return mk('getitem', a.args[0], mk('tuple', i.args[1], i.args[0]))
    # a[:][i] -> a[i]
    if a.op == 'phi' and i.op == 'const' and isinstance(i.args[0], str):
        return mk('phi', a.args[0], mk('getitem', a.args[1], i), mk('getitem', a.args[2], i))
    if a.op == 'dict' and i.op == 'const':
        for k, v in zip(a.args[0::2], a.args[1::2]):
            if k is i:
                return v
    return None


def _disjoint(i, j):
    if i.op == 'const' and j.op == 'const':
        return i is not j
    if i.op == 'tuple' and j.op == 'tuple' and len(i.args) == len(j.args):
        return any(_disjoint(x, y) for x, y in zip(i.args, j.args))
    return False


def _s_neg(a):
    if a.op == 'const' and _num(a.args[0]):
        return const(-a.args[0])
    if a.op == 'neg':
        return a.args[0]
    return None


def _s_T(a):
    return a.args[0] if a.op == 'T' else None


def _s_store(b, i, v):
    if b.op == 'store' and b.args[1] is i:
        return mk('store', b.args[0], i, v)
    return None


SIMP = {'not': _s_not, 'and': _s_and, 'or': _s_or, 'phi': _s_phi, 'dim': _s_dim, 'getitem': _s_getitem,
        'neg': _s_neg, 'T': _s_T, 'store': _s_store}
for _o in ('+', '-', '*', '/', '**', '//', '%', '<', '<=', '=='):
    SIMP[_o] = _s_bin(_o)


def children(n):
    for a in n.args:
        if isinstance(a, N):
            yield a
    if n.op == 'mu':
        if n.init is not None:
            yield n.init
        if n.next is not None:
            yield n.next


def walk(n, seen=None):
    """All nodes reachable from n (through mu back edges)."""
    seen = set() if seen is None else seen
    stack = [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


LABELS = {}      # development aid: nodes printed by a short name


def show(n, depth=5):
    if not isinstance(n, N):
        return repr(n)
    if n in LABELS:
        return LABELS[n]
    if n.op == 'const':
        return repr(n.args[0])
    if n.op == 'mu':
        return f"<{n.args[0]}@loop{n.meta if not isinstance(n.meta, N) else ''}>"
    if depth == 0:
        return '…'
    if n.op in ('+', '-', '*', '/', '**', '<', '<=', '==', '//', '%'):
        return f"({show(n.args[0], depth-1)} {n.op} {show(n.args[1], depth-1)})"
    if n.op == 'getitem':
        return f"{show(n.args[0], depth-1)}[{show(n.args[1], depth-1)}]"
    if n.op == 'param':
        return n.args[0]
    if n.op == 'slice':
        return ':'.join('' if (a is NONE) else show(a, depth-1) for a in n.args)
    if n.op == 'tuple':
        return ', '.join(show(a, depth-1) for a in n.args)
    if n.op == 'call':
        return f"{n.args[0]}({', '.join(show(a, depth-1) for a in n.args[1:])})"
    if n.op == 'iv':
        return f"i∈[{show(n.args[0], depth-1)},{show(n.args[1], depth-1)})"
    return f"{n.op}({', '.join(show(a, depth-1) for a in n.args)})"


def resolve(n):
    """See through trivial mus (next never changes the value)."""
    while n.op == 'mu' and (n.next is n or n.next is n.init):
        n = n.init
    return n

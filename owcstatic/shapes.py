"""Small structural facts about nodes: rank, integer-ness, basic indices."""
from .ir import N, raw, is_const, NONE

INT_OPS = {'iv', 'dim', 'int', 'size', 'ndim'}
INT_CALLS = {'numpy.argmin', 'numpy.argmax', 'numpy.nanargmin'}
ELEMENTWISE = {'+', '-', '*', '/', '**', '//', '%', 'neg', 'abs', 'isnan', 'isfinite', 'not', 'and', 'or', '<', '<=', '=='}
EW_CALLS = {'numpy.sqrt', 'numpy.sin', 'numpy.cos', 'numpy.exp', 'numpy.log', 'numpy.floor', 'numpy.ceil', 'numpy.round',
            'numpy.astype'}
SCALAR_CALLS = {'numpy.nanmax', 'numpy.nanmin', 'numpy.max', 'numpy.min', 'numpy.mean', 'numpy.nanmean', 'numpy.sum',
                'numpy.var', 'numpy.nanvar', 'numpy.std', 'numpy.all', 'numpy.any'}


def isint(n, seen=()):
    if n.op == 'const':
        return isinstance(n.args[0], int) and not isinstance(n.args[0], bool)
    if n.op in INT_OPS:
        return True
    if n.op in ('+', '-', '*', '//', '%'):
        return isint(n.args[0], seen) and isint(n.args[1], seen)
    if n.op == 'neg':
        return isint(n.args[0], seen)
    if n.op == 'phi':
        return isint(n.args[1], seen) and isint(n.args[2], seen)
    if n.op == 'getitem' and n.args[0].op == 'comp' and rank(n.args[1]) == 0:
        return isint(n.args[0].args[2], seen)
    if n.op == 'call' and n.args[0] in INT_CALLS and len(n.args) == 2:
        return True
    if n.op == 'mu':
        if n in seen:
            return True
        if n.init is None:
            return False
        return isint(n.init, seen + (n,)) and (n.next is None or isint(n.next, seen + (n,)))
    return False


_RANK = {}


def rank(n, seen=()):
    if n in _RANK:
        return _RANK[n]
    r = _rank(n, seen)
    if not seen and (n.op != 'mu' or n.next is not None):
        _RANK[n] = r
    return r


def _rank(n, seen):
    if n.op in ('const', 'nan', 'iv', 'dim', 'int', 'size', 'pi', 'str', 'contains', 'path'):
        return 0
    if isint(n):
        return 0
    if n.op == 'getitem':
        b, i = n.args
        if b.op == 'call' and str(b.args[0]).endswith('.loadmat') and i.op == 'const':
            return 2
        if b.op == 'param':
            return None
        rb = rank(b, seen)
        if i.op == 'const' and isinstance(i.args[0], str):
            return None
        idx = i.args if i.op == 'tuple' else (i,)
        if rb is None:
            return None
        k = 0
        extra = 0
        for x in idx:
            if x.op == 'slice':
                continue
            if x is NONE:
                extra += 1
                continue
            if isint(x):
                k += 1
                continue
            return None
        return max(rb - k + extra, 0)
    if n.op in ELEMENTWISE or (n.op == 'call' and n.args[0] in EW_CALLS):
        rs = [rank(a, seen) for a in n.args if isinstance(a, N)]
        if any(r is None for r in rs):
            known = [r for r in rs if r is not None]
            return max(known) if known and max(known) >= 2 else None
        return max(rs) if rs else None
    if n.op == 'T':
        return rank(n.args[0], seen)
    if n.op == 'call':
        f = n.args[0]
        if f in SCALAR_CALLS and len(n.args) == 2:
            return 0
        if f in INT_CALLS and len(n.args) == 2:
            return 0
        if f in ('numpy.argwhere',):
            return 2
        if f == 'numpy.ravel':
            return 1
        if f == 'numpy.column_stack':
            return 2
        if f in ('numpy.full', 'numpy.zeros', 'numpy.ones', 'numpy.empty') and len(n.args) > 1:
            s = n.args[1]
            if s.op == 'tuple':
                return len(s.args)
            if isint(s):
                return 1
        if f in ('numpy.delete', 'numpy.insert') :
            return None
        return None
    if n.op == 'store':
        return rank(n.args[0], seen)
    if n.op == 'phi':
        a, b = rank(n.args[1], seen), rank(n.args[2], seen)
        return a if a == b else None
    if n.op == 'mu':
        if n in seen:
            return None
        return rank(n.init, seen + (n,)) if n.init is not None else None
    if n.op in ('comp', 'list'):
        return None
    return None


def basic_index(i):
    """True when the index is made of ints / slices only (numpy basic indexing -> view)."""
    idx = i.args if i.op == 'tuple' else (i,)
    return all(x.op == 'slice' or x is NONE or isint(x) for x in idx)

"""The two mapping stages of update_salinity_mapping and what is stored for each level."""
from . import analyses as A
from .algebra import Alg, Cannot, LAYOUT
from .ir import N, resolve, walk
from .masks import mask_of, num, is_nan
from .roles import Kinds, columns, short
from .paths import _atoms  # noqa: F401  (kept for callers)

STACK = ('numpy.append', 'numpy.concatenate', 'numpy.hstack', 'numpy.vstack', 'numpy.insert', 'numpy.column_stack')


def entries(n):
    n = resolve(n)
    if n.op in ('dict', 'dictover'):
        items = n.args if n.op == 'dict' else n.args[1:]
        return {k.args[0]: v for k, v in zip(items[0::2], items[1::2]) if k.op == 'const'}
    return {}


def spine(n):
    """Stores and appended pieces an array is made of: (kind, index or None, value)."""
    seen, stack, out = set(), [n], []
    while stack:
        x = resolve(stack.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'mu':
            stack += [y for y in (x.init, x.next) if y is not None]
        elif x.op == 'phi':
            stack += x.args[1:]
        elif x.op in ('store', 'viewstore'):
            out.append(('store', resolve(x.args[1]), resolve(x.args[2])))
            stack.append(x.args[0])
        elif x.op in ('getitem', 'T', 'without'):
            stack.append(x.args[0])
        elif x.op == 'append':
            out.append(('append', None, resolve(x.args[1])))
            stack.append(x.args[0])
        elif x.op == 'call' and (x.args[0] in LAYOUT or x.args[0] in ('numpy.delete', 'numpy.take', 'numpy.pad')) and len(x.args) > 1:
            stack.append(x.args[1])
        elif x.op == 'call' and x.args[0] in STACK:
            parts = [y for y in x.args[1:] if isinstance(y, N) and y.op != 'kw']
            if x.args[0] == 'numpy.insert':
                parts, ins = parts[:1], parts[2:3]
                out += [('append', None, resolve(y)) for y in ins]
            flat = []
            for p in parts:
                p = resolve(p)
                flat += p.args if p.op in ('list', 'tuple') else (p,)
            for k, p in enumerate(flat):
                if k:
                    out.append(('append', None, resolve(p)))
                stack.append(p)
    return out


def near(n):
    """Nodes a value is computed from, not looking at sizes or through loops."""
    seen, stack = set(), [n]
    while stack:
        x = resolve(stack.pop())
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op not in ('mu', 'dim', 'shape', 'size'):
            stack += [y for y in x.args if isinstance(y, N)]


def mentions(n, name):
    return any(short(x) == name for x in near(n))


def saved(it):
    ev = A.calls(it, 'scipy.io.savemat')
    return [(e, entries(e.args[1])) for e in ev]


def stage_events(it):
    """Distinct map_data_grid evaluations: (event, result node)."""
    out = []
    for e in A.axioms(it, 'map_data_grid'):
        out.append(e)
    return out


def result_of(e):
    """Predicate: node is a call of map_data_grid with this event's arguments."""
    key = tuple(resolve(v) for v in e.extra.values())

    def f(n):
        n = resolve(n)
        return short(n) == 'map_data_grid' and tuple(resolve(a) for a in n.args[1:1 + len(key)] if isinstance(a, N)) == key
    return f


def config_key(n):
    n = resolve(n)
    if n.op == 'getitem' and resolve(n.args[1]).op == 'const' and isinstance(resolve(n.args[1]).args[0], str):
        b = resolve(n.args[0])
        while b.op == 'dictover':
            b = resolve(b.args[0])
        if b.op == 'param' and b.args[0] == 'config':
            return resolve(n.args[1]).args[0]
    return None


def chain(n):
    """Selections applied to an array: (steps from the innermost, base).

    A step is ('keep' or 'drop', mask node, None or row index, condition of an optional removal)."""
    n = resolve(n)
    if n.op == 'call' and n.args[0] in LAYOUT and len(n.args) > 1:
        return chain(n.args[1])
    if n.op == 'T':
        return chain(n.args[0])
    if n.op == 'phi':
        a, b = chain(n.args[1]), chain(n.args[2])
        if a[1] is b[1]:
            long, rest = (a[0], b[0]) if len(a[0]) >= len(b[0]) else (b[0], a[0])
            if long[:len(rest)] == rest and len(long) == len(rest) + 1 and long[-1][0] == 'drop':
                from .ir import mk
                g = resolve(n.args[0])
                return rest + (long[-1][:3] + (g if long is a[0] else mk('not', g),),), a[1]
            if long == rest:
                return long, a[1]
        return (), n
    if n.op == 'call' and n.args[0] == 'numpy.delete' and len(n.args) > 2:
        m = mask_of(n.args[2])
        if m is not None:
            s, b = chain(n.args[1])
            return s + (('drop', resolve(m), None, None),), b
        return (), n
    if n.op == 'call' and n.args[0] == 'numpy.take' and len(n.args) > 2 and mask_of(n.args[2]) is not None:
        s, b = chain(n.args[1])
        return s + (('keep', resolve(mask_of(n.args[2])), None, None),), b
    if n.op == 'getitem':
        i = resolve(n.args[1])
        items = [resolve(x) for x in (i.args if i.op == 'tuple' else (i,))]
        masks = [(k, None if x.op == 'getitem' and resolve(x.args[1]).op == 'iv' else mask_of(x)) for k, x in enumerate(items)]
        masks = [(k, m) for k, m in masks if m is not None]
        if len(masks) == 1:
            k, m = masks[0]
            rest = [x for j, x in enumerate(items) if j != k]
            row = None
            for x in rest:
                if x.op == 'slice' or x.op == 'const' and (x.args[0] is None or x.args[0] == 0 and j_is_column(n, items)):
                    continue
                row = x
            s, b = chain(n.args[0])
            m = resolve(m)
            while m.op == 'not' and resolve(m.args[0]).op == 'not':
                m = resolve(resolve(m.args[0]).args[0])
            return s + (('keep', m, row, None),), b
        if all(x.op == 'slice' and all(resolve(y).op == 'const' and resolve(y).args[0] is None for y in x.args) or
               x.op == 'const' and x.args[0] in (None,) for x in items):
            return chain(n.args[0])
        if items and items[-1].op == 'const' and items[-1].args[0] == 0 and len(items) == 2 and items[0].op == 'slice':
            return chain(n.args[0])
    return (), n


def j_is_column(n, items):
    return len(items) == 2


# -- conditions about one element -----------------------------------------------
BOOL = ('and', 'or', 'not', '<', '<=', '==', 'isnan', 'isfinite')


def at(n, i):
    """Element i of an elementwise condition or formula."""
    from .ir import mk
    n = resolve(n)
    if n.op in BOOL or n.op in ('+', '-', '*', '/', 'abs', 'neg'):
        return mk(n.op, *(at(a, i) for a in n.args))
    if num(n) is not None or config_key(n) or n.op in ('const', 'param', 'dim', 'size'):
        return n
    return mk('getitem', n, i)


def conditions(guards, level):
    """Guards with the implicit ones of a filtered loop over levels, split into atoms."""
    todo = [(resolve(g), p) for g, p in guards]
    alias = {level}
    x = level
    for _ in range(6):
        if x.op == 'call' and x.args[0] in ('int', 'builtins.int') and len(x.args) == 2:
            x = resolve(x.args[1])
        elif x.op == 'int' and len(x.args) == 1:
            x = resolve(x.args[0])
        elif x.op == 'getitem':
            b = resolve(x.args[0])
            if b.op == 'comp':
                if resolve(b.args[2]) is resolve(b.args[0]):
                    alias.add(resolve(b.args[0]))
                todo.append((resolve(b.args[1]), True))
                break
            m = mask_of(b)
            if m is not None:
                todo.append((at(m, level), True))
                break
            x = b
        else:
            break
    out = []
    while todo:
        g, p = todo.pop()
        while g.op == 'not':
            g, p = resolve(g.args[0]), not p
        if g.op == 'truth' and g.args:
            todo.append((resolve(g.args[0]), p))
        elif g.op == ('and' if p else 'or'):
            todo += [(resolve(a), p) for a in g.args]
        elif g.op == 'getitem' and resolve(g.args[0]).op in BOOL and resolve(g.args[1]).op != 'tuple':
            todo.append((at(g.args[0], g.args[1]), p))
        elif g.op == 'const':
            continue
        else:
            out.append((g, p))
    return out, alias

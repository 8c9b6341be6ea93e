"""C01: the analysed float is never compared with its own archived casts."""
from ..report import Check
from .. import analyses as A
from ..ir import N, resolve, walk, is_bool
from ..masks import num, shortened
from ..roles import short

NEED = ('lat', 'long', 'dates', 'sal', 'ptmp', 'pres')
GD = ('pyowc.data.fetchers:get_data',)
TRANSPARENT = ('numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.ravel', 'numpy.atleast_1d', 'list', 'tuple', 'numpy.squeeze',
               'numpy.flatnonzero', 'numpy.argwhere', 'numpy.nonzero', 'numpy.where', 'numpy.sort', 'numpy.unique', 'sorted',
               'numpy.atleast_2d', 'numpy.reshape')


class Cannot(Exception):
    pass


def argo_file(n):
    n = resolve(n)
    return n.op == 'call' and n.args[0].endswith(('read_mat', 'loadmat')) and \
        any(x.op == 'getitem' and x.args[1].op == 'const' and x.args[1].args[0] == 'HISTORICAL_ARGO_PREFIX' for x in walk(n))


def leaves(n, seen=None):
    n = resolve(n)
    if n.op == 'phi':
        return leaves(n.args[1]) + leaves(n.args[2])
    return [n]


def column(n):
    """n as (key, [(keep?, selector)]) over one variable of the Argo archive file."""
    steps = []
    n = resolve(n)
    for _ in range(40):
        if n.op == 'getitem':
            i, b = resolve(n.args[1]), resolve(n.args[0])
            if i.op == 'const' and isinstance(i.args[0], str):
                if not argo_file(b):
                    raise Cannot(f"read from {b.op}")
                return i.args[0], steps
            parts = [p for p in (i.args if i.op == 'tuple' else (i,))]
            sel = [resolve(p) for p in parts if not (resolve(p).op == 'slice' and all(a.op == 'const' and a.args[0] is None for a in resolve(p).args))]
            if len(sel) > 1:
                raise Cannot('several selectors')
            if sel:
                steps.append((True, sel[0]))
            n = b
        elif n.op == 'call' and n.args[0] == 'numpy.delete':
            steps.append((False, resolve(n.args[2])))
            n = resolve(n.args[1])
        elif n.op == 'call' and n.args[0] in ('numpy.take', 'numpy.compress'):
            k = 1 if n.args[0] == 'numpy.take' else 2
            steps.append((True, resolve(n.args[3 - k])))
            n = resolve(n.args[k])
        elif n.op == 'call' and n.args[0] in TRANSPARENT:
            n = resolve(n.args[1])
        elif n.op == 'T':
            n = resolve(n.args[0])
        else:
            raise Cannot(n.op + ' ' + str(n)[:80])
    raise Cannot('too deep')


def source_elem(n, iv):
    """The source identifier of cast iv: 'exact', or the name of a lossy treatment, or None."""
    n = resolve(n)
    if n.op == 'str' or (n.op == 'call' and n.args[0] in ('str', 'numpy.str_')):
        return source_elem(n.args[-1], iv)
    if n.op == 'getitem':
        b, i = resolve(n.args[0]), resolve(n.args[1])
        if b.op == 'getitem' and resolve(b.args[1]).op == 'const' and resolve(b.args[1]).args[0] == 'source':
            return 'exact' if i is iv or iv is None else 'another cast'
        r = source_elem(b, iv)
        if r is not None:
            return 'part of the identifier'
    if n.op == 'getitem' and resolve(n.args[1]).op == 'const' and resolve(n.args[1]).args[0] == 'source' and iv is None:
        return 'exact'
    if n.op == 'call' and n.args[0].rsplit('.', 1)[-1] in ('strip', 'lower', 'upper', 'split', 'replace', 'lstrip', 'rstrip', 'rsplit', 'partition',
                                                                    'rpartition', 'casefold', 'basename', 'splitext', 'removeprefix', 'removesuffix', 'zfill') and len(n.args) > 1:
        r = source_elem(n.args[1], iv)
        return r and n.args[0].rsplit('.', 1)[-1] + ' of the identifier'
    if n.op == 'call' and n.args[0] in ('numpy.array', 'numpy.asarray', 'list', 'numpy.ravel') and len(n.args) > 1:
        return source_elem(n.args[1], iv)
    return None


def is_name(n, pname):
    n = resolve(n)
    if n.op == 'str' or (n.op == 'call' and n.args[0] == 'str'):
        n = resolve(n.args[-1])
    return n.op == 'param' and n.args[0] == pname


def pred(c, iv, pname):
    """True/False/('own')/('not', t)/('and'|'or', ...)/('bad', why)."""
    c = resolve(c)
    if c.op == 'const':
        return bool(c.args[0])
    if c.op == 'not':
        return ('not', pred(c.args[0], iv, pname))
    if c.op in ('and', 'or'):
        r = pred(c.args[0], iv, pname)
        for x in c.args[1:]:
            r = (c.op, r, pred(x, iv, pname))
        return r
    if c.op == 'truth':
        return pred(c.args[0], iv, pname)
    if c.op in ('contains', 'in'):
        s, t = c.args if c.op == 'contains' else c.args[::-1]
        e = source_elem(s, iv)
        if e == 'exact' and is_name(t, pname):
            return 'own'
        if e and is_name(t, pname):
            return ('bad', 'the test looks at ' + e)
        if source_elem(t, iv) and is_name(s, pname):
            return ('bad', 'the test asks whether the float name contains the identifier')
        if e and any(is_name(x, pname) for x in walk(t)):
            return ('bad', 'only part of the float name is looked for: ' + str(t)[:80])
    if c.op in ('<', '<=', '=='):
        a, b = (resolve(x) for x in c.args)
        # find(source, name) against a number
        for p, q, flip in ((a, b, False), (b, a, True)):
            f = p
            if f.op == 'find' or (f.op == 'call' and f.args[0].rsplit('.', 1)[-1] in ('find', 'index', 'count')):
                args = f.args if f.op == 'find' else f.args[1:]
                if len(args) >= 2 and source_elem(args[0], iv) == 'exact' and is_name(args[1], pname) and num(q) is not None:
                    count = f.op == 'call' and f.args[0].endswith('count')
                    vals = (0, 1, 2, 5) if count else (-1, 0, 1, 5)
                    k = num(q)
                    t = [({'<': v < k, '<=': v <= k, '==': v == k}[c.op] if not flip else
                          {'<': k < v, '<=': k <= v, '==': k == v}[c.op]) for v in vals]
                    if t[1:] == [True] * 3 and not t[0]:
                        return 'own'
                    if t[1:] == [False] * 3 and t[0]:
                        return ('not', 'own')
                    return ('bad', f"the test depends on where the name is found: {str(c)[:120]}")
        # k < number of casts, met inside a loop over the casts
        if c.op in ('<', '<=') and num(a) is not None and b.op in ('dim', 'size') and num(a) + (c.op == '<') > 1 and iv is not None \
                and any(x.op == 'call' and str(x.args[0]).endswith(('read_mat', 'loadmat')) for x in walk(b)):
            return ('bad', f"archives with few casts are left as they are: {str(c)[:100]}")
        if c.op == '==' and any(source_elem(x, iv) for x in (a, b)) and any(any(is_name(y, pname) for y in walk(x)) for x in (a, b)):
            return ('bad', 'the identifier is compared for equality, not searched for the name')
    if c.op == 'call' and c.args[0].rsplit('.', 1)[-1] in ('startswith', 'endswith', 'match', 'fullmatch'):
        ns = [x for x in c.args[1:] if isinstance(x, N)]
        if any(source_elem(x, iv) for x in ns) and any(is_name(x, pname) for x in ns):
            return ('bad', f"the identifier is tested with {c.args[0].rsplit('.', 1)[-1]}, not searched for the name")
    raise Cannot(str(c)[:120])


def whole(iv):
    """The loop meets every cast."""
    if iv is None:
        return True
    start, stop, step = (resolve(x) for x in iv.args[:3])
    if num(start) != 0 or num(step) != 1:
        return False
    if stop.op == 'dim' and num(stop.args[1]) == 0:
        return True
    if stop.op in ('-', '+') or num(stop) is not None:
        return False
    return None


def only_last(mu):
    """Every round puts a new list in place of the one so far, or leaves it."""
    todo, new = [resolve(mu.next)], 0
    while todo:
        n = resolve(todo.pop())
        if n is mu:
            continue
        if n.op == 'phi':
            todo += n.args[1:]
        elif n.op in ('list', 'tuple') and n.args and mu not in list(walk(n)):
            new += 1
        else:
            return False
    return new > 0


def chosen(sel, pname):
    """Predicate of the casts a selector denotes, and whether its loop covers all casts."""
    sel = resolve(sel)
    if sel.op == 'call' and sel.args[0] in TRANSPARENT:
        return chosen(sel.args[1], pname)
    if sel.op == 'getitem':
        if shortened(sel):
            return ('bad', f"only some of the casts found are meant: {str(sel)[-60:]}"), True
        return chosen(sel.args[0], pname)
    if sel.op == 'phi' and not any(x.op == 'brk' for x in walk(sel.args[0])):
        a, b = chosen(sel.args[1], pname), chosen(sel.args[2], pname)
        if a == b:
            return a
        for p, w in (a, b):
            if isinstance(p, tuple) and p[0] == 'bad':
                return p, w
        raise Cannot('selector depends on ' + str(sel.args[0])[:80])
    if sel.op == 'comp':
        iv, cond, expr = (resolve(x) for x in sel.args)
        w = whole(iv)
        if expr is iv:
            return pred(cond, iv, pname), w
        if cond.op == 'const' and cond.args[0]:
            return pred(expr, iv, pname), w
        raise Cannot('selector ' + str(sel)[:100])
    if sel.op == 'phi' and any(x.op == 'brk' for x in walk(sel.args[0])) or sel.op == 'mu' and sel.next is not None and \
            any(x.op == 'brk' for x in walk(sel.next)):
        return ('bad', 'the search stops before the last cast'), True
    if sel.op == 'mu' and sel.next is not None and only_last(sel):
        return ('bad', 'only the last of them is kept in the list'), True
    if sel.op == 'not':
        p, w = chosen(sel.args[0], pname)
        return ('not', p), w
    if is_bool(sel) or sel.op in ('<', '<=', '=='):
        return pred(sel, None, pname), True
    raise Cannot('selector ' + sel.op + ' ' + str(sel)[:100])


def value(t, own):
    if isinstance(t, bool):
        return t
    if t == 'own':
        return own
    if t[0] == 'not':
        return not value(t[1], own)
    if t[0] == 'and':
        return value(t[1], own) and value(t[2], own)
    if t[0] == 'or':
        return value(t[1], own) or value(t[2], own)
    raise Cannot('?')


def bads(t):
    if isinstance(t, tuple):
        if t[0] == 'bad':
            return [t[1]]
        return [b for x in t[1:] for b in bads(x)]
    return []


def rule_filter(c):
    it = A.fn('pyowc.data.fetchers:get_data')
    if it is None:
        c.und('own casts left out', 'archive access', 'get_data not found')
        return
    c.covered(it)
    ret = resolve(it.ret_node)
    items = {}
    for leaf in leaves(ret):
        if leaf.op in ('dict', 'dictover'):
            a = leaf.args if leaf.op == 'dict' else leaf.args[1:]
            for k, v in zip(a[0::2], a[1::2]):
                if k.op == 'const' and k.args[0] in NEED:
                    items.setdefault(k.args[0], []).extend(leaves(v))
            if leaf.op == 'dictover':
                for b in leaves(leaf.args[0]):
                    if argo_file(b):
                        for k in NEED:
                            items.setdefault(k, [])
        elif argo_file(leaf):
            for k in NEED:
                items.setdefault(k, []).append(None)
    loc = 'pyowc/data/fetchers.py read_mat_argo'
    if not items:
        c.und('own casts left out', 'archive access', 'the data handed on are not enumerable', loc)
        return
    params = [p for p in ('pa_float_name', 'float_name')]
    for k in NEED:
        got = False
        for leaf in items.get(k, []):
            if leaf is not None and not any(argo_file(x) for x in walk(leaf)):
                continue
            got = True
            if leaf is None:
                c.bad('own casts left out', k, 'the Argo archive is handed on unfiltered', loc)
                continue
            judge(c, k, leaf, params, loc)
        if not got:
            c.und('own casts left out', k, 'no Argo value recognised', loc)


def judge(c, k, leaf, params, loc):
    try:
        key, steps = column(leaf)
        if key != k:
            c.bad('own casts left out', k, f"{k} is taken from variable {key}", loc)
            return
        if not steps:
            c.bad('own casts left out', k, 'handed on unfiltered', loc)
            return
        keep = True
        for kept, sel in steps:
            pname = next((p for p in params if any(is_name(x, p) for x in walk(sel))), params[0])
            t, w = chosen(sel, pname)
            b = bads(t)
            if b:
                c.bad('own casts left out', k, b[0], loc)
                return
            if w is False:
                c.bad('own casts left out', k, f"the search does not look at every cast: {str(sel.args[0])[:120]}", loc)
                return
            if w is None:
                raise Cannot('extent of the search ' + str(sel.args[0])[:100])
            t = t if kept else ('not', t)
            keep = t if keep is True else ('and', keep, t)
        own, other = value(keep, True), value(keep, False)
        if own:
            c.bad('own casts left out', k, 'casts of the analysed float are kept', loc)
        elif not other:
            c.bad('own casts left out', k, 'casts of other floats are left out', loc)
        else:
            c.ok('own casts left out', k, 'kept exactly when the identifier does not contain the name', loc)
    except Cannot as e:
        c.und('own casts left out', k, str(e), loc)


def param_of(n, names):
    n = resolve(n)
    if n.op == 'str' or (n.op == 'call' and n.args[0] == 'str'):
        n = resolve(n.args[-1])
    if n.op == 'param':
        return n.args[0] in names
    if n.op in ('const', 'nan'):
        return False
    if n.op in ('getitem', '+', 'strfmt') and any(x.op == 'param' for x in walk(n)):
        return False
    return None


def rule_name(c):
    """The name searched for is the float name given to the mapping."""
    for f in ('get_region_hist_locations', 'get_region_data'):
        it = A.fn('pyowc.data.fetchers:' + f, None, GD)
        if it is None:
            continue
        c.covered(it)
        for e in A.axioms(it, 'get_data'):
            v = e.extra.get('pa_float_name')
            c.that(None if v is None else param_of(v, ('pa_float_name', 'float_name')), 'name handed on', f"{f} to get_data",
                   str(v)[:120], A.where(e))
    it = A.core()
    c.covered(it)
    for f in ('get_region_hist_locations', 'get_region_data'):
        es = A.axioms(it, f)
        for e in es:
            v = e.extra.get('pa_float_name')
            c.that(None if v is None else param_of(v, ('float_name',)), 'name handed on', f"mapping to {f}", str(v)[:120], A.where(e))
        if not es:
            c.und('name handed on', f, 'call not recognised')


def rule_reads(c):
    """No part of the package opens the Argo archive other than through the filtering access."""
    seen = 0
    for key, it in A.four().items():
        for e in it.events:
            if e.kind == 'call' and e.name.rsplit('.', 1)[-1] in ('read_mat', 'loadmat') and e.args and \
                    any(x.op == 'getitem' and x.args[1].op == 'const' and x.args[1].args[0] == 'HISTORICAL_ARGO_PREFIX' for x in walk(e.args[0])):
                seen += 1
                via = [f for f in e.stack if f] if e.stack else []
                inside = any('get_data' in str(f) or 'read_mat_argo' in str(f) for f in list(via) + [e.func])
                c.that(True if inside else None, 'archive opened in one place', f"{key} {e.loc}", e.func, A.where(e))


def main():
    c = Check('C01', "own casts are left out of the reference data",
              'Every value get_data can hand on from the Argo archive is peeled to its selection steps; each step is turned into a '
              'predicate over one cast and the conjunction must keep a cast exactly when its source identifier does not contain '
              'the float name. The name is traced from update_salinity_mapping to that test at both accesses.',
              'Symbolic in the archive, the identifiers and the float name.')
    c.rule(rule_filter)
    c.rule(rule_name)
    c.rule(rule_reads)
    return c.finish()

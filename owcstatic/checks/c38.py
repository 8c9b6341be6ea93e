"""C38: a value on a theta level is read between the two samples around the level."""
from ..report import Check
from .. import analyses as A
from ..ir import N, resolve, walk
from ..masks import is_nan, num
from ..levels import base, cases, difference, element, lits, parts, pick, positions, signed, through, writes, extreme
from .c37 import closest, ivs, tail
from .c37 import quantity as _q  # noqa: F401

R1, R2, R3, R4, R5, R6 = ('a pair of samples of one profile', 'the value of the closest sample otherwise', 'interpolated only between present values',
                          'the neighbour on the other side of the level', 'the closest sample of the profile', 'every quantity from its own samples')
FIND, PLOT = 'pyowc.core.finders:find_10thetas', 'pyowc.plot.plots:sal_var_plot'


def main():
    c = Check('C38', 'values on theta levels',
              'Arrays of values on theta levels are read entry by entry: which samples an interpolation joins, under which conditions, and which '
              'sample stands in otherwise.', 'all inputs and branches of find_10thetas and sal_var_plot')
    c.assume('numpy.nanmin/argwhere return a position of the smallest entry; ties are not distinguished')
    a = A.fn(FIND)
    b = A.fn(PLOT, None, (FIND,))
    for it, what, rule in ((a, 'find_10thetas', chosen), (b, 'sal_var_plot', plotted)):
        if it is None:
            c.und(R1, what, 'function not found')
        else:
            c.covered(it)
            c.rule(rule, it)
    return c.finish()


def level_array(n):
    n = through(n)
    return n.op == 'getitem' and resolve(n.args[0]).op in ('call', 'fn') and 'find_10thetas' in repr(resolve(n.args[0]).args[0]) and num(n.args[1]) == 0


def chosen(c, it):
    r = resolve(it.ret_node)
    theta = through(r.args[4])
    arrays = []
    for n in walk(r):
        if n.op == 'call' and tail(n) in ('nanvar', 'nanstd', 'var', 'std') and isinstance(n.args[1], N):
            x = element(n.args[1])[0]
            if x not in arrays:
                arrays.append(x)
    if not arrays:
        c.und(R1, 'find_10thetas', 'array of salinities on the levels not found')
    for x in arrays:
        array(c, 'salinity for the choice', x, theta, {'sal'})


def plotted(c, it):
    theta = None
    done = {}
    for e in it.events:
        for a in list(e.args) + list((e.kwargs or {}).values()) if e.kind == 'call' else ():
            if not isinstance(a, N):
                continue
            for y in shown(a):
                if any(interpolation(v) for _i, v, _c in writes(y)[0]):
                    done.setdefault(y, None)
                    theta = theta or next((z for z in walk(y) if level_array(z)), None)
    if theta is None:
        c.und(R1, 'sal_var_plot', 'levels not found')
        return
    names = set()
    for y in done:
        qs = quantity(y, theta)
        names |= qs
        array(c, 'plotted ' + '/'.join(sorted(q or '?' for q in qs)), y, through(theta), None)
    c.that(None if None in names else True if {'sal', 'map_sal', 'map_sal_errors', 'cal_sal', 'cal_sal_errors'} <= names else None, R6, 'plotted quantities', sorted(map(str, names)))


def shown(n):
    """Arrays whose entries a plotted expression is made of."""
    n = through(n)
    if n.op == 'getitem':
        return shown(n.args[0])
    if n.op in ('+', '-', '*', '/', 'neg', 'tuple', 'list'):
        return [y for a in n.args for y in shown(a)]
    return [n] if n.op in ('mu', 'store', 'comp') else []


def interpolation(n):
    """(x pair, y pair, at) of an interpolation between listed points."""
    n = through(n)
    if n.op == 'apply' and resolve(n.args[0]).op == 'call' and tail(resolve(n.args[0])) == 'interp1d':
        f = resolve(n.args[0])
        a = [x for x in f.args[1:] if isinstance(x, N) and x.op != 'kw']
        return resolve(a[0]), resolve(a[1]), n.args[1]
    if n.op == 'call' and tail(n) == 'interp':
        a = [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
        return resolve(a[1]), resolve(a[2]), a[0]
    return None


def pairs(l):
    l = through(l)
    return [element(x) for x in l.args] if l.op in ('list', 'tuple') and len(l.args) == 2 else None


def quantity(y, theta):
    out = set()
    for _i, v, _c in writes(y)[0]:
        if is_nan(v):
            continue
        p = interpolation(v)
        for x in (pairs(p[1]) or ()) if p else (element(v),):
            out.add(base(x[0]))
    return out


def array(c, name, y, theta, allowed):
    ws = [w for w in writes(y)[0] if not is_nan(w[1])]
    qs = quantity(y, theta)
    if None not in qs:
        c.that(len(qs) == 1 and (allowed is None or qs <= allowed), R6, name, ', '.join(sorted(qs)))
    for idx, v, cs in ws:
        if len(idx) != 2:
            c.und(R1, name, 'not one entry')
            continue
        p = interpolation(v)
        if p is None:
            single(c, name, idx, v, theta)
        else:
            pair(c, name, idx, p, cs, theta)


def sample_index(at):
    """The array of closest samples an index is read from, with its position."""
    return element(at)


def single(c, name, idx, v, theta):
    x, at = element(v)
    if len(at) != 2 or base(x) is None:
        c.und(R2, name, 'not a sample')
        return
    ivs(c, R2, name + ': profile', at[1], idx[1])
    s, si = sample_index(at[0])
    if len(si) == 2:
        ivs(c, R2, name + ': level', si[0], idx[0])
        ivs(c, R2, name + ': profile of the sample', si[1], idx[1])
        index_array(c, name, s, theta)
    elif pick(at[0]) is not None:
        c.und(R2, name, 'sample searched in place')
    else:
        (c.bad if at[0].op in ('iv', 'const') else c.und)(R2, name + ': sample', f"sample {at[0]!r} of the profile")


def index_array(c, name, s, theta):
    if (name, s) not in SEEN:
        SEEN.add((name, s))
        if s.op in ('mu', 'store', 'comp'):
            closest(c, s, theta, R5)
        else:
            c.und(R5, name, 'array of closest samples not understood')


SEEN = set()


def pair(c, name, idx, p, cs, theta):
    xs, ys, at = pairs(p[0]), pairs(p[1]), element(p[2])
    if xs is None or ys is None:
        c.und(R1, name, 'points not listed')
        return
    lv, li = at
    if li and lv is theta:
        ivs(c, R1, name + ': read at the level', li[0], idx[0])
    elif base(lv) is not None or lv.op == 'mu':
        c.bad(R1, name + ': read at the level', f"read at {lv!r}")
    else:
        c.und(R1, name + ': read at the level', 'not understood')
    if any(len(e[1]) != 2 for e in xs + ys):
        c.und(R1, name, 'points not samples')
        return
    bx = {base(e[0]) for e in xs}
    if None not in bx:
        c.that(bx == {'ptmp'}, R1, name + ': by temperature', ', '.join(sorted(bx)))
    for e in xs + ys:
        ivs(c, R1, name + ': profile', e[1][1], idx[1])
    for k in (0, 1):
        if xs[k][1][0] is ys[k][1][0]:
            c.ok(R1, f"{name}: point {k + 1}", 'temperature and value of one sample')
        elif xs[k][1][0] is ys[1 - k][1][0] or plain(xs[k][1][0], theta) and plain(ys[k][1][0], theta):
            c.bad(R1, f"{name}: point {k + 1}", 'temperature and value of different samples')
        else:
            c.und(R1, f"{name}: point {k + 1}", 'samples not compared')
    rows = [e[1][0] for e in xs]
    near = [r for r in rows if sample_index(r)[1] and len(sample_index(r)[1]) == 2]
    other = [r for r in rows if r not in near]
    if rows[0] is rows[1]:
        c.bad(R1, name + ': two samples', 'both points are the same sample')
        return
    if len(near) != 1 or len(other) != 1:
        c.und(R4, name, 'closest sample and neighbour not told apart')
        return
    s, si = sample_index(near[0])
    ivs(c, R1, name + ': level of the sample', si[0], idx[0])
    index_array(c, name, s, theta)
    present(c, name, cs, xs, ys)
    neighbour(c, name, other[0], near[0], idx, theta)


def plain(n, theta):
    return element(n)[1] != () or resolve(n).op in ('iv', 'const')


def present(c, name, cs, xs, ys):
    ok = set()
    for l, pos in cs:
        if l.op == 'isnan' and not pos or l.op == 'isfinite' and pos:
            for y in list(l.args):
                ok.add(element(y))
        if l.op == 'call' and tail(l) in ('any', 'all', 'sum') and not pos or l.op == 'or' and not pos:
            ok |= {element(y) for z in walk(l) if z.op == 'isnan' for y in z.args}
        if l.op == 'call' and tail(l) == 'all' and pos:
            ok |= {element(y) for z in walk(l) if z.op == 'isfinite' for y in z.args}
    if any(l.op not in ('isnan', 'isfinite', '==', '<', '<=') for l, _p in cs) and not all(e in ok for e in ys):
        c.und(R3, name, 'condition not understood')
        return
    value = {'map_sal_errors': 'map_sal', 'cal_sal_errors': 'cal_sal'}
    held = {(base(x), i) for x, i in ok}
    for k, e in enumerate(ys):
        if (value.get(base(e[0])), e[1]) in held:
            c.ok(R3, f"{name}: value of point {k + 1}", 'present together with the salinity it belongs to')
            continue
        c.that(e in ok, R3, f"{name}: value of point {k + 1}", 'present' if e in ok else 'a missing value takes part although the closest sample may have one')


def span(c, name, near, interval, n_arr):
    """interval holds near-1 .. near+1 cut to the profile."""
    n = through(interval)
    if n.op != 'call' or tail(n) != 'arange':
        return None
    a = [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
    if len(a) < 2:
        return None
    bad = []
    for size, k in [(s, i) for s in (2, 3, 5, 9) for i in range(s)]:
        lo, hi = value(a[0], near, k, size), value(a[1], near, k, size)
        if lo is None or hi is None:
            return None
        want = list(range(max(k - 1, 0), min(k + 1, size - 1) + 1))
        got = list(range(int(lo), int(hi)))
        if [x for x in got if x != k] != [x for x in want if x != k]:
            bad.append(f"for sample {k} of {size} the neighbours are {got}")
            break
    return bad


def value(n, near, k, size):
    n = through(n)
    if n is near or n is through(near):
        return k
    if num(n) is not None:
        return num(n)
    if n.op == 'dim':
        return size if num(n.args[1]) == 0 else 4 if num(n.args[1]) == 1 else None
    if n.op in ('+', '-'):
        a, b = value(n.args[0], near, k, size), value(n.args[1], near, k, size)
        return None if None in (a, b) else a + b if n.op == '+' else a - b
    if n.op == 'phi':
        t = value_truth(n.args[0], near, k, size)
        return None if t is None else value(n.args[1] if t else n.args[2], near, k, size)
    if n.op == 'call' and tail(n) in ('max', 'min', 'maximum', 'minimum', 'amax', 'amin', 'nanmax', 'nanmin'):
        xs = [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
        if len(xs) == 1:
            l = through(xs[0])
            xs = l.args if l.op in ('list', 'tuple') else []
        vs = [value(x, near, k, size) for x in xs]
        return None if None in vs or not vs else (max if 'max' in tail(n) else min)(vs)
    return None


def value_truth(n, near, k, size):
    n = resolve(n)
    if n.op in ('<', '<=', '=='):
        a, b = value(n.args[0], near, k, size), value(n.args[1], near, k, size)
        return None if None in (a, b) else {'<': a < b, '<=': a <= b, '==': a == b}[n.op]
    if n.op == 'not':
        t = value_truth(n.args[0], near, k, size)
        return None if t is None else not t
    return None


def neighbour(c, name, k_index, near, idx, theta):
    if (name, k_index) in SEEN:
        return
    SEEN.add((name, k_index))
    sides = {}
    for v, cs in cases(k_index):
        if v.op in ('mu', 'stale', 'undef') and any(pos and level_side(l, near, idx, theta) for l, pos in cs) and not empty_only(cs, near, idx, theta):
            c.bad(R4, name + ': no neighbour', 'the neighbour of an earlier level or profile is kept')
            continue
        if v.op == 'mu' or v is near or through(v) is through(near) or v.op in ('undef',):
            continue
        side = direction(cs, near, idx, theta)
        e, at = element(v)
        p = pick(at[0]) if len(at) == 1 else None
        if p is None or side is None:
            c.und(R4, name, 'choice of the neighbour not understood')
            continue
        bad = span(c, name, near, e, None)
        if bad is None:
            c.und(R4, name + ': candidates', 'not understood')
        else:
            c.that(not bad, R4, name + ': candidates', bad[0] if bad else 'the samples just above and below')
        d = difference(p.of)
        m = p.among is not None and restriction(p.among, p.of)
        if d is None or not m:
            c.und(R4, name + ': ' + side, 'difference not understood')
            continue
        pos = [element(x) for x in d]
        if any(base(x) not in ('ptmp',) or len(i) != 2 for x, i in pos):
            c.und(R4, name + ': ' + side, 'not a difference of temperatures')
            continue
        for x, i in pos:
            ivs(c, R4, name + ': profile', i[1], idx[1])
        sign = 1 if through(pos[0][1][0]) is through(near) else -1 if through(pos[1][1][0]) is through(near) else None
        if sign is None:
            c.und(R4, name + ': ' + side, 'closest sample not in the difference')
            continue
        op, negated = m           # of > 0 ('+') or < 0 ('-')
        want = '+' if (side == 'warmer') == (sign > 0) else '-'
        sides[side] = True
        if op != want:
            c.bad(R4, f"{name}: sample {side} than the level", 'the neighbour is taken on the same side of the level')
            continue
        closest_one = p.low == (op == '+')
        c.that(closest_one, R4, f"{name}: sample {side} than the level", 'nearest neighbour on the other side' if closest_one else 'the farther neighbour is taken')
    if len(sides) < 2 and sides:
        c.bad(R4, name, f"only a sample {list(sides)[0]} than the level gets a neighbour") if all(v.op != 'mu' for v, _c in cases(k_index)) else c.und(R4, name, 'one side only')


def level_side(l, near, idx, theta):
    if l.op not in ('<', '<='):
        return None
    a, b = element(l.args[0]), element(l.args[1])
    for k, (lev, smp) in enumerate(((a, b), (b, a))):
        if lev[0] is theta and base(smp[0]) == 'ptmp' and len(smp[1]) == 2 and through(smp[1][0]) is through(near):
            return 'warmer' if k == 0 else 'colder'
    return None


def empty_only(cs, near, idx, theta):
    """The conditions contradict each other: warmer and colder at once."""
    return {'warmer', 'colder'} <= {level_side(l, near, idx, theta) for l, pos in cs if pos}


def restriction(among, of):
    m = positions(among)
    if m is None or m.op not in ('<', '<='):
        return None
    a, b = m.args
    sa, na = signed(a)
    sb, nb = signed(b)
    if num(a) == 0 and sb is of:
        return ('-' if nb else '+'), nb
    if num(b) == 0 and sa is of:
        return ('+' if na else '-'), na
    return None


def direction(cs, near, idx, theta):
    """'warmer' when the closest sample is known to be warmer than the level, 'colder'."""
    for l, pos in cs:
        if l.op not in ('<', '<='):
            continue
        a, b = element(l.args[0]), element(l.args[1])
        for k, (lev, smp) in enumerate(((a, b), (b, a))):
            if lev[0] is theta and lev[1] and lev[1][0] is idx[0] and base(smp[0]) == 'ptmp' and len(smp[1]) == 2 and through(smp[1][0]) is through(near):
                if pos:
                    return 'warmer' if k == 0 else 'colder'
    for l, pos in cs:
        if l.op in ('<', '<=') and not pos:
            a, b = element(l.args[0]), element(l.args[1])
            for k, (lev, smp) in enumerate(((a, b), (b, a))):
                if lev[0] is theta and base(smp[0]) == 'ptmp' and len(smp[1]) == 2 and through(smp[1][0]) is through(near):
                    return 'colder' if k == 0 else 'warmer'
    return None

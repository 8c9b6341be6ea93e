"""C14: cast selection returns only casts found inside the search ellipse."""
from ..report import Check
from .. import analyses as A
from .. import seqs
from ..algebra import Cannot, leaf, power, num as number
from ..ir import N, resolve, walk
from ..masks import num
from .c34 import bind, Form, term, pv, pvterm

ORDER = ('grid_lat', 'grid_long', 'grid_dates', 'grid_z_value', 'lat', 'long', 'date', 'z_value', 'latitude_large', 'latitude_small',
         'longitude_large', 'longitude_small', 'phi_large', 'phi_small', 'age_large', 'age_small', 'map_pv_use', 'max_casts')
GRID = ORDER[:4]
R1, R2, R3, R4, R5 = ('returned numbers are positions inside the ellipse', 'positions count in the full list of casts',
                      'subsets do not overlap', 'subsets together make up the maximum', 'rankings judge the casts they rank')
LOC = 'pyowc/core/finders.py find_besthist'

class Key:
    """Factors compared by meaning: nodes by identity, lengths by formula."""

    @staticmethod
    def same(a, b):
        if a[0] != b[0]:
            return False
        if a[0] == 'range':
            return seqs.poly_eq(a[1], b[1]) and (a[2] is b[2] or seqs.poly_eq(a[2], b[2]))
        if a[0] == 'rest':
            return set(a[1]) == set(b[1])
        return a[1:] == b[1:]


def strip(a, b):
    a, b = list(a), list(b)
    while a and b and Key.same(a[0], b[0]):
        a.pop(0), b.pop(0)
    return a, b


def alternatives(n):
    """(conditions, value) pairs of the result."""
    n = seqs.flat(n)
    if n.op == 'phi':
        g = resolve(n.args[0])
        return [([(g, True)] + c, v) for c, v in alternatives(n.args[1])] + [([(g, False)] + c, v) for c, v in alternatives(n.args[2])]
    return [([], n)]


def pieces(n):
    n = seqs.flat(n)
    if n.op == 'call' and n.args[0] in ('numpy.concatenate', 'numpy.hstack', 'numpy.r_', 'numpy.append'):
        a = seqs.pos_args(n)
        if len(a) == 1 and resolve(a[0]).op in ('tuple', 'list'):
            a = resolve(a[0]).args
        return [p for x in a for p in pieces(x)]
    if n.op == '+' and all(resolve(x).op in ('list', 'comp', 'tuple') for x in n.args):
        return [p for x in n.args for p in pieces(x)]
    if n.op == 'concatlist':
        return [p for x in n.args for p in pieces(x)]
    return [n]


def outer_condition(g, pol, size):
    """True: many casts; False: few; None: something else."""
    g = resolve(g)
    while g.op == 'not':
        g, pol = resolve(g.args[0]), not pol
    if g.op in ('<', '<='):
        a, b = map(resolve, g.args)
        if is_max(a) and is_size(b, size):
            return ('many', g.op) if pol else ('few', g.op)
        if is_size(a, size) and is_max(b):
            return ('few', g.op) if pol else ('many', g.op)
        who = {x.args[0] for x in walk(g) if x.op == 'param'}
        if 'max_casts' in who:
            return ('other', str(g)[:120])
    return None


def is_max(n):
    return n.op == 'param' and n.args[0] == 'max_casts'


def is_size(n, S):
    return n.op in ('dim', 'size', 'len') and S.where_of(n.args[0])


class Ctx:
    def __init__(self):
        self.S = seqs.Seqs()
        self.ell = None

    def where_of(self, n):
        try:
            f = self.S.factors(n)
        except Cannot:
            return False
        return len(f) == 1 and f[0][0] == 'where' and (self.ell is None or f[0] == self.ell)


def operands(c, rule, inst, ctx, key, want):
    """Every per-cast operand of the formula must be the attribute of the casts the result speaks about."""
    out = []
    seqs.leaves(key, out, set())
    got = set()
    for x in out:
        try:
            f = ctx.S.factors(x)
        except Cannot as e:
            c.und(rule, f"{inst}: operand", str(e), LOC)
            continue
        if f[0][0] != 'arr':
            who = {y.args[0] for y in walk(x) if y.op == 'param'}
            if who & set(GRID):
                c.und(rule, f"{inst}: operand", 'not understood: ' + str(x)[:150], LOC)
            continue
        if f[0][1] not in GRID:
            continue
        got.add(f[0][1])
        g = f[1:]
        if any(y[0] == 'leaf' for y in g):
            c.und(rule, f"{inst}: {f[0][1]}", seqs.show(f), LOC)
            continue
        a, b = strip(g, want)
        c.that(not a and not b, rule, f"{inst}: {f[0][1]}", 'is ' + (seqs.show(f)) + ('' if not a and not b else '; the ranking is of ' + seqs.show(want)), LOC)
    return got


def draw(ctx, n, ell):
    """(lowest, highest as (n multiples, constant), unique) of random positions; None if not understood."""
    unique = False
    n = seqs.flat(n)
    while n.op == 'call' and n.args[0] in seqs.ORDER:
        unique = unique or n.args[0] not in ('numpy.sort', 'sorted', 'builtins.sorted')
        n = seqs.flat(n.args[1])
    r = bounds(ctx, n)
    if n.op == 'getitem' and resolve(n.args[1]).op == 'slice':
        b = seqs.flat(n.args[0])
        r = bounds(ctx, b) if r is None else r
        unique = unique or distinct(b)
    unique = unique or distinct(n)
    return r, unique


def distinct(n):
    return n.op == 'call' and (n.args[0] == 'numpy.random.permutation' or n.args[0] == 'numpy.random.choice' and
                               'replace' in seqs.kws(n) and resolve(seqs.kws(n)['replace']).op == 'const' and not resolve(seqs.kws(n)['replace']).args[0])


def bounds(ctx, n):
    """(lo, hi, open): lo <= x <= n*hi[0]+hi[1] (or < when open); integers after rounding."""
    n = resolve(n)
    f = seqs.flat(n)
    if f is not n:
        return trunc(bounds(ctx, f)) if changes(n) else bounds(ctx, f)
    if n.op == 'const' and isinstance(num(n), (int, float)):
        return (num(n), (0, num(n)), False)
    if is_size(n, ctx):
        return (0, (1, 0), False)
    if n.op == 'call':
        name, a = n.args[0], seqs.pos_args(n)
        if name in ('numpy.random.rand', 'numpy.random.random', 'numpy.random.random_sample', 'numpy.random.uniform') and name != 'numpy.random.uniform':
            return (0, (0, 1), True)
        if name == 'numpy.random.randint' and len(a) >= 2 and num(a[0]) is not None and not isinstance(a[1], str):
            if is_size(resolve(a[1]), ctx):
                return (num(a[0]), (1, -1), False)
            s = bounds(ctx, a[1])
            return None if s is None or s[2] else (num(a[0]), (s[1][0], s[1][1] - 1), False)
        if name in ('numpy.random.permutation', 'numpy.random.choice') and a:
            return (0, (1, -1), False) if is_size(resolve(a[0]), ctx) else None
        if name in ('numpy.floor', 'math.floor', 'numpy.trunc'):
            return trunc(bounds(ctx, a[0]))
        if name == 'numpy.ceil':
            b = bounds(ctx, a[0])
            return None if b is None else (b[0], b[1], False)
        if name in ('numpy.round', 'numpy.around', 'numpy.rint'):
            b = bounds(ctx, a[0])
            if b is None or not isinstance(b[0], (int, float)):
                return None
            import math
            lo = math.floor(b[0] + 0.5) if b[0] != int(b[0]) else b[0]
            k = b[1][1]
            return (lo, (b[1][0], math.ceil(k - 0.5) if k != int(k) else k), False)
        if name in ('numpy.maximum', 'numpy.fmax') and len(a) == 2:
            for x, y in (a, a[::-1]):
                b = bounds(ctx, x)
                if num(y) is not None and b is not None:
                    return (max(b[0], num(y)), b[1], b[2])
        if name == 'numpy.clip' and len(a) == 3:
            b = bounds(ctx, a[0])
            h = bounds(ctx, a[2])
            if b is not None and num(a[1]) is not None and h is not None:
                return (max(b[0], num(a[1])), min(b[1], h[1]), False if h[1] < b[1] else b[2])
        if name == 'numpy.abs':
            b = bounds(ctx, a[0])
            return None if b is None else (0, b[1], b[2])
        if name == 'numpy.where' and len(a) == 3:
            b = bounds(ctx, a[2])
            return fixed(ctx, b, a[0], a[2], num(a[1]))
        return None
    if n.op == '+' or n.op == '-':
        a, b = bounds(ctx, n.args[0]), num(n.args[1])
        if a is None or b is None:
            a, b = (bounds(ctx, n.args[1]), num(n.args[0])) if n.op == '+' else (None, None)
        if a is None or b is None:
            return None
        b = b if n.op == '+' else -b
        return (a[0] + b, (a[1][0], a[1][1] + b), a[2])
    if n.op == '*':
        for x, y in (n.args, n.args[::-1]):
            a = bounds(ctx, x)
            if a is None or a[0] != 0 or a[1][0] != 0:
                continue
            if is_size(resolve(y), ctx):
                return (0, (a[1][1], 0), a[2])
            s = bounds(ctx, y)
            if s is not None and s[1][0] == 1:
                return (0, (a[1][1], a[1][1] * s[1][1]), a[2])
        return None
    if n.op == 'store':
        return fixed(ctx, bounds(ctx, n.args[0]), n.args[1], n.args[0], num(n.args[2]))
    return None


def fixed(ctx, b, cond, base, v):
    """Values caught by the condition replaced by v."""
    if b is None or v is None:
        return b
    from ..masks import mask_of
    cond = resolve(cond)
    m = resolve(mask_of(cond) or cond)
    base = seqs.flat(base)
    if m.op in ('==', '<', '<='):
        x, y = map(seqs.flat, m.args)
        if m.op == '==':
            k = num(x) if y is base else num(y) if x is base else None
            if k is not None and k == b[0] and k < 0 <= v:
                return (k + 1, b[1], b[2])
        elif x is base and num(y) is not None and v >= num(y):
            return (num(y) if m.op == '<' else num(y) + 1, b[1], b[2])
    return b


def changes(n):
    return n.op == 'int' or n.op == 'call' and n.args[0] in ('int', 'builtins.int', 'numpy.astype', 'numpy.int64')


def trunc(b):
    if b is None or not isinstance(b[0], (int, float)):
        return None
    import math
    lo = math.floor(b[0]) if b[0] >= 0 else math.ceil(b[0])
    if not b[2]:
        return (lo, b[1], False)
    k = b[1][1]
    return (lo, (b[1][0], k - 1 if k == int(k) else math.floor(k)), False)


def rule_selection(c):
    it = bind('pyowc.core.finders:find_besthist', ORDER)
    if it is None:
        return c.und(R1, 'find_besthist', 'not found')
    c.covered(it)
    ctx = Ctx()
    alts = alternatives(it.ret_node)
    # the ellipse: positions where a test on the full list holds
    heads = {}
    for g, v in alts:
        for p in pieces(v):
            try:
                f = ctx.S.factors(p)
            except Cannot as e:
                c.und(R1, 'result', str(e), LOC)
                continue
            heads.setdefault(f[0], []).append(f)
    wheres = [h for h in heads if h[0] == 'where']
    good = []
    for w in wheres:
        who = {y.args[0] for y in walk(w[1]) if y.op == 'param'}
        if {'grid_lat', 'grid_long'} <= who:
            good.append(w)
    if len(good) != 1:
        return c.und(R1, 'ellipse', f"{len(good)} selections by the ellipse found in the result")
    ctx.ell = good[0]
    got = operands(c, R2, 'ellipse', ctx, ctx.ell[1], [])
    c.that({'grid_lat', 'grid_long'} <= got or None, R2, 'ellipse: positions of the casts', str(sorted(got)), LOC)

    threshold(c, ctx.ell[1])
    many = []
    for g, v in alts:
        conds = [outer_condition(x, p, ctx) for x, p in g]
        kind = {x[0] for x in conds if x}
        parts = pieces(v)
        label = 'few' if len(parts) == 1 and ctx.S.factors(parts[0]) == (ctx.ell,) else 'subset'
        if label == 'few':
            if 'other' in kind:
                c.bad(R4, 'all casts inside are returned', f"under {[x[1] for x in conds if x and x[0] == 'other']}, not exactly when they do not exceed the maximum", LOC)
            else:
                c.that(True if 'few' in kind else False if 'many' in kind or not g else None, R4, 'all casts inside are returned only when they do not exceed the maximum',
                       str([x[1] for x in conds if x]), LOC)
        else:
            many.append((g, conds, parts))
            c.that(True if 'many' in kind else False if 'few' in kind else None, R4, 'a subset is returned only when the maximum is exceeded',
                   str([str(x[0])[:80] for x in g]), LOC)
    for _g, _conds, parts in many:
        subset(c, ctx, parts)
    if not many:
        c.und(R3, 'subsets', 'no selection of a subset found')


REDUCED = ('nanmedian', 'median', 'nanmean', 'mean', 'nanpercentile', 'percentile', 'quantile', 'nanquantile', 'nanmax', 'nanmin', 'amax', 'amin',
           'max', 'min', 'std', 'nanstd')


def threshold(c, m):
    L = leaf
    m = resolve(m)
    base0 = term(L('grid_long'), L('long'), L('longitude_large').scale(3)) + term(L('grid_lat'), L('lat'), L('latitude_large').scale(3))
    if m.op != '<' or num(m.args[1]) is None:
        moving = m.op == '<' and any(x.op == 'call' and str(x.args[0]).rsplit('.', 1)[-1] in REDUCED for x in walk(m.args[1]))
        return c.that(False if m.op in ('<=', 'not') or moving else None, R1, 'test of the ellipse', 'not a strict upper limit: ' + str(m)[:120], LOC)
    k = num(m.args[1])
    for use in (0, 1):
        f = Form({'map_pv_use': use}, elements=True)
        base = base0
        if use:
            base = base + pvterm(pv(L('grid_lat'), L('grid_z_value')), pv(L('lat'), L('z_value')), L('phi_large'))
        try:
            got = power(f(m.args[0]) * power(number(k), -1), 2)
            c.that(got.same(base) or got.same(power(base, 2)), R1, f"test of the ellipse, map_pv_use={use}", repr(got)[:300], LOC)
        except Cannot as e:
            c.und(R1, f"test of the ellipse, map_pv_use={use}", str(e), LOC)


def subset(c, ctx, parts):
    fs = []
    for k, p in enumerate(parts):
        f = ctx.S.factors(p)
        known = all(x[0] != 'leaf' for x in f[:-1])
        c.that(True if f[0] == ctx.ell else None if f[0][0] == 'leaf' else False, R1, f"part {k + 1}", seqs.show(f), LOC)
        fs.append(f)
        if not known:
            c.und(R3, f"part {k + 1}", seqs.show(f), LOC)
    draws = {}
    for k, f in enumerate(fs):
        if f[-1][0] == 'leaf':
            n = f[-1][1]
            b, uniq = draw(ctx, n, ctx.ell)
            draws[k] = seqs.members(n)
            if b is None or not isinstance(b[0], (int, float)):
                c.und(R1, f"part {k + 1}: random positions in range", str(n)[:200], LOC)
            else:
                inside = b[0] >= 0 and (b[1] < (1, -1) or b[1] == (1, -1) and not b[2] or b[1] == (1, 0) and b[2] or b[1] <= (1, -1))
                c.that(inside, R1, f"part {k + 1}: random positions in range", f"from {b[0]} to {b[1][0]}*number inside {b[1][1]:+g}{' (excluded)' if b[2] else ''}", LOC)
            c.that(uniq or (None if b is None else False), R3, f"part {k + 1}: drawn at most once each", '', LOC)
    for i in range(len(fs)):
        for j in range(i):
            disjoint(c, fs[j], fs[i], f"part {j + 1} and part {i + 1}")
    sizes(c, ctx, parts, fs, draws)
    # rankings
    for k, f in enumerate(fs):
        for pos, x in enumerate(f):
            if x[0] == 'perm' and pos and pos == max(i for i, y in enumerate(f) if y[0] == 'perm'):
                got = operands(c, R5, f"part {k + 1}", ctx, x[1], list(f[:pos]))
                c.that({'grid_lat', 'grid_long', 'grid_dates'} <= got or None, R5, f"part {k + 1}: operands", str(sorted(got)), LOC)
                c.that(x[2] > 0, R5, f"part {k + 1}: smallest distance first", '', LOC)
                nxt = f[pos + 1:]
                c.that(True if len(nxt) == 1 and nxt[0][0] == 'range' and num(nxt[0][1]) == 0 else
                       False if nxt and nxt[0][0] == 'range' else None, R5, f"part {k + 1}: the best are taken", seqs.show(f), LOC)


def disjoint(c, a, b, inst):
    x, y = strip(a, b)
    detail = seqs.show(a) + ' | ' + seqs.show(b)
    if not x or not y:
        return c.bad(R3, inst, 'one contains the other: ' + detail, LOC)
    p, q = x[0], y[0]
    for p, q in ((p, q), (q, p)):
        if q[0] == 'rest':
            if p[0] == 'leaf' and len(x) == len(y[:1]) or p[0] == 'leaf':
                out = set(q[1])
                if seqs.members(p[1]) in out:
                    return c.ok(R3, inst, detail, LOC)
                if any(seqs.members(s) is seqs.members(p[1]) for s in out):
                    return c.ok(R3, inst, detail, LOC)
                return c.that(None if any(s.op not in ('call', 'store', 'getitem', 'comp') for s in out) else False, R3, inst,
                              'the numbers left out are not those of the other part: ' + detail, LOC)
    p, q = x[0], y[0]
    if p[0] == q[0] == 'range':
        for r, s in ((p, q), (q, p)):
            if seqs.poly_eq(r[2], s[1]):
                return c.ok(R3, inst, detail, LOC)
            try:
                d = (seqs.poly(s[1]) - seqs.poly(r[2])).const()
            except Cannot:
                d = None
            if d is not None and d >= 0:
                return c.ok(R3, inst, detail, LOC)
        w = overlap(p, q)
        return c.that(False if w else None, R3, inst, f"overlapping stretches of one list{' (' + w + ')' if w else ''}: " + detail, LOC)
    if 'perm' in (p[0], q[0]) and {p[0], q[0]} <= {'perm', 'leaf', 'range'}:
        return c.bad(R3, inst, 'nothing keeps them apart: ' + detail, LOC)
    if 'rest' in (p[0], q[0]) and {p[0], q[0]} <= {'perm', 'range', 'rest'} and p[0] != q[0]:
        return c.bad(R3, inst, 'nothing keeps them apart: ' + detail, LOC)
    return c.und(R3, inst, detail, LOC)


def witnesses(polys):
    """Consistent lengths: m casts wanted, r of at most ceil(m/3) random ones different, e inside."""
    ids = {a[1] for p in polys for m in p.t for a, _e in m if a[0] == 'leaf' and a[1][0] == 'size'}
    for m in (9, 250):
        for r in (m // 3 - 1, -(-m // 3)):
            for e in (m + 1, 4 * m):
                yield m, r, e, ids


def overlap(p, q):
    """An assignment of lengths at which two stretches of one list share a place."""
    try:
        pol = [seqs.poly(x) for x in (p[1], p[2], q[1], q[2])]
    except Cannot:
        return None
    drawn = {k for x in (p, q) for y in (x[1], x[2]) for z in walk(resolve(y)) if z.op in ('dim', 'size', 'len') and
             any(v.op == 'call' and v.args[0].startswith('numpy.random') for v in walk(z)) and small(z) for k in [('size', seqs.sized(z.args[0]).id)]}
    for m, r, e, ids in witnesses(pol):
        env = {('param', 'max_casts'): m}
        env.update({i: r if i in drawn else e - r for i in ids})
        v = [seqs.value(x, env) for x in pol]
        if None in v:
            return None
        if max(v[0], v[2]) < min(v[1], v[3]):
            return f"maximum {m}, {r} different random casts, {e} inside"
    return None


def small(z):
    """The length of the random draw itself, not of what remains."""
    n = seqs.members(seqs.sized(z.args[0]))
    return n.op == 'store' or n.op == 'call' and n.args[0] != 'numpy.argsort' 


def sizes(c, ctx, parts, fs, draws):
    """Lengths of the parts add up to the maximum."""
    total = None
    from ..algebra import leaf
    for k, (p, f) in enumerate(zip(parts, fs)):
        last = f[-1]
        if last[0] == 'range':
            try:
                n = seqs.poly(last[2]) - seqs.poly(last[1])
            except Cannot as e:
                return c.und(R4, 'number of casts', str(e), LOC)
        elif last[0] == 'leaf':
            n = leaf(('size', seqs.sized(last[1]).id))
        else:
            return c.und(R4, 'number of casts', 'length of ' + seqs.show(f), LOC)
        total = n if total is None else total + n
    want = leaf(('param', 'max_casts'))
    if total.same(want):
        return c.ok(R4, 'number of casts', 'the parts have max_casts members', LOC)
    d = total - want
    bad = None
    dr = {('size', seqs.sized(f[-1][1]).id) for f in fs if f[-1][0] == 'leaf'}
    for m, r, e, ids in witnesses([total]):
        if ids <= dr:
            v = seqs.value(total, dict({i: r for i in ids}, **{}) | {('param', 'max_casts'): m})
            if v is not None and v != m:
                bad = f"{v:g} casts for a maximum of {m} with {r} different random ones"
    if bad:
        return c.bad(R4, 'number of casts', bad, LOC)
    c.that(False if d.const() is not None else None, R4, 'number of casts', f"the parts have {total!r} members instead of the maximum", LOC)


def main():
    c = Check('C14', 'selected casts lie inside the ellipse and are chosen without overlap',
              'The result of find_besthist is read as compositions of selections (positions satisfying a test, remaining numbers, orders, '
              'stretches). Each part must start from the positions inside the ellipse in the numbering of the input, parts must differ in a '
              'factor that excludes the other, their lengths must add up to the maximum, and each ranking must be computed from the '
              'attributes of exactly the casts it ranks.',
              'Symbolic in casts, positions, scales and maximum.')
    c.rule(rule_selection)
    c.assume('the configured maximum is at least 3 and leaves room for each of the three subsets (smaller maxima raise an error, see DESIGN.md)')
    return c.finish()

"""C44: a mapped salinity is the large-scale estimate plus the small-scale estimate of its residuals."""
from fractions import Fraction

from .. import analyses as A
from ..algebra import Alg, Cannot, Poly, fn, leaf, power
from ..ir import N, resolve, walk
from ..masks import num
from ..report import Check
from ..roles import short, columns
from ..stages import chain, near
from .c31 import Level, hist, level_index, stores

R1, R2, R3 = 'first estimate', 'estimate of the residuals', 'what is stored'


class Terms:
    """Formulas over the selected reference values and the results of the two estimates."""

    def __init__(self, calls, level=None):
        self.calls, self.places = calls, []
        self.level = Level(level) if level is not None else None
        self.alg = Alg(self.leaf_of, extra='scalar-dot')

    def leaf_of(self, n):
        f = short(n)
        if n.op == 'getitem' and short(resolve(n.args[0])) == 'map_data_grid':
            b, k = resolve(n.args[0]), resolve(n.args[1])
            if b in self.calls and k.op == 'const':
                return ('map', self.calls.index(b), k.args[0])
        if n.op in ('size', 'dim'):
            b = resolve(n.args[0])
            if b.op == 'getitem' and resolve(b.args[0]) in self.calls:
                return ('map', self.calls.index(resolve(b.args[0])), 'number of ' + str(num(b.args[1])))
        if n.op == 'call' and f in ('signal_variance', 'noise_variance'):
            return fn(f, *[self.alg.poly(a) for a in n.args[1:] if isinstance(a, N) and a.op != 'kw'])
        if n.op in ('getitem', 'phi') or n.op == 'call' and str(n.args[0]).startswith('numpy.'):
            steps, base = chain(n)
            if steps and base is not n:
                return ('ref', hist(base) or base, steps)
        if self.level is not None:
            k = self.level.leaf_of(n)
            if k and k[0] in ('float', 'another level of float'):
                return k
            i = resolve(n.args[1]) if n.op == 'getitem' else n
            if i.op in ('+', '-') and any(resolve(x) is self.level.level for x in i.args) and any(num(x) for x in i.args):
                return ('another level of float', n)
        return None

    def of(self, n):
        return self.alg.poly(n)


def atoms(p):
    """All leaves of a formula, arguments of functions included."""
    out = []

    def look(a):
        if a[0] == 'leaf':
            out.append(a[1])
        else:
            for q in a[1:]:
                if isinstance(q, Poly):
                    out.extend(atoms(q))
                elif isinstance(q, tuple):
                    deep(q)

    def deep(q):
        if q[:1] in (('leaf',), ('fn',), ('pow',)):
            return look(q)
        for x in q:
            if isinstance(x, tuple):
                deep(x)
    for m in p.t:
        for a, _e in m:
            look(a)
    return out


def judge(c, rule, inst, terms, n, want, loc, other=None):
    try:
        got = terms.of(n)
    except Cannot as e:
        return c.und(rule, inst, str(e)[:300], loc)
    if got.same(want):
        return c.ok(rule, inst, short_poly(got)[:300], loc)
    if other is not None and got.same(other):
        return c.ok(rule, inst, short_poly(got)[:300], loc)
    known = {}
    for a in atoms(want) + terms.places:
        if isinstance(a, tuple) and a[0] == 'ref':
            known.setdefault(a[1], []).append(a[2])
    for a in atoms(got):
        if not isinstance(a, tuple) or a[0] not in ('map', 'ref', 'float', 'another level of float'):
            return c.und(rule, inst, 'contains ' + str(a)[:200], loc)
        if a[0] == 'ref':
            ks = known.get(a[1])
            if ks is None or not any(nested(a[2], k) for k in ks):
                return c.und(rule, inst, 'another selection of ' + str(a[1])[:120], loc)
    c.bad(rule, inst, f"is {short_poly(got)}, should be {short_poly(want)}", loc)


def nested(a, b):
    """The one selection is the other or an earlier stage of it."""
    k = min(len(a), len(b))
    return a[:k] == b[:k]


def short_poly(p):
    out = []
    for m, k in p.t.items():
        out.append(('' if k == 1 else f"{k:g}*") + '*'.join(nice(a) + ('' if e == 1 else f"^{e}") for a, e in m))
    return ' + '.join(out) or '0'


def nice(a):
    if a[0] == 'leaf' and isinstance(a[1], tuple):
        x = a[1]
        if x[0] == 'map':
            return f"{('first', 'second')[x[1]]} estimate[{x[2]}]"
        if x[0] == 'ref':
            return f"reference {x[1] if isinstance(x[1], str) else 'position'} after {len(x[2])} selections"
        return '_'.join(str(y) for y in x[:2])
    return str(a[1]) + '(...)' if a[0] == 'fn' else str(a[0])


def rules(c, it):
    level, _p = level_index(it)
    if level is None:
        return c.und(R3, 'store of the mapped salinity', 'not found')
    found = stores(it)
    calls = []
    for k, idx, val, _es in found:
        if k == 'la_mapped_sal':
            for x in walk(val):
                if short(x) == 'map_data_grid' and x.op == 'call' and x not in calls:
                    calls.append(x)
    calls = [resolve(x) for x in calls]
    if len(calls) == 1:
        t = Terms(calls, level)
        vals = [val for k, _i, val, _e in found if k == 'la_mapped_sal' and calls[0] in list(near(val))]
        try:
            if all(t.of(x).same(leaf(('map', 0, 0))) for x in vals):
                return c.bad(R3, 'la_mapped_sal', 'is the first estimate alone, the residuals are not mapped')
        except Cannot:
            pass
    if len(calls) != 2:
        return c.und(R1, 'estimates', f"{len(calls)} estimates make up the mapped salinity") if calls else c.bad(R3, 'la_mapped_sal', 'is not an estimate')
    if any(x is calls[0] for x in walk(calls[1]) if x is not calls[1]):
        pass
    elif any(x is calls[1] for x in walk(calls[0]) if x is not calls[0]):
        calls.reverse()
    else:
        return c.bad(R2, 'values mapped', 'neither estimate is made from the residuals of the other')
    ev = A.axioms(it, 'map_data_grid')
    args = []
    for call in calls:
        own = [a for a in call.args[1:] if isinstance(a, N)]
        es = [e for e in ev if [resolve(v) for v in e.extra.values()] == [resolve(a) for a in own[:len(e.extra)]]]
        if not es:
            return c.und(R1, 'estimates', 'call not found')
        args.append((es[0].extra, A.where(es[0])))
    t = Terms(calls, level)
    (first, l1), (second, l2) = args
    try:
        v = t.of(first['sal'])
    except Cannot as e:
        return c.und(R1, 'values mapped', str(e)[:200], l1)
    ls = atoms(v)
    plain = len(ls) == 1 and isinstance(ls[0], tuple) and ls[0][0] == 'ref' and ls[0][1] == 'sal' and v.same(leaf(ls[0]))
    if not plain:
        return c.und(R1, 'values mapped', str(first['sal'])[:200], l1)
    c.ok(R1, 'values mapped', f"interpolated reference salinities after {len(ls[0][2])} selections", l1)
    # places of the noise estimate are those of the casts mapped
    cols = columns(first['data_pos'])
    noise = swapped = None
    if cols is None or len(cols) < 2:
        c.und(R1, 'noise variance', 'positions of the casts', l1)
    else:
        try:
            places = [t.of(cols[0]), t.of(cols[1])]
            t.places = [a for x in cols for a in atoms(t.of(x))]
            noise = fn('noise_variance', v, *places)
            swapped = fn('noise_variance', v, *places[::-1])         # a distance: either order
            judge(c, R1, 'noise variance', t, first['noise_variance'], noise, l1, swapped)
        except Cannot as e:
            c.und(R1, 'noise variance', str(e)[:200], l1)
    judge(c, R1, 'signal variance', t, first['signal_variance'], fn('signal_variance', v), l1)
    res = v - leaf(('map', 0, 2))
    judge(c, R2, 'values mapped', t, second['sal'], res, l2)
    judge(c, R2, 'signal variance', t, second['signal_variance'], fn('signal_variance', res), l2)
    if noise is not None:
        judge(c, R2, 'noise variance', t, second['noise_variance'], noise, l2, swapped)
    for k in ('grid_pos', 'data_pos', 'map_pv_use'):
        a, b = resolve(first[k]), resolve(second[k])
        if a is b or chain(a) == chain(b) and chain(a)[0]:
            c.ok(R2, k, 'as for the first estimate', l2)
        elif k != 'map_pv_use' and derived(b, a) or k == 'map_pv_use' and b.op == 'const':
            c.bad(R2, k, f"not those of the first estimate: {str(b)[:160]}", l2)
        else:
            c.und(R2, k, f"{str(b)[:160]} instead of {str(a)[:160]}", l2)
    large, small = leaf(('map', 0, 1)), leaf(('map', 1, 1))
    want = {'la_mapped_sal': leaf(('map', 0, 0)) + leaf(('map', 1, 0)),
            'la_mapsalerrors': power(large * large + small * small, Fraction(1, 2)),
            'la_signal_sal': fn('signal_variance', v), 'la_ptmp': leaf(('float', 'ptmp'))}
    if noise is not None:
        want['la_noise_sal'] = noise
    names = {'la_map_sal_errors': 'la_mapsalerrors'}
    seen = set()
    for k, idx, val, es in found:
        k = names.get(k, k)
        if k not in want or idx.op != 'tuple' or len(idx.args) != 2 or resolve(idx.args[0]) is not level:
            continue
        seen.add(k)
        judge(c, R3, k, t, val, want[k], A.where(es[0]) if es else l1, swapped if k == 'la_noise_sal' else None)
    for k in want:
        if k not in seen:
            c.und(R3, k, 'no store at the level found')


def derived(b, a):
    """b is a rearrangement or arithmetic variation of a."""
    n = b
    while n.op in ('getitem', 'T', '+', '-', '*', '/', 'store') or n.op == 'call' and n.args[0] in ('numpy.flip', 'numpy.roll', 'numpy.sort'):
        n = resolve(n.args[1] if n.op == 'call' else n.args[0])
        if n is a:
            return True
    return False


def main():
    c = Check('C44', 'a mapped salinity is the large-scale estimate plus the small-scale estimate of its residuals',
              'The arguments of both calls of the objective mapping and every store into the level records are written as formulas over the '
              'selected reference values and the results of the calls, and compared with the stated relations in normal form.',
              'Symbolic in level, profile, reference values and positions; selections are compared as sequences of masks.')
    it = A.core()
    c.covered(it)
    c.rule(rules, it)
    return c.finish()

"""C34: covariance and ranking distance depend on scaled differences only."""
import math
from fractions import Fraction

from ..report import Check
from .. import analyses as A
from ..algebra import Alg, Cannot, Poly, power, num as number, fn, leaf, show, LAYOUT
from ..ir import N, resolve, walk
from ..masks import num

EARTH = 2 * 7.292 * 10 ** -5
HALF = Fraction(1, 2)


def column(n):
    """(parameter, column) a node is the elements of."""
    n = resolve(n)
    cols = []
    for _ in range(20):
        if n.op == 'param':
            return (n.args[0], cols[0]) if len(cols) == 1 else (n.args[0],) if not cols else None
        if n.op == 'call' and n.args[0] in LAYOUT and len(n.args) > 1:
            n = resolve(n.args[1])
        elif n.op == 'T':
            n = resolve(n.args[0])
        elif n.op == 'getitem':
            i = resolve(n.args[1])
            items = [resolve(x) for x in (i.args if i.op == 'tuple' else (i,))]
            for x in items:
                if num(x) is not None:
                    cols.append(num(x))
                elif not (x.op == 'slice' and all(resolve(y).op == 'const' and resolve(y).args[0] is None for y in x.args)
                          or x.op == 'const' and x.args[0] is None or x.op == 'ellipsis'):
                    return None
            n = resolve(n.args[0])
        else:
            return None
    return None


def roots(n, seen=None):
    """Parameters whose elements a selection or collection consists of."""
    seen = set() if seen is None else seen
    n = resolve(n)
    if n in seen:
        return set()
    seen.add(n)
    if n.op == 'param':
        return {n.args[0]}
    if n.op == 'comp':
        return roots(n.args[2], seen)
    if n.op in ('getitem', 'T'):
        return roots(n.args[0], seen)
    if n.op == 'append':
        return roots(n.args[0], seen) | roots(n.args[1], seen)
    if n.op in ('list', 'tuple') and not n.args:
        return set()
    if n.op == 'mu':
        return set().union(*(roots(x, seen) for x in (n.init, n.next) if x is not None))
    if n.op == 'call' and n.args[0] in ('numpy.append', 'numpy.concatenate'):
        out = set()
        for x in n.args[1:]:
            if isinstance(x, N) and x.op != 'kw':
                x = resolve(x)
                for y in (x.args if x.op in ('list', 'tuple') else (x,)):
                    out |= roots(y, seen)
        return out
    if n.op == 'call' and n.args[0] in LAYOUT | {'numpy.delete', 'numpy.take'} and len(n.args) > 1:
        return roots(n.args[1], seen)
    return {None}


class Split(Cannot):
    """A condition that holds for some inputs and fails for others."""


POSITIVE = {'slon', 'slat', 'sage', 'phi', 'long', 'lat', 'age', ('points1', 3), ('points2', 3), ('a', 2), ('b', 2), 'grid_z_value', 'z_value'} | {
    f"{a}_{b}" for a in ('longitude', 'latitude', 'phi', 'age') for b in ('large', 'small')}
CASES = None        # outcome of such conditions, while cases are distinguished


def free(d, positive):
    """Identity of a condition d < 0 that both kinds of inputs reach, True/False when decided, None otherwise."""
    if d.single():
        (m, k), = d.t.items()
        loose = [a for a, x in m if x.denominator == 1 and x % 2 and not (a[0] == 'fn' and a[1] in ('abs', 'exp', 'sqrt')) and a[0] != 'sum' and not (a[0] == 'leaf' and a[1] in positive)]
        if any(a[0] == 'sum' and x.denominator == 1 and x % 2 for a, x in m):
            return None
        if not loose:
            return k < 0
        return ('sign', tuple(m)), k < 0
    if len(d.t) == 2 and () in d.t:
        (m, k), = [(m, k) for m, k in d.t.items() if m]
        if len(m) == 1 and m[0][1] == 1 and m[0][0][:2] == ('fn', 'exp') and 0 < -d.t[()] / k < 1:
            return ('size', tuple(m), d.t[()] / k), k < 0
    return None


class Form:
    """Formula of a function under concrete switches."""

    def __init__(self, env, names=None, elements=False):
        self.env, self.names, self.elements = env, names or {}, elements
        self.unsigned = {'lat', 'long'} if elements else set()      # there they are positions
        self.alg = Alg(self.leaf_of, self.choose)
        self.alg.extra = self.written

    def leaf_of(self, n):
        if n.op == 'param':
            if n.args[0] in self.env:
                return number(self.env[n.args[0]])
            return self.names.get(n.args[0], n.args[0])
        if self.elements and n.op in ('comp', 'getitem', 'mu', 'append', 'call', 'T'):
            r = roots(n)
            if len(r) == 1 and None not in r:
                return r.pop()
            return None
        if n.op in ('getitem', 'T', 'call'):
            c = column(n)
            if c is not None:
                return self.names.get(c, c) if len(c) == 2 else self.leaf_of(resolve_param(n))
        return None

    def choose(self, c, alg):
        c = resolve(c)
        if c.op == 'not':
            v = self.choose(c.args[0], alg)
            return None if v is None else not v
        if c.op in ('and', 'or'):
            vs = [self.choose(x, alg) for x in c.args]
            if c.op == 'and':
                return False if False in vs else None if None in vs else True
            return True if True in vs else None if None in vs else False
        if c.op in ('==', '<', '<='):
            a, b = c.args
            for x, y in ((a, b), (b, a)):
                x, y = resolve(x), resolve(y)
                if x.op == 'call' and x.args[0].rsplit('.', 1)[-1] in ('any', 'all') and y.op == 'const':
                    v = self.choose(x, alg)
                    return None if v is None or c.op != '==' else v == bool(y.args[0])
            d = alg.poly(a) - alg.poly(b)
            k = d.const()
            if k is not None:
                return {'==': k == 0, '<': k < 0, '<=': k <= 0}[c.op]
            if c.op != '==' and CASES is not None:
                what = free(d, POSITIVE - self.unsigned)
                if isinstance(what, bool):
                    return what
                if what is not None:
                    if what[0] not in CASES:
                        raise Split(what[0])
                    return CASES[what[0]] != what[1]
            return False if c.op == '==' else None
        if c.op == 'call' and c.args[0].rsplit('.', 1)[-1] in ('any', 'all') and len(c.args) > 1:
            x = resolve(c.args[1])
            if x.op in ('==', '<', '<=', 'not', 'and', 'or'):
                return self.choose(x, alg)
            k = alg.poly(x).const()
            return True if k is None else k != 0
        if c.op == 'const':
            return bool(c.args[0])
        if c.op in ('truth', 'bool'):
            return self.choose(c.args[0], alg)
        try:
            k = alg.poly(c).const()
        except Cannot:
            return None
        return True if k is None else k != 0

    def written(self, n):
        """The element of an array after a store under a condition on the same array."""
        if n.op != 'store':
            return None
        i = resolve(n.args[1])
        if i.op not in ('<', '<=', '==', 'not', 'and', 'or', 'isnan'):
            return None
        hit = False if i.op == 'isnan' else self.choose(i, self.alg)
        return None if hit is None else self.alg.poly(n.args[2] if hit else n.args[0])

    def __call__(self, n):
        if CASES is not None:
            self.alg.memo = {}
        return self.alg.poly(n)


def resolve_param(n):
    n = resolve(n)
    while n.op != 'param':
        n = resolve(n.args[1] if n.op == 'call' else n.args[0])
    return n


def term(a, b, scale):
    return power((a - b) * power(scale, -1), 2)


def pv(lat, z):
    return fn('sin', lat.scale(math.pi / 180)).scale(EARTH) * power(z, -1)


def pvterm(p, q, phi):
    return power((p - q) * power(power(p, 2) + power(q, 2), -HALF) * power(phi, -1), 2)


FORMULAS = {}          # what was compared last, for the checks that only look at the scales


def scen(c, rule, name, f, spec, alternatives, loc):
    global CASES
    want, todo, done, got, odd = spec, [{}], 0, None, None
    try:
        while todo:
            CASES = todo.pop()
            try:
                got = f()
            except Split as e:
                todo += [{**CASES, e.args[0]: v} for v in (True, False)]
                if len(todo) > 40:
                    raise Cannot('too many cases') from None
                continue
            done += 1
            if not any(got.same(w) for w in [want] + alternatives):
                odd = odd or (got, CASES)
        if odd and done > 1:
            FORMULAS[name] = (repr(odd[0]), repr(want))
            case = ', '.join(f"{'*'.join(show(a) for a, _x in k[1])} {'below' if v else 'not below'} {0 if k[0] == 'sign' else -k[2]}" for k, v in odd[1].items())[:200]
            c.bad(rule, name, f"in the case {case} formula is {repr(odd[0])[:400]}; expected {repr(want)[:300]}", loc)
            return
    except Cannot as e:
        c.und(rule, name, str(e), loc)
        return
    finally:
        CASES = None
    FORMULAS[name] = (repr(got), repr(want))
    if any(got.same(w) for w in [want] + alternatives):
        c.ok(rule, name, repr(got)[:300], loc)
    else:
        c.bad(rule, name, f"formula is {repr(got)[:500]}; expected {repr(want)[:400]}", loc)


def rule_covar(c):
    it = bind('pyowc.core.stats:covar_xyt_pv', ('points1', 'points2', 'lat', 'long', 'age', 'phi', 'map_pv_use'))
    rule = 'covariance of two positions'
    if it is None:
        return c.und(rule, 'covar_xyt_pv', 'not found')
    c.covered(it)
    ret = it.ret_node
    loc = 'pyowc/core/stats.py covar_xyt_pv'
    P = lambda k: (leaf(('points1', k)), leaf(('points2', k)))
    S = lambda x: leaf(x)
    for age in (0, 0.5, 20.0, 4000.0):
        for use in (0, 1):
            f = Form({'age': age, 'map_pv_use': use})
            def build(s0, s1):
                e = term(*P(0), S(s0)) + term(*P(1), S(s1))
                if age:
                    e = e + term(*P(2), number(age))
                if use:
                    p = [pv(leaf((x, 0)), leaf((x, 3))) for x in ('points1', 'points2')]
                    e = e + pvterm(*p, S('phi'))
                return fn('exp', e.scale(-1))
            scen(c, rule, f"covar_xyt_pv age={age} map_pv_use={use}", lambda: f(ret), build('long', 'lat'), [build('lat', 'long')], loc)
    axes(c, ret, loc)


def axes(c, ret, loc):
    """points1 must vary along the rows and points2 along the columns of the result."""
    rule = 'rows belong to the first positions'
    want = {'points1': 0, 'points2': 1}
    n = 0
    for x in walk(ret):
        if x.op != 'getitem':
            continue
        i = resolve(x.args[1])
        if i.op != 'tuple':
            continue
        items = [resolve(y) for y in i.args]
        none = [k for k, y in enumerate(items) if y.op == 'const' and y.args[0] is None]
        sl = [k for k, y in enumerate(items) if y.op == 'slice']
        if len(none) != 1 or len(sl) != 1:
            continue
        who = {y.args[0] for y in walk(x) if y.op == 'param' and y.args[0] in want}
        if len(who) != 1:
            continue
        axis = 0 if sl[0] < none[0] else 1
        w = who.pop()
        n += 1
        c.that(axis == want[w], rule, f"{w} {num(items[2]) if len(items) > 2 else 'vorticity'}", f"varies along axis {axis}", loc)
    if not n:
        c.und(rule, 'covar_xyt_pv', 'no broadcasting index found', loc)


def bind(qual, order):
    """Analyse with the positional parameters renamed to their documented role."""
    it = A.fn(qual, {i: A.strparam(n) for i, n in enumerate(order)})
    return it


def rule_ranking(c):
    order = ['lon1', 'lon2', 'slon', 'lat1', 'lat2', 'slat', 'day1', 'day2', 'sage', 'phi', 'pv1', 'pv2']
    it = bind('pyowc.utilities:spatial_correlation', order)
    rule = 'ranking distance'
    if it is None:
        return c.und(rule, 'spatial_correlation', 'not found')
    c.covered(it)
    loc = 'pyowc/utilities.py spatial_correlation'
    L = leaf
    base = term(L('lon1'), L('lon2'), L('slon')) + term(L('lat1'), L('lat2'), L('slat')) + term(L('day1'), L('day2'), L('sage'))
    for env, full in (({}, True), ({'pv1': 0, 'pv2': 0}, False), ({'pv1': 0}, None), ({'pv2': 0}, None)):
        f = Form(env)
        if full:
            want = base + pvterm(L('pv1'), L('pv2'), L('phi'))
        else:
            want = base
        scen(c, rule, f"spatial_correlation {env or 'vorticity given'}", lambda: f(it.ret_node), want, [power(want, HALF)], loc)


def rule_ellipse(c):
    order = ['lon', 'lon0', 'slon', 'lat', 'lat0', 'slat', 'phi', 'pv', 'pv0']
    it = bind('pyowc.core.finders:find_ellipse', order)
    rule = 'search ellipse'
    if it is None:
        return c.und(rule, 'find_ellipse', 'not found')
    c.covered(it)
    loc = 'pyowc/core/finders.py find_ellipse'
    L = leaf
    base = term(L('lon'), L('lon0'), L('slon').scale(3)) + term(L('lat'), L('lat0'), L('slat').scale(3))
    for env, full in (({}, True), ({'pv': 0, 'pv0': 0}, False), ({'pv': 0}, False), ({'pv0': 0}, False)):
        f = Form(env)
        want = base + pvterm(L('pv'), L('pv0'), L('phi')) if full else base
        scen(c, rule, f"find_ellipse {env or 'vorticity given'}", lambda: f(it.ret_node), power(want, HALF), [want], loc)


def rule_selection(c):
    it = bind('pyowc.core.finders:find_besthist', (
        'grid_lat', 'grid_long', 'grid_dates', 'grid_z_value', 'lat', 'long', 'date', 'z_value', 'latitude_large', 'latitude_small',
        'longitude_large', 'longitude_small', 'phi_large', 'phi_small', 'age_large', 'age_small', 'map_pv_use', 'max_casts'))
    rule = 'distances used in the selection'
    if it is None:
        return c.und(rule, 'find_besthist', 'not found')
    c.covered(it)
    L = leaf
    keys = [(e.args[0], A.where(e)) for e in it.events if e.kind == 'call' and e.name.rsplit('.', 1)[-1] in ('argsort', 'argpartition') and e.args]
    seen = []
    for k, loc in keys:
        if resolve(k) not in [x for x, _l in seen]:
            seen.append((resolve(k), loc))
    if len(seen) != 2:
        c.und(rule, 'rankings', f"{len(seen)} orderings found")
    for (k, loc), size in zip(seen, ('large', 'small')):
        for use in (0, 1):
            f = Form({'map_pv_use': use}, elements=True)
            base = term(L('grid_long'), L('long'), L('longitude_' + size)) + term(L('grid_lat'), L('lat'), L('latitude_' + size)) + \
                term(L('grid_dates'), L('date'), L('age_' + size))
            if use:
                base = base + pvterm(pv(L('grid_lat'), L('grid_z_value')), pv(L('lat'), L('z_value')), L('phi_' + size))
            scen(c, rule, f"{size}-scale ranking, map_pv_use={use}", lambda: f(k), base, [power(base, HALF)], loc)
    n = 0
    done = set()
    for e in it.events:
        for x in [y for a in e.args if isinstance(a, N) for y in walk(a)]:
            if x.op in ('<', '<=') and x not in done and any('grid_lat' in (r := {z.args[0] for z in walk(y) if z.op == 'param'}) and 'latitude_large' in r
                                                             for y in x.args):
                done.add(x)
                if num(x.args[1]) is None:
                    continue
                n += 1
                for use in (0, 1):
                    f = Form({'map_pv_use': use}, elements=True)
                    base = term(L('grid_long'), L('long'), L('longitude_large').scale(3)) + term(L('grid_lat'), L('lat'), L('latitude_large').scale(3))
                    if use:
                        base = base + pvterm(pv(L('grid_lat'), L('grid_z_value')), pv(L('lat'), L('z_value')), L('phi_large'))
                    k = num(x.args[1])
                    scen(c, rule, f"search ellipse, map_pv_use={use}", lambda: power(f(x.args[0]) * power(number(k), -1), 2), base,
                         [power(base, 2)], A.where(e))
                    c.that(x.op == '<', rule, f"strictly inside, map_pv_use={use}", str(x)[:100], A.where(e))
    if not n:
        c.und(rule, 'search ellipse', 'no test of the ellipse found')


def rule_horizontal(c):
    order = ['a', 'b', 'slon', 'slat', 'phi', 'use']
    it = bind('pyowc.core.stats:covarxy_pv', order)
    rule = 'horizontal covariance'
    if it is None:
        return c.und(rule, 'covarxy_pv', 'not found')
    c.covered(it)
    loc = 'pyowc/core/stats.py covarxy_pv'
    L = leaf
    for use in (0, 1):
        f = Form({'use': use})
        want = term(L(('a', 0)), L(('b', 0)), L('slat')) + term(L(('a', 1)), L(('b', 1)), L('slon'))
        if use:
            want = want + pvterm(pv(L(('a', 0)), L(('a', 2))), pv(L(('b', 0)), L(('b', 2))), L('phi'))
        scen(c, rule, f"covarxy_pv use_pv={use}", lambda: f(it.ret_node), fn('exp', want.scale(-1)), [], loc)


def main():
    c = Check('C34', 'covariance and distances are functions of scaled differences',
              'The value of each function is read as a formula about one pair of positions, brought to a normal form (sums of products '
              'of powers) and compared with the documented formula for every combination of switches (age scale zero or not, vorticity '
              'on or off, vorticity missing on either side).',
              'Symbolic in positions and scales; the zero-vorticity substitute (1e-5) is taken not to apply.')
    for r in (rule_covar, rule_ranking, rule_ellipse, rule_selection, rule_horizontal):
        c.rule(r)
    c.assume('vorticity is not exactly zero (the code substitutes a small value at the equator)')
    return c.finish()

"""C27: frontal separation uses one rule and applies only when enabled and possible."""
import itertools
from .. import analyses as A
from ..algebra import Cannot
from ..ir import N, resolve, walk
from ..masks import is_nan, num
from ..report import Check

R1, R2, R3, R4, R5 = ('the float is classified by the rule', 'every cast is classified by the same rule', 'casts on the float\'s side are kept, in every variable alike',
                      'north of 30 S every cast is kept', 'the reduced set is used only when enabled and large enough')
FN = 'pyowc.data.fetchers:frontal_constraint_saf'
LOC = 'pyowc/data/fetchers.py frontal_constraint_saf'
KEYS = ('grid_sal', 'grid_ptmp', 'grid_pres', 'grid_lat', 'grid_long', 'grid_dates', 'grid_z')
MATRIX = KEYS[:3]
NA = float('nan')
SOUTH, NORTH = 'south', 'north'
SAMEARG = ('numpy.ravel', 'numpy.array', 'numpy.asarray', 'numpy.squeeze', 'numpy.copy', 'numpy.reshape', 'numpy.atleast_1d', 'numpy.transpose', 'numpy.sort')
AXES = ('numpy.argwhere', 'numpy.nonzero', 'numpy.where', 'numpy.flatnonzero')


class Bad(Exception):
    pass


def const(n):
    n = resolve(n)
    return n.args[0] if n.op == 'const' else '?'


def named(n):
    n = resolve(n)
    return n.op == 'const' and isinstance(n.args[0], str)


def keys_of(n):
    """Names of input quantities an expression is made from."""
    out = set()
    for x in walk(n):
        if x.op == 'getitem' and named(x.args[1]) and not const(x.args[1]).startswith('CONFIG'):
            out.add(const(x.args[1]))
    return out


def quantity(n):
    """Input array (or temperature computed from the inputs) a piece of data is taken from, and the places taken."""
    n, idx = resolve(n), []
    while True:
        if n.op == 'T' or n.op == 'call' and n.args[0] in SAMEARG:
            n = resolve(n.args[0] if n.op == 'T' else n.args[1])
        elif n.op == 'getitem' and not named(n.args[1]):
            idx.append(resolve(n.args[1]))
            n = resolve(n.args[0])
        else:
            break
    if n.op == 'getitem':
        return const(n.args[1]), idx
    if n.op == 'call' and str(n.args[0]).endswith('t_from_CT'):
        return 'grid_tmp', idx
    if n.op == 'call' and str(n.args[0]).startswith('gsw'):
        return str(n.args[0]), idx
    return None, idx


class Scene:
    """Truth and numbers for one float and one cast, given what their profiles are like."""

    def __init__(self, it, values):
        self.it, self.v, self.own, self.memo = it, values, [], {}

    def side(self, n):
        k = keys_of(n)
        f, g = any(x.startswith('float_') for x in k), any(x.startswith('grid_') for x in k)
        if f == g:
            raise Cannot('mixed ' + ','.join(sorted(k)))
        return 'float' if f else 'cast'

    def truth(self, n):
        n = resolve(n)
        if n.op in ('and', 'or'):
            # evaluated in order, as the code does
            for a in n.args:
                t = self.truth(a)
                if t != (n.op == 'and'):
                    return t
            return n.op == 'and'
        if n.op in ('not', 'truth'):
            return self.truth(n.args[0]) != (n.op == 'not')
        if n.op in ('<', '<=', '=='):
            a, b = (self.val(x) for x in n.args)
            return {'<': lambda: a < b, '<=': lambda: a <= b, '==': lambda: a == b}[n.op]()
        if n.op == 'isnan':
            a = self.val(n.args[0])
            return a != a
        if n.op == 'isfinite':
            a = self.val(n.args[0])
            return a == a
        if n.op == 'call' and n.args[0] in ('numpy.any', 'numpy.all', 'any', 'all', 'builtins.any', 'builtins.all') and len(n.args) == 2:
            m = resolve(n.args[1])
            if n.args[0].endswith('any'):
                k = self.count(m)
                return k > 0
            if m.op == 'not':
                return self.count(resolve(m.args[0])) == 0
            return self.share(m)
        v = self.val(n)
        return v != 0 if v == v else True

    def val(self, n):
        n = resolve(n)
        if n not in self.memo:
            self.memo[n] = self._val(n)
        return self.memo[n]

    def _val(self, n):
        v = num(n)
        if v is not None:
            return v
        if is_nan(n):
            return NA
        if n.op == 'const' and isinstance(n.args[0], bool):
            return int(n.args[0])
        if n.op == 'phi':
            return self.val(n.args[1] if self.truth(n.args[0]) else n.args[2])
        if n.op in ('and', 'or', 'not', '<', '<=', '==', 'isnan', 'truth'):
            return int(self.truth(n))
        if n.op in ('list', 'tuple') and len(n.args) == 1:
            return self.val(n.args[0])
        if n.op in ('neg', 'abs'):
            return -self.val(n.args[0]) if n.op == 'neg' else abs(self.val(n.args[0]))
        if n.op in ('+', '-', '*'):
            a, b = (self.val(x) for x in n.args)
            return {'+': a + b, '-': a - b, '*': a * b}[n.op]
        if n.op == 'int' or n.op == 'call' and n.args[0] in ('int', 'float', 'bool') + SAMEARG:
            return self.val(n.args[0] if n.op == 'int' else n.args[1])
        if n.op == 'getitem':
            q = const(n.args[1])
            if q == 'float_lat':
                return self.v['lat']
        if n.op in ('dim', 'size'):
            return self.count(n.args[0])
        if n.op == 'call' and n.args[0] in ('numpy.count_nonzero', 'numpy.sum', 'numpy.sum0'):
            return self.count(n.args[1])
        if n.op == 'call':
            if n.args[0] == 'numpy.interp':
                return self.interp(n)
            if n.args[0] in ('numpy.min', 'numpy.max', 'numpy.nanmin', 'numpy.nanmax', 'numpy.amin', 'numpy.amax'):
                q, idx = quantity(n.args[1])
                who = self.side(n.args[1])
                if q not in ('float_pres', 'grid_pres'):
                    raise (Bad if q else Cannot)(f"range of {q}")
                self.column(idx, who)
                return self.v[who]['min' if 'min' in n.args[0] else 'max']
        # entries of the casts' list
        if n.op == 'mu':
            self.loop(n)
            if n.next is None or n in self.own:
                return self.element(n.init)
            self.own.append(n)
            try:
                return self.val(n.next)
            finally:
                self.own.remove(n)
        if n.op == 'store':
            i = resolve(n.args[1])
            if i.op == 'tuple' and len(i.args) == 2 and num(i.args[0]) == 0:
                i = resolve(i.args[1])
            if i.op == 'iv':
                self.own_cast(i)
                return self.val(n.args[2])
            raise Bad(f"class of a cast stored at {i}") if i.op in ('+', '-', 'const') else Cannot('entry written')
        if n.op == 'comp':
            iv, cond, expr = n.args
            if self.truth(cond) is not True:
                raise Cannot('casts left out')
            if resolve(iv).op == 'iv':
                self.own_cast(resolve(iv))
            return self.val(expr)
        if n.op == 'append':
            return self.val(n.args[1])
        return self.element(n)

    def element(self, n):
        n = resolve(n)
        if n.op == 'mu':
            return self.element(n.init)
        if n.op == 'replist':
            x = resolve(n.args[0])
            return self.val(x.args[0] if x.op == 'list' else x)
        if n.op == 'call' and n.args[0] in ('numpy.zeros', 'numpy.zeros_like'):
            return 0
        if n.op == 'call' and n.args[0] in ('numpy.full', 'numpy.full_like'):
            return self.val(n.args[2])
        if n.op == 'list' and not n.args:
            raise Cannot('class of no cast')
        raise Cannot('value ' + str(n)[:140])

    def loop(self, n):
        iv = resolve(self.it.loopinfo[n.meta].get('key'))
        if iv is not None and iv.op == 'iv':
            self.own_cast(iv)

    def own_cast(self, iv):
        if iv.op != 'iv':
            return
        if num(iv.args[0]) not in (0,) or num(iv.args[2]) != 1:
            raise Bad(f"casts looked at: {iv}") if num(iv.args[0]) is not None else Cannot('casts looked at')
        stop = resolve(iv.args[1])
        if stop.op in ('-', '+'):
            raise Bad(f"casts looked at: {iv}")
        if stop.op == 'dim':
            q, _ = quantity(stop.args[0])
            if q in MATRIX and num(stop.args[1]) == 0:
                raise Bad('as many casts as levels')
            if q not in KEYS:
                raise Cannot('number of casts')
        elif stop.op != 'size':
            raise Cannot('number of casts')

    def column(self, idx, who):
        """Data of a cast come from its own column."""
        if who == 'cast':
            cols = [resolve(i.args[-1]) for i in idx if i.op == 'tuple' and len(i.args) == 2]
            if not cols:
                raise Cannot('whole matrix of casts')
            for i in cols:
                if i.op != 'iv':
                    raise Bad(f"column {i} of the casts") if i.op in ('const', '+', '-') else Cannot('column ' + i.op)

    def interp(self, n):
        p = [a for a in n.args[1:] if isinstance(a, N) and resolve(a).op != 'kw']
        if len(p) < 3:
            raise Cannot('interpolation')
        at = num(p[0])
        who = self.side(n)
        if at is None:
            raise Cannot('interpolation at many depths')
        (qx, ix), (qy, iy) = quantity(p[1]), quantity(p[2])
        if ix != iy:
            raise Bad('pressure and temperature of different samples')
        self.column(ix, who)
        want = ('float_pres', 'float_tmp') if who == 'float' else ('grid_pres', 'grid_tmp')
        if None in (qx, qy):
            raise Cannot('interpolation of ' + str(p[2])[:80])
        if (qx, qy) != want:
            raise Bad(f"temperature at {at} dbar from {qx} and {qy}")
        if at != 300:
            raise Bad(f"temperature at {at} dbar")
        lr = [k for k in p[3:5]] + [resolve(a).args[1] for a in n.args[1:] if isinstance(a, N) and resolve(a).op == 'kw' and resolve(a).args[0] in ('left', 'right')]
        return self.v[who]['t300']

    # -- numbers of samples
    def count(self, n):
        n = resolve(n)
        while n.op in ('getitem', 'T') and not (n.op == 'getitem' and named(n.args[1])) or n.op == 'call' and n.args[0] in SAMEARG:
            n = resolve(n.args[1] if n.op == 'call' else n.args[0])
        if n.op == 'call' and n.args[0] in AXES:
            return self.count(n.args[1])
        if n.op == 'call' and n.args[0] == 'numpy.intersect1d':
            return min(self.count(a) for a in n.args[1:3])
        env = self.envelope(n)
        if env is not None:
            return env
        if n.op == 'call' and n.args[0] in ('numpy.logical_and',):
            k = keys_of(n)
            if 'Deph' in k:
                return self.v['compared']
        if n.op in ('and', 'not', '==', 'isfinite', '<', '<='):
            k = keys_of(n)
            if 'Deph' in k:
                return self.v['compared']
            who = self.side(n)
            if n.op == '==' and any(resolve(a).op == 'call' and resolve(a).args[0] == 'numpy.diff' for a in n.args) and any(num(a) == 0 for a in n.args):
                return self.v[who]['repeats']
            return self.v[who]['levels']
        if n.op == 'getitem' and const(n.args[1]) in ('float_pres',):
            return self.v['float']['levels']
        raise Cannot('number of ' + str(n)[:120])

    def envelope(self, n):
        """Levels inside an envelope: and(limit < x, x < limit) at the compared levels."""
        if n.op != 'and':
            return None
        lims, vals = [], []
        for a in n.args:
            a = resolve(a)
            if a.op not in ('<', '<='):
                return None
            for pos, x in enumerate(a.args):
                d = self.limit(x)
                if d == 'own':
                    vals.append((pos, x))
                elif d is not None:
                    lims.append((pos, d, a.args[1 - pos]))
                else:
                    return None
        sides = {d[0] for _p, d, _o in lims}
        if len(lims) != 2 or len(sides) != 1:
            raise Bad('envelope limits of both sides')
        s = sides.pop()
        low = [d for p, d, _o in lims if p == 0]
        high = [d for p, d, _o in lims if p == 1]
        if not low or not high or low[0][1] != 'lower' or high[0][1] != 'upper':
            raise Bad(f"{s} envelope: above {[d[1] for d in low]}, below {[d[1] for d in high]}")
        for _p, d, other in lims:
            if self.what(other) != d[2]:
                raise Bad(f"{s} envelope: {self.what(other)} compared with limits of {d[2]}")
        return self.v['compared'] - (0 if self.v[s] else 1)

    def what(self, n):
        """Float quantity interpolated to the envelope's depths."""
        n = strip(n)
        if n.op == 'call' and n.args[0] == 'numpy.interp':
            q, _ = quantity(n.args[3])
            return {'float_sal': 'salinity', 'float_tmp': 'temperature'}.get(q)
        return None

    def limit(self, n):
        """(side, lower/upper, quantity) of an envelope limit, or 'own' for the float's own values."""
        n = strip(n)
        if n.op != 'call' or n.args[0] != 'numpy.interp':
            return None
        if 'Deph' in keys_of(n.args[1]) and any(x.op == 'getitem' and const(x.args[1]) == 'Deph' for x in [strip(n.args[1])] + list(walk(n.args[1]))) and \
                not any(x.op == 'call' and x.args[0] == 'numpy.interp' for x in walk(n.args[1])):
            return 'own'
        got = []
        for a in n.args[2:4]:
            a = strip(a)
            if a.op not in ('+', '-'):
                return None
            m, s = ([k for k in keys_of(x)] for x in a.args)
            if a.op == '+' and len(m) == 1 and 'std' in m[0]:
                m, s = s, m
            if len(m) != 1 or len(s) != 1:
                raise Cannot(f"limit from {m} and {s}")
            if 'mean' not in m[0] or 'std' not in s[0] or m[0][-1] != s[0][-1] or m[0][0] != s[0][0]:
                raise Bad(f"limit from {m} and {s}")
            got.append((SOUTH if m[0][-1] == 'S' else NORTH, 'lower' if a.op == '-' else 'upper', 'salinity' if m[0][0] == 'S' else 'temperature'))
        x, y = got
        if x[:2] != y[:2] or x[2] == y[2]:
            raise Bad(f"limit from {x} and {y}")
        if self.what(n.args[1]) != x[2]:
            raise Bad(f"limit of {y[2]} looked up at {self.what(n.args[1])}")
        return y

    def share(self, m):
        raise Cannot('all of ' + m.op)


def strip(n):
    n = resolve(n)
    while n.op in ('T',) or n.op == 'call' and n.args[0] in SAMEARG + ('numpy.flip', 'numpy.delete') or n.op == 'getitem' and not named(n.args[1]):
        n = resolve(n.args[0] if n.op in ('T', 'getitem') else n.args[1])
    return n


def profile(t300=6.0, levels=10, repeats=0, shallow=True, deep=True):
    return {'t300': t300, 'levels': levels, 'repeats': repeats, 'min': 5.0 if shallow else 400.0, 'max': (2000.0 if deep else 250.0) if shallow else (2000.0 if deep else 350.0)}


def by_rule(p, env=None):
    """The class of a profile: +1 warm, -1 cold, 0 undecided."""
    if not (p['levels'] > 2 and p['repeats'] == 0 and p['min'] < 300 < p['max']):
        return 0
    if p['t300'] > 5:
        return 1
    if p['t300'] < 3:
        return -1
    if env:
        south, north, compared = env
        if compared and south != north:
            return -1 if south else 1
    return 0


PROFILES = [('%s degrees' % t, profile(t)) for t in (-1.0, 0.0, 2.9, 3.0, 4.0, 5.0, 5.1, 12.0)] + [
    ('no temperature at 300 dbar', profile(NA)), ('without samples', profile(NA, levels=0)), ('with one sample', profile(9.0, levels=1)), ('with two samples', profile(9.0, levels=2)), ('with three samples', profile(9.0, levels=3)), ('with three cold samples', profile(1.0, levels=3)), ('with two cold samples', profile(1.0, levels=2)),  ('with equal pressures', profile(repeats=1)),
    ('all below 300 dbar', profile(shallow=False)), ('all above 300 dbar', profile(deep=False)), ('cold, all above 300 dbar', profile(1.0, deep=False))]


def rule_kept(c, it):
    ret = resolve(it.ret_node)
    if ret.op != 'dict':
        c.und(R3, FN, 'result is ' + ret.op, LOC)
        return
    d = {const(k): resolve(v) for k, v in zip(ret.args[0::2], ret.args[1::2])}
    picks = {}
    for k in KEYS:
        if k not in d:
            c.that(False, R3, k, 'not returned', LOC)
            continue
        c.rule(one_variable, it, k, d[k], picks)
    if len(set(picks.values())) > 1:
        by = {}
        for k, p in picks.items():
            by.setdefault(p, []).append(k)
    for k, p in picks.items():
        same = p is next(iter(picks.values()))
        c.that(True if same else None, R3, k + ' and the others', 'selected by the same places' if same else str(p)[:120], LOC)
    for p in dict.fromkeys(picks.values()):
        classes(c, it, p)


def one_variable(c, it, k, n, picks):
    for lat in (-29.0, 10.0, 80.0, -31.0, -60.0):
        s = Scene(it, {'lat': lat})
        x = n
        while x.op == 'phi':
            try:
                t = s.truth(x.args[0])
            except Bad as e:
                c.that(False, R4, f"{k}, latitude {lat}", f"whether casts are separated depends on: {e}", LOC)
                return
            x = resolve(x.args[1] if t else x.args[2])
        idx = []
        while x.op == 'getitem' and not named(x.args[1]):
            idx.append(resolve(x.args[1]))
            x = resolve(x.args[0])
        while x.op == 'call' and x.args[0] in ('numpy.array', 'numpy.copy', 'numpy.asarray', 'numpy.take', 'numpy.compress'):
            if x.args[0] in ('numpy.take', 'numpy.compress'):
                raise Cannot(x.args[0])
            x = resolve(x.args[1])
        if x.op != 'getitem':
            raise Cannot(f"{k}: {x.op}")
        c.that(const(x.args[1]) == k, R3, f"{k}, latitude {lat}", f"from {const(x.args[1])}", LOC)
        if lat > -30:
            c.that(not idx, R4, f"{k}, latitude {lat}", 'kept whole' if not idx else f"{idx}"[:120], LOC)
            continue
        if len(idx) != 1:
            c.that(False if not idx else None, R3, f"{k}, latitude {lat}", 'kept whole' if not idx else 'several selections', LOC)
            continue
        i = idx[0]
        parts = [resolve(a) for a in i.args] if i.op == 'tuple' else [i]
        whole = [p.op == 'slice' and all(const(a) is None for a in p.args) for p in parts]
        if k in MATRIX:
            ok = len(parts) == 2 and whole[0] and not whole[1]
            wrong = len(parts) == 1 or len(parts) == 2 and whole[1] and not whole[0]
        else:
            ok, wrong = len(parts) == 1 or len(parts) == 2 and whole[1], False
        c.that(True if ok else False if wrong else None, R3, f"{k}, latitude {lat}: casts selected", 'along the casts' if ok else f"{i}"[:100], LOC)
        if ok:
            picks[k] = parts[1] if k in MATRIX else parts[0]


def classes(c, it, p):
    """Which casts the selection keeps, for every pair of a float and a cast."""
    x = resolve(p)
    comp = None
    while x.op == 'getitem' or x.op == 'call' and x.args[0] in SAMEARG:
        if x.op == 'getitem':
            i = resolve(x.args[1])
            last = resolve(i.args[-1]) if i.op == 'tuple' else i
            if num(last) is not None and comp is None:
                comp = num(last)
            x = resolve(x.args[0])
        else:
            x = resolve(x.args[1])
    if x.op == 'call' and x.args[0] in AXES and len(x.args) == 2:
        mask = resolve(x.args[1])
        nested = 1 if any(resolve(a).op == 'list' and len(resolve(a).args) == 1 and resolve(resolve(a).args[0]).op in ('phi', 'mu', 'comp', 'replist', 'list') for a in (mask.args if mask.op == '==' else ())) else 0
        if comp is not None and comp != nested:
            c.that(False if comp != nested else None, R3, 'places', f"component {comp} of the places of {'a row' if nested else 'a list'} of casts", LOC)
    elif x.op in ('==', 'and', 'or', 'not'):
        mask = x
    else:
        c.und(R3, 'selection', str(x)[:150], LOC)
        return
    envs = [(0, 0, 40), (1, 0, 40), (0, 1, 40), (1, 1, 40), (0, 0, 0)] + [(a, b, k) for k in (1, 2, 3, 8, 1000) for a in (0, 1) for b in (0, 1)]
    warm, cold = profile(9.0), profile(1.0)
    todo = [(R1, f"float {nf}" + (f", inside the {'south ' * env[0]}{'north ' * env[1]}envelope" if sum(env[:2]) else ', outside both envelopes' if env[2] else ', nothing to compare') + (f" at all {env[2]} compared depths" if env[2] not in (0, 40) else ''), f, env, g)
            for nf, f in PROFILES for env in (envs if 'degrees' in nf and 3 <= f['t300'] <= 5 or f['t300'] != f['t300'] else envs[:1]) for g in (warm, cold, profile(4.0))]
    todo += [(R2, f"cast {ng}, {'warm' if f is warm else 'cold' if f is cold else 'undecided'} float", f, (0, 0, 40), g) for ng, g in PROFILES for f in (warm, cold, profile(4.0))]
    result = {}
    for rule, inst, f, env, g in todo:
        want_f, want_g = by_rule(f, env), by_rule(g)
        want = want_f == 0 or want_f == want_g
        s = Scene(it, {'lat': -50.0, 'float': f, 'cast': g, 'south': env[0], 'north': env[1], 'compared': env[2]})
        try:
            got = s.truth(mask)
            ok, why = got == want, ('kept' if got else 'dropped')
        except Bad as e:
            ok, why = False, str(e)
        except Cannot as e:
            ok, why = None, str(e)[:200]
        o = result.setdefault((rule, inst), [])
        o.append((ok, why, want_g))
    for (rule, inst), o in result.items():
        oks = [x[0] for x in o]
        c.that(False if False in oks else None if None in oks else True, rule, inst,
               '; '.join(dict.fromkeys(f"cast of class {g:+d} {w}" if len(o) > 1 else w for _o, w, g in o)), LOC)


# -- the mapping run
def frontal(n):
    return n.op == 'call' and n.args[0] == FN


def taken(n):
    """The key of frontal separation's result a node is, or None."""
    n = resolve(n)
    if n.op == 'getitem' and frontal(resolve(n.args[0])):
        return const(n.args[1])
    return None


def arms(n, out=None):
    out = [] if out is None else out
    n = resolve(n)
    if n.op == 'phi':
        arms(n.args[1], out)
        arms(n.args[2], out)
    else:
        out.append(n)
    return out


class Use:
    def __init__(self, saf, count, other=0):
        self.saf, self.count, self.other, self.asked = saf, count, other, False

    def pick(self, n):
        n = resolve(n)
        while n.op == 'phi':
            n = resolve(n.args[1] if self.truth(n.args[0]) else n.args[2])
        return n

    def truth(self, n):
        n = resolve(n)
        if n.op in ('and', 'or'):
            for a in n.args:
                t = self.truth(a)
                if t != (n.op == 'and'):
                    return t
            return n.op == 'and'
        if n.op in ('not', 'truth'):
            return self.truth(n.args[0]) != (n.op == 'not')
        if n.op in ('<', '<=', '=='):
            a, b = (self.val(x) for x in n.args)
            return {'<': a < b, '<=': a <= b, '==': a == b}[n.op]
        return self.val(n) != 0

    def val(self, n):
        n = resolve(n)
        if num(n) is not None:
            return num(n)
        if n.op == 'const' and isinstance(n.args[0], bool):
            return int(n.args[0])
        if n.op == 'getitem' and const(n.args[1]) == 'MAP_USE_SAF':
            return self.saf
        if n.op == 'getitem' and const(n.args[1]) == 'MAP_USE_PV':
            self.asked = True       # the other switch: free
            return self.other
        if n.op == 'phi':
            return self.val(self.pick(n))
        if n.op in ('dim', 'size'):
            x, k = resolve(n.args[0]), num(n.args[1]) if n.op == 'dim' else 0
            row = False
            while x.op == 'getitem' and taken(x) is None and not named(x.args[1]):
                i = resolve(x.args[1])
                if num(i) is None and not (i.op == 'tuple' and num(i.args[0]) is not None):
                    raise Cannot('number of casts')
                row, x = True, resolve(x.args[0])
            q = taken(x)
            if q is None:
                if any(taken(y) for y in walk(x)) or not any('get_region_data' in str(y.args[0]) for y in walk(x) if y.op == 'call'):
                    raise Cannot('number of ' + str(x)[:80])
                raise Bad('the full set is counted')
            if q in MATRIX and (k == 1 and not row or k == 0 and row and n.op == 'dim') or q not in MATRIX and k == 0 and not row:
                return self.count
            raise Bad(f"{n} is not the number of casts that remain"[:200])
        raise Cannot('condition on ' + str(n)[:100])


def rule_use(c):
    it = A.core()
    c.covered(it)
    names = {'grid_sal': None, 'grid_theta': 'grid_ptmp', 'grid_pres': None}
    es = A.axioms(it, 'interp_climatology') + A.axioms(it, 'map_data_grid')
    if not A.axioms(it, 'frontal_constraint_saf'):
        c.that(False, R5, 'separation', 'never called by the mapping run', 'pyowc/calibration.py')
        return
    if not A.axioms(it, 'interp_climatology'):
        c.und(R5, 'interpolation', 'call not found', 'pyowc/calibration.py')
    seen = set()
    for e in es:
        for k, a in (e.extra or {}).items():
            if not isinstance(a, N):
                continue
            for kind, n in choices(a, seen):
                inst = f"{e.name.split(':')[-1]} {k}"
                if kind == 'choice':
                    c.rule(chosen, inst, n, A.where(e))
                elif kind == 'reduced':
                    c.that(False, R5, inst, f"always {taken(n)} of the reduced set", A.where(e))
                else:
                    c.that(False, R5, inst, f"always the full set: {str(n)[:60]}", A.where(e))


def choices(n, seen):
    out, todo = [], [n]
    while todo:
        x = resolve(todo.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and any(taken(a) for a in arms(x)):
            out.append(('choice', x))
            continue
        if taken(x):
            out.append(('reduced', x))
            continue
        if x.op == 'getitem' and resolve(x.args[0]).op == 'call' and str(resolve(x.args[0]).args[0]).endswith(':get_region_data') and const(x.args[1]) in KEYS:
            out.append(('full', x))
            continue
        if x.op == 'phi':
            todo += [x.args[1], x.args[2]]
            continue
        if x.op == 'mu':
            todo += [y for y in (x.init, x.next) if y is not None]
            continue
        todo += [a for a in x.args if isinstance(a, N)]
    return out


def chosen(c, inst, n, loc):
    ks = {taken(a) for a in arms(n) if taken(a)}
    for a in arms(n):
        if a.op == 'getitem' and resolve(a.args[0]).op == 'call' and str(resolve(a.args[0]).args[0]).endswith(':get_region_data'):
            ks.add(const(a.args[1]))
    name = '/'.join(sorted(map(str, ks)))
    c.that(len(ks) == 1, R5, f"{inst}: {name}", 'the same quantity of both sets' if len(ks) == 1 else 'different quantities', loc)
    for saf, count in itertools.product((0, 1), (0, 1, 4, 5, 6, 7, 200)):
        want = saf == 1 and count > 5
        i = f"{inst}: {name}, {'enabled' if saf else 'disabled'}, {count} left"
        try:
            use = Use(saf, count)
            got = taken(use.pick(n)) is not None
            if use.asked and got == want:
                got = taken(Use(saf, count, 1).pick(n)) is not None
        except Bad as e:
            c.that(False, R5, i, str(e), loc)
            continue
        except Cannot as e:
            c.und(R5, i, str(e)[:160], loc)
            continue
        c.that(got == want, R5, i, 'reduced set' if got else 'full set', loc)


def main():
    c = Check('C27', 'frontal separation uses one rule and applies only when enabled and possible',
              'The selection of casts is decided for every kind of float and cast profile by following its condition to the temperature at 300 dbar, the sampled range and the envelope '
              'test; every variable must be cut by those same places; in the mapping run, every use of reference data is followed to the choice between full and reduced set, '
              'which is decided for the option on and off and for every number of remaining casts around the threshold.',
              'Every latitude, profile and option; temperatures, ranges and counts are represented by the intervals between thresholds.')
    it = A.fn(FN)
    if it is None:
        c.und(R1, FN, 'function not found')
        raise SystemExit(c.finish())
    c.covered(it)
    c.rule(rule_kept, it)
    c.rule(rule_use)
    raise SystemExit(c.finish())

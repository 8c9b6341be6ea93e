"""C31: a level is mapped only when its data satisfy all selection rules."""
from fractions import Fraction

from ..report import Check
from .. import analyses as A
from ..algebra import Alg, Cannot, Poly, power, num as number, leaf, proportional
from ..ir import N, resolve, walk
from ..masks import mask_of, num
from ..roles import Kinds, short
from ..stages import chain, conditions, config_key, entries, mentions, saved, spine, stage_events

R1, R2, R3, R4, R5 = ('salinity present', 'at or below the exclusion depth', 'more than five reference values',
                      'pressure window', 'outliers removed')
LEVEL_KEYS = ('la_mapped_sal', 'la_mapsalerrors', 'la_map_sal_errors', 'la_ptmp', 'la_noise_sal', 'la_signal_sal')


class Level:
    """Names of the quantities of one level."""

    def __init__(self, level, alias=()):
        self.alias = {level, *alias}
        self.level, self.kinds, self.alg = level, Kinds(), Alg(self.leaf_of)

    def leaf_of(self, n):
        k = config_key(n)
        if k:
            return ('setting', k)
        if n.op == 'call' and short(n) == 'signal_variance':
            return ('variance', chain(n.args[1]))
        if n.op == 'call' and n.args[0].rsplit('.', 1)[-1] in ('mean', 'nanmean', 'average') and len(n.args) == 2:
            return ('mean', chain(n.args[1]))
        if n.op in ('getitem', 'phi') or n.op == 'call' and n.args[0].startswith('numpy.'):
            steps, base = chain(n)
            h = hist(base)
            if h is not None and any(s[2] in self.alias for s in steps):
                return ('reference', h, steps)
            if h is not None and any(s[2] is not None for s in steps):
                return ('another row of reference', h, steps)
        if n.op == 'getitem':
            i = resolve(n.args[1])
            k = self.kinds.kind(n)
            if len(k) == 1 and not mentions(n, 'interp_climatology'):
                at = i.args[0] if i.op == 'tuple' else i
                if resolve(at) in self.alias:
                    return ('float', next(iter(k)))
                if resolve(at).op in ('iv', 'const') or not any(y in self.alias for y in walk(resolve(at))):
                    return ('another level of float', next(iter(k)), n)
        return None


def hist(base):
    b = resolve(base)
    if b.op == 'getitem' and short(resolve(b.args[0])) == 'interp_climatology' and num(b.args[1]) in (0, 1):
        return ('sal', 'pres')[num(b.args[1])]
    return None


def conjuncts(m):
    m = resolve(m)
    if m.op == 'and':
        return [x for a in m.args for x in conjuncts(a)]
    return [m]


def inequality(lv, c):
    """c as polynomial > 0 (squared when absolute values or roots are involved)."""
    c = resolve(c)
    flip = False
    while c.op == 'not':
        flip, c = not flip, resolve(c.args[0])
    if c.op not in ('<', '<='):
        return None
    l, r = (lv.alg.poly(x) for x in c.args)
    if flip:
        l, r = r, l
    strict = (c.op == '<') != flip

    def rooted(p):
        return p.single() and any(a[0] == 'fn' and a[1] == 'abs' or e.denominator != 1 for m in p.t for a, e in m)
    if rooted(l) or rooted(r):
        if not l.single() or not r.single():
            raise Cannot('comparison ' + str(c)[:120])
        l, r = power(l, 2), power(r, 2)
    return r - l, strict


def stores(it):
    """Every element store that ends up in a saved per-level record: (key, index, value, events)."""
    ev = [e for e in it.events if e.kind == 'mutate' and e.name in ('store', 'setitem') and len(e.args) == 2]
    out = []
    for _e, d in saved(it):
        for k, v in d.items():
            for kind, idx, val in spine(v):
                if kind == 'store':
                    es = [e for e in ev if resolve(e.args[0]) is idx and resolve(e.args[1]) is val]
                    out.append((k, idx, val, es))
    return out


def level_index(it):
    for k, idx, val, es in stores(it):
        if k == 'la_mapped_sal' and mentions(val, 'map_data_grid') and idx.op == 'tuple' and len(idx.args) == 2:
            return resolve(idx.args[0]), resolve(idx.args[1])
    return None, None


def judge_guards(c, inst, guards, lv, steps_wanted, loc):
    """The conditions under which a level's record is written."""
    guards, alias = conditions(guards, lv.level)
    lv = Level(lv.level, alias)
    present = exclude = count = None
    notes, whole = [], False
    for g, pol in guards:
        g = resolve(g)
        while g.op == 'not':
            g, pol = resolve(g.args[0]), not pol
        if g.op in ('isnan', 'isfinite'):
            x = resolve(g.args[0])
            if lv.leaf_of(x) == ('float', 'sal') and pol == (g.op == 'isfinite'):
                present = True
            continue
        if g.op in ('<', '<='):
            try:
                d, strict = inequality(lv, g if pol else mknot(g))
            except (Cannot, TypeError):
                d = None
            p, e = leaf(('float', 'pres')), leaf(('setting', 'MAP_P_EXCLUDE'))
            if d is not None:
                if proportional(d, p - e):
                    exclude = 'nan' if not pol else 'strict' if strict else True
                    continue
                if any(('leaf', ('setting', 'MAP_P_EXCLUDE')) == a for m in d.t for a, _x in m):
                    notes.append(f"exclusion condition is {repr(d)[:120]} > 0")
                    exclude = False
                    continue
            r = count_of(g, pol)
            if r is not None:
                k, node = r
                steps, base = chain(node)
                if hist(base) is None:
                    continue
                if any(s[0] == 'drop' for s in steps) or not any(s[2] is lv.level for s in steps):
                    notes.append('count is not of the values in the window')
                    whole = not any(s[0] == 'drop' for s in steps)
                    count = None if count is None else count
                    continue
                ks = tuple(s[:2] for s in steps)
                if ks == steps_wanted:
                    count = k
                else:
                    notes.append('count is taken before the pressure window is applied')
                    count = False if count is None else count
    murky = [g for g, _p in guards if unread(lv, g)]
    c.that(True if present else None if murky else False, R1, inst, 'guard found' if present else 'no condition on the salinity of this level', loc)
    if exclude == 'nan':
        c.bad(R2, inst, 'levels without a pressure pass the test', loc)
    elif exclude == 'strict':
        c.bad(R2, inst, 'the exclusion depth itself is left out', loc)
    else:
        c.that(True if exclude is True else None if murky and exclude is None else False, R2, inst, notes[0] if notes and not exclude else '', loc)
    if count is None and notes and not (whole and len(notes) == 1 and not murky):
        c.und(R3, inst, '; '.join(notes), loc)
    else:
        c.that(count == 5, R3, inst, f"more than {count}" if count else '; '.join(notes) or 'no condition on the number of values', loc)


def unread(lv, g):
    """A condition about this level that is not understood."""
    if g.op in ('and', 'or', 'not'):
        return any(unread(lv, resolve(a)) for a in g.args)
    return any(x in lv.alias for x in walk(g)) and g.op not in ('<', '<=', 'isnan', 'isfinite', '==')


def mknot(g):
    from ..ir import mk
    return mk('not', g)


def count_of(g, pol):
    """(k, array) when the condition is: more than k elements."""
    a, b = (resolve(x) for x in g.args)
    if pol and num(a) is not None and b.op in ('dim', 'size'):
        return (num(a) if g.op == '<' else num(a) - 1), b.args[0]
    if not pol and num(b) is not None and a.op in ('dim', 'size'):
        return (num(b) if g.op == '<=' else num(b) - 1), a.args[0]
    return None


def rule_levels(c, it):
    level, _prof = level_index(it)
    if level is None:
        return c.und(R1, 'mapped salinity', 'no element store of the mapped salinity found')
    lv = Level(level)
    ev = stage_events(it)
    if not ev:
        return c.und(R1, 'stages', 'no mapping call')
    steps, base = chain(first_data(ev))
    if hist(base) != 'sal':
        return c.und(R4, 'data mapped', f"mapped data are {str(base)[:160]}", A.where(ev[0]))
    kept = tuple(s[:2] for s in steps if s[0] == 'keep')
    for k, e in enumerate(ev, 1):
        judge_guards(c, f"mapping stage {k}", e.guards, lv, kept, A.where(e))
    done = set()
    for key, idx, val, es in stores(it):
        if key not in LEVEL_KEYS or idx.op != 'tuple' or resolve(idx.args[0]) is not level or (key, idx, val) in done:
            continue
        done.add((key, idx, val))
        if not es:
            c.und(R1, f"store of {key}", 'conditions unknown')
        for e in es:
            judge_guards(c, f"store of {key}", e.guards, lv, kept, A.where(e))
    window(c, lv, steps, A.where(ev[0]))


def first_data(ev):
    """The observations mapped in the first stage."""
    for e in ev:
        x = e.extra[next(iter(e.extra))]
        if not mentions(x, 'map_data_grid'):
            return x
    return ev[0].extra[next(iter(ev[0].extra))]


def window(c, lv, steps, loc):
    H = lambda k, s: leaf(('reference', k, s))
    fp, dl = leaf(('float', 'pres')), leaf(('setting', 'MAP_P_DELTA'))
    seen_window = seen_out = False
    halves = set()
    before = ()
    problems, unknown = [], []
    for s in steps:
        if s[0] == 'keep':
            for m in conjuncts(s[1]):
                x = resolve(m.args[0]) if m.op == 'not' else m
                if x.op in ('isnan', 'isfinite'):
                    y = resolve(x.args[0])
                    if hist(chain(y)[1]) or hist_row(y, lv.level):
                        continue
                try:
                    q = inequality(lv, m)
                except (Cannot, TypeError) as e:
                    q = None
                    unknown.append(str(e)[:160])
                if q is None:
                    unknown.append('selection ' + str(m)[:160])
                    continue
                d, _strict = q
                refs = {a for mo in d.t for a, _e in mo if a[0] == 'leaf' and isinstance(a[1], tuple) and a[1][0] == 'reference'}
                if len(refs) == 1 and next(iter(refs))[1][1] == 'pres':
                    h = Poly({((next(iter(refs)), Fraction(1)),): 1.0})
                    if proportional(d, power(dl, 2) - power(h - fp, 2)):
                        seen_window = True
                    elif proportional(d, dl - (h - fp)):
                        halves.add(1)
                    elif proportional(d, dl + (h - fp)):
                        halves.add(-1)
                    else:
                        problems.append(f"kept when {readable(d)} > 0")
                else:
                    problems.append(f"kept when {readable(d)} > 0")
        else:
            q = None
            for m in [s[1]]:
                try:
                    q = inequality(lv, m)
                except (Cannot, TypeError) as e:
                    c.und(R5, 'removal', str(e)[:200], loc)
            if q is None:
                if m.op in ('isnan',) or m.op == 'not':
                    continue
                if resolve(s[1]).op == 'some':
                    c.bad(R5, 'removal', f"only some of the outliers found are removed: {str(s[1])[:160]}", loc)
                else:
                    c.und(R5, 'removal', str(s[1])[:200], loc)
                continue
            d, _strict = q
            atoms = {a[1] for mo in d.t for a, _e in mo if a[0] == 'leaf'}
            refs = [a for a in atoms if isinstance(a, tuple) and a[0] == 'reference']
            mean = [a for a in atoms if isinstance(a, tuple) and a[0] == 'mean']
            var = [a for a in atoms if isinstance(a, tuple) and a[0] == 'variance']
            if len(refs) == 1 and refs[0][1] == 'sal':
                seen_out = True
                st = refs[0][2]
                spec = [power(leaf(refs[0]) - leaf(a), 2) - leaf(v).scale(9) for a in mean for v in var]
                ok = len(mean) == len(var) == 1 and proportional(d, spec[0], var)
                base_ok = all(same_steps(x[1], st) for x in mean + var)
                if not ok:
                    c.bad(R5, 'limit', f"removed when {readable(d)} > 0", loc)
                elif not base_ok:
                    c.bad(R5, 'limit', 'mean or variance are not those of the values tested', loc)
                else:
                    c.ok(R5, 'limit', readable(d), loc)
                if s[3] is not None:
                    g = resolve(s[3])
                    c.that(always(g, s[1]), R5, 'removed whenever there are any', str(g)[:200], loc)
                else:
                    c.ok(R5, 'removed whenever there are any', 'unconditional', loc)
            else:
                c.und(R5, 'removal', readable(d), loc)
    if halves == {1, -1}:
        seen_window = True
    if unknown:
        c.und(R4, 'values used', '; '.join(unknown), loc)
    if problems or halves and not seen_window:
        c.bad(R4, 'values used', '; '.join(problems) or 'the window has one side only', loc)
    else:
        c.that(True if seen_window else None if unknown else False, R4, 'values used',
               '|reference pressure - float pressure| < MAP_P_DELTA' if seen_window else 'no condition on the reference pressure', loc)
    if not seen_out:
        c.that(None if any(s[0] == 'drop' for s in steps) or unknown else False, R5, 'limit', 'no removal of outliers before mapping', loc)


def always(g, mask):
    """The condition holds whenever the mask has a true element."""
    g = resolve(g)
    def ev(n, d):
        n = resolve(n)
        if num(n) is not None:
            return num(n)
        if n.op in ('dim', 'size') and mask_of(n.args[0]) is mask:
            return d
        if n.op == '==' and any(resolve(x).op == 'const' and resolve(x).args[0] is None for x in n.args):
            return False
        if n.op in ('<', '<=', '=='):
            a, b = ev(n.args[0], d), ev(n.args[1], d)
            return None if a is None or b is None else {'<': a < b, '<=': a <= b, '==': a == b}[n.op]
        if n.op == 'not':
            v = ev(n.args[0], d)
            return None if v is None else not v
        if n.op in ('and', 'or'):
            vs = [ev(x, d) for x in n.args]
            return None if None in vs else all(vs) if n.op == 'and' else any(vs)
        if n.op == 'call' and n.args[0] == 'numpy.any' and (resolve(n.args[1]) is mask):
            return True
        return None
    vs = [ev(g, d) for d in range(1, 60)]
    return None if None in vs else all(vs)


def same_steps(ch, st):
    return tuple(s[:2] for s in ch[0]) == tuple(s[:2] for s in st)


def hist_row(y, level):
    y = resolve(y)
    if y.op == 'getitem' and hist(y.args[0]):
        i = resolve(y.args[1])
        return resolve(i.args[0] if i.op == 'tuple' else i) is level
    return False


def readable(d):
    out = []
    for m, k in d.t.items():
        out.append(f"{k:.4g}" + ''.join(f"*{nice(a)}" + ('' if e == 1 else f"^{e}") for a, e in m))
    return ' + '.join(out)[:300]


def nice(a):
    if a[0] == 'leaf' and isinstance(a[1], tuple):
        return {'reference': 'reference_', 'float': 'float_', 'setting': ''}.get(a[1][0], a[1][0]) + \
            (str(a[1][1]) if a[1][0] in ('reference', 'float', 'setting') else '')
    return a[0]


def main():
    c = Check('C31', 'a level is mapped only under the selection rules',
              'Conditions dominating both mapping calls and every store into a per-level record are compared with the rules: salinity of '
              'that level present, its pressure >= MAP_P_EXCLUDE, more than five values in the windowed selection; the masks applied to '
              'the reference values are normalised and compared with the pressure window and the three-sigma rule.',
              'Symbolic in level, profile, pressures and salinities.')
    it = A.core()
    c.covered(it)
    c.rule(rule_levels, it)
    return c.finish()

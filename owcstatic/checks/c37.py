"""C37: the theta levels chosen are those on which salinity varies least."""
from ..report import Check
from .. import analyses as A
from ..ir import N, resolve, walk
from ..masks import is_nan, num
from ..levels import base, cases, difference, element, extreme, lits, parts, pick, positions, through, whole, writes, WHERE

R1, R2, R3, R4, R5, R6, R7, R8 = (
    'results of one choice come from one level', 'the level of smallest variance is chosen', 'no level is chosen twice',
    'levels reached by too few profiles are out', 'variance of the salinity on the level', 'share of profiles counted on the level',
    'a level is the mean temperature at one pressure', 'the sample closest to the level inside the profile')
WHO = 'pyowc.core.finders:find_10thetas'
SPREAD = {'nanvar', 'nanstd', 'var', 'std'}
OTHER = {'nanmean', 'mean', 'nanmedian', 'median', 'nansum', 'sum', 'nanmax', 'nanmin', 'max', 'min', 'ptp'}
MEAN = {'nanmean', 'mean'}


def tail(n):
    return n.args[0].rsplit('.', 1)[-1] if n.op == 'call' else None


def one(c, rule, inst, xs):
    xs = list(dict.fromkeys(xs))
    if len(xs) == 1:
        return xs[0]
    c.und(rule, inst, f"{len(xs)} candidates")
    return None


def real(ws):
    return [(i, v, cs) for i, v, cs in ws if not is_nan(v)]


def chosen(c, name, n):
    """(array, place) every entry of a result is read from."""
    out = []
    for idx, v, _cs in real(writes(n)[0]):
        x, at = element(v)
        if not at:
            c.und(R1, name, 'value not read from an array')
            return None
        out.append((idx, x, at))
    if not out:
        c.und(R1, name, 'no entries found')
    return out


def main():
    c = Check('C37', 'least variable theta levels',
              'find_10thetas is read entry by entry: what is stored under which index, which entry is picked and what is blanked.',
              'all inputs and all branches of the function')
    it = A.fn(WHO)
    if it is None:
        c.und(R1, 'find_10thetas', 'function not found')
        return c.finish()
    c.covered(it)
    c.rule(ranking, it)
    return c.finish()


def ranking(c, it):
    r = resolve(it.ret_node)
    if r.op not in ('tuple', 'list') or len(r.args) != 5:
        c.und(R1, 'results', 'not five results')
        return
    got = {k: chosen(c, k, r.args[j]) for j, k in enumerate(('temperature', 'pressure', 'samples'))}
    if any(v is None for v in got.values()) or not all(got.values()):
        return
    place = {}
    for k, ws in got.items():
        for idx, x, at in ws:
            place.setdefault(k, []).append(at[0])
            if idx[0].op != 'iv':
                c.und(R1, k, 'not stored under the number of the choice')
    ks = list(dict.fromkeys(p for v in place.values() for p in v))
    picks = {p: pick(p) for p in ks}
    slots = {(w[0][0]) for v in got.values() for w in v}
    for k, v in place.items():
        ref = place['temperature'][0]
        if all(p is ref for p in v):
            c.ok(R1, k, f"row {ref!r}")
        elif all(x is not None and x.of is picks[ref].of and x.low == picks[ref].low for x in [picks[p] for p in v]) if picks[ref] else False:
            c.ok(R1, k, 'same choice')
        elif any(understood(p, picks) for p in v if p is not ref) and understood(ref, picks):
            c.bad(R1, k, f"temperature of the choice is row {ref!r}, {k} row {[p for p in v if p is not ref][0]!r}")
        else:
            c.und(R1, k, 'rows not compared')
    if len(slots) > 1:
        (c.bad if all(s.op in ('iv', 'const') for s in slots) else c.und)(R1, 'slot', f"stored under {slots}")
    ranges(c, r, got)
    p = picks[place['temperature'][0]]
    if p is None:
        c.und(R2, 'choice', 'how the level is chosen is not understood')
        return
    if not p.same:
        c.bad(R2, 'choice', 'the position is looked up with the extreme value of another array')
    c.that(p.low, R2, 'choice', 'smallest entry' if p.low else 'the largest entry is chosen')
    c.that(True if p.args else False, R2, 'missing variances', 'ignored' if p.args else 'a missing variance takes part in the comparison')
    ws, _start = writes(p.of)
    once(c, ws, place['temperature'][0], p, slots)
    variance(c, ws, r, p)


def understood(p, picks):
    return picks.get(p) is not None or p.op in ('iv', 'const')


def ranges(c, r, got):
    """Which array each result is read from."""
    theta = got['temperature'][0][1]
    pres = got['pressure'][0][1]
    want = through(r.args[4])
    c.that(True if theta is want else None, R1, 'temperature array', 'levels')
    ws = real(writes(theta)[0])
    found = set()
    for idx, v, cs in ws:
        n = through(v)
        t = tail(n)
        if t in MEAN and len(n.args) >= 2:
            x, at = element(n.args[1])
            if at:
                ivs(c, R7, 'mean over the profiles', at[0], idx[0])
            else:
                c.und(R7, 'mean over the profiles', 'row not found')
            if t == 'mean' and not dropped(at[1] if len(at) > 1 else None, x):
                c.bad(R7, 'profiles that do not reach the level', 'take part in the mean as missing values')
            interpolated(c, x, pres, found)
        elif t in SPREAD | OTHER:
            c.bad(R7, 'mean over the profiles', f"{t} is taken")
        else:
            c.und(R7, 'mean over the profiles', 'not understood')
    samples = got['samples'][0][1]
    closest(c, samples, want)


def dropped(i, x):
    m = i is not None and positions(i)
    return bool(m) and any(y.op in ('isnan', 'isfinite') for y in walk(m))


def interpolated(c, x, pres, found):
    for idx, v, cs in real(writes(x)[0]):
        n = through(v)
        if n.op == 'apply' and resolve(n.args[0]).op == 'call' and tail(resolve(n.args[0])) == 'interp1d':
            f = resolve(n.args[0])
            args = [a for a in f.args[1:] if isinstance(a, N) and a.op != 'kw']
            xs, ys, at = args[0], args[1], n.args[1]
        elif n.op == 'call' and tail(n) == 'interp':
            at, xs, ys = [a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw'][:3]
        else:
            c.und(R7, 'temperature at the pressure', 'not an interpolation')
            continue
        (px, pi), (tx, ti), (lx, li) = element(xs), element(ys), element(at)
        if len(pi) == 2 and len(ti) == 2 and len(idx) == 2:
            for what, got, want in (('of one profile', ti[1], idx[1]), ('pressures of the same profile', pi[1], idx[1])):
                ivs(c, R7, what, got, want)
            if pi[0] is not ti[0]:
                (c.bad if positions(pi[0]) is not None and positions(ti[0]) is not None else c.und)(R7, 'same samples', 'pressures and temperatures of different samples')
        if li:
            ivs(c, R7, 'at the pressure of its row', li[0], idx[0])
            c.that(True if lx is pres else None if lx.op not in ('mu', 'call', 'phi') else lx is pres, R7, 'pressure reported', 'the pressures interpolated at')
        bx, by = base(px), base(tx)
        if bx is not None and by is not None:
            c.that((bx, by) == ('pres', 'ptmp'), R7, 'temperature by pressure', f"{by} interpolated by {bx}")


def ivs(c, rule, inst, got, want):
    if got is want:
        c.ok(rule, inst, f"{got!r}")
    elif got.op in ('iv', 'const') and want.op == 'iv':
        c.bad(rule, inst, f"{got!r} used where {want!r} belongs")
    else:
        c.und(rule, inst, f"{got!r}")


def closest(c, samples, theta, who=R8):
    ws = real(writes(samples)[0])
    if not ws:
        c.und(who, 'closest sample', 'no entries found')
    for idx, v, cs in ws:
        p = pick(v)
        if p is None or len(idx) != 2:
            c.und(who, 'closest sample', 'choice not understood')
            continue
        c.that(p.low, who, 'closest sample', 'smallest distance' if p.low else 'largest distance')
        if not p.args:
            c.bad(who, 'missing temperatures', 'take part in the search')
        distances = list(cases(p.of, cs))
        for d, ds in distances:
            if is_nan(d) or d.op in ('list', 'call') and all(is_nan(resolve(a)) for a in d.args if isinstance(a, N)):
                continue
            e = resolve(d)
            diff = difference(e.args[0]) if e.op == 'abs' else difference(e.args[0]) if e.op == '**' else None
            if diff is None:
                raw = difference(e)
                if raw is not None and [x for x in raw if base(element(x)[0]) == 'ptmp' or resolve(x).op == 'abs' and base(element(resolve(x).args[0])[0]) == 'ptmp']:
                    c.bad(who, 'distance', 'the sign of the difference is kept, so the sample farthest below is taken')
                else:
                    c.und(who, 'distance', 'not understood')
                continue
            sides = [element(x) for x in diff]
            lev = [s for s in sides if s[0] is theta]
            prof = [s for s in sides if base(s[0]) is not None]
            if len(lev) != 1 or len(prof) != 1:
                c.und(who, 'distance', 'not between level and profile')
                continue
            (tx, ti), (px, pi) = lev[0], prof[0]
            c.that(base(px) == 'ptmp', who, 'distance in temperature', base(px))
            ivs(c, who, 'level', ti[0], idx[0])
            if len(pi) == 2:
                ivs(c, who, 'profile', pi[1], idx[1])
            inside(c, who, ds, theta, idx)


def inside(c, who, conds, theta, idx):
    low = high = None
    for l, pos in conds:
        l = resolve(l)
        if l.op not in ('<', '<='):
            continue
        for k in (0, 1):
            a, b = l.args[k], l.args[1 - k]
            e = element(a)
            x = extreme(b)
            if e[0] is theta and x is not None and base(element(x[2])[0]) == 'ptmp':
                at = element(x[2])[1] + (parts(x[3]) if x[3] is not None else ())
                if not at:
                    c.bad(who, 'range of the profile', 'of all profiles together')
                    continue
                if len(at) == 2 and at[1] is not idx[1]:
                    (c.bad if at[1].op in ('iv', 'const') else c.und)(who, 'range of the profile', 'of another profile')
                    continue
                above = (k == 1) == pos       # level > extreme
                if above and x[0]:
                    low = True
                elif not above and not x[0]:
                    high = True
                else:
                    c.bad(who, 'range of the profile', f"level {'above' if above else 'below'} the {'smallest' if x[0] else 'largest'} temperature")
    asked = any(y.op in ('<', '<=') and any(z is theta for z in walk(y)) for l, _p in conds for y in walk(l))
    c.that(True if low and high else False if low or high or not asked else None, who, 'inside the profile',
           'between the smallest and the largest temperature' if low and high else 'a level beyond the range of the profile gets a sample')


def once(c, ws, place, p, slots):
    hit = [w for w in ws if is_nan(w[1]) and w[0][0] is place]
    if hit:
        c.ok(R3, 'chosen level is blanked', f"at {place!r}")
        return
    same = [w for w in ws if is_nan(w[1]) and pick(w[0][0]) is not None and pick(w[0][0]).of is p.of]
    if same:
        c.that(all(pick(w[0][0]).low == p.low for w in same), R3, 'chosen level is blanked', 'the same choice')
        return
    others = [w for w in ws if w[0][0].op == 'iv' and is_nan(w[1]) and w[0][0] in slots]
    if p.of.op == 'mu' and p.of.next is not None and p.of.next is not p.of and not others:
        c.und(R3, 'chosen level is blanked', 'how it is taken out is not understood')
    else:
        c.bad(R3, 'chosen level is blanked', 'the variance of the chosen level stays, so it is chosen again' if not others else 'another level is blanked')


def variance(c, ws, r, p):
    seen = False
    for idx, v, cs in ws:
        if is_nan(v):
            m = positions(idx[0]) if pick(idx[0]) is None else None
            if m is not None:
                share(c, m, ws)
                seen = True
            continue
        n = through(v)
        t = tail(n)
        if t not in SPREAD:
            (c.bad if t in OTHER else c.und)(R5, 'variance', f"{t} is taken" if t else 'not understood')
            continue
        x, at = element(n.args[1])
        if not at:
            c.und(R5, 'variance', 'of what')
            continue
        ivs(c, R5, 'row', at[0], idx[0])
        if not t.startswith('nan') and not (len(at) > 1 and dropped(at[1], x)):
            c.bad(R5, 'missing salinities', 'make the variance missing')
        else:
            c.ok(R5, 'missing salinities', 'left out')
        q = {x.args[0]} if x.op == 'param' else quantity(x)
        c.that(None if q is None else q == {'sal'}, R5, 'quantity', f"{sorted(q) if q else q}")
    if not seen:
        if any(x.op == 'param' and x.args[0] == 'use_percent_gt' for w in ws for x in walk(w[1])):
            c.und(R4, 'levels reached by too few profiles', 'not understood')
        else:
            c.bad(R4, 'levels reached by too few profiles', 'are not taken out')
    both = through(r.args[3])
    c.that(True if both is p.of or p.of.op == 'mu' and through(p.of.init) is both else None, R5, 'variances reported', 'those ranked')


def quantity(x):
    """Measurements the entries of an array are read from."""
    out = set()
    for _i, v, _c in real(writes(x)[0]):
        n = through(v)
        if n.op == 'apply':
            args = [a for a in resolve(n.args[0]).args[1:] if isinstance(a, N) and a.op != 'kw']
            l = resolve(args[1])
            vals = l.args if l.op in ('list', 'tuple') else [l]
        else:
            vals = [n]
        for y in vals:
            b = base(element(y)[0])
            if b is None:
                return None
            out.add(b)
    return out or None


def share(c, m, ws):
    """Mask of levels taken out: share < use_percent_gt."""
    ls = lits(m)
    if len(ls) != 1 or ls[0][0].op not in ('<', '<='):
        c.und(R4, 'levels reached by too few profiles', 'condition not understood')
        return
    l, pos = ls[0]
    a, b = through(l.args[0]), through(l.args[1])
    strict = (l.op == '<') == pos
    if not pos:
        a, b = b, a
    limit = [k for k, x in enumerate((a, b)) if x.op == 'param' and x.args[0] == 'use_percent_gt']
    if len(limit) != 1:
        c.und(R4, 'levels reached by too few profiles', 'limit not found')
        return
    if limit[0] == 0:
        c.bad(R4, 'levels reached by too few profiles', 'levels reached by many profiles are taken out')
        return
    c.that(strict, R4, 'levels reached by too few profiles', 'share below the limit' if strict else 'a level with exactly the required share is taken out')
    whose = a
    vals = real(writes(whose)[0]) if whose.op in ('mu', 'store', 'comp') else [((), whose, ())]
    for idx, v, cs in vals:
        n = through(v)
        if n.op != '/':
            c.und(R6, 'share', 'not a quotient')
            continue
        top, low = through(n.args[0]), extreme(n.args[1])
        x, at = element(top)
        if low is None:
            d = through(n.args[1])
            if d.op in ('dim', 'size', 'const'):
                c.bad(R6, 'share', f"relative to {str(d)[:80]}, not to the level most profiles reach")
                continue
            c.und(R6, 'share', 'relative to what')
            continue
        c.that(not low[0], R6, 'relative to the level most profiles reach', 'largest count' if not low[0] else 'smallest count')
        c.that(True if low[2] is x else None, R6, 'counts', 'same counts')
        if idx and at:
            ivs(c, R6, 'level of the share', at[0], idx[0])
        for i2, v2, _c in real(writes(x)[0]):
            counted(c, i2, through(v2), ws)


def counted(c, idx, n, ws):
    if n.op in ('dim', 'size'):
        m = positions(n.args[0])
    elif n.op == 'call' and tail(n) in ('sum', 'count_nonzero', 'nansum', 'sum0'):
        m = resolve(n.args[1])
    else:
        m = None
    if m is None:
        c.und(R6, 'count', 'not understood')
        return
    neg = m.op == 'not'
    m = resolve(m.args[0]) if neg else m
    if m.op == 'isnan' and not neg or m.op == 'isfinite' and neg:
        c.bad(R6, 'count', 'missing salinities are counted')
        return
    if m.op not in ('isnan', 'isfinite'):
        c.und(R6, 'count', 'not understood')
        return
    x, at = element(m.args[0])
    if at:
        ivs(c, R6, 'level counted', at[0], idx[0])
    src = {element(through(v).args[1])[0] for _i, v, _c in ws if tail(through(v)) in SPREAD}
    c.that(True if x in src else None, R6, 'salinities counted', 'those the variance is taken of')

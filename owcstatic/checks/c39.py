"""C39: every diagnostic plot shows the data its labels, title and file name announce."""
import re

from ..report import Check
from .. import analyses as A
from ..ir import N, resolve, walk
from ..masks import is_nan, num
from ..levels import element, parts, positions, result, through, whole, writes
from ..paths import template
from .c06 import key_of
from .c17 import fname, SAVE, CREATE
from .c37 import ivs as ivs37, tail

R1, R2, R3, R4, R5, R6, R7 = (
    'calibrated plots show calibrated salinity', 'a curve shows what its label says', 'error bars belong to the values they surround',
    'both coordinates of a point are of one profile', 'axis labels name the quantity drawn', 'lines mark the chosen levels', 'mean offset of a profile')
R8 = 'anomaly relative to the median on the level'
R9 = 'salinity of a profile is read at the temperatures drawn'
R10 = 'positions on the map are those of the casts'
FIND = 'pyowc.core.finders:find_10thetas'
DRAW = {'plot', 'errorbar', 'fill_between', 'contourf', 'contour', 'scatter'}
WHAT = {'SAL': 'salinity', 'cal_SAL': 'salinity', 'la_mapped_sal': 'salinity', 'sta_SAL': 'salinity', 'PTMP': 'theta', 'la_ptmp': 'theta', 'PRES': 'pressure',
        'PROFILE_NO': 'profile', 'pcond_factor': 'factor', 'sta_mean': 'factor', ('find_10thetas', 0): 'theta', ('find_10thetas', 4): 'theta',
        ('find_10thetas', 1): 'pressure', ('find_10thetas', 3): 'variance', 'LONG': 'longitude', 'LAT': 'latitude'}
ERROR = {'la_mapped_sal': 'la_mapsalerrors', 'cal_SAL': 'cal_SAL_err', 'pcond_factor': 'pcond_factor_err', 'sta_SAL': 'sta_SAL_err'}
MEAN = {'nanmean', 'mean'}


def ivs(c, rule, inst, got, want):
    """got is the loop variable want; the variable moved by a constant is another place."""
    if got is not want and got.op in ('+', '-') and any(resolve(a) is want for a in got.args) and any(num(a) for a in got.args):
        c.bad(rule, inst, f"{got!r} used where {want!r} belongs")
        return
    ivs37(c, rule, inst, got, want)


def args_of(n):
    return [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']


class Sources:
    """Variables whose values an expression is made of (positions and conditions left aside)."""

    def __init__(self):
        self.memo = {}

    def of(self, n):
        n = resolve(n)
        if n not in self.memo:
            self.memo[n] = frozenset()
            out = self.make(n)
            self.memo[n] = out
            if n.op == 'mu':
                self.memo = {k: v for k, v in self.memo.items() if k is n or k.op != 'mu'}
                self.memo[n] = out
        return self.memo[n]

    def all(self, xs):
        out = frozenset()
        for x in xs:
            out |= self.of(x)
        return out

    def make(self, n):
        k = key_of(n)
        if k is not None:
            return frozenset([k])
        if n.op in ('const', 'nan', 'param', 'iv', 'dim', 'size', 'shape'):
            return frozenset()
        if n.op == 'getitem':
            f = resolve(n.args[0])
            if f.op == 'call' and f.args[0].startswith('pyowc.') and num(n.args[1]) is not None:
                return frozenset([(f.args[0].rsplit(':', 1)[-1], num(n.args[1]))])
            i = parts(n.args[1])
            if len(i) == 2 and num(i[1]) is not None:
                c = self.column(n.args[0], num(i[1]))
                if c is not None:
                    return self.of(c)
            return self.of(f)
        if n.op == 'mu':
            out = self.of(n.init)
            if n.next is not None:
                self.memo[n] = out
                out |= self.of(n.next)
            return out
        if n.op == 'phi':
            return self.all(n.args[1:])
        if n.op == 'comp':
            return self.of(n.args[2])
        if n.op in ('store', 'viewstore'):
            return self.all((n.args[0], n.args[2]))
        if n.op == 'apply':
            f = resolve(n.args[0])
            if f.op == 'call' and tail(f) == 'interp1d':
                return self.of(args_of(f)[1])
            return self.all(n.args)
        if n.op == 'call':
            a = args_of(n)
            if tail(n) == 'interp' and len(a) == 3:
                return self.of(a[2])
            if tail(n) in ('ones', 'zeros', 'empty', 'argwhere', 'where', 'nonzero', 'argsort', 'unique1', 'ones_like', 'zeros_like', 'empty_like', 'full', 'full_like', 'arange'):
                return frozenset()
            return self.all(a)
        return self.all([a for a in n.args if isinstance(a, N)])

    def column(self, n, k):
        n = through(n)
        while n.op == 'getitem' and len(parts(n.args[1])) == 1 and num(n.args[1]) is None:
            n = through(n.args[0])
        if n.op == 'T':
            m = through(n.args[0])
            if m.op == 'call' and tail(m) in ('vstack', 'array', 'stack') and isinstance(m.args[1], N):
                m = resolve(m.args[1])
            return m.args[k] if m.op in ('tuple', 'list') and k < len(m.args) else None
        if n.op == 'call' and tail(n) == 'column_stack':
            m = resolve(n.args[1])
            return m.args[k] if m.op in ('tuple', 'list') and k < len(m.args) else None
        return None


def text(n):
    """The literal words of a text."""
    try:
        return ' '.join(str(v) for k, v in template(n) if k == 'lit')
    except Exception:
        n = resolve(n)
        return ' '.join(str(x.args[0]) for x in walk(n) if x.op == 'const' and isinstance(x.args[0], str))


def figures(it):
    """Per saved figure: (save event, draw events, label events per panel)."""
    cur, out = [], []
    for e in it.events:
        if e.kind != 'call':
            continue
        if e.name in CREATE:
            cur = []
        elif e.name in SAVE or e.name.endswith('.savefig'):
            out.append((e, cur))
        elif e.name.rsplit('.', 1)[-1] in DRAW | {'axhline', 'axvline', 'subplot', 'xlabel', 'ylabel', 'title', 'set_xlabel', 'set_ylabel', 'set_title'}:
            cur.append(e)
    return out


def main():
    c = Check('C39', 'plots show what they announce',
              'Every drawing call made between the creation and the saving of a figure is looked at: the variables its values come from, and the '
              'label, title, axis and file name texts that go with it.', 'all figures of plot_diagnostics')
    it = A.run('plots', no_inline=(FIND,))
    c.covered(it)
    s = Sources()
    figs = figures(it)
    if not figs:
        c.und(R1, 'figures', 'none found')
    for e, draws in figs:
        name = text(fname(e)).strip() if isinstance(fname(e), N) else '?'
        name = re.sub(r'[^a-z_]+', ' ', name).strip() or '?'
        for r in (calibrated, labels, errors, together, axes, marks, offsets, anomaly, positioned):
            c.rule(lambda c, r=r: r(c, name, e, draws, s))
    return c.finish()


def data(e):
    a = list(e.args)
    kw = e.kwargs or {}
    if e.name.startswith('.') and a and not e.name.startswith('.pyplot'):
        a = a[1:]
    x = a[0] if a else kw.get('x')
    y = a[1] if len(a) > 1 else kw.get('y')
    return x, y, a, kw


def last(e):
    return e.name.rsplit('.', 1)[-1]


def panel_of(draws):
    """(panel number, event) with label events gathered per panel."""
    out, k = [], 0
    for e in draws:
        if last(e) == 'subplot':
            k += 1
        out.append((k, e))
    return out


def known_values(e, s):
    x, y, a, kw = data(e)
    vs = [v for v in (a[2:3] if last(e).startswith('contour') else a[:3] if last(e) == 'fill_between' else a[:2]) if isinstance(v, N)]
    return vs


def calibrated(c, name, e, draws, s):
    words = set(re.findall(r'(?:un)?calibrated', text(fname(e)) if isinstance(fname(e), N) else ''))
    titles = set()
    for d in draws:
        if last(d) in ('title', 'set_title') and isinstance(d.args[-1], N):
            titles |= set(re.findall(r'(?:un)?calibrated', text(d.args[-1])))
    if not words and not titles:
        return
    if len(words | titles) > 1:
        c.bad(R1, name, f"file name says {sorted(words)}, title {sorted(titles)}", e.loc)
        return
    want, other = ('SAL', 'cal_SAL') if 'uncalibrated' in words | titles else ('cal_SAL', 'SAL')
    seen, sal = False, set()
    for d in draws:
        if last(d) in DRAW:
            for v in known_values(d, s):
                src = s.of(v)
                sal |= set(src) & {'sta_SAL', 'la_mapped_sal'}
                if other in src:
                    c.bad(R1, name, f"draws {other}", d.loc)
                seen |= want in src
    c.that(True if seen else False if len(sal) == 1 else None, R1, name + ': drawn', want if seen else f"{', '.join(sorted(sal)) or 'nothing known'} instead of {want}")


LABEL = (('uncalibrated', {'SAL'}), ('calibrated', {'cal_SAL'}), ('mapped', {'la_mapped_sal'}))


def labels(c, name, e, draws, s):
    for d in draws:
        if last(d) not in DRAW or not isinstance((d.kwargs or {}).get('label'), N):
            continue
        t = text(d.kwargs['label'])
        x, y, a, kw = data(d)
        if not re.search(r'[A-Za-z]', t) and isinstance(y, N):
            numbered(c, name, d, kw['label'], x, y, s)
            continue
        if isinstance(kw.get('data'), N):
            src = s.of(kw['data'])
            for word, want, other in (('Float', {'LONG', 'LAT', 'PROFILE_NO'}, {'selected_hist'}), ('Climatology', {'selected_hist'}, {'LONG', 'LAT'})):
                if word in t and src & (want | other):
                    c.that(not src & other, R2, f"{name}: {t.strip()}", ', '.join(sorted(map(str, src))), d.loc)
            continue
        for word, want in LABEL:
            if re.search(r'\b' + word, t) and isinstance(y, N):
                src = {k for k in s.of(y) if k in ('SAL', 'cal_SAL', 'la_mapped_sal', 'sta_SAL')}
                c.that(None if not src else src == want, R2, f"{name}: {t.strip()}", ', '.join(sorted(src)), d.loc)
                break
        if '1-1 profile fit' in t and isinstance(y, N):
            src = s.of(y)
            ok = 'sta_mean' in src or 'sta_SAL' in src
            c.that(True if ok and not src & {'cal_SAL', 'pcond_factor'} else False if src & {'cal_SAL', 'pcond_factor'} else None, R2, f"{name}: {t.strip()}",
                   ', '.join(map(str, src)), d.loc)


def counters(n):
    return {v for v in walk(resolve(n)) if v.op == 'iv'}


def numbered(c, name, d, label, x, y, s):
    """A curve of one profile that is named by a number is named by the number of that profile."""
    l = resolve(label)
    if l.op == 'phi' or not counters(l) or not counters(y):
        return
    src = s.of(l)
    if 'PROFILE_NO' in src:
        same = counters(l) <= counters(y)
        core = through(l)
        shifted = core.op in ('+', '-', '*')
        c.that(True if same and not shifted else False if shifted else None, R2, f"{name}: curve of a profile", 'named by its number' if same else 'named by the number of another one', d.loc)
    elif not src & set(WHAT) and through(l).op in ('iv', '+', '-', 'str'):
        c.bad(R2, f"{name}: curve of a profile", 'named by its place instead of its number', d.loc)


def factor(n):
    """(k, rest) of k*rest."""
    n = through(n)
    k = 1
    while n.op in ('*', '/'):
        a, b = through(n.args[0]), through(n.args[1])
        if num(a) is not None and n.op == '*':
            k, n = k * num(a), b
        elif num(b) is not None:
            k, n = (k * num(b) if n.op == '*' else k / num(b)), a
        else:
            break
    return k, n


def errors(c, name, e, draws, s):
    for d in draws:
        x, y, a, kw = data(d)
        t = text(kw['label']) if isinstance(kw.get('label'), N) else ''
        if last(d) == 'errorbar':
            for k, v in (('yerr', y), ('xerr', x)):
                if isinstance(kw.get(k), N) and isinstance(v, N):
                    belong(c, name, s, v, kw[k], t, d)
        if last(d) == 'fill_between' and len(a) >= 3:
            up, low = through(a[1]), through(a[2])
            if low.op == '+' and up.op == '-':
                up, low = low, up
            if up.op == '+' and low.op == '-':
                ups, lows = [through(z) for z in up.args], [through(z) for z in low.args]
                if lows[0] in ups and [z for z in ups if z is not lows[0]] == [lows[1]]:
                    c.ok(R3, name + ': band', 'same value and error on both sides', d.loc)
                    belong(c, name, s, lows[0], lows[1], t, d)
                else:
                    c.bad(R3, name + ': band', 'the two sides are not the same value with the same error', d.loc)
            elif up.op in ('+', '-') and low.op in ('+', '-'):
                c.bad(R3, name + ': band', 'both sides lie on the same side of the value', d.loc)
            else:
                c.und(R3, name + ': band', 'not value plus and minus error', d.loc)


def belong(c, name, s, v, err, t, d):
    k, core = factor(err)
    vs, es = s.of(v), s.of(core)
    named = [key for key in ERROR if key in vs]
    errs = {x for x in es if x in ERROR.values()}
    inst = f"{name}: {t.strip() or 'errors of ' + '/'.join(sorted(map(str, vs)))}"
    if not named or not errs:
        stray = {x for x in es if x in ERROR or x in ('SAL', 'PTMP', 'PRES')}
        (c.bad if named and stray and not errs else c.und)(R3, inst, f"{sorted(map(str, es))} around {sorted(map(str, vs))}", d.loc)
    else:
        primary = [key for key in named if key == 'cal_SAL'] or named
        c.that(errs == {ERROR[primary[0]]}, R3, inst, f"{', '.join(errs)} around {primary[0]}", d.loc)
    m = re.search(r'\b(\d)\s*x\s*(?:cal )?err', t)
    if m and last(d) == 'errorbar':
        c.that(abs(k - int(m.group(1))) < 1e-9, R3, inst + ': multiple', f"{k:g} times the error", d.loc)
    same(c, R3, inst + ': place', v, core, d.loc)


def index_of(n):
    """Index parts without those that keep everything, as nodes."""
    x, at = element(factor(n)[1])
    at = tuple(i for i in at if not (i.op == 'const' and isinstance(i.args[0], str)))
    return x, tuple(i for i in at if not (i.op == 'slice' and all(resolve(y).op == 'const' and resolve(y).args[0] is None for y in i.args)))


def same(c, rule, inst, a, b, loc):
    """Two elements or rows are taken at the same place."""
    (xa, ia), (xb, ib) = index_of(a), index_of(b)
    if ia == ib:
        c.ok(rule, inst, 'same place', loc)
    elif len(ia) == 2 and ia == ib[::-1]:
        c.bad(rule, inst, 'row and column exchanged', loc)
    elif ia and ib and len(ia) == len(ib) and all(p is q or p.op in ('iv', 'const') and q.op in ('iv', 'const') for p, q in zip(ia, ib)):
        c.bad(rule, inst, f"taken at {ia} and at {ib}", loc)
    else:
        c.und(rule, inst, 'places not compared', loc)


def together(c, name, e, draws, s):
    for d in draws:
        if last(d) not in ('plot', 'errorbar', 'scatter', 'fill_between'):
            continue
        x, y, a, kw = data(d)
        if not isinstance(x, N) or not isinstance(y, N):
            continue
        if through(y).op in ('+', '-') and last(d) == 'fill_between':
            y = through(y).args[0]
        (bx, ix), (by, iy) = index_of(x), index_of(y)
        sx = s.of(x)
        if len(iy) == 2 and iy[1].op == 'iv':
            for g in walk(iy[0]):
                if g.op == 'getitem' and len(parts(g.args[1])) == 2 and s.of(g.args[0]) == {('find_10thetas', 2)}:
                    ivs(c, R4, f"{name}: sample on the level", parts(g.args[1])[1], iy[1])
            chosen(c, name, iy[0], s)
        inst = f"{name}: {'/'.join(sorted(map(str, s.of(y)))) or 'constant'} against {'/'.join(sorted(map(str, sx))) or 'constant'}"
        if not sx or not s.of(y):
            continue
        lx, ly = [i for i in ix if selecting(i)], [i for i in iy if selecting(i)]
        if backwards(lx) != backwards(ly):
            c.bad(R4, inst, 'one of them is read backwards', d.loc)
        elif ix == iy:
            c.ok(R4, inst, 'same index', d.loc)
        elif sx == {'PROFILE_NO'} or 'PROFILE_NO' in s.of(y):
            if [cut(i) for i in lx] == [cut(i) for i in ly]:
                c.ok(R4, inst, 'same profiles', d.loc)
            elif cuts_known(lx + ly):
                c.bad(R4, inst, f"profiles {lx} against {ly}", d.loc)
            else:
                c.und(R4, inst, 'profiles not compared', d.loc)
        else:
            same(c, R4, inst, x, y, d.loc)


def chosen(c, name, row, s):
    """The samples marked are the ones listed for the profile, not the numbers of the levels in the list."""
    x, at = element(row)
    if s.of(x) == {('find_10thetas', 2)}:
        c.ok(R4, f"{name}: sample of the level", 'the one listed')
        return
    m = positions(x)
    if m is not None and any(y.op == 'getitem' and result(y) and s.of(y) == {('find_10thetas', 2)} for y in walk(m)):
        c.bad(R4, f"{name}: sample of the level", 'the number of the level in the list is taken for the sample on it')


def backwards(xs):
    return sum(1 for i in xs if i.op == 'slice' and (num(i.args[2]) or 1) < 0) % 2


def selecting(i):
    """Index that leaves profiles out (or a scalar place in a list); rows 0 and loop variables keep all."""
    return not (i.op == 'const' or i.op == 'iv' or i.op in ('+', '-', '*') and not any(selecting(resolve(a)) for a in i.args))


def cut(i):
    m = positions(i if i.op != 'getitem' else resolve(i).args[0]) if i.op == 'getitem' else positions(i)
    return m if m is not None else i


def cuts_known(xs):
    return all(positions(resolve(i).args[0]) is not None if i.op == 'getitem' else i.op == 'slice' or positions(i) is not None for i in xs)


AXIS = ((r'salinity variance', 'variance'), (r'salinit|pss', 'salinity'), (r'pressure', 'pressure'), (r'theta|potential temp|circ', 'theta'), (r'profile num', 'profile'),
        (r'^\s*r\s*$', 'factor'), (r'longitude', 'longitude'), (r'latitude', 'latitude'))


def named(t):
    for pat, what in AXIS:
        if re.search(pat, t, re.I):
            return what
    return None


def axes(c, name, e, draws, s):
    panels = panel_of(draws)
    for k in sorted({p for p, _d in panels}):
        here = [d for p, d in panels if p == k]
        for d in here:
            if last(d) not in ('xlabel', 'ylabel') or not isinstance(d.args[-1], N):
                continue
            want = named(text(d.args[-1]))
            if want is None:
                continue
            for g in here:
                if last(g) not in DRAW:
                    continue
                v = data(g)[0 if last(d) == 'xlabel' else 1]
                if not isinstance(v, N):
                    continue
                r = resolve(v)
                if r.op == 'const' and isinstance(r.args[0], str):
                    c.that(r.args[0].lower() == want, R5, f"{name}: {want}", r.args[0], g.loc)
                    continue
                got = {WHAT[x] for x in s.of(v) if x in WHAT}
                if got:
                    c.that(got == {want}, R5, f"{name} panel {k}: {last(d)} {want}", ', '.join(sorted(got)), g.loc)


def sign(n):
    n = through(n)
    k, r = factor(n)
    while r.op == 'neg':
        k, r = -k, through(r.args[0])
        j, r = factor(r)
        k *= j
    if r.op == 'getitem':
        j, base = sign(r.args[0])
        if j != 1:
            return k * j, base
    return k, r


def marks(c, name, e, draws, s):
    panels = panel_of(draws)
    for p, d in panels:
        if last(d) != 'axhline':
            continue
        v = (d.kwargs or {}).get('y', d.args[0] if d.args else None)
        if not isinstance(v, N):
            continue
        k, core = sign(v)
        got = {WHAT[x] for x in s.of(core) if x in WHAT}
        for q, g in panels:
            if q == p and last(g) == 'plot':
                y = data(g)[1]
                ky, yc = sign(y)
                want = {WHAT[x] for x in s.of(yc) if x in WHAT}
                if got and want:
                    c.that(got == want, R6, f"{name} panel {p}", f"{sorted(got)} on an axis of {sorted(want)}", d.loc)
                    c.that(k == ky, R6, f"{name} panel {p}: direction", f"{k:g} and {ky:g}", d.loc)


def offsets(c, name, e, draws, s):
    for d in draws:
        if last(d) not in ('plot', 'errorbar'):
            continue
        x, y, a, kw = data(d)
        for v, role in ((y, 'offset'), (kw.get('yerr'), 'error')):
            if not isinstance(v, N):
                continue
            arr = element(factor(v)[1])[0]
            if arr.op not in ('mu', 'store', 'comp'):
                continue
            for idx, w, _cs in writes(arr)[0]:
                n = through(w)
                if n.op in ('+', '-') and role == 'offset':
                    two = [resolve(z) for z in n.args]
                    each = [s.of(z) & {'SAL', 'cal_SAL', 'sta_SAL'} for z in two]
                    if all(tail(z) in MEAN | {'nansum'} for z in two) and each[0] and each[1] and each[0] != each[1]:
                        c.bad(R7, f"{name}: {'/'.join(sorted(map(str, each[0] | each[1])))}: samples",
                              'the two means are taken over different samples when one of the values is missing', d.loc)
                if is_nan(n) or tail(n) not in MEAN | {'nansum', 'nanmedian', 'nanmax', 'nanmin', 'nanstd'}:
                    continue
                src = s.of(n)
                inst = f"{name}: {'/'.join(sorted(map(str, src)))}"
                c.that(tail(n) == 'nanmean', R7, inst + ': mean', tail(n), d.loc)
                m, at = element(n.args[1])
                if len(at) == 2 and len(idx) == 1 and at[0] is idx[0] and whole(at[1]):
                    c.bad(R7, inst + ': profile', 'mean over the profiles of one level', d.loc)
                elif len(at) == 2 and len(idx) == 1:
                    ivs(c, R7, inst + ': profile', at[1], idx[0])
                if role == 'error':
                    continue
                if m.op == '-':
                    p, q = s.of(m.args[0]), s.of(m.args[1])
                    c.that(q == {'SAL'} and p in ({'cal_SAL'}, {'sta_SAL'}), R7, inst + ': difference', f"{sorted(p)} - {sorted(q)}", d.loc)
                elif 'SAL' not in src and src & {'cal_SAL', 'sta_SAL'}:
                    c.bad(R7, inst + ': difference', 'the float salinity is not subtracted', d.loc)


def anomaly(c, name, e, draws, s):
    done = set()
    for d in draws:
        a = data(d)[2]
        if not last(d).startswith('contour') or len(a) < 3 or not isinstance(a[2], N):
            continue
        arr = element(a[2])[0]
        if arr in done or arr.op not in ('mu', 'store', 'comp'):
            continue
        done.add(arr)
        for idx, w, _cs in writes(arr)[0]:
            n = through(w)
            if is_nan(n):
                continue
            if n.op != '-':
                (c.bad if n.op in ('+', 'getitem', 'apply') else c.und)(R8, name, 'not a difference', d.loc)
                continue
            m, at = element(n.args[0])
            if len(at) == 2 and len(idx) == 2:
                ivs(c, R8, name + ': profile', at[1], idx[1])
                profiles(c, name, m, idx[1], a[1])
            med = element(n.args[1])[0]
            for i2, w2, _c2 in writes(med)[0]:
                q = through(w2)
                if is_nan(q):
                    continue
                if tail(q) not in ('nanmedian', 'median'):
                    (c.bad if tail(q) in ('nanmean', 'nanstd', 'mean', 'nanmax', 'nanmin', 'std') else c.und)(R8, name + ': level value', tail(q) or 'not understood', d.loc)
                    continue
                c.ok(R8, name + ': level value', tail(q), d.loc)
                r, rt = element(q.args[1])
                if r.op == 'T':
                    r, rt = through(r.args[0]), rt[::-1]
                c.that(True if r is m else None, R8, name + ': salinities', 'those the anomaly is of', d.loc)
                if len(rt) == 2 and len(i2) == 1:
                    ivs(c, R8, name + ': level', rt[0], i2[0])


def rows_of(n):
    """(row selections from the outermost, values selected from): a column of a table of columns is that column."""
    rows = []
    n = through(n)
    while True:
        if n.op == 'getitem' and not result(n):
            i = parts(n.args[1])
            if len(i) == 2 and num(i[1]) is not None:
                col = Sources().column(n.args[0], num(i[1]))
                if col is None:
                    return rows, n
                inner = through(n.args[0])
                if not whole(i[0]):
                    rows.append(i[0])
                while inner.op == 'getitem' and len(parts(inner.args[1])) == 1 and num(inner.args[1]) is None:
                    rows.append(parts(inner.args[1])[0])
                    inner = through(inner.args[0])
                n = through(col)
            elif len(i) == 1 and num(i[0]) is None:
                if not whole(i[0]):
                    rows.append(i[0])
                n = through(n.args[0])
            else:
                return rows, n
        else:
            return rows, n


def profiles(c, name, arr, over, levels):
    """Interpolated salinity of a profile: both sides of the pairs from the same samples, read at the levels drawn, for the profiles drawn."""
    for idx, w, _cs in writes(arr)[0]:
        v = through(w)
        f = resolve(v.args[0]) if v.op == 'apply' else v
        a = args_of(f) if f.op == 'call' else []
        if v.op == 'apply' and f.op == 'call' and tail(f) == 'interp1d' and len(a) >= 2:
            at, xs, ys = v.args[1], a[0], a[1]
        elif f.op == 'call' and tail(f) == 'interp' and len(a) == 3:
            at, xs, ys = a
        else:
            continue
        if len(idx) == 2:
            span(c, name, idx[1], over)
        x, i = element(at)
        y = element(levels)[0]
        if x is y and all(whole(p) for p in i):
            c.ok(R9, name + ': levels', 'those of the vertical axis')
        elif x.op in ('+', '-', '*', '/') and any(element(z)[0] is y for z in x.args if isinstance(z, N)) and any(num(z) is not None for z in x.args if isinstance(z, N)):
            c.bad(R9, name + ': levels', 'other temperatures than those of the vertical axis')
        elif x is y and len(i) == 1 and i[0].op == 'slice':
            c.bad(R9, name + ': levels', 'in another order than on the vertical axis')
        else:
            c.und(R9, name + ': levels', 'not compared')
        (rx, bx), (ry, by) = rows_of(xs), rows_of(ys)
        if bx.op in ('sorted',) or bx.op == 'call' and tail(bx) == 'sort' or by.op == 'sorted' or by.op == 'call' and tail(by) == 'sort':
            c.bad(R9, name + ': pairs', 'temperatures or salinities sorted on their own')
            continue
        known = bool(Sources().of(bx)) and bool(Sources().of(by))
        ends = [bx, by]
        for k, b in enumerate(ends):
            if b.op == 'getitem' and not result(b):
                i = parts(b.args[1])
                if len(i) == 2 and num(i[1]) is not None:
                    inner = through(b.args[0])
                    if inner.op == 'sorted' or inner.op == 'call' and tail(inner) == 'sort':
                        c.bad(R9, name + ': pairs', 'columns sorted each on its own')
                        known = None
        if known is None:
            continue
        ix, iy = [tuple(z for z in element(b)[1] if not (z.op == 'const' and isinstance(z.args[0], str))) for b in (bx, by)]
        if rx == ry and ix == iy:
            c.ok(R9, name + ': pairs', f"{len(rx)} selections of samples shared")
        elif known and len(rx) != len(ry) and (rx == ry[:len(rx)] or ry == rx[:len(ry)]) and ix == iy:
            c.bad(R9, name + ': pairs', 'temperature and salinity of different samples')
        elif rx == ry and len(ix) == len(iy) and all(p is q or p.op in ('iv', 'const') and q.op in ('iv', 'const') for p, q in zip(ix, iy)):
            c.bad(R9, name + ': pairs', f"temperatures at {ix} and salinities at {iy}")
        else:
            c.und(R9, name + ': pairs', 'samples not compared')


def span(c, name, filled, drawn):
    """Anomalies are computed for all profiles interpolated."""
    if filled is drawn:
        c.ok(R8, name + ': profiles', 'all interpolated ones')
        return
    if filled.op != 'iv' or drawn.op != 'iv':
        return
    for k, what in ((0, 'first'), (1, 'last')):
        a, b = resolve(filled.args[k]), resolve(drawn.args[k])
        if a is b:
            continue
        gap = shift(b, a)
        if gap is not None and (gap > 0) == (k == 0):
            c.bad(R8, name + ': profiles', f"the {what} profile has no anomaly")
            return
        if gap is None:
            c.und(R8, name + ': profiles', 'not compared')
            return
    c.ok(R8, name + ': profiles', 'all interpolated ones')


def shift(a, b):
    """a - b when they differ by a known constant."""
    def split(n):
        n, k = through(n), 0
        while n.op in ('+', '-'):
            x, y = resolve(n.args[0]), resolve(n.args[1])
            if num(y) is not None:
                k, n = k + (num(y) if n.op == '+' else -num(y)), through(x)
            elif num(x) is not None and n.op == '+':
                k, n = k + num(x), through(y)
            else:
                break
        return n, k
    (x, j), (y, k) = split(a), split(b)
    if num(x) is not None and num(y) is not None:
        return num(x) + j - num(y) - k
    return j - k if x is y else None


FRAME = {'LONG': 'longitude', 'LAT': 'latitude', 'PROFILE_NO': 'number'}


def column_of(n, s):
    """(what, order of the rows) of a column of a table of casts."""
    n = through(n)
    back = 0
    sel = []
    while True:
        k = key_of(n)
        if k in FRAME:
            return FRAME[k], 'float', back, sel
        if n.op in ('store', 'viewstore'):
            n = through(n.args[0])
        elif n.op == 'getitem':
            i = parts(n.args[1])
            if key_of(through(n.args[0])) == 'selected_hist' and len(i) == 2 and num(i[1]) is not None:
                if not whole(i[0]):
                    if i[0].op == 'slice' and (num(i[0].args[2]) or 1) < 0:
                        back += 1
                    else:
                        sel.append(i[0])
                return {0: 'longitude', 1: 'latitude', 2: 'profile'}.get(num(i[1]), '?'), 'climatology', back, sel
            if len(i) != 1 and not all(whole(p) or num(p) is not None for p in i):
                return None
            for p in i:
                if p.op == 'slice' and not whole(p):
                    if (num(p.args[2]) or 1) < 0:
                        back += 1
                    else:
                        sel.append(p)
                elif p.op not in ('slice', 'const'):
                    sel.append(p)
            n = through(n.args[0])
        elif n.op == 'call' and tail(n) in ('flip', 'flipud') and len(n.args) > 1:
            back += 1
            n = through(n.args[1])
        elif n.op == 'call' and tail(n) == 'sort' or n.op == 'sorted':
            sel.append(n)
            n = through(n.args[1] if n.op == 'call' else n.args[0])
        elif n.op == 'phi':
            n = through(n.args[1])
        else:
            return None


def frames(d, s):
    out = []
    for v in list(d.args) + list((d.kwargs or {}).values()):
        if not isinstance(v, N):
            continue
        for x in walk(v):
            if x.op == 'call' and tail(x) == 'DataFrame' and len(x.args) > 1:
                t = resolve(x.args[1])
                if t.op == 'dict' and t not in out:
                    out.append(t)
    return out


def positioned(c, name, e, draws, s):
    """The tables the map is drawn from: columns named after what they hold, rows of all columns in one order."""
    seen = set()
    for d in draws:
        if last(d) not in DRAW | {'annotate'} or not isinstance((d.kwargs or {}).get('data'), N):
            continue
        for t in frames(d, s):
            if t in seen:
                continue
            seen.add(t)
            cols = {}
            for k, v in zip(t.args[::2], t.args[1::2]):
                k = resolve(k) if isinstance(k, N) else k
                k = k.args[0] if isinstance(k, N) and k.op == 'const' else k
                if isinstance(k, str) and isinstance(v, N):
                    got = column_of(v, s)
                    if got is not None:
                        cols[k] = got
            for k, (what, who, back, sel) in cols.items():
                if k.lower() in ('longitude', 'latitude', 'number'):
                    c.that(what == k.lower(), R10, f"{name}: {who} {k}", what, d.loc)
            if cols:
                (first, ref), *rest = cols.items()
                for k, got in rest:
                    if got[1] != ref[1]:
                        c.bad(R10, f"{name}: {first} with {k}", f"of the {ref[1]} and of the {got[1]}", d.loc)
                    elif got[2] % 2 != ref[2] % 2:
                        c.bad(R10, f"{name}: {first} with {k}", 'one of them is in the opposite order', d.loc)
                    elif got[3] == ref[3]:
                        c.ok(R10, f"{name}: {got[1]} {first} with {k}", 'same casts', d.loc)
                    elif any(x.op == 'sorted' or x.op == 'call' and tail(x) == 'sort' for x in got[3] + ref[3]):
                        c.bad(R10, f"{name}: {first} with {k}", 'one of them is sorted on its own', d.loc)
                    else:
                        c.und(R10, f"{name}: {first} with {k}", 'casts not compared', d.loc)

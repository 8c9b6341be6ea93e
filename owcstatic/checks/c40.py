"""C40: the covariance used by the fit is vertical correlation within, times lateral correlation between profiles."""
from ..report import Check
from .. import analyses as A
from ..algebra import Alg, Cannot, Poly, fn, leaf, num as number, power
from ..ir import N, resolve, walk
from ..masks import is_nan, num
from ..levels import base, element, lits, parts, positions, through, whole, writes

R1, R2, R3, R4, R5, R6, R7 = ('block of a pair of profiles', 'vertical correlation', 'scale of the water mass on the right side', 'same sample',
                              'missing temperature', 'profiles one after the other', 'lateral correlation of a pair of profiles')
R8 = 'short scales between profiles'
COV, PV = 'pyowc.core.stats:build_cov', 'pyowc.core.stats:covarxy_pv'
GRID = (30, 24, 18, 12, 8, 4, 2.5, 1, -2)
DOWN, UP = (6, 6, 6, 4, 4, 1.5, 1.5, 1, 1), (6, 6, 6, 6, 4, 4, 1.5, 1.5, 1)
TILES = ('numpy.tile', 'numpy.repeat', 'numpy.hstack', 'numpy.concatenate')


class Form(Alg):
    def __init__(self):
        super().__init__(self.named)

    def named(self, n):
        if n.op == 'iv':
            return ('iv', n.id)
        if n.op == 'dim' and resolve(n.args[0]).op == 'param' and num(n.args[1]) in (0, 1):
            return ('samples', 'profiles')[num(n.args[1])],
        if n.op == 'getitem':
            x, at = element(n)
            if x.op == 'param' and x.args[0] == 'ptmp' and len(at) == 2:
                return ('T',) + tuple(repr(self.poly(i)) for i in at)
        if n.op == 'apply':
            f = resolve(n.args[0])
            if f.op == 'call' and f.args[0].endswith('interp1d'):
                a = [x for x in f.args[1:] if isinstance(x, N) and x.op != 'kw']
                return ('L', table(a[0]), table(a[1]), repr(self.poly(n.args[1])))
        if n.op == 'call' and n.args[0] == 'numpy.interp':
            a = [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
            return ('L', table(a[1]), table(a[2]), repr(self.poly(a[0])))
        return None

    def of(self, n):
        return self.poly(n)


def table(n):
    n = through(n)
    flip = False
    while n.op == 'getitem' and all(p.op == 'slice' for p in parts(n.args[1])) or n.op == 'call' and n.args[0] == 'numpy.flip':
        flip = not flip
        n = through(n.args[0] if n.op == 'getitem' else n.args[1])
    if n.op in ('list', 'tuple') and all(num(a) is not None for a in n.args):
        v = tuple(num(a) for a in n.args)
        return v[::-1] if flip else v
    return None


def scale_of(grid, values):
    if grid is None or values is None or len(grid) != len(values):
        return None
    return dict(zip(grid, values))


def main():
    c = Check('C40', 'covariance for the fit',
              'build_cov is read block by block and entry by entry; entries are compared as formulas with the correlation of two samples, row and '
              'column positions as formulas with profile times samples plus sample.', 'all inputs and branches of build_cov')
    it = A.fn(COV, None, (PV,))
    if it is None:
        c.und(R1, 'build_cov', 'function not found')
        return c.finish()
    c.covered(it)
    c.rule(blocks, it)
    return c.finish()


def atom(k):
    return leaf(k)


def full(i, k, only=False):
    """A loop over all samples (k=0) or all profiles (k=1)?  False is only said of the only loop that fills these entries."""
    if i.op != 'iv':
        return None
    s = resolve(i.args[1])
    if only and (num(i.args[0]) not in (0, None) or resolve(i.args[0]).op == 'iv' or num(i.args[2]) not in (1, -1, None)):
        return False
    if only and s.op == '-' and num(s.args[1]) is not None and num(s.args[1]) > 0 and num(i.args[0]) == 0:
        return full_to(s.args[0], k) and False
    if num(i.args[0]) != 0 or num(i.args[2]) != 1:
        return None
    return full_to(s, k)


def full_to(s, k):
    s = resolve(s)
    if s.op == 'dim' and resolve(s.args[0]).op == 'param':
        p, d = resolve(s.args[0]).args[0], num(s.args[1])
        if p == 'ptmp':
            return d == k
        if p == 'coord_float' and d == 0:
            return k == 1
    return None


def stretch(f, sl, what):
    """The loop variable of a slice p*samples : (p+1)*samples, None if it is something else, or a text saying what is wrong."""
    if sl.op != 'slice':
        return None
    lo, hi = f.poly(sl.args[0]), f.poly(sl.args[1])
    n = atom(('samples',))
    ivs = [y for x in (sl.args[0], sl.args[1]) for y in walk(resolve(x)) if y.op == 'iv']
    for p in dict.fromkeys(ivs):
        a = atom(('iv', p.id))
        if lo.same(a * n) and hi.same(a * n + n):
            return p
    if ivs and len(set(ivs)) == 1:
        return f"rows {lo!r} to {hi!r}"
    return None


def factors(n):
    n = through(n)
    return factors(n.args[0]) + factors(n.args[1]) if n.op == '*' else [n]


def blocks(c, it):
    f = Form()
    r = resolve(it.ret_node)
    ws, start = writes(r)
    ws = [w for w in ws if not is_nan(w[1])]
    if not ws:
        c.und(R1, 'result', 'how it is filled is not understood')
        return
    tiles, done = [], False
    for idx, v, cs in ws:
        if len(idx) != 2 or idx[0].op != 'slice':
            c.und(R1, 'result', 'not filled block by block')
            continue
        p, q = stretch(f, idx[0], 'row'), stretch(f, idx[1], 'column')
        for k, x in (('rows', p), ('columns', q)):
            if isinstance(x, str):
                c.bad(R1, k + ' of a block', x)
        if not isinstance(p, N) or not isinstance(q, N):
            if p is None or q is None:
                c.und(R1, 'blocks', 'place of a block not understood')
            continue
        c.ok(R1, 'place', 'block of the two profiles')
        for k, x in (('row', p), ('column', q)):
            w = full(x, 1, len(ws) == 1)
            c.that(w, R1, k + ' profiles', 'all profiles' if w else repr(x))
        if p is q:
            c.bad(R1, 'pairs', 'only blocks of a profile with itself')
            continue
        done = True
        block(c, f, v, idx, p, q, r, tiles)
    for s in start:
        start_of = through(s)
        if start_of.op == 'call' and start_of.args[0] in TILES:
            tiles.append(start_of.args[1])
    for t in dict.fromkeys(through(x) for x in tiles):
        vertical(c, f, t)
    if done and not tiles:
        c.und(R2, 'vertical part', 'not found')


def block(c, f, v, idx, p, q, r, tiles):
    fs = factors(v)
    lateral, rest = [], []
    for x in fs:
        b, at = element(x)
        at = [i for i in at if not i.op == 'slice']
        (lateral if len(at) == 2 and all(i.op in ('iv', 'const') for i in at) else rest).append((x, b, at))
    if len(lateral) == 0 and through(v).op in ('+', '-') and any(len([i for i in element(x)[1] if i.op == 'iv']) == 2 for x in through(v).args):
        c.bad(R7, 'factor', 'the lateral correlation is added to the vertical one')
        return
    if len(lateral) != 1 or len(rest) != 1:
        got = [x for x, _b, _a in lateral + rest]
        for x, _b, at in rest:
            ends = [i.op == 'call' and str(i.args[0]).rsplit('.', 1)[-1] in ('max', 'min', 'maximum', 'minimum') for i in map(resolve, at)]
            if len(at) == 2 and ends.count(True) == 1 and any(resolve(i).op == 'iv' for i in at):
                c.bad(R7, 'factor', f"the correlation of profiles ({', '.join(str(i)[:60] for i in at)}) is taken for some pairs")
                return
        (c.bad if len(fs) == 1 and not lateral and element(fs[0])[0].op == 'mu' else c.und)(R7, 'factor', 'blocks are not multiplied by one lateral correlation')
        return
    x, b, at = lateral[0]
    if set(at) == {p, q}:
        c.ok(R7, 'pair', 'of the two profiles of the block')
    else:
        c.bad(R7, 'pair', f"correlation of {at} in the block of {[p, q]}")
    lateral_array(c, b)
    x, b, at = rest[0]
    src, i = element(x)
    if src.op in ('mu', 'store') and writes(src)[0] == writes(r)[0]:
        if tuple(i) == tuple(idx):
            c.ok(R1, 'scaled in place', 'its own block')
        else:
            c.bad(R1, 'scaled in place', 'values of another block')
    else:
        pp = stretch(f, i[0], 'row') if i else None
        if isinstance(pp, N):
            c.that(pp is p, R1, 'vertical part', 'of the profile of the row' if pp is p else 'of another profile')
        else:
            c.und(R1, 'vertical part', 'not understood')
        tiles.append(src)


def lateral_array(c, b):
    b = through(b)
    if b.op == 'call' and b.args[0] == PV:
        c.und(R7, 'row', 'single row')
        return
    ws = [w for w in writes(b)[0] if not is_nan(w[1])]
    if not ws:
        c.und(R7, 'matrix', 'not understood')
    for idx, v, cs in ws:
        n = through(v)
        if n.op != 'call' or n.args[0] != PV:
            c.und(R7, 'row', 'not the correlation function')
            continue
        scales(c, n)
        at, every = element(n.args[1]), element(n.args[2])
        at = (at[0], tuple(i for i in at[1] if not whole(i)))
        if at[0].op != 'param' or every[0].op != 'param' or every[1]:
            c.und(R7, 'row', 'positions not understood')
            continue
        c.that(at[0].args[0] == every[0].args[0] == 'coord_float', R7, 'positions', 'of the float')
        if len(at[1]) == 1:
            if at[1][0] is idx[0]:
                c.ok(R7, 'row', 'of its own profile')
            else:
                (c.bad if at[1][0].op in ('iv', 'const') else c.und)(R7, 'row', f"row {idx[0]!r} is of profile {at[1][0]!r}")


def scales(c, n):
    kw = {x.args[0]: x.args[1] for x in n.args[1:] if isinstance(x, N) and x.op == 'kw'}
    pos = [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
    for k, name, want in ((2, 'long', 'MAPSCALE_LONGITUDE_SMALL'), (3, 'lat', 'MAPSCALE_LATITUDE_SMALL'), (4, 'phi', 'MAPSCALE_PHI_SMALL'),
                          (5, 'use_pv', 'MAP_USE_PV')):
        v = kw.get(name) if name in kw else pos[k] if k < len(pos) else None
        key = setting(v)
        c.that(None if key is None else key == want, R8, name, key or 'not understood')


def setting(v):
    if v is None:
        return None
    v = resolve(v)
    if v.op == 'getitem' and base(v.args[0]) and resolve(v.args[1]).op == 'const':
        return resolve(v.args[1]).args[0]
    if v.op == 'call' and v.args[0].endswith('.get'):
        k = [resolve(x) for x in v.args[1:] if isinstance(x, N)]
        return next((x.args[0] for x in k if x.op == 'const'), None)
    return None


def vertical(c, f, t):
    ws, start = writes(t)
    places = {(i[0], i[1]) for i, _v, _c in ws if len(i) == 2}
    seen = {'only': len(places) == 1}
    filled = False
    for idx, v, cs in ws:
        if len(idx) == 1 and positions(idx[0]) is not None:
            m = positions(idx[0])
            if m.op == 'isnan' and writes(m.args[0])[0] and num(v) is not None:
                seen['missing'] = True
                c.that(num(v) == 1, R5, 'value', num(v))
            else:
                c.und(R2, 'entries', 'changed under a condition not understood')
            continue
        if len(idx) != 2:
            c.und(R2, 'entry', 'not understood')
            continue
        if idx[0].op == 'slice':
            p = stretch(f, idx[0], 'row')
            if isinstance(p, str):
                c.bad(R6, 'rows of a profile', p)
            elif isinstance(p, N) and through(v).op in ('mu', 'store', 'comp'):
                for i2, v2, c2 in writes(through(v))[0]:
                    if len(i2) == 2:
                        filled |= entry(c, f, i2[0], p, i2[1], v2, cs + c2, seen)
            else:
                c.und(R6, 'rows of a profile', 'not understood')
            continue
        place = where(c, f, idx[0])
        if place is None:
            if positions(idx[0]) is not None or len(idx) == 1:
                continue
            c.und(R6, 'row', repr(f.poly(idx[0])))
            continue
        filled |= entry(c, f, place[0], place[1], idx[1], v, cs, seen)
    if not filled:
        c.und(R2, 'entries', 'none understood')
        return
    if not seen.get('missing'):
        c.that(False if seen.get('formula') and not seen.get('other') else None, R5, 'missing', 'the entry of a missing temperature stays missing')
    else:
        c.ok(R5, 'missing', 'entry 1')
    for side in ('below', 'above'):
        if side not in seen:
            c.und(R3, side, 'no entry found for samples ' + side)
    if 'diagonal' in seen:
        c.ok(R4, 'diagonal', '1')


def where(c, f, row):
    """(sample loop, profile loop) of row = sample + profile*samples."""
    ivs = list(dict.fromkeys(y for y in walk(row) if y.op == 'iv'))
    if len(ivs) != 2:
        return None
    got = f.poly(row)
    n, m = atom(('samples',)), atom(('profiles',))
    for a, b in (ivs, ivs[::-1]):
        if got.same(atom(('iv', a.id)) + atom(('iv', b.id)) * n):
            return a, b
    for a, b in (ivs, ivs[::-1]):
        if got.same(atom(('iv', a.id)) + atom(('iv', b.id)) * m):
            c.bad(R6, 'row', 'samples of a profile are not kept together: ' + repr(got))
            return None
    return None


def entry(c, f, i, p, j, v, cs, seen):
    if i.op != 'iv' or j.op != 'iv' or p.op != 'iv':
        c.und(R2, 'entry', 'place not understood')
        return False
    for k, x, d in (('row', i, 0), ('column', j, 0), ('profile', p, 1)):
        w = full(x, d, seen['only'])
        c.that(w, R6, f"{k} loop", 'all of them' if w else repr(x))
    side = None
    for l, pos in cs:
        if l.op in ('<', '<='):
            a, b = resolve(l.args[0]), resolve(l.args[1])
            if {a, b} == {i, j} and (l.op == '<') == pos:
                first = a if pos else b
                side = 'below' if first is i else 'above'       # smaller number first: i < j means j lies below i
    n = resolve(v)
    if num(n) is not None:
        if any(l.op == 'isnan' and pos for l, pos in cs):
            seen['missing'] = True
            c.that(num(n) == 1, R5, 'value', num(n))
            return True
        if side is None and any(l.op == '<' and not pos for l, pos in cs) or any(l.op == '==' and pos and {resolve(x) for x in l.args} == {i, j} for l, pos in cs):
            seen['diagonal'] = True
            c.that(num(n) == 1, R4, 'value', num(n))
            return True
        if side is not None:
            c.bad(R2, side, f"constant {num(n)}")
            return True
        seen['other'] = True
        c.und(R2, 'entry', f"constant {num(n)} under conditions not understood")
        return False
    if n.op == 'call' and n.args[0] == 'numpy.nan_to_num':
        kw = {x.args[0]: x.args[1] for x in n.args[1:] if isinstance(x, N) and x.op == 'kw'}
        if 'nan' in kw and num(kw['nan']) is not None:
            seen['missing'] = True
            c.that(num(kw['nan']) == 1, R5, 'value', num(kw['nan']))
        n = resolve(n.args[1])
    elif n.op == 'phi':
        seen['other'] = True
    try:
        got = f.of(n)
    except Cannot as e:
        c.und(R2, 'entry', f"formula: {e}")
        return False
    seen['formula'] = True
    ti = ('T', repr(f.poly(i)), repr(f.poly(p)))
    tj = ('T', repr(f.poly(j)), repr(f.poly(p)))
    ls = [a for m in atoms(got) for a in (m,) if a[0] == 'L']
    d = atom(tj) - atom(ti)
    for L in dict.fromkeys(ls):
        want = fn('exp', (d * d * power(atom(L), -2)).scale(-1))
        if got.same(want):
            c.ok(R2, side or 'entry', 'exp(-(difference/scale)^2)')
            break
    else:
        temps = [a for a in atoms(got) if a[0] == 'T']
        c.bad(R2, side or 'entry', f"{got!r} instead of exp(-(T[{j!r}]-T[{i!r}])^2/scale^2)") if ls and temps else c.und(R2, side or 'entry', repr(got))
        return True
    at = L[3]
    want = repr(atom(ti))
    c.that(True if at == want else False if at == repr(atom(tj)) or at.count('T') == 1 else None, R3, (side or 'entry') + ': water mass', 'of the sample of the row' if at == want else at)
    if side is None:
        c.und(R3, 'entry', 'side not understood')
        return True
    seen[side] = True
    good, other = (DOWN, UP) if side == 'below' else (UP, DOWN)
    got_t = scale_of(L[1], L[2])
    if got_t is None:
        c.und(R3, side + ': scales', 'table not understood')
    else:
        c.that(got_t == dict(zip(GRID, good)), R3, side + ': scales',
               'looking ' + ('down' if side == 'below' else 'up') if got_t == dict(zip(GRID, good)) else 'scales for the other direction' if got_t == dict(zip(GRID, other)) else repr(got_t))
    return True


def atoms(p):
    out = []
    for m in p.t:
        for a, _e in m:
            out += inner(a)
    return out


def inner(a):
    if isinstance(a, tuple) and a and a[0] in ('L', 'T', 'iv', 'samples', 'profiles'):
        return [a]
    if isinstance(a, tuple):
        return [y for x in a for y in inner(x)]
    return []

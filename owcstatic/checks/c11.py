"""C11: profiles flagged bad are never calibrated, segments do not mix."""
from ..report import Check
from .. import analyses as A
from ..algebra import Cannot, LAYOUT
from ..content import Content
from ..ir import N, resolve, walk
from ..masks import mask_of, component, num
from .. import stages
from .c06 import key_of
from .c32 import calib, leaf_of

R1, R2, R3, R4 = ('the segments are all values of calseries except zero', 'results are stored in the columns of their own segment',
                  'only columns of the own segment are used', 'break points and limits are those of the own segment')
FREE = {'PROFILE_NO', 'fcoef', 'fbreaks'}
PROFILES = {'SAL', 'PTMP', 'PRES', 'LAT', 'LONG', 'DATES', 'PROFILE_NO', 'la_mapped_sal', 'la_mapsalerrors', 'la_ptmp', 'la_noise_sal',
            'la_signal_sal', 'la_profile_no'}
SETTINGS = {'breaks', 'max_breaks'}


def strip(n):
    n = resolve(n)
    while n.op == 'call' and n.args[0] in LAYOUT and len(n.args) > 1 and n.args[0] not in ('numpy.tile', 'numpy.repeat'):
        n = resolve(n.args[1])
    return n


def is_calseries(n):
    n = strip(n)
    while n.op in ('T', 'getitem') and key_of(n) is None:
        i = resolve(n.args[1]) if n.op == 'getitem' else None
        if i is not None and num(i) not in (0, None):
            return False
        if i is not None and num(i) is None:
            return False
        n = strip(n.args[0])
    return key_of(n) == 'calseries'


class Segments:
    """Recognises the selection of the columns of one segment."""

    def __init__(self):
        self.sets = {}          # (U node, iv node) -> places

    def of(self, s):
        """(U, iv) when the index selects the columns with calseries == U[iv], 'other' for another selection, None when not understood."""
        s = strip(s)
        m = mask_of(s)
        if m is None:
            # a run of columns also takes in the profiles of others (or flagged) in between
            run = s.op == 'call' and s.args[0] in ('numpy.arange', 'range')
            return 'other' if run and any(mask_of(x) is not None for a in s.args[1:] if isinstance(a, N) for x in walk(a)) else None
        m = resolve(m)
        if m.op != '==' or len(m.args) != 2:
            return 'other' if any(is_calseries(x) for x in getattr(m, 'args', ()) if isinstance(x, N)) else None
        for a, b in (m.args, m.args[::-1]):
            if is_calseries(a):
                b = strip(b)
                if b.op == 'getitem' and resolve(b.args[1]).op == 'iv':
                    flat = strip_flat(a)
                    k = component(s)
                    if not flat and k == 0:
                        return 'other'
                    return (resolve(b.args[0]), resolve(b.args[1]))
                return 'other'
        return None


def strip_flat(n):
    """Whether the mask is over the flattened flags."""
    n = resolve(n)
    while n.op in ('call', 'getitem', 'T') and key_of(n) is None:
        if n.op == 'call' and n.args[0] == 'numpy.ravel' or n.op == 'getitem':
            return True
        n = resolve(n.args[1] if n.op == 'call' else n.args[0])
    return False


def zero_test(m, x):
    """m is x == 0 (True), x != 0 (False) or neither (None), element by element."""
    m = resolve(m)
    if m.op == 'not':
        v = zero_test(m.args[0], x)
        return None if v is None else not v
    if m.op in ('==', '<', '<=') and len(m.args) == 2:
        a, b = resolve(m.args[0]), resolve(m.args[1])
        if m.op == '==' and (a is x and num(b) == 0 or b is x and num(a) == 0):
            return True
        if m.op == '<' and b is x and num(a) == 0:
            return False                         # flags are not negative
    return None


def values_of(u, depth=0):
    """(is made of the values of calseries, zero left out) of the set of segment numbers."""
    u = strip(u)
    if depth > 12:
        return None
    if u.op == 'call' and u.args[0] in ('numpy.unique', 'set', 'sorted', 'list', 'numpy.sort', 'builtins.set') or u.op == 'sorted':
        x = u.args[1] if u.op == 'call' else u.args[0]
        if is_calseries(x):
            return (True, False)
        return values_of(x, depth + 1)
    if is_calseries(u):
        return (True, False)
    if u.op == 'call' and u.args[0] == 'numpy.setdiff1d':
        b = resolve(u.args[2])
        zero = num(b) == 0 or b.op in ('list', 'tuple') and any(num(x) == 0 for x in b.args)
        r = values_of(u.args[1], depth + 1) or ((True, False) if is_calseries(u.args[1]) else None)
        return r and (r[0], zero)
    if u.op == 'call' and u.args[0] == 'numpy.delete' or u.op == 'without':
        x, i = (u.args[1], u.args[2]) if u.op == 'call' else u.args[:2]
        m = mask_of(i)
        r = values_of(x, depth + 1)
        if r is None:
            return None
        z = None if m is None else zero_test(m, resolve(x))
        return (r[0], True) if z is True else (False, False)
    if u.op == 'getitem':
        x, i = resolve(u.args[0]), resolve(u.args[1])
        r = values_of(x, depth + 1)
        m = mask_of(i)
        if r is None or m is None:
            return None
        return (r[0], True) if zero_test(m, x) is False else (False, False)
    if u.op == 'comp':
        iv, cond, e = u.args
        e = strip(e)
        if e.op == 'getitem':
            r = values_of(e.args[0], depth + 1)
            if r is None:
                return None
            c = resolve(cond)
            if c.op == 'const' and c.args[0] is True:
                return r
            return (r[0], True) if zero_test(c, e) is False else (False, False)
        return None
    if u.op == 'phi':
        c, a, b = (resolve(x) for x in u.args)
        ra, rb = values_of(a, depth + 1), values_of(b, depth + 1)
        if ra is None or rb is None:
            return None
        out = ra[0] and rb[0]
        za, zb = ra[1], rb[1]
        e = nonempty(c)
        if e is not None:
            for arm, pol in ((a, True), (b, False)):
                z = zero_test(e[0], strip(arm))
                if z is True and (e[1] != pol):           # no zero among the values on this arm
                    if arm is a:
                        za = True
                    else:
                        zb = True
        return (out, za and zb)
    return None


def nonempty(c):
    """(mask, polarity) when c says that some element of the mask is true."""
    c = resolve(c)
    if c.op == 'not':
        r = nonempty(c.args[0])
        return r and (r[0], not r[1])
    if c.op in ('<', '==') and len(c.args) == 2:
        a, b = resolve(c.args[0]), resolve(c.args[1])
        for x, y in ((a, b), (b, a)):
            if num(x) == 0 and y.op in ('dim', 'size'):
                m = mask_of(resolve(y.args[0]))
                if m is not None and (c.op == '==' or x is a):
                    return (m, c.op == '<')
    if c.op == 'call' and c.args[0].endswith('any'):
        m = mask_of(c.args[1])
        return m and (m, True)
    if c.op in ('contains', 'in'):
        return None
    return None


def items(i):
    i = resolve(i)
    return [resolve(x) for x in (i.args if i.op == 'tuple' else (i,))]


def whole(x):
    return x.op == 'slice' and all(resolve(y).op == 'const' and resolve(y).args[0] is None for y in x.args)


def unwrap(i, v):
    """Index and value of a store, through views of rows."""
    path = [i]
    v = resolve(v)
    while v.op in ('store', 'viewstore') and resolve(v.args[0]).op in ('getitem', 'mu', 'phi', 'store'):
        path.append(resolve(v.args[1]))
        v = resolve(v.args[2])
    return path, v


def bottoms(n):
    seen, todo, out = set(), [n], []
    while todo:
        x = resolve(todo.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'mu':
            todo += [y for y in (x.init, x.next) if y is not None]
        elif x.op == 'phi':
            todo += x.args[1:]
        elif x.op in ('store', 'viewstore'):
            todo.append(x.args[0])
        else:
            out.append(x)
    return out


def uses(c, seg, here, root, what, loc, rule=R3):
    """Walk a value: per-profile data must be taken through the selection of the segment."""
    seen, todo, bad, n = set(), [root], [], 0
    sels = []
    while todo:
        x = resolve(todo.pop())
        if x in seen or x.op in ('dim', 'shape', 'size'):
            continue
        seen.add(x)
        if x.op == 'getitem':
            its = items(x.args[1])
            ss = [(p, seg.of(s)) for p, s in enumerate(its) if not whole(s) and s.op != 'const']
            hit = [p for p, r in ss if r == here]
            if hit:
                n += 1
                if key_of(x.args[0]) and len(its) > 1 and hit[0] != len(its) - 1:
                    bad.append((key_of(x.args[0]), 'rows selected instead of profiles'))
                continue
            wrong = [r for p, r in ss if r == 'other' or isinstance(r, tuple)]
            if wrong:
                bad.append((key_of(strip(x.args[0])) or str(x.args[0])[:60], 'columns of another segment'))
                continue
            other = [s for p, r in ss for s in [its[p]] if r is None and (s.op in ('slice', 'iv'))]
            if other and has_columns(seg, x.args[0], here):
                bad.append(('a result', f"columns {str(other[0])[:60]} instead of those of the segment"))
                continue
            if any(is_iv(s, here[1]) for s in its):
                n += 1
                k = key_of(x.args[0])
                if k in PROFILES:
                    bad.append((k, 'the segment counter is used as a profile'))
                continue
        k = key_of(x)
        if k in PROFILES:
            bad.append((k, 'all profiles'))
            continue
        if k in SETTINGS:
            bad.append((k, 'not the row of the segment'))
            continue
        if k is not None:
            continue
        if x.op == 'mu':
            todo += [y for y in (x.init, x.next) if y is not None]
        elif x.op == 'phi':
            todo += x.args[1:]
        elif x.op in ('store', 'viewstore'):
            todo += [x.args[0], x.args[2]]
        else:
            todo += [y for y in x.args if isinstance(y, N)]
    for k, why in sorted(set(bad)):
        c.bad(R4 if k in SETTINGS else rule, f"{what}: {k}", why, loc)
    if not bad:
        c.ok(rule, what, f"{n} selections, all of the segment", loc)
    return seen


def has_columns(seg, n, here):
    """An array with one column per profile of the float, filled segment by segment."""
    n = resolve(n)
    while n.op in ('getitem', 'T') and not (n.op == 'getitem' and any(seg.of(s) for s in items(n.args[1]))):
        n = resolve(n.args[0])
    for _k, i, v in [s for s in stages.spine(n) if s[0] == 'store']:
        path, _v = unwrap(i, v)
        if any(seg.of(s) == here for p in path for s in items(p)):
            return True
    return False


def is_iv(s, iv):
    s = resolve(s)
    return s is iv


def rules(c, it):
    seg = Segments()
    ct = Content(leaf_of, {'C_from_SP': 'C', 'SP_from_C': 'SP'})
    fits = [e for e in it.events if e.kind == 'axiom' and e.name.endswith(':fit_cond')]
    heres = set()
    normal = 0
    for e, d in stages.saved(it):
        outs = {k: v for k, v in d.items() if k not in FREE}
        spines = {k: [s for s in stages.spine(v) if s[0] == 'store'] for k, v in outs.items()}
        if not any(spines.values()):
            continue
        normal += 1
        for k, v in outs.items():
            if not spines[k]:
                c.und(R2, k, 'nothing is stored', A.where(e))
                continue
            for b in bottoms(v):
                try:
                    left = ct.of(b)
                    c.that(not left, R2, f"{k} starts out missing", 'missing values' if not left else f"starts with {list(left.values())}", A.where(e))
                except Cannot as x:
                    c.und(R2, f"{k} starts out missing", str(x), A.where(e))
            for _k, i, val in spines[k]:
                path, val = unwrap(i, val)
                sel = None
                for p in path:
                    for s in items(p):
                        if whole(s) or num(s) == 0:
                            continue
                        r = seg.of(s)
                        if r is not None:
                            sel = r
                        elif sel is None:
                            sel = ('?', s)
                if sel is None:
                    c.bad(R2, k, f"stored in all columns", A.where(e))
                elif sel == 'other':
                    c.bad(R2, k, f"stored in columns other than those of the segment: {str(path[-1])[:160]}", A.where(e))
                elif sel[0] == '?':
                    if sel[1].op == 'iv' or sel[1].op == 'slice':
                        c.bad(R2, k, f"stored at {str(sel[1])[:120]}, not in the columns of the segment", A.where(e))
                    else:
                        c.und(R2, k, f"selection {str(sel[1])[:160]} is not understood", A.where(e))
                else:
                    heres.add(sel)
                    c.ok(R2, k, 'columns with the number of the segment', A.where(e))
                    uses(c, seg, sel, val, f"{k}", A.where(e))
    if not normal:
        return c.und(R2, 'saved results', 'no saved calibration found')
    if len(heres) > 1:
        c.und(R2, 'segments', f"{len(heres)} different segment loops")
    for u, iv in heres:
        r = values_of(u)
        start, stop, step = (resolve(x) for x in iv.args[:3])
        allu = num(start) == 0 and stop.op in ('dim', 'size') and resolve(stop.args[0]) is u and (num(step) in (1, None))
        guarded = bool(fits) and all(any(zero_test(g[0], None) is None and zero_guard(g, u, iv) for g in e.guards) for e in fits)
        if r is None:
            c.und(R1, 'segment numbers', f"{str(u)[:200]} is not understood")
        else:
            c.that(r[1] or guarded, R1, 'flag zero is left out', 'zero removed' if r[1] or guarded else f"segments {str(u)[:200]}")
            c.that(r[0], R1, 'values of calseries', 'no other value is left out' if r[0] else f"segments {str(u)[:200]}")
        c.that(allu, R1, 'every segment is visited', f"{start} … {stop}")
        for e in fits:
            ps = list(e.extra.items())
            for p, a in ps:
                if isinstance(a, N):
                    uses(c, seg, (u, iv), a, f"fit {p}", A.where(e))
            keys = set()
            for p, a in ps[4:]:
                if isinstance(a, N):
                    keys |= settings_in(a)
            for x in e.args[4:]:
                if isinstance(x, N):
                    keys |= settings_in(x)
            for g, pol in e.guards:
                g = resolve(g)
                k = nonempty_key(g)
                if k and (k[1] == pol):
                    c.that(k[0] in keys, R4, f"prescribed {k[0]} reach the fit", f"given: {sorted(keys)}", A.where(e))
            c.that(bool(keys), R4, 'the fit is told its break points or limit', f"given: {sorted(keys)}", A.where(e))
    for e in it.events:
        if e.kind == 'axiom' and e.name.split(':')[-1] in ('find_10thetas', 'build_cov') and heres:
            for p, a in e.extra.items():
                if isinstance(a, N) and p != 'config':
                    uses(c, seg, next(iter(heres)), a, f"{e.name.split(':')[-1]} {p}", A.where(e))


def zero_guard(g, u, iv):
    n, pol = resolve(g[0]), g[1]
    neg = False
    while n.op == 'not':
        n, neg = resolve(n.args[0]), not neg
    if n.op == '==':
        for a, b in (n.args, n.args[::-1]):
            a = strip(a)
            if num(b) == 0 and a.op == 'getitem' and resolve(a.args[0]) is u and resolve(a.args[1]) is iv:
                return pol == neg
    return False


def settings_in(n):
    seen, todo, out = set(), [n], set()
    while todo:
        x = resolve(todo.pop())
        if x in seen or x.op in ('dim', 'shape', 'size'):
            continue
        seen.add(x)
        k = key_of(x)
        if k in SETTINGS:
            out.add(k)
            continue
        if k is not None:
            continue
        if x.op == 'mu':
            todo += [y for y in (x.init, x.next) if y is not None]
        elif x.op == 'phi':
            todo += x.args[1:]
        else:
            todo += [y for y in x.args if isinstance(y, N)]
    return out


def nonempty_key(g):
    neg = True
    while g.op == 'not':
        g, neg = resolve(g.args[0]), not neg
    if g.op in ('<', '=='):
        a, b = resolve(g.args[0]), resolve(g.args[1])
        for x, y in ((a, b), (b, a)):
            if num(x) == 0 and y.op in ('dim', 'size'):
                k = key_of(y.args[0])
                if k == 'breaks':
                    return (k, neg if g.op == '<' else not neg)
    return None


def main():
    c = Check('C11', 'bad profiles are never calibrated, segments do not mix',
              'The columns every calibrated output is stored in, and the columns of every per-profile array its value is computed from, must be '
              'the positions at which calseries equals the current element of the set of its values with zero removed.',
              'calc_piecewisefit, all paths, symbolic in flags, segments and break settings.')
    it = calib()
    c.covered(it)
    c.rule(rules, it)
    return c.finish()

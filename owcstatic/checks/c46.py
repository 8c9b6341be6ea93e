"""C46: the depth at a position is the sea floor interpolated at that very position."""
from .. import analyses as A
from ..algebra import Alg, Cannot, LAYOUT, leaf, layout_index
from ..ir import N, resolve, walk
from ..masks import num
from ..report import Check
from ..roles import Kinds, columns, short
from ..stages import near
from .c32 import calib

R1, R2, R3, R4, R5 = 'topography handed to the interpolation', 'interpolated at the own position', 'positive downwards', 'region of the topography', 'depths go with the positions they are used with'
INTERP = 'scipy.interpolate.interp2d'
ONE = ('numpy.mean', 'numpy.nanmean', 'numpy.median', 'numpy.nanmedian', 'numpy.min', 'numpy.max', 'numpy.amin', 'numpy.amax', 'numpy.nanmin', 'numpy.nanmax',
       'numpy.average')
TURN = ('numpy.flip', 'numpy.fliplr', 'numpy.flipud', 'numpy.roll', 'numpy.sort', 'numpy.rot90')


def descend(n, out, seen):
    """Depth formulas a value is selected from."""
    n = resolve(n)
    if n in seen:
        return
    seen.add(n)
    if n.op == 'phi':
        descend(n.args[1], out, seen)
        descend(n.args[2], out, seen)
    elif n.op == 'mu':
        for x in (n.init, n.next):
            if x is not None:
                descend(x, out, seen)
    elif n.op in ('store', 'viewstore'):
        descend(n.args[0], out, seen)
        descend(n.args[2], out, seen)
    elif n.op == 'T' or n.op == 'getitem' and resolve(n.args[0]).op != 'call':
        if formula(n):
            out.append(n)
        else:
            descend(n.args[0], out, seen)
    elif n.op == 'comp':
        if formula(n):
            out.append(n)
        else:
            descend(n.args[2], out, seen)
    elif n.op == 'getitem':
        b = resolve(n.args[0])
        if b.args[0] in LAYOUT or b.args[0] in ('numpy.delete', 'numpy.take'):
            descend(b, out, seen)
    elif n.op == 'call' and (n.args[0] in LAYOUT or n.args[0] in ('numpy.delete', 'numpy.take', 'numpy.concatenate')) and len(n.args) > 1:
        descend(n.args[1], out, seen)
    elif n.op in ('*', '+', '-', '/', 'neg', 'abs', 'apply', 'call'):
        if formula(n) or n.op == 'apply' or n.op != 'call' and any(x.op == 'apply' and interp(x) is not None for x in near(n)):
            out.append(n)
        else:
            for a in n.args:
                if isinstance(a, N):
                    descend(a, out, seen)


def formula(n):
    """n is arithmetic on an interpolated value (through layout only)."""
    n = resolve(n)
    if n.op == 'apply':
        return interp(n) is not None
    if n.op in ('*', '+', '-', '/', 'neg', 'abs'):
        return any(formula(a) for a in n.args)
    if n.op == 'getitem' and (num(n.args[1]) == 0 or layout_index(resolve(n.args[1]))):
        return formula(n.args[0])
    if n.op == 'comp':
        return formula(n.args[2])
    if n.op == 'call' and (n.args[0] in LAYOUT or n.args[0] in ('numpy.item', 'numpy.abs', 'numpy.absolute', 'numpy.negative')) and len(n.args) > 1:
        return formula(n.args[1])
    return False


def interp(n):
    f = resolve(n.args[0])
    while f.op == 'call' and f.args[0] in ('numpy.vectorize', 'functools.partial') and len(f.args) > 1:
        f = resolve(f.args[1])
    return f if f.op == 'call' and f.args[0] == INTERP else None


def applied(n):
    return [x for x in (resolve(y) for y in walk(n)) if x.op == 'apply' and interp(x) is not None]


def leaf_of(n):
    if n.op == 'apply' and interp(n) is not None:
        return ('elevation', n)
    if n.op == 'getitem' and num(n.args[1]) == 0:
        return Alg(leaf_of).poly(n.args[0])
    if n.op == 'comp':
        return Alg(leaf_of).poly(n.args[2])
    if n.op == 'call' and n.args[0] == 'numpy.item':
        return Alg(leaf_of).poly(n.args[1])
    return None


def axis(c, what, n, part, want, loc):
    """A coordinate axis of the interpolation: a row (or column) of the result `part` of the topography; returns the call."""
    n, path = resolve(n), []
    while True:
        if n.op == 'getitem' and short(resolve(n.args[0])) == 'get_topo_grid':
            break
        if n.op == 'getitem':
            i = resolve(n.args[1])
            path.append([resolve(x) for x in (i.args if i.op == 'tuple' else (i,))])
            n = resolve(n.args[0])
        elif n.op == 'call' and n.args[0] in LAYOUT and n.args[0] not in ('numpy.transpose', 'numpy.repeat', 'numpy.tile'):
            n = resolve(n.args[1])
        elif n.op == 'call' and n.args[0] in TURN or n.op in ('T',):
            path.append(n)
            n = resolve(n.args[1] if n.op == 'call' else n.args[0])
        else:
            c.und(R1, what, f"{what} is {str(n)[:120]}", loc)
            return None
    k = num(n.args[1])
    if k != part:
        c.bad(R1, what, f"{what} is result {k} of the topography, not result {part}", loc)
        return None
    turned = [p for p in path if isinstance(p, N)]
    picks = [p for p in path if not isinstance(p, N)]
    if turned:
        c.bad(R1, what, f"{what} is rearranged, the others are not: {str(turned[0])[:120]}", loc)
        return resolve(n.args[0])
    if want is None:
        whole = all(full(x) for p in picks for x in p)
        c.that(True if whole else None, R1, what, 'the whole grid' if whole else 'a part of the grid', loc)
        return resolve(n.args[0])
    shape = []
    for p in picks:
        shape += p
    if want == 0:        # along the row: [k, :] or [k]
        good = bool(shape) and num(shape[0]) is not None and all(full(x) for x in shape[1:])
        wrong = len(shape) == 2 and full(shape[0]) and num(shape[1]) is not None
    else:
        good = len(shape) == 2 and full(shape[0]) and num(shape[1]) is not None
        wrong = bool(shape) and num(shape[0]) is not None and all(full(x) for x in shape[1:])
    if any(x.op == 'slice' and num(x.args[2]) == -1 for x in shape):
        c.bad(R1, what, f"{what} is read backwards", loc)
    else:
        c.that(True if good else False if wrong else None, R1, what,
               f"{'along a row' if want == 0 else 'along a column'} of result {part}" if good else 'is constant along that direction' if wrong else str(shape)[:120], loc)
    return resolve(n.args[0])


def full(x):
    x = resolve(x)
    return x.op == 'slice' and all(resolve(y).op == 'const' and resolve(y).args[0] is None for y in x.args)


class Odd(Exception):
    pass


def turns(n):
    k = num(n)
    if k is not None and k % 360:
        raise Odd(f'moved by {k:g} degrees')
    return k is not None


def place(n, kinds):
    """(source array, index of the element or None) of a coordinate, shifts of whole turns aside."""
    n, idx = resolve(n), []
    while True:
        k = source(n)
        if k is not None:
            return k, tuple(i for i in reversed(idx))
        if n.op == 'phi':
            a, b = place(n.args[1], kinds), place(n.args[2], kinds)
            if a != b:
                raise Cannot('position depends on a condition')
            return a[0], a[1] + tuple(reversed(idx))
        if n.op in ('store', 'T', 'viewstore'):
            if n.op != 'T':
                try:
                    place(n.args[2], kinds)
                except Cannot:
                    pass
            n = resolve(n.args[0])
        elif n.op in ('+', '-') and turns(n.args[1]):
            n = resolve(n.args[0])
        elif n.op == '+' and turns(n.args[0]):
            n = resolve(n.args[1])
        elif n.op == 'getitem':
            i = resolve(n.args[1])
            for x in reversed([resolve(x) for x in (i.args if i.op == 'tuple' else (i,))]):
                if not full(x) and num(x) != 0 or x.op == 'iv':
                    idx.append(x)
                elif num(x) == 0:
                    idx.append(0)
            n = resolve(n.args[0])
        elif n.op == 'call' and n.args[0] in LAYOUT and len(n.args) > 1:
            n = resolve(n.args[1])
        elif n.op == 'call' and n.args[0] == 'numpy.where' and len(n.args) == 4:
            try:
                place(n.args[3], kinds)
            except Cannot:
                pass
            n = resolve(n.args[2])
        elif n.op == 'call' and n.args[0] in ONE and len(n.args) > 1:
            place(n.args[1], kinds)
            raise Odd('one position made of all the positions')
        elif n.op == 'call' and (short(n) == 'wrap_longitude' or n.args[0] in ('numpy.mod', 'numpy.remainder')):
            n = resolve(n.args[1])
        else:
            raise Cannot('position ' + str(n)[:80])


def source(n):
    """The loaded or retrieved array a coordinate comes from: (where from, which)."""
    if n.op != 'getitem':
        return None
    b, i = resolve(n.args[0]), resolve(n.args[1])
    ks = Kinds().kind(n)
    if ks not in ({'lat'}, {'long'}):
        return None
    if i.op == 'const' and isinstance(i.args[0], str) or short(b) in ('get_region_hist_locations',):
        while b.op in ('dictover', 'store'):
            b = resolve(b.args[0])
        return b, next(iter(ks))
    return None


def origins(n, out, seen):
    """The data sets a list of positions is taken from."""
    n = resolve(n)
    if n in seen:
        return
    seen.add(n)
    k = source(n)
    if k is not None:
        out.add(k[0])
    elif n.op == 'phi':
        for a in n.args[1:]:
            origins(a, out, seen)
    elif n.op == 'mu':
        for x in (n.init, n.next):
            if x is not None:
                origins(x, out, seen)
    elif n.op == 'comp':
        origins(n.args[2], out, seen)
    elif n.op in ('store', 'viewstore', 'T', 'getitem', 'append'):
        origins(n.args[0], out, seen)
    elif n.op in ('+', '-', 'list', 'tuple'):
        for a in n.args:
            origins(a, out, seen)
    elif n.op == 'call':
        for a in n.args[1:3] if n.args[0] == 'numpy.append' else n.args[2:4] if n.args[0] == 'numpy.where' else n.args[1:2]:
            if isinstance(a, N):
                origins(a, out, seen)


def strip0(idx):
    """The element indices that vary, a leading 0 of single-row arrays aside."""
    return tuple(x for x in idx if not (isinstance(x, int) or num(x) == 0))


def bases(n):
    out, n = [], resolve(n)
    while True:
        out.append(n)
        if n.op == 'getitem' and source(n) is None:
            n = resolve(n.args[0])
        elif n.op == 'call' and n.args[0] in LAYOUT and len(n.args) > 1:
            n = resolve(n.args[1])
        elif n.op == 'T':
            n = resolve(n.args[0])
        else:
            return out


def one(c, inst, n, done, loc):
    for x in dict.fromkeys(applied(n)):
        if x in done:
            continue
        done.add(x)
        site(c, inst, x, loc)
    try:
        p = Alg(leaf_of).poly(n)
    except Cannot as e:
        return c.und(R3, inst, str(e)[:200], loc)
    ok = [p.same(leaf(('elevation', x)).scale(-1)) for x in applied(n)]
    if any(ok):
        c.ok(R3, inst, 'minus the interpolated elevation', loc)
    elif all(a[0] == 'leaf' or a[:2] == ('fn', 'abs') for m in p.t for a, _e in m):
        c.bad(R3, inst, f"is {len(p.t)} term(s) with factors {[round(float(k), 6) for k in p.t.values()]}, not minus the interpolated elevation", loc)
    else:
        c.und(R3, inst, 'formula ' + str(n)[:120], loc)


def site(c, inst, x, loc):
    f = interp(x)
    pos = [a for a in f.args[1:] if isinstance(a, N) and a.op != 'kw']
    kws = {a.args[0]: a.args[1] for a in f.args[1:] if isinstance(a, N) and a.op == 'kw'}
    for k, name in enumerate('xyz'):
        if len(pos) == k and name in kws:
            pos.append(kws[name])
    if len(pos) < 3:
        return c.und(R1, inst, 'arguments of the interpolation', loc)
    topos = [axis(c, f"{inst}: x", pos[0], 1, 0, loc), axis(c, f"{inst}: y", pos[1], 2, 1, loc), axis(c, f"{inst}: elevations", pos[2], 0, None, loc)]
    if None not in topos:
        c.that(len(set(topos)) == 1, R1, f"{inst}: one grid", 'axes and elevations of one topography grid' if len(set(topos)) == 1 else 'different grids', loc)
    at = [a for a in x.args[1:] if isinstance(a, N) and a.op != 'kw']
    if len(at) < 2:
        return c.und(R2, inst, 'position of the interpolation', loc)
    kinds = Kinds()
    try:
        (sx, ix), (sy, iy) = place(at[0], kinds), place(at[1], kinds)
    except Cannot as e:
        return c.und(R2, inst, str(e)[:200], loc)
    except Odd as e:
        return c.bad(R2, inst, f"the position is {e}", loc)
    if (sx[1], sy[1]) != ('long', 'lat'):
        return c.bad(R2, inst, f"evaluated at ({sx[1]}, {sy[1]}), the grid is (long, lat)", loc)
    if sx[0] is not sy[0]:
        c.bad(R2, inst, 'longitude and latitude are taken from different data', loc)
    elif strip0(ix) != strip0(iy):
        c.bad(R2, inst, f"longitude of element {[str(i)[:40] for i in strip0(ix)]}, latitude of element {[str(i)[:40] for i in strip0(iy)]}", loc)
    else:
        c.ok(R2, inst, 'longitude and latitude of the same element', loc)
    if topos[2] is not None:
        region(c, inst, topos[2], at, (sx, sy), loc)


def region(c, inst, topo, at, srcs, loc):
    args = [a for a in topo.args[1:] if isinstance(a, N) and a.op != 'kw']
    if len(args) < 4:
        return c.und(R4, inst, 'arguments of the topography', loc)
    for k, (coord, low) in enumerate((('long', True), ('long', False), ('lat', True), ('lat', False))):
        me = at[0 if coord == 'long' else 1]
        mine = bases(me)
        what = f"{inst}: {'lower' if low else 'upper'} {coord}"

        def leafs(n):
            n = resolve(n)
            if n in mine and n is resolve(me) and not (n.op in ('store',)):
                return ('own', coord)
            if n.op == 'call' and len(n.args) > 1 and isinstance(n.args[1], N):
                tail = n.args[0].rsplit('.', 1)[-1].replace('nan', '').replace('a', '', 1) if n.args[0].rsplit('.', 1)[-1] in ('amin', 'amax', 'nanmin', 'nanmax') else n.args[0].rsplit('.', 1)[-1]
                tail = 'max' if 'max' in n.args[0].rsplit('.', 1)[-1] else 'min' if 'min' in n.args[0].rsplit('.', 1)[-1] else None
                if tail:
                    x = resolve(n.args[1])
                    if any(b in mine for b in bases(x)):
                        return (tail, coord)
                    ks = Kinds().kind(x)
                    if len(ks) == 1 and ks <= {'lat', 'long'} and ks != {coord}:
                        return (tail, next(iter(ks)))
                    return (tail, x)
            ks = Kinds().kind(n)
            if len(ks) == 1 and ks <= {'lat', 'long'} and ks != {coord} and n.op in ('getitem', 'phi'):
                return ('own', next(iter(ks)))
            if ks == {coord} and n.op == 'getitem':
                return ('own', n)
            return None
        try:
            p = Alg(leafs).poly(args[k])
        except Cannot as e:
            c.und(R4, what, str(e)[:160], loc)
            continue
        terms = [(m[0][0][1], v) for m, v in p.t.items() if m and len(m) == 1 and m[0][0][0] == 'leaf' and m[0][1] == 1]
        const = float(p.t.get((), 0))
        if len(terms) != 1 or len(p.t) > 2 or abs(float(terms[0][1]) - 1) > 1e-9:
            c.und(R4, what, str(args[k])[:160], loc)
            continue
        (how, which), _v = terms[0]
        if not isinstance(which, str):
            try:
                whose = place(which, None)[0]
            except (Cannot, Odd):
                whose = None
            if whose is not None and whose != srcs[0 if coord == 'long' else 1]:
                c.bad(R4, what, f"{how} of {str(which)[:80]}: not the positions the depth is computed for", loc)
                continue
            c.und(R4, what, f"{how} of {str(which)[:120]}", loc)
            continue
        good = which == coord and how in ('own', 'min' if low else 'max') and (const <= 0 if low else const >= 0)
        c.that(good, R4, what, f"{how} {which} {const:+g}", loc)


def rules(c):
    done = set()
    it = A.core()
    c.covered(it)
    todo, mates = [], []
    for e in A.axioms(it, 'find_besthist'):
        for k, mine in (('z_value', ('lat', 'long')), ('grid_z_value', ('grid_lat', 'grid_long'))):
            if k in e.extra:
                mates.append((f"selection of casts, {'float' if k == 'z_value' else 'casts'}", e.extra[k], [e.extra[m] for m in mine if m in e.extra], A.where(e)))
                todo.append((f"selection of casts, {'float' if k == 'z_value' else 'casts'}", e.extra[k], A.where(e)))
    for e in A.axioms(it, 'map_data_grid'):
        for k, t in (('grid_pos', 'float'), ('data_pos', 'casts')):
            cols = columns(e.extra[k])
            if cols and len(cols) > 3:
                todo.append((f"mapping, {t}", cols[3], A.where(e)))
                mates.append((f"mapping, {t}", cols[3], cols[:2], A.where(e)))
    it = calib()
    c.covered(it)
    for e in A.axioms(it, 'build_cov'):
        n = resolve(list(e.extra.values())[1])
        while n.op == 'getitem':
            n = resolve(n.args[0])
        for a in arms(n):
            cols = columns(a)
            if cols and len(cols) > 2:
                todo.append(('covariance of the fit', cols[2], A.where(e)))
    for inst, n, loc in todo:
        found = []
        descend(n, found, set())
        if not found:
            c.und(R2, inst, 'no interpolated depth found', loc)
        for k, x in enumerate(found):
            one(c, inst + (f" ({k})" if k else ''), x, done, loc)
    for inst, z, coords, loc in mates:
        found, own, used = [], set(), set()
        descend(z, found, set())
        for x in found:
            for a in applied(x):
                for y in [b for b in a.args[1:] if isinstance(b, N) and b.op != 'kw'][:2]:
                    origins(y, own, set())
        for y in coords:
            origins(y, used, set())
        if own and used:
            c.that(bool(own & used), R5, inst,
                   'depths and positions are of the same data' if own & used else 'depths computed for other positions than those they are used with', loc)
    if not todo:
        c.und(R2, 'depths', 'no use of depths found')


def arms(n):
    n = resolve(n)
    if n.op == 'phi':
        return arms(n.args[1]) + arms(n.args[2])
    return [n]


def main():
    c = Check('C46', 'the depth at a position is the sea floor interpolated at that very position',
              'Every depth used (selection, mapping, covariance of the fit) is followed to the interpolations of the topography it is made from; their axes, the position they are '
              'evaluated at, the sign and the region requested are compared with the stated ones.',
              'Symbolic in positions and settings; interp2d(x, y, z) is taken as the interpolation of z over columns x and rows y.')
    c.rule(rules)
    return c.finish()

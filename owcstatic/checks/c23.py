"""C23: longitudes are consistent across the 0/360 degree seam."""
from .. import analyses as A
from ..algebra import Cannot
from ..ir import N, resolve, walk
from ..masks import num
from ..point import Wrong, UNK, group
from ..report import Check
from ..roles import short

R1, R2, R3, R4 = ('reference longitudes are continued across the seam', 'longitudes fetched are the wrapped ones', 'float longitude follows the reference longitudes',
                  'topography is looked up in -180..180')
R5, R6, R7 = 'topography is interpolated along its own axes', 'archive boxes are found across the seam', 'box table continues across the seam'
WRAP = 'pyowc.utilities:wrap_longitude'
HIST, REGION = 'pyowc.data.fetchers:get_region_hist_locations', 'pyowc.data.fetchers:get_region_data'
TOPO = 'pyowc.data.fetchers:get_topo_grid'
NEAR, BOXES = 'pyowc.core.finders:nearest_neighbour', 'pyowc.core.finders:find_25boxes'
FLOATS = (0.0, 0.005, 5.0, 10.0, 15.0, 19.5, 19.98, 20.0, 25.0, 100.0, 179.5, 180.0, 200.0, 330.0, 340.0, 345.0, 350.0, 355.0, 359.9)
EPS = 1e-6


def window(f):
    """Range of the archive boxes within 20 degrees of a float, continuous (may be negative or past 360)."""
    lo = (f - 19.99) // 10 * 10
    hi = (f + 20.01) // 10 * 10 + 10
    return lo, hi


def populations():
    """(float, reference longitudes in 0..360 as stored) found in the boxes of that float."""
    for f in FLOATS:
        lo, hi = window(f)
        pts = sorted({lo, lo + 0.5, f - 5.0, f, f + 5.0, hi - 0.5, hi - EPS, 0.0 if lo < 0 <= hi else lo + 1, 360.0 if lo < 360 < hi else lo + 2,
                      359.5 if hi > 360 else lo + 3} | ({-0.5} if lo < 0 else set()))
        pts = [p for p in pts if lo <= p <= hi]
        for a in pts:
            for b in pts:
                if a <= b:
                    yield f, a, b


def stored(x):
    return x % 360.0


def congruent(a, b):
    d = (a - b) / 360.0
    return abs(d - round(d)) < 1e-9


def rule_wrap(c):
    it = A.fn(WRAP)
    if it is None:
        c.und(R1, WRAP, 'function not found')
        return
    c.covered(it)
    leaf = lambda n: 'long' if n.op == 'param' else None
    ret = resolve(it.ret_node)
    bad = 0
    n = 0
    seen = set()
    for _f, a, b in populations():
        for sa in {stored(a), stored(a) - 360.0 if stored(a) > 180 else stored(a)}:
            for sb in {stored(b), stored(b) - 360.0 if stored(b) > 180 else stored(b)}:
                if (sa, sb) in seen or bad > 3:
                    continue
                seen.add((sa, sb))
                n += 1
                inst = f"casts at {a % 360:.4g} and {b % 360:.4g} stored as {sa:.4g}, {sb:.4g}"
                try:
                    got = [m.val(ret) for m in group(leaf, [{'long': sa}, {'long': sb}])]
                except Wrong as x:
                    c.bad(R1, 'element', str(x), 'pyowc/utilities.py')
                    return
                except Cannot as x:
                    c.und(R1, inst, str(x)[:150])
                    bad += 1
                    continue
                want = abs(got[1] - got[0]) <= abs(b - a) + 1e-6 or abs(b - a) % 360 < 1e-6 and congruent(got[0], got[1])
                fine = all(congruent(x, y) for x, y in zip(got, (sa, sb))) and all(-1e-9 <= x <= 400 + 1e-6 for x in got) and want
                if not fine:
                    bad += 1
                    c.bad(R1, inst, f"become {got[0]:.4g} and {got[1]:.4g}", 'pyowc/utilities.py wrap_longitude')
    if not bad:
        c.ok(R1, WRAP, f"{n} pairs of casts keep their distance, stay congruent and in 0..400", 'pyowc/utilities.py')


def calls_to(n, name):
    return [x for x in walk(n) if x.op == 'call' and x.args[0] == name]


def rule_fetched(c):
    for q, key in ((HIST, 1), (REGION, 'grid_long')):
        it = A.fn(q, None, ('pyowc.data.fetchers:get_data', WRAP))
        if it is None:
            c.und(R2, q, 'function not found')
            continue
        c.covered(it)
        ret = resolve(it.ret_node)
        n = None
        if ret.op == 'tuple' and isinstance(key, int) and key < len(ret.args):
            n = ret.args[key]
        elif ret.op == 'dict':
            for k, v in zip(ret.args[0::2], ret.args[1::2]):
                if k.op == 'const' and k.args[0] == key:
                    n = v
        if n is None:
            c.und(R2, q, 'result is ' + ret.op)
            continue
        if A.pkg().find(WRAP) is None:
            c.und(R2, q, 'no wrapping function')
            continue
        verdict = wrapped(n, set())
        c.that(verdict, R2, q, 'longitudes returned ' + {True: 'are wrapped', False: 'are not wrapped', None: 'may be wrapped'}[verdict] + ': ' + str(resolve(n))[:120],
               q.split(':')[0].replace('.', '/') + '.py')


def wrapped(n, seen, fn=WRAP):
    """True: every path gives wrapped longitudes (or an empty list); False: some path gives fetched ones unwrapped."""
    n = resolve(n)
    if n in seen:
        return True
    seen.add(n)
    if n.op == 'call' and n.args[0] == fn:
        return True
    if n.op == 'call' and n.args[0] in ('numpy.reshape', 'numpy.ravel', 'numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.squeeze', 'numpy.atleast_2d', 'numpy.transpose'):
        return wrapped(n.args[1], seen, fn)
    if n.op in ('T', 'dropped') or n.op == 'store' and False:
        return wrapped(n.args[0], seen, fn)
    if n.op == 'phi':
        got = [wrapped(n.args[1], set(seen), fn), wrapped(n.args[2], set(seen), fn)]
        return False if False in got else None if None in got else True
    if n.op in ('list', 'tuple') and not n.args:
        return True
    if n.op == 'mu':
        got = [wrapped(n.init, seen, fn)] + ([wrapped(n.next, seen, fn)] if n.next is not None else [])
        return False if False in got else None if None in got else True
    if n.op == 'call' and n.args[0] == 'numpy.delete' or n.op == 'getitem' and resolve(n.args[0]).op in ('call', 'mu', 'phi') and resolve(n.args[1]).op != 'const':
        return wrapped(n.args[1] if n.op == 'call' else n.args[0], seen, fn)
    if n.op == 'call' and n.args[0] in ('numpy.append', 'numpy.concatenate', 'numpy.vstack', 'numpy.hstack'):
        return False if not calls_to(n, fn) else None
    if n.op == 'call' and str(n.args[0]).endswith(':get_data'):
        return False
    return None


def float_leaf(n):
    """The profile's own longitude as loaded."""
    b = n
    if b.op != 'getitem':
        return None
    while b.op == 'getitem':
        k = resolve(b.args[1])
        if k.op == 'const' and k.args[0] == 'LONG':
            return 'float'
        b = resolve(b.args[0])
    return None


def hist_leaf(n):
    if n.op != 'getitem':
        return None
    b, k = resolve(n.args[0]), resolve(n.args[1])
    if b.op == 'call' and short(b) == 'get_region_hist_locations' and k.op == 'const' and k.args[0] == 1:
        return 'listed'
    if b.op == 'call' and short(b) in ('get_region_data', 'frontal_constraint_saf') and k.op == 'const' and k.args[0] == 'grid_long':
        return 'hist'
    return None


def both_leaf(n):
    return hist_leaf(n) or float_leaf(n)


def strip(n):
    """Through selections and layouts to the array the longitudes come from."""
    n = resolve(n)
    while True:
        if both_leaf(n):
            return n
        if n.op == 'getitem' or n.op == 'T':
            n = resolve(n.args[0])
        elif n.op == 'call' and n.args[0] in ('numpy.delete', 'numpy.reshape', 'numpy.ravel', 'numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.compress', 'numpy.take'):
            n = resolve(n.args[2] if n.args[0] == 'numpy.compress' else n.args[1])
        elif n.op == 'phi':
            a, b = strip(n.args[1]), strip(n.args[2])
            return a if a is b or hist_leaf(a) and hist_leaf(a) == hist_leaf(b) else n
        else:
            return n


def column(n, k):
    n = resolve(n)
    if n.op == 'call' and n.args[0] in ('numpy.reshape', 'numpy.array', 'numpy.asarray', 'numpy.column_stack', 'numpy.hstack', 'numpy.concatenate', 'numpy.c_'):
        inner = resolve(n.args[1])
        items = inner.args if inner.op in ('tuple', 'list') else [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw'] \
            if n.args[0] == 'numpy.column_stack' and len(n.args) > 2 else None
        if items is None:
            return column(inner, k)
        if len(items) == 1:
            return column(items[0], k)
        return items[k] if k < len(items) else None
    if n.op in ('tuple', 'list'):
        return n.args[k] if k < len(n.args) else column(n.args[0], k) if len(n.args) == 1 else None
    return None


def lo_seam(f):
    lo, hi = window(f)
    return lo < 0 or hi > 360


def judge(c, e, inst, bad, f, true, w, fv, vs):
    far = [v for v, x in zip(vs, true) if abs(v - fv) > abs(x - f) + 1e-6]
    if congruent(fv, f) and not far and all(congruent(v, x) for v, x in zip(vs, true)):
        return 0
    if bad < 3:
        c.bad(R3, inst, f"float at {f:.4g} with casts at {w[0]:.4g} and {w[1]:.4g}: the float is taken at {fv:.4g}, the casts at {vs[0]:.4g} and {vs[1]:.4g}", A.where(e))
    return 1


def rule_shift(c, it):
    jobs = []
    for e in A.axioms(it, 'find_besthist'):
        p = list(e.extra.values())
        jobs.append((e, 'selection', p[1], p[5]))
    for e in A.axioms(it, 'map_data_grid'):
        p = list(e.extra.values())
        x, f = column(p[2], 1), column(p[1], 1)
        if x is None or f is None:
            c.und(R3, 'mapping ' + A.where(e), 'positions not recognised', A.where(e))
            continue
        jobs.append((e, 'mapping', x, f))
    if not jobs:
        c.und(R3, 'update_salinity_mapping', 'no selection or mapping found')
    done = set()
    for e, what, hist, fl in jobs:
        inst = f"{what} {A.where(e)}"
        if inst in done:
            continue
        done.add(inst)
        h = strip(hist)
        bad, n = 0, 0
        try:
            for f, a, b in populations():
                if what == 'mapping' and a == b:
                    continue
                wa, wb = stored(a), stored(b)
                top = max(wa, wb) >= 320
                wa, wb = (x + 360.0 if top and x <= 40 else x for x in (wa, wb))
                if abs(wa - wb) > abs(a - b) + 1e-6:
                    continue                        # casts on the seam itself, shown congruent by the wrapping rule
                one_side = not (top and (stored(a) <= 40 or stored(b) <= 40))
                if one_side and (stored(f) <= 40 and top or stored(f) >= 320 and max(wa, wb) <= 40):
                    continue                        # nothing was continued although the float is on the other side
                # casts listed but not selected may have been continued although the selected ones were not
                for la, lb in {(wa, wb), (355.0, 365.0)} if what == 'mapping' and lo_seam(f) else {(wa, wb)}:
                    ms = group(both_leaf, [{'hist': wa, 'listed': la, 'float': stored(f)}, {'hist': wb, 'listed': lb, 'float': stored(f)}])
                    fv = ms[0].val(fl)
                    vs = [m.val(h) for m in ms]
                    n += 1
                    bad += judge(c, e, inst, bad, f, (a, b), (wa, wb), fv, vs)
        except Wrong as x:
            c.bad(R3, inst, str(x), A.where(e))
            continue
        except Cannot as x:
            c.und(R3, inst, str(x)[:200], A.where(e))
            continue
        if not bad:
            c.ok(R3, inst, f"{n} situations of float and two casts", A.where(e))


def topo_part(n):
    """(k, index) when n is part k of a topography grid."""
    n = resolve(n)
    idx = []
    while n.op in ('getitem', 'T') or n.op == 'call' and n.args[0] in ('numpy.array', 'numpy.asarray', 'numpy.ravel', 'numpy.squeeze'):
        if n.op == 'getitem':
            b = resolve(n.args[0])
            if b.op == 'call' and b.args[0] == TOPO:
                return num(n.args[1]), idx, b
            idx.append(resolve(n.args[1]))
            n = b
        elif n.op == 'T':
            idx.append(None)
            n = resolve(n.args[0])
        else:
            n = resolve(n.args[1])
    return None, idx, None


def along(idx):
    """Axis a one-index selection runs along: 'x' (first row), 'y' (first column)."""
    if len(idx) != 1 or idx[0] is None:
        return None
    i = idx[0]
    if i.op == 'const' and isinstance(i.args[0], int):
        return 'x'
    if i.op == 'tuple' and len(i.args) == 2:
        a, b = (resolve(x) for x in i.args)
        if a.op == 'const' and isinstance(a.args[0], int) and b.op == 'slice':
            return 'x'
        if b.op == 'const' and isinstance(b.args[0], int) and a.op == 'slice':
            return 'y'
    return None


def rule_topo(c, it, stage, stations):
    uses = []
    for e in it.events:
        if e.kind != 'apply' or not e.args:
            continue
        f = resolve(e.args[0])
        if f.op == 'call' and 'interp' in str(f.args[0]):
            parts = [topo_part(x) for x in f.args[1:] if isinstance(x, N) and x.op != 'kw']
            if any(p[2] is not None for p in parts):
                uses.append((e, f, parts))
    if not uses:
        c.und(R4, stage, 'no interpolation of the topography found')
    for e, f, parts in uses:
        inst = f"{stage} {A.where(e)}"
        if f.args[0] == 'scipy.interpolate.interp2d' and len(parts) >= 3:
            want = ((1, 'x'), (2, 'y'), (0, None))
            for (k, idx, _b), (wk, wax), role in zip(parts, want, ('x', 'y', 'z')):
                ax = along(idx)
                good = k == wk and (ax == wax if wax else not idx)
                known = k is not None and (ax is not None or not idx)
                c.that(True if good else False if known else None, R5, f"{role} of {inst}", f"part {k} of the grid along {ax or 'both axes'}", A.where(e))
        else:
            c.und(R5, inst, str(f.args[0]))
        topo = next(p[2] for p in parts if p[2] is not None)
        x = e.args[1]
        bad, n = 0, 0
        try:
            for pair in stations:
                rows = [{'float': x, 'hist': x, 'listed': x} for x in pair]
                ms = group(both_leaf, rows, rows=stage == 'calibration')
                for m, v in zip(ms, pair):
                    q = m.val(x)
                    lo, hi = m.val(topo.args[1]), m.val(topo.args[2])
                    n += 1
                    if not (-180 - 1e-9 <= q <= 180 + 1e-9 and congruent(q, v) and lo <= q <= hi and lo >= -182 and hi <= 182):
                        bad += 1
                        if bad <= 2:
                            c.bad(R4, inst, f"a position at {v} (another at {pair[0] + pair[1] - v}) is looked up at {q} in a grid from {lo} to {hi}", A.where(e))
        except Wrong as w:
            c.bad(R4, inst, str(w), A.where(e))
            continue
        except Cannot as w:
            c.und(R4, inst, str(w)[:200], A.where(e))
            continue
        if not bad:
            c.ok(R4, inst, f"{n} positions", A.where(e))


def rule_boxes(c):
    it = A.fn(BOXES, None, (NEAR,))
    if it is None:
        c.und(R6, BOXES, 'function not found')
        return
    c.covered(it)
    near = A.axioms(it, 'nearest_neighbour')
    if not near:
        c.und(R6, BOXES, 'no lookup in the box table')
        return
    p = list(near[0].extra.values())
    lon, lat = ({x.args[0] for x in walk(q) if x.op == 'param'} for q in (p[3], p[4]))
    if len(lon) != 1 or len(lat) != 1:
        c.und(R6, BOXES, 'lookups do not come from one longitude and one latitude')
        return
    lon, lat = lon.pop(), lat.pop()
    leaf = lambda n: n.args[0] if n.op == 'param' else None
    pairs = {}
    fails = []
    for fl in sorted(set(FLOATS) | {9.98, 9.995, 339.98, 339.99, 349.98, 349.995, 359.98, 359.995}):
        got = set()
        for e in near:
            p = list(e.extra.values())
            try:
                m = group(leaf, [{lon: fl, lat: -30.0}])[0]
                x, y = m.val(p[3]), m.val(p[4])
            except (Cannot, Wrong, KeyError) as w:
                c.und(R6, f"{A.where(e)}", str(w)[:150], A.where(e))
                return
            d = (x - fl + 180.0) % 360.0 - 180.0
            got.add((round(d, 6), round(y + 30.0, 6)))
            if not -10 - 1e-9 <= x <= 370 + 1e-9:
                fails.append(f"float at {fl}: the box at {fl + d:.6g} is looked up at {x:.6g}, outside the table")
        pairs[fl] = got
    base = pairs[100.0]
    for fl, got in pairs.items():
        if got != base:
            fails.append(f"float at {fl}: boxes looked up around it differ from those of a float at 100: {sorted(got ^ base)[:3]}")
    spans = [sorted({d for d, _y in base}), sorted({y for _d, y in base})]
    for k, what in ((0, 'longitude'), (1, 'latitude')):
        s = spans[k]
        good = len(s) > 1 and s[0] <= -19.9 and s[-1] >= 19.9 and all(b - a <= 10.02 + 1e-6 for a, b in zip(s, s[1:]))
        if not good:
            fails.append(f"boxes are looked up {s} degrees of {what} from the float")
    if base != {(a, b) for a in spans[0] for b in spans[1]}:
        fails.append('not every combination of offsets is looked up')
    for f in fails[:4]:
        c.bad(R6, BOXES, f, A.where(near[0]))
    if not fails:
        c.ok(R6, BOXES, f"{len(base)} boxes for each of {len(pairs)} float longitudes", A.where(near[0]))
    c.rule(rule_table, near[0])


def table(n):
    """A constant array of the code as nested lists."""
    n = resolve(n)
    if n.op == 'const':
        return n.args[0]
    if n.op == 'neg':
        return -table(n.args[0])
    if n.op in ('+', '-', '*'):
        a, b = table(n.args[0]), table(n.args[1])
        op = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[n.op]
        def go(x, y):
            if isinstance(x, list) and isinstance(y, list):
                return [go(p, q) for p, q in zip(x, y)]
            if isinstance(x, list):
                return [go(p, y) for p in x]
            if isinstance(y, list):
                return [go(x, q) for q in y]
            return op(x, y)
        return go(a, b)
    if n.op in ('tuple', 'list'):
        return [table(x) for x in n.args]
    if n.op == 'T':
        a = table(n.args[0])
        return [list(r) for r in zip(*a)] if a and isinstance(a[0], list) else a
    if n.op == 'dim':
        a = table(n.args[0])
        for _ in range(num(n.args[1])):
            a = a[0]
        return len(a)
    if n.op == 'getitem':
        a, i = table(n.args[0]), resolve(n.args[1])
        k = table(i) if i.op != 'slice' else None
        if isinstance(k, (int, float)):
            return a[int(k)]
        if i.op == 'tuple' or i.op == 'slice':
            idx = list(i.args) if i.op == 'tuple' else [i]
            def pick(x, ids):
                if not ids:
                    return x
                j = resolve(ids[0])
                if j.op == 'slice':
                    s = slice(*[None if resolve(q).op == 'const' and resolve(q).args[0] is None else int(table(q)) for q in j.args])
                    return [pick(y, ids[1:]) for y in x[s]]
                return pick(x[int(table(j))], ids[1:])
            return pick(a, idx)
        raise Cannot('index')
    if n.op == 'call':
        f, a = n.args[0], [x for x in n.args[1:] if isinstance(x, N) and x.op not in ('kw', 'ext')]
        kw = {x.args[0]: x.args[1] for x in n.args[1:] if isinstance(x, N) and x.op == 'kw'}
        if f == 'numpy.arange':
            v = [table(x) for x in a]
            return list(range(*[int(x) for x in v]))
        if f in ('numpy.array', 'numpy.asarray', 'numpy.astype', 'numpy.copy'):
            return table(a[0])
        if f == 'numpy.full':
            shape, v = table(a[0]), table(a[1])
            shape = shape if isinstance(shape, list) else [shape]
            if len(shape) == 2:
                return [list(v) if isinstance(v, list) else [v] * shape[1] for _ in range(shape[0])]
            return list(v) if isinstance(v, list) else [v] * shape[0]
        if f in ('numpy.reshape', 'numpy.ravel'):
            flat = []
            def fl(x):
                for y in x:
                    fl(y) if isinstance(y, list) else flat.append(y)
            fl(table(a[0]))
            if f == 'numpy.ravel':
                return flat
            shape = [table(x) for x in a[1:]] if len(a) > 2 else table(a[1])
            shape = shape if isinstance(shape, list) else [shape]
            order = kw.get('order')
            fort = order is not None and resolve(order).args[0] == 'F'
            if len(shape) == 1:
                return flat
            r, w = shape
            r = len(flat) // w if r == -1 else r
            w = len(flat) // r if w == -1 else w
            if r * w != len(flat):
                raise Cannot('reshape')
            return [[flat[j * r + i] if fort else flat[i * w + j] for j in range(w)] for i in range(r)]
        if f == 'numpy.insert' and len(a) == 3 and not kw:
            flat = []
            def fl2(x):
                for y in x:
                    fl2(y) if isinstance(y, list) else flat.append(y)
            fl2(table(a[0]))
            k, v = table(a[1]), table(a[2])
            v = v if isinstance(v, list) else [v]
            return flat[:k] + v + flat[k:]
        if f in ('numpy.concatenate', 'numpy.vstack', 'numpy.hstack'):
            parts = table(a[0])
            axis = {'numpy.vstack': 0, 'numpy.hstack': 1}.get(f, num(kw['axis']) if 'axis' in kw else 0)
            two = any(isinstance(p[0], list) for p in parts)
            if not two or axis == 0:
                return [r for p in parts for r in (p if not two or isinstance(p[0], list) else [p])]
            return [sum((p[i] for p in parts), []) for i in range(len(parts[0]))]
    raise Cannot('table made by ' + n.op + ' ' + str(n.args[0] if n.args else '')[:40])


def rule_table(c, e):
    p = list(e.extra.values())
    try:
        x, y, t = table(p[0]), table(p[1]), table(p[2])
    except (Cannot, TypeError, IndexError, ValueError) as w:
        c.und(R7, BOXES, str(w)[:150], A.where(e))
        return
    wrong = []
    if len(t) != len(y) or any(len(r) != len(x) for r in t):
        wrong.append(f"table of {len(t)} by {len(t[0])} for {len(y)} latitudes and {len(x)} longitudes")
    else:
        for i, yc in enumerate(y):
            for j, xc in enumerate(x):
                want = ((xc - 5) // 10 % 36) * 18 + (85 - yc) // 10 + 1
                if t[i][j] != want and len(wrong) < 2:
                    wrong.append(f"box at longitude {xc}, latitude {yc} is numbered {t[i][j]}, expected {want}")
    if sorted(x) != x or x[0] > -5 or x[-1] < 365:
        wrong.append(f"longitudes of the table run from {x[0]} to {x[-1]}")
    for w in wrong:
        c.bad(R7, BOXES, w, A.where(e))
    if not wrong:
        c.ok(R7, BOXES, f"{len(x) * len(y)} entries", A.where(e))


PAIRS = [(a, b) for a in (0.0, 0.5, 90.0, 170.0, 179.5, 180.0, 180.5, 190.0, 270.0, 359.5) for b in (0.0, 1.0, 90.0, 179.0, 181.0, 359.0)]
PASTEND = [(350.0, 365.0), (361.0, 400.0), (330.0, 380.0), (359.0, 360.0)]


def main():
    c = Check('C23', 'longitudes are consistent across the 0/360 degree seam',
              'One or two arbitrary positions are followed through the value graphs of the wrapping function, of the float longitude used for selection and mapping, of every '
              'topography lookup and of the box search: positions near each other on the globe must stay equally near in the numbers compared, values must stay congruent modulo '
              '360, lookups must fall in -180..180 inside the requested grid, and the same boxes around the float are found at every longitude. The box table is folded from '
              'its literal construction and compared with the numbering of the ten-degree boxes.',
              'Every side of the seam, for all entry points that compare longitudes; the positions represent the intervals between all thresholds.')
    c.assume('float longitudes are stored in 0..360, archived ones in 0..360 or -180..180; casts come from the boxes within 20 degrees of the float')
    c.assume('when all casts found lie on the far side of the seam nothing is continued (as in the original MATLAB); such populations are not judged')
    c.rule(rule_wrap)
    c.rule(rule_fetched)
    it = A.core()
    c.covered(it)
    c.rule(rule_shift, it)
    c.rule(rule_topo, it, 'mapping', PAIRS + PASTEND)
    cal = A.run('calib', no_inline=(TOPO,))
    c.covered(cal)
    c.rule(rule_topo, cal, 'calibration', PAIRS)
    c.rule(rule_boxes)
    raise SystemExit(c.finish())

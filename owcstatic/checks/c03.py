"""C03: a cast number means the same cast when listing and when retrieving casts."""
import itertools
from collections import Counter

from ..report import Check
from .. import analyses as A
from ..engine import config_value as CFG
from ..ir import N, resolve, walk
from ..masks import num, mask_of
from ..align import Align
from ..roles import short

GD = ('pyowc.data.fetchers:get_data',)
R1, R2, R3 = 'same regions and data types', 'running position', 'retrieved by position'
FIELDS = ('lat', 'long', 'dates', 'source')
WRAP = ('numpy.array', 'numpy.asarray', 'numpy.ravel', 'numpy.reshape', 'numpy.copy', 'numpy.squeeze', 'builtins.dict', 'dict',
        'numpy.atleast_1d', 'numpy.atleast_2d')


class Cannot(Exception):
    pass


class Wrong(Exception):
    pass


def plain(n):
    """Drop records of keys that were only read: {**b, k: b[k]} is b."""
    n = resolve(n)
    while n.op == 'dictover':
        b = n.args[0]
        if not all(resolve(v).op == 'getitem' and resolve(resolve(v).args[0]) is resolve(b) for v in n.args[2::2]):
            return n
        n = resolve(b)
    return n


def dataset(n, want=None):
    """The get_data call an array or dictionary comes from (through layout changes)."""
    n = resolve(n)
    for _ in range(30):
        if short(n) == 'get_data':
            return n
        if n.op == 'call' and n.args[0] in WRAP and len(n.args) > 1:
            n = resolve(n.args[1])
        elif n.op == 'getitem':
            i = resolve(n.args[1])
            if not (i.op == 'const'):
                return None
            n = resolve(n.args[0])
        elif n.op == 'dictover':
            n = resolve(n.args[0])
        elif n.op == 'T':
            n = resolve(n.args[0])
        elif n.op == 'phi':
            a, b = dataset(n.args[1]), dataset(n.args[2])
            return a if a is b else None
        else:
            return None
    return None


def counts(n):
    """n is the number of casts of a data set: that data set."""
    n = resolve(n)
    if n.op in ('dim', 'size'):
        x = resolve(n.args[0])
        axis = num(n.args[1]) if n.op == 'dim' else None
        if x.op == 'phi':
            a, b = (counts(N_dim(n, y)) for y in x.args[1:])
            return a if a is b else None
        f = field(x)
        if f in FIELDS and axis in (0, None):
            return dataset(x)
        if f in ('sal', 'pres', 'ptmp', 'temp') and axis == 1:
            return dataset(x)
    if n.op == 'getitem' and resolve(n.args[0]).op == 'shape':
        return counts(mkdim(resolve(n.args[0]).args[0], n.args[1]))
    if n.op == 'phi':
        a, b = counts(n.args[1]), counts(n.args[2])
        return a if a is b else None
    return None


def mkdim(x, k):
    from ..ir import mk
    return mk('dim', resolve(x), resolve(k))


def N_dim(n, y):
    from ..ir import mk
    return mk(n.op, resolve(y), *n.args[1:])


def field(x):
    x = resolve(x)
    for _ in range(20):
        if x.op == 'getitem':
            i = resolve(x.args[1])
            if i.op == 'const' and isinstance(i.args[0], str):
                return i.args[0]
            x = resolve(x.args[0])
        elif x.op == 'call' and x.args[0] in WRAP and len(x.args) > 1:
            x = resolve(x.args[1])
        elif x.op == 'T':
            x = resolve(x.args[0])
        elif x.op == 'phi':
            a, b = field(x.args[1]), field(x.args[2])
            return a if a == b else None
        else:
            return None
    return None


def dtype(d):
    t = resolve(d.args[2])
    if num(t) is None:
        raise Cannot('data type is not a constant')
    return num(t)


class World:
    """One scenario: which data sets are present; unknown conditions are tried both ways."""

    def __init__(self, present, choice, seen):
        self.present, self.choice, self.seen = present, choice, seen

    def cond(self, c):
        c = resolve(c)
        if c.op == 'not':
            return not self.cond(c.args[0])
        if c.op in ('and', 'or'):
            vs = [self.cond(x) for x in c.args]
            return all(vs) if c.op == 'and' else any(vs)
        if c.op == 'exc':
            return False
        if c.op in ('truth', 'bool') and c.args:
            return self.cond(c.args[0])
        if c.op == 'const':
            return bool(c.args[0])
        d = dataset(c)
        if d is not None and field(c) is None:
            return self.present[dtype(d)]
        if c.op == '<' and num(c.args[0]) == 0 and resolve(c.args[1]).op in ('dim', 'size'):
            x = resolve(resolve(c.args[1]).args[0])
            if dataset(x) is not None and field(x) is None:
                return self.present[dtype(dataset(x))]
        if c.op == '==' and any(resolve(a).op == 'list' and not resolve(a).args for a in c.args):
            for a in c.args:
                if dataset(a) is not None and field(a) is None:
                    return not self.present[dtype(dataset(a))]
        self.seen.setdefault(c, len(self.seen))
        return self.choice.get(c, False)

    # listing: sequence of data sets appended to the list
    def seq(self, n):
        n = resolve(n)
        if n.op == 'phi':
            return self.seq(n.args[1] if self.cond(n.args[0]) else n.args[2])
        if n.op == 'mu':
            return n, []
        if n.op in ('list', 'tuple') and not n.args:
            return None, []
        if n.op == 'call' and n.args[0] in ('numpy.concatenate', 'numpy.append', 'numpy.hstack', 'numpy.r_'):
            parts = [x for x in n.args[1:] if x.op != 'kw']
            if n.args[0] != 'numpy.append':
                p = resolve(parts[0])
                if p.op not in ('list', 'tuple'):
                    raise Cannot('concatenation of ' + p.op)
                parts = list(p.args)
            if dataset(parts[0]) is not None and any(dataset(p) is None for p in parts[1:]):
                raise Wrong('a data set is listed before those already listed: ' + str(n)[:160])
            base, out = self.seq(parts[0])
            for p in parts[1:]:
                d = dataset(p)
                if d is None or field(p) not in FIELDS:
                    raise Cannot('listed: ' + str(p)[:100])
                out = out + [dtype(d)]
            return base, out
        if n.op == '+':
            base, out = self.seq(n.args[0])
            d = dataset(n.args[1])
            if d is None:
                raise Cannot('listed: ' + str(n.args[1])[:100])
            return base, out + [dtype(d)]
        if n.op == 'call' and n.args[0] in WRAP and len(n.args) > 1:
            return self.seq(n.args[1])
        raise Cannot('list is ' + n.op + ' ' + str(n)[:100])

    # retrieval: offset as (loop variable or None, number, counts per data type)
    def off(self, n):
        n = resolve(n)
        if n.op == 'phi':
            d = counts(n)
            if d is not None:
                return None, 0, Counter({dtype(d): 1})
            return self.off(n.args[1] if self.cond(n.args[0]) else n.args[2])
        if num(n) is not None:
            return None, num(n), Counter()
        if n.op == 'mu':
            step = self.per_iteration(n)
            if step is not None:
                d = self.trip(n)
                if d is None:
                    raise Cannot('trip count of an inner loop')
                b, k, c = self.off(n.init)
                c = Counter(c)
                c[dtype(d)] += step
                return b, k, c
            return n, 0, Counter()
        if n.op == '+':
            b1, k1, c1 = self.off(n.args[0])
            b2, k2, c2 = self.off(n.args[1])
            if b1 is not None and b2 is not None:
                raise Cannot('sum of two running positions')
            return b1 if b1 is not None else b2, k1 + k2, c1 + c2
        if n.op == '-':
            b1, k1, c1 = self.off(n.args[0])
            b2, k2, c2 = self.off(n.args[1])
            if b2 is not None:
                raise Cannot('difference of positions')
            c = Counter(c1)
            c.subtract(c2)
            return b1, k1 - k2, Counter({k: v for k, v in c.items() if v})
        if n.op == '*':
            for x, y in (n.args, n.args[::-1]):
                if num(x) is not None:
                    b1, k1, c1 = self.off(y)
                    if b1 is not None and num(x) != 1:
                        raise Cannot('multiple of a position')
                    return b1, k1 * num(x), Counter({k: v * num(x) for k, v in c1.items() if num(x)})
        if n.op == 'getitem' and num(n.args[1]) in (-1, 0):
            return self.end(resolve(n.args[0]), num(n.args[1]))
        d = counts(n)
        if d is not None:
            return None, 0, Counter({dtype(d): 1})
        if n.op == 'call' and n.args[0] in ('int', 'len', 'builtins.int') and len(n.args) > 1:
            return self.off(n.args[1])
        if n.op == 'dim' and num(n.args[1]) == 0 and field(n.args[0]) in ('sal', 'pres', 'ptmp', 'temp') and not any(
                x.op == 'T' or x.op == 'call' and x.args[0] in WRAP and x.args[0] != 'builtins.dict' for x in walk(n)):
            raise Wrong(f"casts are counted by the number of levels of {field(n.args[0])}")
        raise Cannot('position is ' + n.op + ' ' + str(n)[:120])

    def end(self, x, which):
        """First or last of consecutive positions."""
        if x.op == '+':
            for p, q in (x.args, x.args[::-1]):
                q = resolve(q)
                if ranged(q):
                    b1, k1, c1 = self.off(p)
                    b2, k2, c2 = self.end(q, which)
                    return b1 if b1 is not None else b2, k1 + k2, c1 + c2
        if x.op == 'call' and x.args[0] in ('numpy.arange', 'range', 'builtins.range'):
            a = [y for y in x.args[1:] if y.op != 'kw']
            if len(a) < 3 or num(a[2]) == 1:
                if which == 0:
                    return (None, 0, Counter()) if len(a) == 1 else self.off(a[0])
                b, k, c = self.off(a[0] if len(a) == 1 else a[1])
                return b, k - 1, c
        raise Cannot('position is an entry of ' + str(x)[:120])

    def per_iteration(self, mu):
        """Increment of a counter that every pass of an inner loop advances by the same number."""
        if mu.next is None or self.loops is None or mu.meta == self.outer:
            return None
        def inc(n):
            n = resolve(n)
            if n is mu:
                return 0
            if n.op == 'phi':
                iv = self.loops.get(mu.meta, {}).get('key')
                if iv is not None and (resolve(n.args[1]) is mu) != (resolve(n.args[2]) is mu) and resolve(iv) in list(walk(n.args[0])):
                    raise Wrong(f"the running position advances only when {n.args[0]}"[:160])
                return inc(n.args[1] if self.cond(n.args[0]) else n.args[2])
            if n.op == '+' and num(n.args[1]) is not None:
                return inc(n.args[0]) + num(n.args[1])
            if n.op == '+' and num(n.args[0]) is not None:
                return inc(n.args[1]) + num(n.args[0])
            raise Cannot('counter ' + str(n)[:80])
        return inc(mu.next)

    loops = None
    outer = None

    def trip(self, mu):
        iv = self.loops.get(mu.meta, {}).get('key')
        iv = resolve(iv) if iv is not None else None
        if iv is None or iv.op != 'iv' or num(iv.args[0]) != 0 or num(iv.args[2]) != 1:
            return None
        return counts(iv.args[1])

    # position of one cast: offset plus the loop counter
    def pos(self, n, iv):
        n = resolve(n)
        if n is iv:
            return (None, 0, Counter()), 1
        if n.op == 'getitem' and resolve(n.args[1]) is iv:
            return self.elem(resolve(n.args[0]), iv)
        if n.op == '+':
            (b1, k1, c1), i1 = self.pos(n.args[0], iv)
            (b2, k2, c2), i2 = self.pos(n.args[1], iv)
            if b1 is not None and b2 is not None:
                raise Cannot('sum of two running positions')
            return (b1 if b1 is not None else b2, k1 + k2, c1 + c2), i1 + i2
        if n.op == 'mu' and n.meta != self.outer:
            # counter advanced once per cast
            step = self.per_iteration(n)
            if step is not None and self.loops.get(n.meta, {}).get('key') is iv:
                return self.off(n.init), step
        if n.op == 'phi' and counts(n) is None:
            return self.pos(n.args[1] if self.cond(n.args[0]) else n.args[2], iv)
        return self.off(n), 0

    def elem(self, x, iv):
        """x[iv] for an array of positions x."""
        if x.op == 'call' and x.args[0] in ('numpy.arange', 'range', 'builtins.range'):
            a = [y for y in x.args[1:] if y.op != 'kw']
            if len(a) == 1:
                return (None, 0, Counter()), 1
            if len(a) == 2 or num(a[2]) == 1:
                return self.off(a[0]), 1
        if x.op == '+':
            (b1, k1, c1), i1 = self.elem(resolve(x.args[0]), iv)
            (b2, k2, c2), i2 = self.elem(resolve(x.args[1]), iv)
            if b1 is not None and b2 is not None:
                raise Cannot('sum of two running positions')
            return (b1 if b1 is not None else b2, k1 + k2, c1 + c2), i1 + i2
        if x.op == 'comp' and resolve(x.args[1]).op == 'const':
            return self.pos(x.args[2], resolve(x.args[0]))
        if x.op == 'call' and x.args[0] in WRAP:
            return self.elem(resolve(x.args[1]), iv)
        if x.op == 'phi' and counts(x) is None:
            return self.elem(resolve(x.args[1] if self.cond(x.args[0]) else x.args[2]), iv)
        return self.off(x), 0


def ranged(q):
    q = resolve(q)
    return q.op == 'call' and q.args[0] in ('numpy.arange', 'range', 'builtins.range') or q.op == '+' and any(ranged(y) for y in q.args)


def uses_index(c):
    return any(x.op == 'param' and x.args[0] == 'index' for x in walk(c))


def runs(f):
    """Evaluate f(World) in every scenario: {(present, choice items): value}."""
    out = []
    seen = {}
    for ps in itertools.product((False, True), repeat=3):
        present = dict(zip((1, 2, 3), ps))
        w = World(present, {}, seen)
        v = f(w)
        out.append((present, (), v))
        done = set()
        while True:
            todo = [c for c in seen if c not in done]
            if not todo:
                break
            for c in todo:
                done.add(c)
                v = f(World(present, {c: True}, seen))
                out.append((present, ((c, True),), v))
            if len(done) > 12:
                raise Cannot('too many unknown conditions')
    return out


def analyses(c):
    P = A.strparam
    lst = A.fn('pyowc.data.fetchers:get_region_hist_locations', {0: P('boxes'), 1: P('name'), 2: CFG}, GD)
    ret = A.fn('pyowc.data.fetchers:get_region_data', {0: P('boxes'), 1: P('name'), 2: CFG, 3: P('index'), 4: P('fpres')}, GD)
    if lst is None or ret is None:
        c.und(R1, 'listing and retrieval', 'get_region_hist_locations or get_region_data not found')
        return None
    c.covered(lst)
    c.covered(ret)
    return lst, ret


def accesses(it):
    out = []
    for e in it.events:
        if e.kind == 'axiom' and e.name.endswith(':get_data'):
            out.append((tuple(plain(e.extra[k]) for k in ('wmo_box', 'data_type', 'config', 'pa_float_name') if k in e.extra), e))
    return out


def rule_walk(c):
    two = analyses(c)
    if not two:
        return
    a, b = (accesses(it) for it in two)
    loc = A.where(b[0][1]) if b else None
    if len(a) != len(b) or not a:
        c.und(R1, 'accesses', f"{len(a)} accesses in the listing, {len(b)} in the retrieval", loc)
        return
    for k, ((x, e), (y, f)) in enumerate(zip(a, b), 1):
        for name, p, q in zip(('region', 'data type', 'configuration', 'float name'), x, y):
            if p is q:
                c.ok(R1, f"access {k}: {name}", '', A.where(f))
            else:
                und = any(z.op in ('opaque', 'call', 'mu') for z in (p, q)) and name != 'data type'
                (c.und if und else c.bad)(R1, f"access {k}: {name}", f"listing uses {str(p)[:150]}, retrieval {str(q)[:150]}", A.where(f))
        gx, gy = {g for g in e.guards}, {g for g in f.guards}
        if gx != gy:
            extra = [str(g[0])[:120] for g in gx ^ gy]
            c.und(R1, f"access {k}: conditions", f"{extra}", A.where(f))
        else:
            c.ok(R1, f"access {k}: conditions", '', A.where(f))
    types = [num(x[1]) for x, _e in a]
    c.that(None if None in types else len(set(types)) == 3 and set(types) == {1, 2, 3}, R1, 'all three data types', str(types), loc)


def tests(it, ret):
    """(condition, index == position node, appended element) for what is kept of every cast."""
    out = []
    seen = set()
    stack = [ret]
    while stack:
        n = resolve(stack.pop())
        if n in seen:
            continue
        seen.add(n)
        if n.op == 'phi' and uses_test(n.args[0]):
            out.append(n)
        stack += [y for y in n.args if isinstance(y, N)]
        if n.op == 'mu':
            stack += [y for y in (n.init, n.next) if y is not None]
    return out


def uses_test(c):
    try:
        return membership(c) is not None
    except Wrong:
        return True


def membership(c):
    """c holds exactly when the position is among the requested numbers: the position node.
    Raises Wrong for a test that is of that form but asks something else."""
    c = resolve(c)
    if c.op == 'in' or c.op == 'contains':
        a, b = (c.args if c.op == 'contains' else c.args[::-1])
        a = resolve(a)
        while a.op == 'call' and a.args[0] in WRAP + ('set', 'list', 'tuple', 'builtins.set', 'numpy.unique') and len(a.args) > 1:
            a = resolve(a.args[1])
        return resolve(b) if a.op == 'param' and a.args[0] == 'index' else None
    if c.op == 'call' and c.args[0].rsplit('.', 1)[-1] in ('any', 'isin', 'in1d') and len(c.args) > 1:
        if c.args[0].rsplit('.', 1)[-1] == 'any':
            return equality(c.args[1])
        x = resolve(c.args[2])
        return resolve(c.args[1]) if x.op == 'param' and x.args[0] == 'index' else None
    if c.op in ('<', '<=', '=='):
        for p, q, flip in ((c.args[0], c.args[1], True), (c.args[1], c.args[0], False)):
            k, d = num(p), resolve(q)
            if k is None:
                continue
            if d.op in ('dim', 'size', 'count') or (d.op == 'call' and d.args[0].rsplit('.', 1)[-1] in ('sum', 'count_nonzero', 'size')):
                x = d.args[1] if d.op == 'call' else d.args[0]
                m = mask_of(x)
                e = equality(m if m is not None else x)
                if e is None:
                    continue
                if flip and (c.op, k) in (('<', 0), ('<=', 1)):
                    return e
                raise Wrong(f"requested casts are recognised by {str(c)[:160]}")
    return None


def equality(m):
    m = resolve(m)
    if m.op == '==':
        for p, q in ((m.args[0], m.args[1]), (m.args[1], m.args[0])):
            x = resolve(p)
            while x.op == 'call' and x.args[0] in WRAP and len(x.args) > 1:
                x = resolve(x.args[1])
            if x.op == 'param' and x.args[0] == 'index':
                return resolve(q)
    if m.op in ('<', '<=') and uses_index(m):
        a, b = (resolve(x) for x in m.args)
        if a.op == 'abs' and num(b) is not None and (num(b) <= 1 if m.op == '<' else num(b) < 1):
            d = resolve(a.args[0])
            if d.op == '-' and num(b) >= 0 and not (m.op == '<' and num(b) == 0):
                from ..ir import mk
                return equality(mk('==', d.args[0], d.args[1]))
        raise Wrong(f"requested casts are recognised by {str(m)[:160]}")
    return None


def rule_position(c):
    try:
        position(c)
    except Wrong as e:
        c.bad(R2, 'numbering', str(e), 'pyowc/data/fetchers.py')


def position(c):
    two = analyses(c)
    if not two:
        return
    lst, ret = two
    loc = 'pyowc/data/fetchers.py get_region_data'
    rn, dn = resolve(lst.ret_node), resolve(ret.ret_node)
    lat = None
    if rn.op == 'tuple' and rn.args:
        lat = resolve(rn.args[0])
    while lat is not None and lat.op in ('phi', 'call') and lat.op != 'mu':
        lat = resolve(lat.args[1])
    if lat is None or lat.op != 'mu' or lat.next is None:
        raise Cannot('the listing does not build its result over the regions')
    init = resolve(lat.init)
    c.that(init.op in ('list',) and not init.args or (init.op == 'call' and num(init.args[1]) == 0) or None, R2, 'listing starts empty', str(init)[:80], loc)
    # order of what the listing appends, per scenario
    order = {}
    for present, ch, (base, out) in runs(lambda w: w.seq(lat.next)):
        if base is not lat:
            raise Cannot('the listing is not extended')
        if ch:
            continue
        order[tuple(sorted(present.items()))] = out
    for present, out in order.items():
        want = [k for k, p in present if p]
        if out != want:
            c.bad(R2, f"listing with data types {want}", f"casts are listed in the order {out}", loc)
            return
    c.ok(R2, 'listing appends every data set present, in order', '8 combinations', loc)
    # retrieval
    d = {}
    if dn.op == 'dict':
        d = {k.args[0]: v for k, v in zip(dn.args[0::2], dn.args[1::2]) if k.op == 'const'}
    if 'grid_lat' not in d:
        raise Cannot('the retrieval does not return an enumerable record')
    World.loops = ret.loopinfo
    World.outer = accesses(ret)[0][1].loops[0] if accesses(ret) and accesses(ret)[0][1].loops else None
    mus = set()
    done = 0
    for phi in tests(ret, d['grid_lat']):
        try:
            p = membership(phi.args[0])
        except Wrong as e:
            c.bad(R3, 'membership test', str(e), loc)
            continue
        el = appended(phi)
        if el is None:
            continue
        ds, iv = el
        k = dtype(ds)
        done += 1
        verdict = None
        for present, ch, (o, i) in runs(lambda w: w.pos(p, iv)):
            if not present[k]:
                continue
            base, number, cnt = o
            want = Counter({j: 1 for j in order[tuple(sorted(present.items()))][:order[tuple(sorted(present.items()))].index(k)]})
            if base is not None:
                mus.add(base)
            if i != 1 or number != 0 or dict(cnt) != dict(want) or base is None:
                why = f"with data types {[j for j in present if present[j]]} present cast i of type {k} is given number " \
                      f"{'running + ' if base is not None else ''}{number or ''} {dict(cnt)} + {i}*i, listed at {dict(want)} + i"
                hard = all(uses_index(x) for x, _v in ch)
                verdict = (hard, why) if verdict is None or (hard and not verdict[0]) else verdict
        if verdict is None:
            c.ok(R2, f"position of casts of data type {k}", str(p)[:100], loc)
        else:
            (c.bad if verdict[0] else c.und)(R2, f"position of casts of data type {k}", verdict[1], loc)
        c.ok(R3, f"data type {k}", str(phi.args[0])[:120], loc)
    if not done:
        raise Cannot('no membership test found for what is retrieved')
    for mu in mus:
        if mu.next is None:
            continue
        i0 = num(mu.init)
        c.that(None if i0 is None else i0 == 0, R2, 'numbering starts at zero', str(mu.init)[:80], loc)
        worst = None
        for present, ch, (base, number, cnt) in runs(lambda w: w.off(mu.next)):
            want = Counter(order[tuple(sorted(present.items()))])
            if base is not mu or number or dict(cnt) != dict(want):
                hard = all(uses_index(x) for x, _v in ch)
                why = f"with data types {[j for j in present if present[j]]} present the running position advances by {number or ''} {dict(cnt)}" + \
                      (f" when {str(ch[0][0])[:120]}" if ch else '')
                worst = (hard, why) if worst is None or (hard and not worst[0]) else worst
        if worst is None:
            c.ok(R2, 'advance over one region', 'sum of all data sets present, 8 combinations', loc)
        else:
            (c.bad if worst[0] else c.und)(R2, 'advance over one region', worst[1], loc)


def rule_breaks(c):
    """No cast is passed over by stopping early."""
    two = analyses(c)
    if not two:
        return
    lst, ret = two
    for it, what in ((lst, 'listing'), (ret, 'retrieval')):
        for lid, rec in it.loopinfo.items():
            for k, gs in enumerate(rec.get('breaks', ())):
                last = [g for g in gs if resolve(g[0]).op != 'exc'][-1:]
                inst = f"{what} stops at {rec.get('loc')}"
                if what == 'listing' or not last:
                    c.und(R3, inst, str(last)[:200], rec.get('loc'))
                    continue
                t = beyond(last[0])
                (c.ok if t is True else c.bad if t is False else c.und)(R3, inst, 'only past the largest requested number' if t else
                                                                        f"stops when {'' if last[0][1] else 'not '}{str(last[0][0])[:200]}", rec.get('loc'))
    c.ok(R3, 'early stops looked for', f"{len(lst.loopinfo)} + {len(ret.loopinfo)} loops")


def beyond(guard):
    """Whether a condition says that the position is past every requested number."""
    g, pol = resolve(guard[0]), guard[1]
    while g.op in ('not', 'truth', 'bool'):
        pol = pol != (g.op == 'not')
        g = resolve(g.args[0])
    if g.op == 'and' and pol:
        ts = [beyond((a, True)) for a in g.args]
        return True if True in ts else None if None in ts else False
    if g.op not in ('<', '<='):
        return None
    a, b = (resolve(x) for x in g.args)
    if not pol:
        a, b = b, a
    strict = (g.op == '<') == bool(pol)
    def largest(x):
        while x.op == 'call' and x.args[0] in ('int', 'builtins.int', 'float'):
            x = resolve(x.args[1])
        return x.op == 'call' and x.args[0].rsplit('.', 1)[-1] in ('max', 'amax', 'nanmax') and len([y for y in x.args[1:] if isinstance(y, N) and y.op != 'kw']) == 1 and \
            resolve(x.args[1]).op == 'param'
    if largest(a):
        return True if strict else False
    if a.op == '+' and any(largest(resolve(x)) for x in a.args) and any((num(x) or -1) > 0 for x in a.args):
        return True
    if uses_index(a) and not uses_index(b):
        return False            # past some of the requested numbers only
    return None


def appended(phi):
    """(data set, cast index) of the element a selected cast contributes."""
    n = resolve(phi.args[1])
    for _ in range(10):
        if n.op == 'call' and n.args[0] == 'numpy.append' and len(n.args) > 2:
            x = resolve(n.args[2])
        elif n.op == 'append':
            x = resolve(n.args[1])
        elif n.op == 'phi':
            n = resolve(n.args[1])
            continue
        else:
            return None
        if x.op == 'getitem' and dataset(x.args[0]) is not None:
            return dataset(x.args[0]), resolve(x.args[1])
        return None
    return None


def rule_calls(c):
    """The numbers requested are positions in the listing, untouched in between."""
    it = A.core()
    c.covered(it)
    ls, rs, fs = (A.axioms(it, n) for n in ('get_region_hist_locations', 'get_region_data', 'find_besthist'))
    if len(ls) != 1 or len(rs) != 1 or len(fs) != 1:
        c.und(R1, 'calls of the mapping', f"{len(ls)}/{len(rs)}/{len(fs)} calls")
        return
    le, re_, fe = ls[0], rs[0], fs[0]
    for k in ('pa_wmo_numbers', 'pa_float_name', 'config'):
        a, b = plain(le.extra.get(k)), plain(re_.extra.get(k))
        c.that(True if a is b else None if a is None or b is None or 'mu' in (a.op, b.op) else False, R1, f"mapping: {k}",
               f"{str(a)[:100]} / {str(b)[:100]}", A.where(re_))
    idx = resolve(re_.extra['index'])
    x = idx
    while x.op == 'call' and x.args[0] in WRAP + ('numpy.sort', 'numpy.unique') and len(x.args) > 1:
        x = resolve(x.args[1])
    if short(x) == 'find_besthist':
        c.ok(R1, 'mapping: requested numbers', 'result of find_besthist', A.where(re_))
    elif any(short(y) == 'find_besthist' for y in walk(x)) and x.op in ('+', '-', 'getitem', '*'):
        c.bad(R1, 'mapping: requested numbers', f"the selection is altered: {str(x)[:160]}", A.where(re_))
    else:
        c.und(R1, 'mapping: requested numbers', str(x)[:160], A.where(re_))
    args = list(fe.extra.items())[:4]
    for name, v in args[:3]:
        t = Align(True).term(v)
        ok = t[0] == 'src'
        c.that(True if ok else False if t[0] in ('take', 'drop', 'sel') else None, R1, f"selection sees the whole listing: {name}", str(v)[:140], A.where(fe))


def main():
    c = Check('C03', 'cast numbers agree between listing and retrieval',
              'Both walks are reduced to their sequence of archive accesses, which must agree argument by argument. For each of the 8 '
              'combinations of present data sets the number given to a cast on retrieval (base, sum of set sizes, loop counter) is '
              'computed from the value graph and must equal its place in the listing; the running position must advance by the size '
              'of every set present on every path, selected or not.',
              'Symbolic in the number of regions, the sizes of data sets and the requested numbers; unknown conditions are tried both ways.')
    c.rule(rule_walk)
    c.rule(rule_position)
    c.rule(rule_breaks)
    c.rule(rule_calls)
    c.assume('archive access does not raise half way through a data set (see DESIGN.md, not repaired)')
    return c.finish()

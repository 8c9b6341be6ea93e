"""C24: each topography value comes from the file position of its own grid point."""
from .. import analyses as A
from ..algebra import Alg, Cannot, Poly, fn as afn, leaf, num as pnum, show
from ..ir import N, resolve, walk
from ..lin import infeasible, proves, witness
from ..masks import num
from ..report import Check

GET = 'pyowc.data.fetchers:get_topo_grid'
R1, R2, R3, R4, R5 = ('file position of each depth', 'reads stay within a row', 'depths and coordinates have the same extent', 'stored numbers are two-byte integers',
                      'global file of the configuration')
CODES = ('h', '<h', '=h', '@h')
TYPES = ('int16', '<i2', 'i2', '=i2', 'numpy.int16', 'h', '<h', 'short', 'numpy.short')
ROW, BYTES, TOP = 4320, 2, 1080
# ranges in which the callers ask (longitudes are brought to -180..180 first, one degree is added on each side)
DOMAINS = (('-181 <= longitudes <= 181', -181 * 12, 181 * 12), ('0 <= longitudes <= 719', 0, 719 * 12))


class Uneven(Exception):
    """Coordinates that are not those of grid points."""


class NeedCase(Exception):
    def __init__(self, cond):
        super().__init__('case')
        self.cond = cond


class Formulas:
    """Formulas under assumed outcomes of conditions."""

    def __init__(self, case):
        self.case = case
        self.facts = []
        self.alg = Alg(self.leaf_of, self.choose)

    def choose(self, c, _alg):
        c = resolve(c)
        neg = False
        while c.op in ('not', 'truth'):
            neg, c = neg ^ (c.op == 'not'), resolve(c.args[0])
        if c.op in ('and', 'or'):
            vs = [self.choose(a, None) for a in c.args]
            return (all(vs) if c.op == 'and' else any(vs)) ^ neg
        for k, v in self.case:
            if k is c:
                return v ^ neg
        raise NeedCase(c)

    def leaf_of(self, n):
        if n.op == 'param':
            return n.args[0]
        if n.op == 'iv':
            return ('iv', n)
        if n.op == 'int' or n.op == 'call' and n.args[0] in ('int', 'builtins.int', 'builtins.round', 'round', 'numpy.round', 'numpy.rint', 'numpy.around'):
            p = self.alg.poly(n.args[0] if n.op == 'int' else n.args[1])
            return p if self.whole(p) else Poly({((('fn', 'trunc' if n.op == 'int' else 'round', (p.frozen(),)), 1),): 1.0})
        if n.op == 'call':
            f, a = n.args[0], [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
            if f in ('numpy.floor', 'math.floor', 'numpy.ceil', 'math.ceil'):
                p = self.alg.poly(a[0])
                return p if self.whole(p) else afn(f.rsplit('.', 1)[1], p)
            if f in ('numpy.max', 'numpy.min', 'builtins.max', 'builtins.min', 'max', 'min', 'numpy.maximum', 'numpy.minimum', 'numpy.amax', 'numpy.amin'):
                if len(a) == 1 and resolve(a[0]).op in ('tuple', 'list'):
                    a = resolve(a[0]).args
                ps = [self.alg.poly(x) for x in a]
                if len(ps) == 1:
                    return None
                ps = sorted(ps, key=lambda p: repr(p.frozen()))
                up = 'max' in f
                if all(p.const() is not None for p in ps):
                    return pnum((max if up else min)(p.const() for p in ps))
                out = afn('max' if up else 'min', *ps)
                for p in ps:
                    self.facts.append((out - p) if up else (p - out))
                return out
        if n.op == '//':
            a, b = self.alg.poly(n.args[0]), self.alg.poly(n.args[1]).const()
            if b:
                p = a.scale(1 / b)
                return p if self.whole(p) else afn('floor', p)
        if n.op in ('dim', 'size'):
            k = 0 if n.op == 'size' else num(n.args[1])
            b = resolve(n.args[0])
            for tell in ((lambda: self.extent(b)[k]), (lambda: self.pieces(b, pnum(0), pnum(0))[1][k])) if n.op == 'dim' else ():
                try:
                    return tell()
                except Cannot:
                    pass
            return self.length(b) if k == 0 else None
        return None

    def whole(self, p):
        """Integer for sure."""
        return all(abs(c - round(c)) < 1e-9 and all(a[0] == 'fn' and a[1] in ('floor', 'ceil', 'trunc', 'round', 'max', 'min') or
                                                    a[0] == 'leaf' and isinstance(a[1], tuple) for a, _e in m) for m, c in p.t.items())

    def of(self, n):
        return self.alg.poly(n)

    def condition_facts(self):
        out = []
        for c, v in self.case:
            if c.op not in ('<', '<='):
                continue
            a, b = self.of(c.args[0]), self.of(c.args[1])
            d = b - a
            step = 1 if self.whole(d) else 0
            if c.op == '<':
                out.append(d - pnum(step) if v else d.scale(-1))
            else:
                out.append(d if v else d.scale(-1) - pnum(step))
        return out

    # -- arrays ---------------------------------------------------------------
    def length(self, n):
        n = resolve(n)
        if n.op == 'call' and n.args[0] == 'numpy.arange':
            a = [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
            lo, hi, st = (pnum(0), self.of(a[0]), 1) if len(a) == 1 else (self.of(a[0]), self.of(a[1]), self.of(a[2]).const() if len(a) > 2 else 1)
            if st in (1, -1):
                return (hi - lo).scale(st)
        if n.op in ('+', '-', '*', '/', 'neg'):
            for x in n.args:
                try:
                    return self.length(x)
                except Cannot:
                    pass
        if n.op == 'call' and n.args[0] in ('numpy.flip', 'numpy.flipud', 'numpy.array', 'numpy.asarray', 'numpy.divide', 'numpy.multiply', 'numpy.ravel'):
            return self.length(n.args[1])
        if n.op == 'getitem':
            return self.length(n.args[0])
        if n.op == 'phi':
            return self.length(n.args[1] if self.choose(n.args[0], None) else n.args[2])
        if n.op == 'call' and n.args[0] == 'numpy.linspace' and len(n.args) > 3:
            return self.of(n.args[3])
        raise Cannot('length of ' + n.op)

    def at(self, n, k):
        """Element k of a one-dimensional array, as a formula."""
        n = resolve(n)
        if n.op == 'phi':
            return self.at(n.args[1] if self.choose(n.args[0], None) else n.args[2], k)
        if n.op == 'call':
            f, a = n.args[0], [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
            if f == 'numpy.arange':
                if len(a) == 1:
                    return k
                st = self.of(a[2]) if len(a) > 2 else pnum(1)
                return self.of(a[0]) + st * k
            if f == 'numpy.linspace' and len(a) == 3 and len(n.args) == 4:
                span, m = self.of(a[1]) - self.of(a[0]), self.of(a[2]) - pnum(1)
                for t, v in m.t.items():
                    if t and t in span.t:
                        step = span.t[t] / v
                        if span.same(m.scale(step)):
                            return self.of(a[0]) + k.scale(step)
                        break
                raise Uneven(f"values from {self.of(a[0])} to {self.of(a[1])} in {m} steps: not one grid point per step")
            if f in ('numpy.flip', 'numpy.flipud'):
                return self.at(a[0], self.length(a[0]) - pnum(1) - k)
            if f in ('numpy.array', 'numpy.asarray', 'numpy.ravel'):
                return self.at(a[0], k)
            if f in ('numpy.divide', 'numpy.multiply'):
                n = N_binary({'numpy.divide': '/', 'numpy.multiply': '*'}[f], a)
                return self.arith(*n, k)
        if n.op in ('+', '-', '*', '/'):
            return self.arith(n.op, n.args[0], n.args[1], k)
        if n.op == 'neg':
            return self.at(n.args[0], k).scale(-1)
        if n.op == 'getitem':
            i = resolve(n.args[1])
            if i.op == 'slice':
                s = [num(x) if resolve(x).args[0] is not None else None for x in i.args]
                if s == [None, None, -1]:
                    return self.at(n.args[0], self.length(n.args[0]) - pnum(1) - k)
                if s in ([None, None, None], [None, None, 1], [0, None, None]):
                    return self.at(n.args[0], k)
            raise Cannot('part of an array')
        return self.of(n)

    def arith(self, op, a, b, k):
        x, y = self.at(a, k), self.at(b, k)
        if op == '/':
            if not y.const():
                raise Cannot('division')
            return x.scale(1 / y.const())
        return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y}[op]()

    def mesh(self, n, r, c):
        """Element (r, c) of a coordinate grid."""
        n = resolve(n)
        if n.op == 'phi':
            return self.mesh(n.args[1] if self.choose(n.args[0], None) else n.args[2], r, c)
        if n.op in ('+', '-', '*', '/', 'neg'):
            xs = [self.mesh(x, r, c) for x in n.args]
            if n.op == '/':
                if not xs[1].const():
                    raise Cannot('division')
                return xs[0].scale(1 / xs[1].const())
            return {'+': lambda: xs[0] + xs[1], '-': lambda: xs[0] - xs[1], '*': lambda: xs[0] * xs[1], 'neg': lambda: xs[0].scale(-1)}[n.op]()
        if n.op == 'T':
            return self.mesh(n.args[0], c, r)
        if n.op == 'getitem' and resolve(n.args[0]).op == 'call' and resolve(n.args[0]).args[0] == 'numpy.meshgrid':
            m = resolve(n.args[0])
            a = [x for x in m.args[1:] if isinstance(x, N) and x.op != 'kw']
            kw = {x.args[0]: resolve(x.args[1]) for x in m.args[1:] if isinstance(x, N) and x.op == 'kw'}
            which = num(n.args[1])
            if which not in (0, 1) or len(a) != 2 or set(kw) - {'indexing'}:
                raise Cannot('meshgrid')
            ij = 'indexing' in kw and kw['indexing'].args[0] == 'ij'
            return self.at(a[which], (r, c)[which] if ij else (c, r)[which])
        if n.op == 'call' and n.args[0] in ('numpy.flipud', 'numpy.flip'):
            kw = {x.args[0]: num(x.args[1]) for x in n.args[1:] if isinstance(x, N) and x.op == 'kw'}
            axis = 0 if n.args[0] == 'numpy.flipud' else kw.get('axis', num(n.args[2]) if len(n.args) > 2 else None)
            rows, cols = self.extent(n.args[1])
            if axis == 0:
                return self.mesh(n.args[1], rows - pnum(1) - r, c)
            if axis == 1:
                return self.mesh(n.args[1], r, cols - pnum(1) - c)
        if n.op == 'const' and num(n) is not None:
            return pnum(num(n))
        raise Cannot('coordinate grid ' + n.op)

    def extent(self, n):
        n = resolve(n)
        if n.op == 'phi':
            return self.extent(n.args[1] if self.choose(n.args[0], None) else n.args[2])
        if n.op in ('+', '-', '*', '/', 'neg'):
            return self.extent(n.args[0])
        if n.op == 'T':
            a, b = self.extent(n.args[0])
            return b, a
        if n.op == 'call' and n.args[0] in ('numpy.flipud', 'numpy.flip'):
            return self.extent(n.args[1])
        if n.op == 'getitem':
            m = resolve(n.args[0])
            if m.op == 'call' and m.args[0] == 'numpy.meshgrid':
                a = [x for x in m.args[1:] if isinstance(x, N) and x.op != 'kw']
                ij = any(isinstance(x, N) and x.op == 'kw' and x.args[0] == 'indexing' and resolve(x.args[1]).args[0] == 'ij' for x in m.args[1:])
                x, y = self.length(a[0]), self.length(a[1])
                return (x, y) if ij else (y, x)
        raise Cannot('extent of ' + n.op)

    # -- the depth array ---------------------------------------------------------
    def pieces(self, n, r0, c0):
        """[(row, column, value, loops' nodes, shape)]: formulas of the place of each stored value."""
        n = resolve(n)
        if n.op == 'phi':
            return self.pieces(n.args[1] if self.choose(n.args[0], None) else n.args[2], r0, c0)
        if n.op == 'call' and n.args[0] in ('numpy.concatenate', 'numpy.hstack', 'numpy.vstack', 'numpy.append', 'numpy.c_'):
            f = n.args[0]
            a = [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
            kw = {x.args[0]: num(x.args[1]) for x in n.args[1:] if isinstance(x, N) and x.op == 'kw'}
            if f == 'numpy.append':
                parts, rest = a[:2], a[2:]
            else:
                parts, rest = resolve(a[0]).args, a[1:]
            axis = {'numpy.hstack': 1, 'numpy.vstack': 0}.get(f, kw.get('axis', num(rest[0]) if rest else 0))
            if axis not in (0, 1, -1):
                raise Cannot('axis')
            out, r, c = [], r0, c0
            size = [pnum(0), pnum(0)]
            for p in parts:
                got, shape = self.pieces(p, r, c)
                out += got
                if axis == 0:
                    r, size = r + shape[0], [size[0] + shape[0], shape[1]]
                else:
                    c, size = c + shape[1], [shape[0], size[1] + shape[1]]
            return out, size
        if n.op == 'call' and n.args[0] in ('numpy.array', 'numpy.asarray', 'numpy.astype', 'numpy.float64') and len(n.args) > 1:
            return self.pieces(n.args[1], r0, c0)
        stores, base, seen = [], n, set()
        todo = [n]
        while todo:
            x = resolve(todo.pop())
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'store':
                stores.append((x.args[1], x.args[2]))
                todo.append(x.args[0])
            elif x.op == 'mu':
                todo += [x.init] + ([x.next] if x.next is not None else [])
            elif x.op == 'phi':
                todo.append(x.args[1] if self.choose(x.args[0], None) else x.args[2])
            elif x.op == 'call' and x.args[0] in ('numpy.zeros', 'numpy.empty', 'numpy.full', 'numpy.ones'):
                base = x
            else:
                raise Cannot('depth array made by ' + x.op + ' ' + str(x.args[0])[:40])
        sh = resolve(base.args[1]) if base.op == 'call' else None
        if sh is None or sh.op not in ('tuple', 'list') or len(sh.args) != 2:
            raise Cannot('shape of the depth array')
        shape = [self.of(x) for x in sh.args]
        out = []
        for i, v in stores:
            i = resolve(i)
            it = list(i.args) if i.op == 'tuple' else [i]
            if len(it) == 1:
                it.append(None)
            place = [self.of(it[0])]
            block = None
            if it[1] is None or resolve(it[1]).op == 'slice':
                s = [] if it[1] is None else [resolve(x) for x in resolve(it[1]).args]
                lo = pnum(0) if not s or s[0].args[0] is None else self.of(s[0])
                hi = shape[1] if not s or s[1].op == 'const' and s[1].args[0] is None else self.of(s[1])
                block = ('block', hi - lo)
                place.append(lo + leaf(('in block', n)))
            else:
                place.append(self.of(it[1]))
            out.append((r0 + place[0], c0 + place[1], v, block))
        return out, shape


def N_binary(op, a):
    return op, a[0], a[1]


def stretch(p, ivs):
    """(lowest, highest) of a formula over loop counters with known numbers of rounds."""
    lo = hi = p
    for a, count in ivs.items():
        m = ((a, 1),)
        hit = [x for x in p.t if x and any(y == a for y, _e in x)]
        if not hit:
            continue
        if len(hit) > 1 or len(hit[0]) > 1 or hit[0][0][1] != 1:
            raise Cannot('place not linear in the loop counter')
        k = p.t[hit[0]]
        rest = Poly({x: c for x, c in lo.t.items() if x != hit[0]}), Poly({x: c for x, c in hi.t.items() if x != hit[0]})
        far = (count - pnum(1)).scale(k)
        lo, hi = (rest[0], rest[1] + far) if k > 0 else (rest[0] + far, rest[1])
    return lo, hi


class Reads:
    def __init__(self, it):
        self.it = it
        self.events = {e.node: e for e in it.events if e.kind == 'call' and e.name in ('.read', 'numpy.fromfile')}

    def value(self, v):
        """(read node, bytes per value, type ok, index of the value inside the read)"""
        v = resolve(v)
        inside = None
        while True:
            if v.op == 'getitem':
                inside = resolve(v.args[1])
                v = resolve(v.args[0])
            elif v.op in ('int', 'T') or v.op == 'call' and v.args[0] in ('float', 'int', 'builtins.float', 'builtins.int', 'numpy.array', 'numpy.asarray', 'numpy.astype',
                                                                          'numpy.float64'):
                v = resolve(v.args[0] if v.op in ('int', 'T') else v.args[1])
            else:
                break
        if v.op != 'call':
            raise Cannot('value stored is ' + v.op)
        f = v.args[0]
        a = [x for x in v.args[1:] if isinstance(x, N) and x.op not in ('kw', 'occurrence')]
        kw = {x.args[0]: x.args[1] for x in v.args[1:] if isinstance(x, N) and x.op == 'kw'}
        if f == 'struct.unpack' and len(a) == 2 and resolve(a[1]).op == 'call' and resolve(a[1]).args[0] == '.read':
            code = resolve(a[0])
            if code.op == 'const':
                return resolve(a[1]), code.args[0] in CODES, str(code.args[0]), inside
            return resolve(a[1]), None if 'h' in str(code) else False, str(code)[:40], inside
        if f == 'numpy.frombuffer' and a and resolve(a[0]).op == 'call' and resolve(a[0]).args[0] == '.read':
            t = type_name(a[1] if len(a) > 1 else kw.get('dtype'))
            return resolve(a[0]), t in TYPES, t, inside
        if f == 'numpy.fromfile':
            t = type_name(a[1] if len(a) > 1 else kw.get('dtype'))
            return v, t in TYPES, t, inside
        if f in ('int.from_bytes', 'builtins.int.from_bytes') and a and resolve(a[0]).op == 'call' and resolve(a[0]).args[0] == '.read':
            order = resolve(a[1] if len(a) > 1 else kw.get('byteorder'))
            signed = kw.get('signed')
            good = order.op == 'const' and order.args[0] == 'little' and signed is not None and resolve(signed).args[0] is True
            return resolve(a[0]), good, 'from_bytes', inside
        raise Cannot('value stored is ' + f)

    def size(self, e, F):
        """Bytes one read takes."""
        if e.name == '.read':
            if len(e.args) < 2:
                raise Cannot('read to the end')
            return F.of(e.args[1])
        kw = e.kwargs
        n = kw.get('count') or (e.args[2] if len(e.args) > 2 else None)
        if n is None:
            raise Cannot('read to the end')
        return F.of(n).scale(BYTES)

    def file_of(self, e):
        return resolve(e.args[0])

    def position(self, r, F):
        """File position (formula) at which a read begins, and its loop counters."""
        f = self.file_of(r)
        seeks = [e for e in self.it.events if e.kind == 'call' and e.name == '.seek' and resolve(e.args[0]) is f]
        mine = [e for e in seeks if e.seq < r.seq and e.loops == r.loops[:len(e.loops)] and self.holds(e, r)]
        if not mine:
            raise Cannot('no seek before the read')
        s = mine[-1]
        if len(s.args) > 2 and num(s.args[2]) != 0 or s.kwargs:
            raise Cannot('relative seek')
        later = [e for e in seeks if e is not s and e.seq > s.seq and (e.seq < r.seq or e.loops[:len(s.loops) + 1] == r.loops[:len(s.loops) + 1] and
                                                                       len(r.loops) > len(s.loops))]
        if any(self.may(e, F) and e.loops != r.loops[:0] and shares(e, r) for e in later):
            raise Cannot('another seek in between')
        pos = F.of(s.args[1])
        extra = r.loops[len(s.loops):]
        reads = [e for e in self.events.values() if self.file_of(e) is f and self.may(e, F)]
        between = [e for e in reads if e is not r and s.seq < e.seq and (e.seq < r.seq or extra and e.loops[:len(s.loops) + 1] == r.loops[:len(s.loops) + 1])]
        if any(e.loops != r.loops for e in between):
            raise Cannot('other reads in between')
        pos = pos + sum((self.size(e, F) for e in between if e.seq < r.seq), pnum(0))
        step = self.size(r, F) + sum((self.size(e, F) for e in between), pnum(0))
        for lid in reversed(extra):
            iv, count = self.rounds(lid, F)
            if count is None:
                raise Cannot('loop')
            pos = pos + step * iv
            step = step * count
        return pos

    def rounds(self, lid, F):
        k = resolve(self.it.loopinfo[lid]['key'])
        if k.op != 'iv' or num(k.args[0]) != 0 or num(k.args[2]) != 1:
            if k.op == 'iv' and num(k.args[2]) == 1:
                lo = F.of(k.args[0])
                return F.of(k) - lo, F.of(k.args[1]) - lo
            raise Cannot('loop range')
        return F.of(k), F.of(k.args[1])

    def holds(self, e, r):
        g = {(resolve(c), p) for c, p in r.guards}
        return all((resolve(c), p) in g for c, p in e.guards)

    def may(self, e, F):
        """Not excluded in the assumed case."""
        for c, p in e.guards:
            try:
                if F.choose(c, None) != bool(p):
                    return False
            except NeedCase:
                pass
        return True


def shares(e, r):
    return True


def type_name(n):
    if n is None:
        return 'float64'
    n = resolve(n)
    if n.op == 'const':
        return str(n.args[0])
    if n.op == 'call' and n.args[0] == 'numpy.dtype':
        return type_name(n.args[1])
    return str(n.args[0]) if n.args else n.op


def input_facts(F, polys, lo, hi):
    """What the range of the request gives for rounded bounds, and bounds of rounded values."""
    out = []
    seen = set()
    todo = []
    for p in polys:
        for m in p.t:
            todo += [a for a, _e in m]
    west = east = None
    while todo:
        a = todo.pop()
        if a in seen or a[0] != 'fn':
            continue
        seen.add(a)
        args = [Poly({m: c for _r, m, c in x}) for x in a[2]]
        for p in args:
            for m in p.t:
                todo += [b for b, _e in m]
        me = Poly({((a, 1),): 1.0})
        if a[1] in ('floor', 'ceil', 'trunc', 'round') and len(args) == 1:
            q = args[0]
            for par, sign in (('min_long', -1), ('max_long', 1)):
                if q.same(leaf(par).scale(12)):
                    out += [me - pnum(lo), pnum(hi) - me]
                    if par == 'min_long':
                        west = me
                    else:
                        east = me
            out.append((q - me) if a[1] == 'floor' else (me - q) if a[1] == 'ceil' else pnum(0))
    if west is not None and east is not None:
        out.append(east - west)
    return out


def rounded(F, facts, polys):
    """floor(x) and ceil(x) stay within whole-number bounds of x."""
    out = []
    atoms = set()
    for p in list(polys) + facts:
        for m in p.t:
            atoms |= {a for a, _e in m}
    for a in list(atoms):
        if a[0] == 'fn' and a[1] in ('max', 'min'):
            for x in a[2]:
                for _r, m, _c in x:
                    atoms |= {b for b, _e in m}
    for a in atoms:
        if a[0] != 'fn' or a[1] not in ('floor', 'ceil'):
            continue
        q = Poly({m: c for _r, m, c in a[2][0]})
        me = Poly({((a, 1),): 1.0})
        for f in facts:
            nonconst = [m for m in f.t if m]
            if len(nonconst) != 1 or nonconst[0] not in q.t or len([m for m in q.t if m]) != 1:
                continue
            k = q.t[nonconst[0]] / f.t[nonconst[0]]
            limit = (f.scale(abs(k)) + q if k < 0 else q - f.scale(k)).const()
            if limit is None or abs(limit - round(limit)) > 1e-9:
                continue
            out.append(pnum(round(limit)) - me if k < 0 else me - pnum(round(limit)))
    return out


def cases(it, work):
    """Run work(F) for every combination of outcomes of the conditions it meets."""
    todo, done = [()], 0
    while todo:
        case = todo.pop()
        done += 1
        if done > 400:
            raise Cannot('too many cases')
        F = Formulas(case)
        try:
            work(F)
        except NeedCase as e:
            todo += [case + ((e.cond, True),), case + ((e.cond, False),)]


def describe(F):
    out = []
    for c, v in F.case:
        try:
            out.append(f"{F.of(c.args[0])} {c.op} {F.of(c.args[1])} is {v}")
        except Exception:     # noqa: only for the message
            out.append(f"{str(c)[:60]} is {v}")
    return '; '.join(out) or 'always'


def rule_positions(c, it):
    ret = resolve(it.ret_node)
    if ret.op != 'tuple' or len(ret.args) != 3:
        c.und(R1, GET, 'result is ' + ret.op)
        return
    reads = Reads(it)
    for label, lo, hi in DOMAINS:
        def work(F):
            one_case(c, it, F, reads, ret, label, lo, hi)
        cases(it, work)


def one_case(c, it, F, reads, ret, label, lo, hi):
    try:
        got, shape = F.pieces(ret.args[0], pnum(0), pnum(0))
        jobs = []
        for row, col, value, block in got:
            node, good, kind, inside = reads.value(value)
            e = reads.events.get(node)
            if e is None:
                raise Cannot('read not found')
            if not reads.may(e, F):
                continue
            for cond, _p in e.guards:
                F.choose(cond, None)
            pos = reads.position(e, F)
            size = reads.size(e, F)
            if block is not None:
                pos = pos + leaf_of_block(col).scale(BYTES)
            elif inside is not None and num(inside) != 0:
                pos = pos + F.of(inside).scale(BYTES)
            jobs.append((row, col, pos, size, e, good, kind, block))
        work = []
        for row, col, pos, size, e, good, kind, block in jobs:
            work.append((F.mesh(ret.args[1], row, col), F.mesh(ret.args[2], row, col)))
        extent = F.extent(ret.args[1])
    except Uneven as x:
        c.bad(R1, f"{GET} ({label})", str(x)[:300])
        return
    except Cannot as x:
        c.und(R1, f"{GET} ({label})", str(x)[:200])
        return
    polys = [p for j in jobs for p in j[:4]] + [p for w in work for p in w] + list(extent) + list(shape)
    facts = F.condition_facts() + [f for f in F.facts] + input_facts(F, polys + F.condition_facts(), lo, hi)
    facts += rounded(F, facts, polys)
    if infeasible(facts):
        return
    tell = describe(F)
    for (row, col, pos, size, e, good, kind, block), (lon, lat) in zip(jobs, work):
        inst = f"{A.where(e)} ({label}; {tell})"[:380]
        c.that(good, R4, A.where(e), kind, A.where(e))
        ivs = {}
        try:
            for lid in e.loops:
                iv, count = reads.rounds(lid, F)
                (m,) = [m for m in iv.t if m]
                if len(m) != 1 or len(iv.t) > 1:
                    raise Cannot('loop range')
                ivs[m[0][0]] = count
            if block is not None:
                ivs[('leaf', col_block(col))] = block[1]
        except (Cannot, ValueError) as x:
            c.und(R1, inst, str(x)[:150])
            continue
        filerow = pnum(TOP) - lat.scale(12)
        filecol = pos.scale(1 / BYTES) - filerow.scale(ROW)
        off = (filecol - lon.scale(12)).const()
        if off is None and not known(filecol - lon.scale(12), ivs):
            c.und(R1, inst, f"column {filecol} of row {filerow}")
            continue
        if off is None or abs(off / ROW - round(off / ROW)) > 1e-9:
            c.bad(R1, inst, f"depth for latitude {lat} and longitude {lon} is read at value {pos.scale(0.5)}: column {filecol} of row {filerow}", A.where(e))
            continue
        c.ok(R1, inst, f"column {filecol} of row {filerow}", A.where(e))
        if block is not None:
            d = (size - block[1].scale(BYTES)).const()
            c.that(d is not None and d == 0 if d is not None else None, R1, inst + ' bytes of a block', f"{size} bytes for {block[1]} values", A.where(e))
        elif size.const() != BYTES and not (size.const() is None):
            c.bad(R1, inst, f"{size} bytes are read for one value", A.where(e))
        nonempty = [count - pnum(1) for count in ivs.values()]
        try:
            a, b = stretch(filecol, ivs)
            ra, rb = stretch(filerow, ivs)
        except Cannot as x:
            c.und(R2, inst, str(x))
            continue
        for what, goal in (('first column', a), ('last column', pnum(ROW - 1) - b), ('first row', ra), ('last row', pnum(2 * TOP - 1) - rb)):
            fs = facts + nonempty
            fs = fs + rounded(F, fs, [goal])
            if proves(fs, goal):
                c.ok(R2, f"{what}: {inst}", f"{goal} >= 0", A.where(e))
                continue
            w = witness(fs, goal)
            if w is not None:
                c.bad(R2, f"{what}: {inst}", f"{goal} >= 0 fails for " + ', '.join(f"{show(k)} = {v}" for k, v in w.items()), A.where(e))
            else:
                c.und(R2, f"{what}: {inst}", f"{goal} >= 0", A.where(e))
    # extent: one value for every coordinate
    for axis, what in ((0, 'rows'), (1, 'columns')):
        c.that(equal(facts, shape[axis], extent[axis]), R3, f"{what} ({label}; {tell})"[:380], f"{shape[axis]} {what} of depths, {extent[axis]} of coordinates")
    spans = []
    try:
        for row, col, pos, size, e, good, kind, block in jobs:
            ivs = {}
            for lid in e.loops:
                iv, count = reads.rounds(lid, F)
                (m,) = [m for m in iv.t if m]
                ivs[m[0][0]] = count
            if block is not None:
                ivs[('leaf', col_block(col))] = block[1]
            spans.append((stretch(row, ivs), stretch(col, ivs)))
    except (Cannot, ValueError) as x:
        c.und(R3, f"filling ({label})", str(x)[:150])
        return
    for axis, what in ((0, 'rows'), (1, 'columns')):
        edge, left = pnum(0), list(spans)
        if axis == 0:
            each = [x for s in spans for x in (equal(facts, s[0][0], pnum(0)), equal(facts, s[0][1] + pnum(1), shape[0]))]
            full = False if False in each else None if None in each else True
            c.that(full, R3, f"filling of rows ({label}; {tell})"[:380], '; '.join(f"{s[0][0]}..{s[0][1]}" for s in spans) + f" of {shape[0]}")
            continue
        while left:
            nxt = [s for s in left if s[1][0].same(edge)]
            if not nxt:
                break
            edge = nxt[0][1][1] + pnum(1)
            left.remove(nxt[0])
        if left:
            edge = sum((s[1][1] - s[1][0] + pnum(1) for s in spans), pnum(0))
        full = equal(facts, edge, shape[1])
        c.that(None if left and full else full, R3, f"filling of columns ({label}; {tell})"[:380],
               '; '.join(f"{s[1][0]}..{s[1][1]}" for s in spans) + f" of {shape[1]}")


def known(p, ivs):
    """The difference is made of quantities that can vary on their own."""
    return all(a in ivs or a[0] == 'leaf' or a[0] == 'fn' and a[1] in ('floor', 'ceil', 'max') for m in p.t for a, _e in m)


def equal(facts, p, q):
    d = p - q
    if d.const() is not None:
        return abs(d.const()) < 1e-9
    return False if witness(facts, d) is not None or witness(facts, d.scale(-1)) is not None else None


def col_block(col):
    for m in col.t:
        for a, _e in m:
            if a[0] == 'leaf' and isinstance(a[1], tuple) and a[1][0] == 'in block':
                return a[1]
    raise Cannot('block')


def leaf_of_block(col):
    return leaf(col_block(col))


def rule_file(c, it):
    seen = 0
    for e in it.events:
        if e.kind == 'call' and e.name in ('builtins.open', 'open', 'io.open'):
            seen += 1
            p = resolve(e.args[0])
            txt = str(p)
            c.that('CONFIG_DIRECTORY' in txt and 'tbase.int' in txt, R5, A.where(e), txt[:150], A.where(e))
            mode = resolve(e.args[1]) if len(e.args) > 1 else resolve(e.kwargs['mode']) if 'mode' in e.kwargs else None
            m = mode.args[0] if mode is not None and mode.op == 'const' else 'r'
            c.that('b' in str(m) and 'r' in str(m) and '+' not in str(m), R5, A.where(e) + ' mode', f"opened with mode {m!r}", A.where(e))
    if not seen:
        c.und(R5, GET, 'no file opened')


def main():
    c = Check('C24', 'each topography value is read from the file position of its own grid point',
              'The file position of every two-byte read (seek plus what was read since) is a formula in the requested bounds and the loop counters; for the place where the '
              'value is stored it must be row 1080 - 12*latitude, column 12*longitude modulo 4320, in every case of the wrapping conditions; columns and rows stay inside the '
              'file, by the conditions of the case; the array has the extent of the coordinates and is filled completely.',
              'All requests in the ranges the callers ask for, with or without a seam, not the areas a test picks.')
    it = A.fn(GET)
    if it is None:
        c.und(R1, GET, 'function not found')
        raise SystemExit(c.finish())
    c.covered(it)
    c.assume('requests lie in ' + ' or '.join(d[0] for d in DOMAINS) + ' degrees, with the lower bound not above the upper')
    c.assume('native byte order is little-endian, as the file was written')
    c.rule(rule_positions, it)
    c.rule(rule_file, it)
    raise SystemExit(c.finish())

"""C47: the saved record of reference positions lists every position used, once, with the profile it was used for."""
from .. import analyses as A
from ..ir import N, resolve
from ..levels import through
from ..masks import num
from ..report import Check
from ..roles import Kinds, columns
from ..stages import saved

R1, R2, R3, R4, R5, R6 = ('what an entry holds', 'every cast used is looked at', 'listed unless near an entry', 'earlier entries are kept',
                          'ordered by profile number', 'the casts mapped are those listed')
KEY = 'selected_hist'
SAME = ('numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.reshape', 'numpy.atleast_2d', 'numpy.vstack', 'numpy.stack', 'copy.copy', 'copy.deepcopy',
        'builtins.list', 'list', 'numpy.asanyarray', 'numpy.float64')
JOIN = ('numpy.vstack', 'numpy.concatenate', 'numpy.append', 'numpy.row_stack', 'numpy.r_')
LISTED = ('numpy.argwhere', 'numpy.flatnonzero')
PLACED = ('numpy.where', 'numpy.nonzero')
TOL = 1 / 60


def call(n, names):
    return n.op == 'call' and n.args[0] in names


def is_row(n):
    """The three values of an entry, if the node is one entry written out."""
    n = through(n)
    while call(n, SAME) and len(n.args) > 1 and isinstance(n.args[1], N):
        n = through(n.args[1])
    while n.op in ('list', 'tuple') and len(n.args) == 1:
        n = through(n.args[0])
    return n if n.op in ('list', 'tuple') and len(n.args) == 3 else None


class Record:
    """Ways the record comes about: entries added, conditions on adding, orders, and what replaces it."""

    def __init__(self, value):
        self.nodes = set()      # nodes that are the record
        self.added = []         # (row, guards, onto)
        self.fresh = []         # (row, guards): a record of this entry only
        self.empty = []         # (node, inner, guards)
        self.orders = []        # ('key', n) | ('index', n)
        self.other = []         # (kind, node)
        self.walk(value, False, ())

    def walk(self, n, inner, guards):
        n = through(n)
        if n.op == 'mu' and ((n, True) in self.nodes or (n, False) in self.nodes) or n.op == 'sorted' and (n, inner) in self.nodes:
            return
        row = is_row(n)
        if row is not None and n.op != 'mu':
            self.fresh.append((row, guards))
            return
        self.nodes.add((n, inner))
        if n.op == 'phi':
            c = resolve(n.args[0])
            self.walk(n.args[1], inner, guards + ((c, True),))
            self.walk(n.args[2], inner, guards + ((c, False),))
        elif n.op == 'mu':
            self.walk(n.init, inner, ())
            if n.next is not None:
                self.walk(n.next, True, ())
        elif n.op == 'sorted':
            self.orders.append(('key', n))
            self.walk(n.args[0], inner, guards)
        elif call(n, JOIN) and self.parts(n) is not None:
            parts = self.parts(n)
            rows = [is_row(p) for p in parts]
            bases = [p for p, r in zip(parts, rows) if r is None]
            if any(r is not None for r in rows):
                for r in rows:
                    if r is not None:
                        self.added.append((r, guards, bases[0] if len(bases) == 1 else None))
                if not bases:
                    return
                for b in bases:
                    self.walk(b, inner, ())
            elif len(parts) == 1:
                self.walk(parts[0], inner, guards)
            else:
                self.other.append(('joined', n))
        elif n.op in ('list', 'tuple') and not n.args or call(n, ('numpy.empty', 'numpy.zeros')) and num(n.args[1]) is None and 0 in sizes(n.args[1]):
            self.empty.append((n, inner, guards))
        elif call(n, SAME) and len(n.args) > 1:
            self.walk(n.args[1], inner, guards)
        elif n.op == 'getitem' and through(n.args[1]).op == 'const' and through(n.args[1]).args[0] == KEY:
            b = through(n.args[0])
            if call(b, ('scipy.io.loadmat',)) or b.op == 'without':
                return
            self.other.append(('base', n))
        elif n.op == 'getitem':
            i = through(n.args[1])
            rows = through(i.args[0]) if i.op == 'tuple' and i.args else i
            if call(rows, ('numpy.argsort',)):
                self.orders.append(('index', n))
                self.walk(n.args[0], inner, guards)
            elif rows.op == 'slice' and all(num(x) is None for x in rows.args) and all(through(x).op == 'const' for x in rows.args if isinstance(x, N)) and i.op != 'tuple':
                self.walk(n.args[0], inner, guards)
            else:
                self.other.append(('part', n))
        elif call(n, ('numpy.sort',)):
            self.other.append(('columns apart', n))
        else:
            self.other.append(('unknown', n))

    @staticmethod
    def parts(n):
        a = [through(x) for x in n.args[1:] if isinstance(x, N)]
        if n.args[0] == 'numpy.append':
            return a[:2]
        if a and a[0].op in ('tuple', 'list'):
            return [through(x) for x in a[0].args]
        return None


def sizes(n):
    n = through(n)
    return [num(x) for x in n.args] if n.op in ('tuple', 'list') else [num(n)]


# ------------------------------------------------------------------ conditions
class Near:
    """Conditions of the form: there is an entry of the record with small differences."""

    def __init__(self, rec):
        self.rec = {n for n, _ in rec.nodes}
        self.partial = False

    def is_rec(self, n):
        n = through(n)
        while call(n, SAME) and len(n.args) > 1:
            n = through(n.args[1])
        return n in self.rec

    def empty(self, c, pos):
        """Does the condition say that the record is empty (True), is not (False)?"""
        c = resolve(c)
        if c.op == 'not':
            return self.empty(c.args[0], not pos)
        if c.op in ('==', '<', '<='):
            a, b = (through(x) for x in c.args[:2])
            if c.op == '==' and (num(a) == 0 and self.count(b) or num(b) == 0 and self.count(a)):
                return pos
            if c.op == '<' and num(a) == 0 and self.count(b):
                return not pos
            if c.op == '<=' and num(a) == 1 and self.count(b) or c.op == '<' and self.count(a) and num(b) == 1:
                return (not pos) if c.op == '<=' else pos
            return None
        if self.count(c):
            return not pos
        return None

    def count(self, n):
        return n.op in ('dim', 'size') and self.is_rec(n.args[0]) and (n.op == 'size' or num(n.args[1]) in (0, None))

    def exists(self, c):
        """(mask, True) if the condition says some entry is in the mask, (mask, False) if none is."""
        c = resolve(c)
        if c.op == 'not':
            r = self.exists(c.args[0])
            return r and (r[0], not r[1])
        if c.op in ('==', '<', '<='):
            a, b = (through(x) for x in c.args[:2])
            if c.op == '==':
                for x, y in ((a, b), (b, a)):
                    if num(x) == 0 and self.number(y) is not None:
                        return self.number(y), False
            if c.op == '<' and num(a) == 0 and self.number(b) is not None:
                return self.number(b), True
            if c.op == '<=' and num(a) == 1 and self.number(b) is not None:
                return self.number(b), True
            if c.op == '<' and num(b) == 1 and self.number(a) is not None:
                return self.number(a), False
            return None
        if c.op == 'some' or call(c, ('numpy.any', 'any', 'builtins.any')):
            return (c.args[0] if c.op == 'some' else c.args[1]), True
        m = self.number(c)
        return (m, True) if m is not None else None

    def number(self, n):
        n = through(n)
        if n.op in ('dim', 'size'):
            return self.listed(n.args[0])
        if call(n, ('numpy.sum', 'numpy.count_nonzero', 'builtins.sum', 'sum', 'numpy.sum0')):
            return n.args[1]
        return None

    def listed(self, n):
        n = through(n)
        if call(n, LISTED):
            return n.args[1]
        if n.op == 'getitem' and call(through(n.args[0]), PLACED):
            return through(n.args[0]).args[1]
        if n.op == 'getitem' and self.is_rec(n.args[0]) and through(n.args[1]).op in ('<', '<=', 'and'):
            return n.args[1]
        return None

    def mask(self, m):
        """[(column of the record, value compared, tolerance)] or None"""
        m = through(m)
        if m.op == 'and' or call(m, ('numpy.logical_and', 'numpy.multiply')):
            out = []
            for x in m.args if m.op == 'and' else m.args[1:3]:
                r = self.mask(x)
                if r is None:
                    return None
                out += r
            return out
        if call(m, ('numpy.all',)) and len(m.args) > 1:
            d = through(m.args[1])
            if d.op in ('<', '<=') and num(d.args[1]) is not None and through(d.args[0]).op == 'abs':
                e = through(d.args[0]).args[0]
                cols = [self.column(e, c) for c in (0, 1)]
                if None not in cols:
                    return [x + (num(d.args[1]),) for x in cols]
            return None
        if m.op in ('<', '<='):
            a, t = through(m.args[0]), num(through(m.args[1]))
            if a.op == 'abs' and t is not None:
                r = self.difference(a.args[0])
                if r is None:
                    return None
                (pair, more) = r
                return [pair + (t,)] + more
        return None

    def difference(self, e):
        e = through(e)
        if e.op == 'getitem':
            i = through(e.args[1])
            if i.op == 'tuple' and len(i.args) == 2:
                k = num(i.args[1])
                rows = through(i.args[0])
                more = []
                if rows.op != 'slice':
                    m = self.listed(rows)
                    m = m if m is not None else rows if rows.op in ('<', '<=', 'and') else None
                    more = None if m is None else self.mask(m)
                if k is not None and more is not None:
                    c = self.column(e.args[0], k)
                    if c is not None and None not in c:
                        return c, more
                return None
        if e.op == '-':
            for a, b in (e.args, e.args[::-1]):
                a = through(a)
                if a.op == 'getitem' and self.is_rec(a.args[0]):
                    i = through(a.args[1])
                    if i.op == 'tuple' and len(i.args) == 2 and through(i.args[0]).op == 'slice' and num(i.args[1]) is not None:
                        return (int(num(i.args[1])), through(b)), []
        return None

    def column(self, n, k):
        """(column of the record, value subtracted) of column k of a table of differences."""
        n = through(n)
        if n.op == '-':
            a, b = self.col(n.args[0], k), self.col(n.args[1], k)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int) and isinstance(y, N):
                    return x, y
        return None

    def col(self, n, k):
        n = through(n)
        while call(n, SAME) and len(n.args) > 1 and n not in self.rec:
            n = through(n.args[1])
        if n in self.rec:
            return int(k)
        if n.op == 'getitem' and self.is_rec(n.args[0]):
            i = through(n.args[1])
            if i.op == 'tuple' and len(i.args) == 2:
                s, r = through(i.args[1]), through(i.args[0])
                if r.op == 'slice' and any(num(x) not in (None, 0, 1) or through(x).op != 'const' for x in r.args if isinstance(x, N)):
                    self.partial = True
                if s.op == 'slice':
                    first = num(s.args[0]) if isinstance(s.args[0], N) else None
                    return int((first or 0) + k)
                if s.op in ('list', 'tuple') and len(s.args) > k and num(s.args[int(k)]) is not None:
                    return int(num(s.args[int(k)]))
            return None
        if n.op == '*':
            parts = [x for x in n.args if not call(through(x), ('numpy.ones',))]
            return self.col(parts[0], k) if len(parts) == 1 else None
        if n.op in ('list', 'tuple') and len(n.args) > k:
            return through(n.args[int(k)])
        return None


def alternatives(c, pos):
    """The condition as alternatives, any of which is enough."""
    c = resolve(c)
    if c.op == 'not':
        return alternatives(c.args[0], not pos)
    if c.op == 'or' and pos or c.op == 'and' and not pos:
        return [y for x in c.args for y in alternatives(x, pos)]
    return [(c, pos)]


def together(c, pos):
    c = resolve(c)
    if c.op == 'not':
        return together(c.args[0], not pos)
    if c.op == 'and' and pos or c.op == 'or' and not pos:
        return [y for x in c.args for y in together(x, pos)]
    return [(c, pos)]


# ------------------------------------------------------------------ the record
def cast_place(n):
    """(positions, place) of a coordinate read from a table of casts."""
    n = through(n)
    steps = []
    while n.op == 'getitem' and len(steps) < 3:
        i = through(n.args[1])
        parts = [through(x) for x in i.args] if i.op == 'tuple' else [i]
        if not all(x.op in ('iv', 'const', 'mu', 'slice') for x in parts):
            break
        steps.insert(0, parts)
        n = through(n.args[0])
    place, axes = {}, [0, 1]
    for parts in steps:
        left = list(axes)
        for ax, x in zip(axes, parts):
            if x.op != 'slice':
                place[ax] = x
                left.remove(ax)
        axes = left
    return n, [place[0]] if 0 in place else []


def entry(c, k, row, where):
    a, b, no = (through(x) for x in row.args)
    for x, want, name in ((a, 'long', 'longitude'), (b, 'lat', 'latitude')):
        kinds = k.kind(x)
        c.that(True if kinds == {want} else None if not kinds or len(kinds) > 1 else False, R1, f"{where}: {name}",
               'of a reference cast' if kinds == {want} else f"a value that is {sorted(kinds)}")
    pa, pb = cast_place(a), cast_place(b)
    if pa[1] and pb[1]:
        c.that(pa[1] == pb[1], R1, f"{where}: one cast", 'both coordinates of one cast' if pa[1] == pb[1] else 'coordinates of two casts')
    else:
        c.und(R1, f"{where}: one cast", 'places not understood')
    # the profile number written for the profile being mapped
    ok = None
    if no.op == 'getitem':
        t, i = through(no.args[0]), through(no.args[1])
        if call(t, ('numpy.insert', 'numpy.append')):
            place = through(t.args[2]) if t.args[0] == 'numpy.insert' else None
            ok = True if place is not None and place is i else (num(i) == -1 or None) if place is None else \
                False if place.op in ('mu', 'iv') and (i.op in ('-', '+', 'const')) else None
        elif t.op == 'getitem' and 'PROFILE_NO' in str(t)[:4000] and i.op == 'getitem':
            ok = True
        elif num(i) is not None:
            ok = None
    elif k.kind(no) & {'long', 'lat', 'date', 'z'}:
        ok = False
    elif no.op in ('mu', 'iv') and no.op == 'iv':
        ok = False
    c.that(ok, R1, f"{where}: profile", 'number of the profile mapped' if ok else ('not the number of the profile mapped' if ok is False else str(no)[:150]))


def over_all(c, row, where):
    for x in row.args[:2]:
        t, idx = cast_place(x)
        if not idx:
            c.und(R2, where, 'place not understood')
            return None
        i = idx[0]
        if i.op == 'iv':
            start, stop, step = i.args[0], through(i.args[1]), i.args[2]
            s = num(start)
            full = s == 0 and num(step) in (1, None) and stop.op in ('dim', 'size')
            what = 'all casts'
            if not full and s is not None and s == 1:
                return 'rest'
            if not full:
                bad = s not in (0, None) or num(step) not in (1, None) or stop.op in ('-', '/', '//', 'const') or call(stop, ('min', 'builtins.min', 'numpy.min'))
                c.that(False if bad else None, R2, where, 'casts left out' if bad else str(i)[:120])
                return None
            c.ok(R2, where, what)
            return 'all'
        if i.op == 'const':
            return 'first'
        c.und(R2, where, str(i)[:120])
        return None


def conditions(c, near, k, row, guards, where, needed):
    """The conditions under which an entry is added: none near, or record empty."""
    found = False
    for g, pos in guards:
        for x, p in together(g, pos):
            alts = alternatives(x, p)
            es = [near.exists(y) and (near.exists(y)[0], near.exists(y)[1] == q) for y, q in alts]
            emp = [near.empty(y, q) for y, q in alts]
            if len(alts) == 1 and emp[0] is not None:
                continue
            alts_left = [(a, e) for a, e, m in zip(alts, es, emp) if m is None]
            if not alts_left:
                continue
            ms = [(near.mask(e[0]), e[1]) if e else None for _a, e in alts_left]
            if any(m is None or m[0] is None for m in ms):
                if any(y in near.rec for y in everything(x)):
                    c.und(R3, where, 'condition not understood')
                    found = None
                continue
            found = True if found is not None else None
            if len(ms) > 1:
                c.bad(R3, where, 'the coordinates are compared with different entries: a cast near none of them is taken to be listed')
                continue
            atoms, some = ms[0]
            if some:
                c.bad(R3, where, 'listed only if an entry is near already')
                continue
            cols = sorted(a[0] for a in atoms)
            c.that(cols == [0, 1], R3, f"{where}: coordinates compared", 'longitude and latitude of one entry' if cols == [0, 1] else f"columns {cols} of the entries")
            for col, val, tol in atoms:
                if col in (0, 1):
                    own = through(row.args[col])
                    kinds = k.kind(val)
                    ok = True if val is own else False if kinds and kinds != {('long', 'lat')[col]} else \
                        False if cast_place(val)[1] and cast_place(own)[1] and cast_place(val)[1] != cast_place(own)[1] else None
                    c.that(ok, R3, f"{where}: {('longitude', 'latitude')[col]}", 'of the cast listed' if ok else f"compared with {str(val)[:120]}")
                    c.that(abs(tol - TOL) < 1e-6, R3, f"{where}: distance in {('longitude', 'latitude')[col]}", f"{tol:.6f} degrees")
    if near.partial:
        c.bad(R3, f"{where}: entries", 'only some of the entries are looked at')
    if needed and found is False:
        c.bad(R3, where, 'a position is listed again each time it is used')


def everything(n):
    st, seen = [n], set()
    while st:
        x = st.pop()
        if not isinstance(x, N) or x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == 'mu':
            continue
        st += [a for a in x.args if isinstance(a, N)]


class At:
    """A check with a place for every obligation that names none."""

    def __init__(self, c, loc):
        self.c, self.loc = c, loc

    def that(self, cond, rule, inst, what):
        self.c.that(cond, rule, inst, what, self.loc)

    def ok(self, rule, inst, what):
        self.c.ok(rule, inst, what, self.loc)

    def bad(self, rule, inst, what, loc=None):
        self.c.bad(rule, inst, what, self.loc)

    def und(self, rule, inst, what, loc=None):
        self.c.und(rule, inst, what, self.loc)


def bare(n):
    n = through(n)
    while call(n, SAME + ('numpy.ravel',)) and len(n.args) > 1 and isinstance(n.args[1], N):
        n = through(n.args[1])
    return n


def mapped(c, it, rec):
    """The arrays the entries are taken from are the positions handed to the mapping."""
    maps = A.axioms(it, 'map_data_grid')
    cols = [columns(e.extra['data_pos']) for e in maps if e.extra and 'data_pos' in e.extra]
    used = {bare(x) for cs in cols if cs for x in cs}
    if not used:
        c.und(R6, 'casts', 'positions handed to the mapping not understood')
        return
    for row in {r for r, _g, _o in rec.added} | {r for r, _g in rec.fresh}:
        for x, name in zip(row.args, ('longitude', 'latitude')):
            b = bare(cast_place(x)[0])
            if b in used:
                c.ok(R6, name, 'the positions handed to the mapping')
                continue
            part = any(u.op == 'phi' and b in (bare(a) for a in u.args[1:]) for u in used)
            if b.op == 'mu' and part is False:
                c.that(False if b.next is not None and any(reaches(b.next, u) for u in used) else None, R6, name,
                       'only those of the last level mapped')
            else:
                c.that(False if part or any(reaches(u, b) for u in used) else None, R6, name,
                       'the casts before some are left out' if part else f"other casts than those mapped: {str(b)[:120]}")
    guards = {through(g[0]) for e in maps for g in e.guards if isinstance(g, tuple)}
    near = Near(rec)
    for n, inner in rec.nodes:
        if n.op == 'phi':
            a, b = through(n.args[1]), through(n.args[2])
            for x, y in ((a, b), (b, a)):
                if x in near.rec and x.op == 'mu' and y in near.rec and y is not x:
                    for g, p in together(n.args[0], x is b):
                        g = through(g)
                        if g in guards or near.exists(g) or near.empty(g, True) is not None or g.op in ('and', 'or'):
                            continue
                        if g.op == '<' and num(g.args[0]) == 0 and through(g.args[1]).op == 'dim':
                            continue
                        if any(g in set(everything(h)) for h in guards):
                            continue
                        ok = False if g.op in ('==', '<', '<=') and all(plain(z) for z in g.args) else None
                        c.that(ok, R6, 'condition', f"entries are added only if {str(g)[:120]}")


def plain(n):
    """A value read somewhere, not worked out from several."""
    n = through(n)
    while n.op == 'getitem':
        if not all(plain(x) or through(x).op == 'slice' for x in (through(n.args[1]).args if through(n.args[1]).op == 'tuple' else [n.args[1]])):
            return False
        n = through(n.args[0])
        if call(n, ('numpy.insert', 'scipy.io.loadmat')):
            return True
    return n.op in ('const', 'iv', 'mu', 'param')


def reaches(n, target):
    st, seen = [n], set()
    while st and len(seen) < 4000:
        x = st.pop()
        if not isinstance(x, N) or x in seen:
            continue
        if bare(x) is target or x is target:
            return True
        seen.add(x)
        st += [a for a in x.args if isinstance(a, N)]
    return False


def check(c):
    it = A.core()
    files = [(e, d) for e, d in saved(it) if d and KEY in d]
    if not files:
        c.bad(R4, 'saved', 'the record is not written')
        return
    k = Kinds()
    e, d = files[0]
    c = At(c, A.where(e))
    rec = Record(d[KEY])
    near = Near(rec)
    entries(c, it, k, rec, near)
    mapped(c, it, rec)
    keep(c, rec, near)
    ordered(c, rec)
    for kind, n in rec.other:
        if kind == 'part':
            c.bad(R4, 'part of the record', f"entries may be removed: {str(n)[:140]}")
        elif kind == 'columns apart':
            c.bad(R5, 'sorted', 'each column is sorted by itself')
        else:
            c.und(R4, kind, str(n)[:140])


def entries(c, it, k, rec, near):
    spans = set()
    seen = set()
    for j, (row, guards, onto) in enumerate([(r, g, o) for r, g, o in rec.added] + [(r, g, 'fresh') for r, g in rec.fresh]):
        fresh = onto == 'fresh'
        where = 'first entry' if fresh else 'entry added'
        if (row, fresh, guards) in seen:
            continue
        seen.add((row, fresh, guards))
        entry(c, k, row, where)
        spans.add(over_all(c, row, where))
        conditions(c, near, k, row, guards, where, not fresh)
    if not rec.added and not rec.fresh:
        c.und(R2, 'entries', 'no entry found that is added')
    elif 'all' not in spans:
        ok = True if {'rest', 'first'} <= spans else None if None in spans else False
        c.that(ok, R2, 'casts', 'the first and all others' if ok else 'only some of the casts used are looked at')


def start(near, x, pos):
    """True if the condition holds only for an empty record, False if it can hold for another."""
    vs = []
    for y, p in alternatives(x, pos):
        v = near.empty(y, p)
        if v is None and not any(z in near.rec for z in everything(y)) and len(alternatives(x, pos)) > 1:
            v = False
        vs.append(v)
    return False if False in vs else None if None in vs else True


def keep(c, rec, near):
    for row, guards in rec.fresh:
        es = [start(near, x, p) for g, pos in guards for x, p in together(g, pos)]
        c.that(True if True in es else False if not guards or False in es else None, R4, 'new record',
               'only where there are no entries' if True in es else 'replaces the entries there are')
    for n, inner, guards in rec.empty:
        es = [near.empty(x, p) for g, pos in guards for x, p in together(g, pos)]
        c.that(True if not inner or True in es else False, R4, 'empty record', 'only at the start' if not inner else 'entries of earlier profiles are lost')
    for row, guards, onto in rec.added:
        c.that(True if onto is not None and near.is_rec(onto) else None, R4, 'added to', 'the entries there are')


def ordered(c, rec):
    """By the third column; the whole entry moves."""
    if not rec.orders:
        c.bad(R5, 'saved', 'not ordered by profile number')
        return
    for kind, n in rec.orders:
        if kind == 'index':
            i = through(n.args[1])
            order = through(i.args[0]) if i.op == 'tuple' else i
            key = through(order.args[1])
            col = through(key.args[1]) if key.op == 'getitem' else None
            v = num(col.args[1]) if col is not None and col.op == 'tuple' and len(col.args) == 2 else None
        else:
            key = through(n.args[1]) if len(n.args) > 1 and isinstance(n.args[1], N) else None
            v = num(key.args[1]) if key is not None and key.op == 'getitem' else None
        c.that(True if v in (2, -1) else None if v is None else False, R5, 'order', 'by profile number' if v in (2, -1) else f"by column {v} of the entries")


def main():
    c = Check('C47', 'record of the reference positions used',
              'The value saved as the record is followed back through the loops over profiles and casts; each entry, the condition for adding it, '
              'what it is added to and the final order are read from its formula.', 'the mapping, through every path that changes the record')
    c.rule(check)
    return c.finish()

"""C25: date conversion is total and order-preserving in its fields."""
from .. import analyses as A
from ..algebra import Alg, Cannot, Poly, leaf, num as pnum
from ..ir import N, resolve, walk
from ..masks import is_nan, num
from ..report import Check
from . import c23

R1, R2, R3, R4, R5 = ('one number for each date', 'a bad date stops nothing', 'a bad date becomes 0', 'a good date becomes year plus day-of-year fraction', 'dates fetched are converted')
CONV = 'pyowc.utilities:change_dates'
FIELDS = {(0, 4): 'year', (4, 6): 'month', (6, 8): 'day', (8, 10): 'hour', (10, 12): 'minute'}
DAYS = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
CATCH = {'ValueError', 'Exception', 'BaseException', '', None, 'bare'}
CONVERT = {'int', 'float', 'builtins.int', 'builtins.float'}


STALE = 'what the date before left'


class Scene:
    """One date: month, day and length of its text fixed, the fields symbols; or a text that cannot be read."""

    def __init__(self, month, day, length, broken, owner):
        self.values = {'year': 1999.0, 'month': float(month), 'day': float(day), 'hour': 23.0, 'minute': 59.0}
        self.length, self.broken, self.owner = length, broken, owner
        self.alg = Alg(self.leaf_of, self.choose)

    def leaf_of(self, n):
        if n.op == 'int' or n.op == 'call' and n.args[0] in CONVERT:
            x = resolve(n.args[0] if n.op == 'int' else n.args[1])
            f = self.field(x)
            if f:
                return leaf(f)
            return self.alg.poly(x)
        if n.op == 'mu' and n.meta == self.owner.loop:
            return leaf(STALE)
        if n.op == 'dim' and num(n.args[1]) == 0 and self.is_text(n.args[0]):
            return pnum(self.length)
        if n.op == 'getitem':
            days = constants(n.args[0])
            if days is not None:
                i = self.alg.poly(n.args[1])
                base = leaf('month') - pnum(1)
                if (i - base).const() is None:
                    raise Cannot('index of the month table')
                k = int(round((i - base).const()))
                m = int(self.values['month'])
                at = m - 1 + k
                if not -len(days) <= at < len(days):
                    raise OutOfRange()
                if k == 0 and len(days) >= 12 and days[:12] == DAYS[:12] and 1 <= m <= 12:
                    return leaf('days before month')
                return pnum(days[at])
        if n.op == 'call' and n.args[0] in ('numpy.sum', 'numpy.sum0', 'builtins.sum', 'sum') and resolve(n.args[1]).op == 'getitem':
            g = resolve(n.args[1])
            i = resolve(g.args[1])
            days = constants(g.args[0])
            if days is not None and i.op == 'slice' and (resolve(i.args[0]).op == 'const' and not resolve(i.args[0]).args[0]):
                stop = self.alg.poly(i.args[1])
                k = (stop - leaf('month')).const()
                m = int(self.values['month'])
                if k == -1 and [sum(days[:j]) for j in range(12)] == DAYS[:12] and 1 <= m <= 12:
                    return leaf('days before month')
                if k is not None:
                    return pnum(sum(days[:max(0, m + int(k))]))
        return None

    def is_text(self, n):
        n = resolve(n)
        return any(x.op == 'param' for x in walk(n)) and not (n.op == 'param')

    def field(self, x):
        """The date field a piece of text holds."""
        if x.op == 'phi':
            return self.field(resolve(x.args[1] if self.choose(x.args[0], None) else x.args[2]))
        if x.op != 'getitem':
            return None
        i = resolve(x.args[1])
        if i.op != 'slice' or not self.is_text(x.args[0]):
            return None
        t = resolve(x.args[0])
        while t.op in ('str', 'call') and t.args and not (t.op == 'call' and over(t)):
            t = resolve(t.args[0] if t.op == 'str' else t.args[1])
        other = t.op == 'getitem' and resolve(t.args[1]).op in ('const', '+', '-') and over(t.args[0]) == 'dates'
        lo, hi, st = (resolve(a).args[0] if resolve(a).op == 'const' else '?' for a in i.args)
        if st not in (None, 1) or '?' in (lo, hi):
            raise Cannot('part of a date')
        lo = lo or 0
        if hi is None:
            raise Cannot('part of a date')
        if lo >= self.length or hi > self.length:
            raise Unreadable()
        f = FIELDS.get((lo, hi)) or ('digits', lo, hi)
        return ('of another date', f) if other else f

    def numeric(self, p):
        total = 0.0
        v = dict(self.values)
        m = int(v['month'])
        v['days before month'] = float(DAYS[m - 1]) if 1 <= m <= 12 else 0.0
        for mono, c in p.t.items():
            x = c
            for a, e in mono:
                if a[0] != 'leaf' or self.known(a[1], v) is None:
                    raise Cannot('number')
                x *= self.known(a[1], v) ** float(e)
            total += x
        return total

    def known(self, name, v):
        """A number for a leaf: digits of a date 1999 MM DD 23 59 58 with this month and day."""
        if isinstance(name, tuple) and name[0] == 'of another date':
            return self.known(name[1], v)
        if isinstance(name, tuple) and name[0] == 'digits':
            return float(f"1999{int(v['month']):02}{int(v['day']):02}235958"[name[1]:name[2]] or 0)
        return v.get(name, 0.0 if name == STALE else None)

    def choose(self, c, _alg):
        c = resolve(c)
        if c.op in ('not', 'truth'):
            v = self.choose(c.args[0], None)
            return (not v) if c.op == 'not' else v
        if c.op in ('and', 'or'):
            stop = c.op == 'or'
            return stop if any(self.choose(a, None) == stop for a in c.args) else not stop
        if c.op == 'exc':
            return self.fails(c)
        if c.op in ('<', '<=', '=='):
            a, b = (self.numeric(self.alg.poly(x)) for x in c.args)
            return {'<': a < b, '<=': a <= b, '==': a == b}[c.op]
        if c.op == 'const':
            return bool(c.args[0])
        if c.op in ('in', 'contains') and resolve(c.args[-1]).op == 'call' and str(resolve(c.args[-1]).args[0]).endswith('range'):
            r = [self.numeric(self.alg.poly(x)) for x in resolve(c.args[-1]).args[1:]]
            return self.numeric(self.alg.poly(c.args[0])) in range(*map(int, r))
        raise Cannot('condition ' + c.op)

    def fails(self, c):
        """Whether something inside that try block fails for this date."""
        tid = c.args[0]
        if tid in self.owner.trying:
            raise Cannot('nested handling')
        self.owner.trying.add(tid)
        try:
            for e in self.owner.it.events:
                if e.kind == 'convert' and tid in [t[1] for t in e.tries] and self.reached(e, tid):
                    if self.broken:
                        return True
                    try:
                        self.field(resolve(e.args[0]))
                    except Unreadable:
                        return True
                if e.kind == 'raise' and tid in [t[1] for t in e.tries] and self.reached(e, tid):
                    return True
            return False
        finally:
            self.owner.trying.discard(tid)

    def reached(self, e, tid):
        for g, p in e.guards:
            g = resolve(g)
            if g.op == 'exc' and g.args[0] == tid:
                return False
            try:
                if self.choose(g, None) != bool(p):
                    return False
            except OutOfRange:
                return False
            except Unreadable:
                return False
        return True

    def value(self, n, lid, start):
        """The date's own entry after the loop, as a formula."""
        n = resolve(n)
        if n.op == 'mu' and n.meta == lid:
            return start
        if n.op == 'phi':
            c = resolve(n.args[0])
            try:
                yes = self.choose(c, None)
            except (OutOfRange, Unreadable):
                # never asked: an exception came first; the ways on meet where it is handled
                got = [self.value(a, lid, start) for a in n.args[1:]]
                if got[0].same(got[1]):
                    return got[0]
                raise
            return self.value(n.args[1] if yes else n.args[2], lid, start)
        if n.op == 'store':
            i = resolve(n.args[1])
            if i.op != 'iv':
                raise Cannot('entry written')
            return self.alg.poly(n.args[2])
        if n.op == 'brk':
            raise Cannot('loop left')
        raise Cannot('entry made by ' + n.op)


class OutOfRange(Exception):
    pass


class Unreadable(Exception):
    pass


def constants(n):
    try:
        n = resolve(n)
        if n.op == 'call' and n.args[0] == 'numpy.cumsum':
            v, out = c23.table(n.args[1]), []
            for x in v:
                out.append(x + (out[-1] if out else 0))
            return out
        v = c23.table(n)
        return v if isinstance(v, list) and all(isinstance(x, (int, float)) for x in v) else None
    except (Cannot, IndexError, TypeError):
        return None


class Owner:
    def __init__(self, it):
        self.it, self.trying, self.loop = it, set(), None


def rule_convert(c, it):
    ret = resolve(it.ret_node)
    while ret.op == 'call' and ret.args[0] in ('numpy.array', 'numpy.asarray'):
        ret = resolve(ret.args[1])
    where = 'pyowc/utilities.py change_dates'
    owner = Owner(it)
    if ret.op == 'mu':
        base, lid = resolve(ret.init), ret.meta
        iv = resolve(it.loopinfo[lid]['key'])
        start = None
        size = resolve(base.args[1]) if base.op == 'call' and base.args[0] in ('numpy.full', 'numpy.zeros', 'numpy.empty') else None
        if base.op == 'call' and base.args[0] == 'numpy.zeros':
            start = pnum(0)
        elif base.op == 'call' and base.args[0] == 'numpy.full' and num(base.args[2]) is not None:
            start = pnum(num(base.args[2]))
        elif base.op == 'call' and base.args[0] == 'numpy.full' and is_nan(base.args[2]):
            start = leaf('missing value')
        elif base.op == 'call' and base.args[0] == 'numpy.empty':
            start = leaf('unset memory')
        if size is not None and size.op in ('tuple', 'list') and len(size.args) == 1:
            size = resolve(size.args[0])
        if size is None or start is None or iv.op != 'iv':
            c.und(R1, CONV, 'result made by ' + base.op, where)
            return
        same = count_of(size) == count_of(iv.args[1]) == 'dates' and num(iv.args[0]) == 0 and num(iv.args[2]) == 1
        off = same or None
        if not same and (num(iv.args[0]) not in (None, 0) or resolve(iv.args[1]).op in ('+', '-') and count_of(size) == 'dates'):
            off = False
        c.that(off, R1, CONV, f"{size} entries, filled by a loop over {iv.args[0]}..{iv.args[1]}", where)
        stores = [x for x in walk(ret) if x.op == 'store']
        for e in it.events:
            if e.kind == 'mutate' and e.name == 'store' and lid in e.loops and e.roots:
                i = resolve(e.args[0])
                if any(resolve(s.args[1]) is i and resolve(s.args[2]) is resolve(e.args[1]) for s in stores):
                    c.that(True if i is iv else False if i.op in ('iv', 'const', '+', '-') or i.op == 'slice' and not one_entry(i, iv) else None, R1, 'entry written at ' + A.where(e), str(i)[:80], A.where(e))
        body = ret.next
    else:
        c.und(R1, CONV, 'result is ' + ret.op, where)
        return
    handled = {x.args[0] for x in walk(body) if x.op == 'exc'}
    for e in it.events:
        if e.kind not in ('convert', 'raise') or lid not in e.loops:
            continue
        if e.kind == 'convert' and not any(x.op == 'param' for x in walk(e.args[0])):
            continue
        what = e.name if e.kind == 'raise' else 'ValueError'
        what = str(what).rsplit('.', 1)[-1]
        cover = [t for t in e.tries if covers(t[2], what)]
        ok = bool(cover) and any(t[1] in handled or in_loop(it, t[1], lid) for t in cover)
        c.that(ok, R2, f"{'reading' if e.kind == 'convert' else 'raising ' + what} at {A.where(e)}",
               'handled for this date alone' if ok else 'not caught inside the loop over the dates', A.where(e))
    for e in it.events:
        if e.kind == 'raise' and e.func.endswith(':change_dates') and not e.loops and not e.tries:
            c.und(R2, A.where(e), 'raised before any date is read', A.where(e))
    # entries
    owner.loop = lid
    good = leaf('year') + (leaf('days before month') + leaf('day') - pnum(1)).scale(1 / 365)
    def run(inst, rule, want, **k):
        s = Scene(owner=owner, **k)
        owner.trying.clear()
        try:
            got = s.value(body, lid, start)
        except (OutOfRange, Unreadable):
            c.bad(rule, inst, 'the conversion fails', where)
            return
        except Cannot as x:
            c.und(rule, inst, str(x)[:150], where)
            return
        c.that(got.same(want), rule, inst, f"gives {got}, expected {want}", where)
    for m, d in ((1, 1), (2, 28), (12, 31), (1, 31), (7, 1)):
        for n in (8, 10, 12, 14):
            want = good
            if n >= 10:
                want = want + leaf('hour').scale(1 / 24 / 365)
            if n >= 12:
                want = want + leaf('minute').scale(1 / 1440 / 365)
            run(f"month {m}, day {d}, {n} digits", R4, want, month=m, day=d, length=n, broken=False)
    for m, d in ((0, 1), (0, 15), (13, 1), (13, 31), (99, 1), (1, 0), (12, 0), (1, 32), (2, 99), (12, 32), (7, 32)):
        run(f"month {m}, day {d}", R3, pnum(0), month=m, day=d, length=14, broken=False)
    for n in (0, 3, 4, 6):
        run(f"text of {n} characters", R3, pnum(0), month=1, day=1, length=n, broken=False)
    run('text that is not a number', R3, pnum(0), month=1, day=1, length=14, broken=True)


def covers(names, what):
    names = names if isinstance(names, (tuple, list, set)) else (names,)
    names = [y.strip().rsplit('.', 1)[-1] for x in names for y in str(x).strip('()').split(',')]
    return not names or any(str(x) in ('None', '', '*', what, 'Exception', 'BaseException') or (str(x), what) in (('LookupError', 'IndexError'),) for x in names)


def in_loop(it, tid, lid):
    return any(lid in e.loops and any(resolve(g).op == 'exc' and resolve(g).args[0] == tid for g, _p in e.guards) for e in it.events)


def count_of(n):
    n = resolve(n)
    if n.op in ('dim', 'size') and (n.op == 'size' or num(n.args[1]) == 0):
        return over(n.args[0])
    return None


def over(n):
    n = resolve(n)
    if n.op == 'param':
        return 'dates'
    if n.op == 'comp' and resolve(n.args[1]).op == 'const' and resolve(n.args[1]).args[0]:
        return count_of(resolve(n.args[0]).args[1]) if resolve(n.args[0]).op == 'iv' else over(n.args[0])
    if n.op == 'call' and n.args[0] in ('list', 'map', 'numpy.array', 'numpy.asarray', 'numpy.ravel', 'numpy.astype', 'tuple') and len(n.args) > 1:
        return over(n.args[-1] if n.args[0] == 'map' else n.args[1])
    return None


def one_entry(i, iv):
    """Is the slice i just the entry iv?"""
    lo, hi = resolve(i.args[0]), resolve(i.args[1])
    return lo is iv and hi.op == '+' and any(resolve(a) is iv and num(b) == 1 for a, b in (hi.args, hi.args[::-1]))


def rule_fetched(c):
    for q, key in ((c23.HIST, 2), (c23.REGION, 'grid_dates')):
        it = A.fn(q, None, ('pyowc.data.fetchers:get_data', CONV))
        if it is None:
            c.und(R5, q, 'function not found')
            continue
        c.covered(it)
        ret = resolve(it.ret_node)
        n = None
        if ret.op == 'tuple' and isinstance(key, int) and key < len(ret.args):
            n = ret.args[key]
        elif ret.op == 'dict':
            n = next((v for k, v in zip(ret.args[0::2], ret.args[1::2]) if k.op == 'const' and k.args[0] == key), None)
        if n is None:
            c.und(R5, q, 'result is ' + ret.op)
            continue
        verdict = c23.wrapped(n, set(), CONV)
        if verdict is None and not c23.calls_to(n, CONV):
            verdict = False
        c.that(verdict, R5, q, str(resolve(n))[:150], q.split(':')[0].replace('.', '/') + '.py')


def main():
    c = Check('C25', 'date conversion is total and order-preserving in its fields',
              'The entry written for one date is reduced to a formula in the digits of its own text, case by case over the conditions on month, day and length and over the '
              'exceptional exits, and compared with year + (days before month + day - 1 + hour/24 + minute/1440)/365, or 0 for dates that are malformed or out of range; every '
              'conversion and raise in the loop must be handled inside that iteration.',
              'Every date text; month, day and length are represented by the values around all thresholds, the fields themselves stay symbols.')
    it = A.fn(CONV)
    if it is None:
        c.und(R1, CONV, 'function not found')
        raise SystemExit(c.finish())
    c.covered(it)
    c.assume('dates have 14 digits, or 8, 10 or 12 given as whole numbers; hours and minutes are those of a day')
    c.rule(rule_convert, it)
    c.rule(rule_fetched)
    raise SystemExit(c.finish())

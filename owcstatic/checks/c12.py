"""C12: an inconsistent break specification yields a complete, empty result."""
from itertools import product as cross
from ..report import Check
from .. import analyses as A
from ..algebra import Cannot, LAYOUT
from ..content import Content
from ..ir import N, resolve
from ..masks import num
from .. import stages
from .c06 import key_of
from .c11 import values_of, strip, FREE
from .c32 import calib, leaf_of

R1, R2, R3, R4 = ('no fit is attempted when the specification does not fit', 'a calibration file with all variables is written',
                  'the calibrated quantities are missing', 'a specification that fits is calibrated')
LIMIT = 5
INF = 10 ** 9


class Scene:
    """Counts of segments, limits and rows of breaks; decides conditions over them."""

    def __init__(self, nseq, limits, rows, excess):
        self.nseq, self.limits, self.rows, self.excess = nseq, limits, rows, excess
        self.memo, self.cur, self.now = {}, {}, None

    def __str__(self):
        return f"{self.nseq} segment(s), {self.limits} limit(s), {self.rows} row(s) of breaks" + \
            (', ' + ' then '.join(('fewer breaks than', 'as many breaks as', 'more breaks than')[e + 1] for e in self.excess) + ' the limit' if self.rows else '')

    def inconsistent(self):
        return self.nseq == 1 and self.limits > 1 or self.nseq > 1 and self.limits not in (1, self.nseq) or \
            self.rows > 0 and self.rows != self.nseq or self.rows > 0 and max(self.excess) > 0

    # -- sizes
    def rows_of(self, x, depth=0):
        x = strip(x)
        if depth > 12:
            return None
        k = key_of(x)
        if k == 'max_breaks':
            return {self.limits}
        if k == 'breaks':
            return {self.rows}
        v = values_of(x)
        if v is not None:
            return {self.nseq}
        if x.op == 'phi':
            out = set()
            for pol, arm in ((True, x.args[1]), (False, x.args[2])):
                if pol in self.truth(x.args[0]):
                    r = self.rows_of(arm, depth + 1)
                    if r is None:
                        return None
                    out |= r
            return out
        if x.op == 'mu':
            a, b = self.rows_of(x.init, depth + 1), self.rows_of(x.next, depth + 6) if x.next is not None else set()
            return None if a is None else a | (b or set())
        if x.op in ('+', '-', '*', '/'):
            rs = [self.rows_of(a, depth + 1) for a in x.args]
            known = [r for r in rs if r]
            if len(known) == 2:
                return {max(a, b) for a in known[0] for b in known[1]}
            for a, r in zip(x.args, rs):
                if num(a) is not None:
                    return known[0] if known else None
            return None
        if x.op == 'call' and x.args[0] in ('numpy.ones', 'numpy.zeros', 'numpy.full', 'numpy.empty'):
            s = resolve(x.args[1])
            return self.ev(s.args[0] if s.op in ('tuple', 'list') and s.args else s)
        if x.op == 'call' and x.args[0] in ('numpy.tile', 'numpy.repeat') and len(x.args) > 2:
            s = resolve(x.args[2])
            a, b = self.rows_of(x.args[1], depth + 1), self.ev(s.args[0] if s.op in ('tuple', 'list') and s.args else s)
            return None if a is None or b is None else {p * q for p in a for q in b}
        return None

    def count(self):
        return {LIMIT + e for e in (self.excess if self.now is None else (self.excess[self.now % len(self.excess)],))}

    # -- values
    def ev(self, n):
        """Set of possible values, None when not known."""
        n = resolve(n)
        if n in self.cur:
            return self.cur[n]
        if n in self.memo:
            return self.memo[n]
        out = self._ev(n)
        if not self.cur and self.now is None:
            self.memo[n] = out
        return out

    def _ev(self, n):
        op = n.op
        if op == 'const':
            v = n.args[0]
            return {v} if isinstance(v, (int, float, bool)) or v is None else None
        if op == 'dim' and num(n.args[1]) == 0 or op == 'size':
            if self.counted(n):
                return self.count()
            return self.rows_of(n.args[0])
        if op == 'dim':
            return None
        if op == 'call' and n.args[0].rsplit('.', 1)[-1] in ('sum', 'sum0', 'count_nonzero') and self.counted(n):
            return self.count()
        if op == 'call' and n.args[0].rsplit('.', 1)[-1] in ('any', 'all') and len(n.args) > 1:
            r = self.ev(n.args[1])
            if r is None or self.now is not None or len(self.excess) == 1 or len(r) < 2:
                return r
            return {any(r)} if n.args[0].endswith('any') else {all(r)}
        if op == 'call' and n.args[0].rsplit('.', 1)[-1] in ('bool', 'int', 'float', 'abs') and len(n.args) > 1:
            return self.ev(n.args[1])
        if op == 'int':
            return self.ev(n.args[0])
        if op == 'call' and n.args[0] in LAYOUT and len(n.args) > 1:
            return self.ev(n.args[1])
        if op in ('getitem', 'T', '*') and self.limit_element(n):
            return {LIMIT}
        if op == 'getitem' or op == 'T':
            b = resolve(n.args[0])
            if b.op in ('list', 'tuple') and op == 'getitem' and isinstance(num(n.args[1]), int) and num(n.args[1]) < len(b.args):
                return self.ev(b.args[num(n.args[1])])
            return None
        if op == 'phi':
            out = set()
            for pol, arm in ((True, n.args[1]), (False, n.args[2])):
                if pol in self.truth(n.args[0]):
                    r = self.ev(arm)
                    if r is None:
                        return None
                    out |= r
            return out
        if op == 'mu':
            a = self.ev(n.init)
            if a is None or n.next is None:
                return a
            self.cur[n] = set(a)
            before = self.now
            try:
                trips = self.trips(n)
                if trips is not None:
                    now = set(a)
                    for r in range(int(trips)):
                        self.cur[n], self.now = now, r
                        now = self.ev(n.next)
                        if now is None:
                            return None
                    return now
                for _ in range(6):
                    b = self.ev(n.next)
                    if b is None:
                        return None
                    if b <= self.cur[n]:
                        return self.cur[n]
                    self.cur[n] = self.cur[n] | b
                return None
            finally:
                self.now = before
                self.cur.pop(n, None)
        if op in ('<', '<=', '==', 'not', 'and', 'or'):
            return self.truth(n)
        if op in ('+', '-', '*'):
            a, b = self.ev(n.args[0]), self.ev(n.args[1])
            if a is None or b is None or None in a or None in b:
                return None
            return {x + y if op == '+' else x - y if op == '-' else x * y for x in a for y in b}
        if op in ('contains', 'in') and len(n.args) == 2:
            return self.truth(n)
        return None

    def trips(self, mu):
        info = self.loops.get(mu.meta)
        stop = None
        if info is not None:
            iv = info if isinstance(info, N) else getattr(info, 'iv', None) or (info.get('iv') if isinstance(info, dict) else None)
            if isinstance(iv, N):
                r = self.ev(iv.args[1])
                stop = next(iter(r)) if r and len(r) == 1 else None
        return stop

    def counted(self, n):
        """Number of finite entries of a row of breaks."""
        seen, todo = set(), [a for a in n.args if isinstance(a, N)]
        while todo:
            x = resolve(todo.pop())
            if x in seen:
                continue
            seen.add(x)
            if x.op in ('isfinite', 'isnan'):
                return any(key_of(y) == 'breaks' for y in reach(x))
            if x.op == 'phi':
                return False
            todo += [a for a in x.args if isinstance(a, N)]
        return False

    def limit_element(self, n):
        n = strip(n)
        got = False
        for _ in range(12):
            if key_of(n) == 'max_breaks':
                return got
            if n.op == 'getitem':
                got = True
                n = strip(n.args[0])
            elif n.op == 'phi':
                arms = [a for pol, a in ((True, n.args[1]), (False, n.args[2])) if pol in self.truth(n.args[0])]
                return got and all(self.limit_base(a) for a in arms)
            elif n.op == '*':
                return got and any(key_of(strip(a)) == 'max_breaks' for a in n.args)
            elif n.op == 'T':
                n = strip(n.args[0])
            else:
                return got and self.limit_base(n)
        return False

    def limit_base(self, a, depth=0):
        a = strip(a)
        if key_of(a) == 'max_breaks':
            return True
        if a.op == 'call' and a.args[0] in ('numpy.full', 'numpy.tile', 'numpy.repeat'):
            return any(key_of(y) == 'max_breaks' for y in reach(a))
        if a.op == '*':
            return any(key_of(strip(x)) == 'max_breaks' for x in a.args)
        if a.op == 'phi' and depth < 6:
            arms = [x for pol, x in ((True, a.args[1]), (False, a.args[2])) if pol in self.truth(a.args[0])]
            return all(self.limit_base(x, depth + 1) for x in arms)
        return False

    def truth(self, c):
        """Possible truth values of a condition."""
        c = resolve(c)
        if c.op == 'not':
            return {not x for x in self.truth(c.args[0])}
        if c.op in ('and', 'or'):
            f = all if c.op == 'and' else any
            return {f(v) for v in cross(*[self.truth(x) for x in c.args])}
        if c.op in ('<', '<=', '=='):
            a, b = self.ev(c.args[0]), self.ev(c.args[1])
            if a is None or b is None or (c.op != '==' and (None in a or None in b)):
                return {True, False}
            f = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '==': lambda x, y: x == y}[c.op]
            return {f(x, y) for x in a for y in b}
        if c.op in ('contains', 'in') and len(c.args) == 2:
            for x, s in (c.args, c.args[::-1]):
                s = resolve(s)
                if s.op in ('list', 'tuple'):
                    a = self.ev(x)
                    vs = [self.ev(y) for y in s.args]
                    if a is None or any(v is None for v in vs):
                        return {True, False}
                    return {any(x == y for y in combo) for x in a for combo in cross(*vs)}
            return {True, False}
        if c.op == 'const' and not isinstance(c.args[0], str):
            return {bool(c.args[0])}
        v = self.ev(c)
        return {True, False} if v is None else {bool(x) for x in v}

    def guards(self, e):
        """True/False when all guards hold / one fails, None when open."""
        out = True
        for g, pol in e.guards:
            t = self.truth(g)
            if pol not in t:
                return False
            if len(t) == 2:
                out = None
        return out


def reach(n):
    seen, todo = set(), [n]
    while todo:
        x = resolve(todo.pop())
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == 'mu':
            todo += [y for y in (x.init, x.next) if y is not None]
        todo += [a for a in x.args if isinstance(a, N)]


class Under(Content):
    """Content on the paths a scene permits."""

    def __init__(self, scene, *a):
        super().__init__(*a)
        self.scene = scene

    def _of(self, n):
        if n.op == 'phi':
            t = self.scene.truth(n.args[0])
            if len(t) == 1:
                return self.of(n.args[1] if True in t else n.args[2])
        if n.op == 'mu' and self.scene.trips(n) == 0:
            return self.of(n.init)
        return super()._of(n)


def in_bounds(c, s, it):
    """Rows of breaks and limits are only read where they exist."""
    bad = {}
    for e in it.events:
        if e.kind not in ('truth', 'branch', 'call', 'axiom', 'raise') or s.guards(e) is False:
            continue
        if any(skipped(s, it, l) for l in e.loops):
            continue
        args = list(e.args) + [g for g, _p in e.guards]
        if e.kind == 'axiom':
            args += list(e.extra.values())
        for a in args:
            if not isinstance(a, N):
                continue
            for x in top(a):
                if x.op != 'getitem':
                    continue
                i = resolve(x.args[1])
                first = resolve(i.args[0]) if i.op == 'tuple' and i.args else i
                if first.op != 'iv':
                    continue
                base = strip(x.args[0])
                if not any(key_of(y) in ('breaks', 'max_breaks') for y in top(base)):
                    continue
                have, n = s.rows_of(base), s.ev(first.args[1])
                if have and n and min(have) < max(n):
                    bad[(next(key_of(y) for y in top(base) if key_of(y) in ('breaks', 'max_breaks')), min(have), max(n))] = e
    return bad


def skipped(s, it, l):
    iv = s.loops.get(l)
    if isinstance(iv, N) and iv.op == 'iv':
        r = s.ev(iv.args[1])
        return r == {0}
    return False


def top(n):
    seen, todo = set(), [n]
    while todo:
        x = resolve(todo.pop())
        if x in seen or key_of(x) and seen.add(x) is None and (yield x) is None:
            continue
        seen.add(x)
        yield x
        if x.op not in ('mu', 'dim', 'shape', 'size'):
            todo += [a for a in x.args if isinstance(a, N)]


def rules(c, it):
    fits = [e for e in it.events if e.kind == 'axiom' and e.name.endswith(':fit_cond')]
    saves = stages.saved(it)
    if not fits or not saves:
        return c.und(R1, 'calibration', 'no fit or no saved file found')
    loops = {}
    for l, info in it.loopinfo.items():
        for x in (info if isinstance(info, (list, tuple)) else info.values() if isinstance(info, dict) else [info]):
            if isinstance(x, N) and resolve(x).op == 'iv':
                loops[l] = resolve(x)
    for e in it.events:
        pass
    allkeys = set().union(*[set(d) for _e, d in saves])
    scenes = []
    for nseq in (1, 2, 3):
        for limits in (1, 2, 3):
            for rows in (0, 1, 2, 3):
                for excess in (((-1,), (0,), (1,)) + (((1, 0), (1, -1), (0, 1)) if nseq > 1 and rows > 1 else ()) if rows else ((0,),)):
                    s = Scene(nseq, limits, rows, excess)
                    s.loops = loops
                    scenes.append(s)
    for s in scenes:
        if not s.inconsistent():
            open_ = [s.guards(e) is not False for e in fits]
            c.that(any(open_), R4, str(s), 'the fit is reached' if any(open_) else 'no call of the fit can be reached')
            continue
        reached = [e for e in fits if s.guards(e) is not False and not any(skipped(s, it, l) for l in e.loops)]
        if reached and all(s.guards(e) is None for e in reached) and any(unknown(s, g) for e in reached for g, _p in e.guards):
            # a condition that is not understood
            c.und(R1, str(s), f"condition not understood: {[str(g)[:120] for e in reached for g, _p in e.guards if unknown(s, g)][0]}", A.where(reached[0]))
        else:
            c.that(not reached, R1, str(s), 'not reached' if not reached else 'the fit is reached', A.where((reached or fits)[0]))
        certain = [(e, d) for e, d in saves if s.guards(e) is True]
        raises = [e for e in it.events if e.kind == 'raise' and s.guards(e) is not False and not e.tries and (s.guards(e) or True)
                  and any(spec_guard(s, g) for g, _p in e.guards)]
        oob = in_bounds(c, s, it)
        for (k, have, n), e in oob.items():
            c.bad(R2, str(s), f"row {n - 1} of {k} is read although it has {have} rows: the run stops before the file is written", A.where(e))
        for e in raises:
            c.bad(R2, str(s), 'the run stops before the file is written', A.where(e))
        if not certain:
            maybe = [(e, d) for e, d in saves if s.guards(e) is not False]
            if maybe:
                c.und(R2, str(s), 'whether the file is written is not decided', A.where(maybe[0][0]))
            else:
                c.bad(R2, str(s), 'no file is written', A.where(saves[0][0]))
            continue
        for e, d in certain:
            missing = allkeys - set(d)
            c.that(not missing and not oob and not raises, R2, str(s), f"{len(d)} variables" if not missing else f"without {sorted(missing)}", A.where(e))
            same = all(resolve(e.args[0]) is resolve(f.args[0]) for f, _d in saves)
            c.that(same, R2, f"{s}: place", 'same place as a normal result' if same else f"written to {str(e.args[0])[:200]}", A.where(e))
            ct = Under(s, leaf_of, {'C_from_SP': 'C', 'SP_from_C': 'SP'})
            for k, v in sorted(d.items()):
                if k == 'PROFILE_NO':
                    x = strip(v)
                    c.that(key_of(x) == 'PROFILE_NO', R3, f"{s}: {k}", 'as loaded' if key_of(x) else str(v)[:160], A.where(e))
                    continue
                try:
                    left = ct.of(v)
                except Cannot as x:
                    c.und(R3, f"{s}: {k}", str(x), A.where(e))
                    continue
                c.that(not left, R3, f"{s}: {k}", 'missing' if not left else f"contains {list(left.values())[:2]}", A.where(e))


def unknown(s, g):
    return len(s.truth(g)) == 2


def spec_guard(s, g):
    return any(key_of(x) in ('breaks', 'max_breaks') for x in reach(g))


def main():
    c = Check('C12', 'an inconsistent break specification yields a complete, empty result',
              'The conditions leading to each fit and to each saved file are evaluated over the sizes of the break specification (the order '
              'relations between the numbers of segments, limits and rows of breaks cover all cases up to three); the saved variables and their '
              'contents on those paths are read from the value graph.',
              'calc_piecewisefit; 1-3 segments, 1-3 limits, 0-3 rows of breaks, fewer, as many or more breaks than the limit.')
    it = calib()
    c.covered(it)
    c.rule(rules, it)
    return c.finish()

"""C21: a missing value in one variable blanks the sample in all three retrieved variables."""
import math
from itertools import product as cross
from .. import analyses as A
from ..algebra import Cannot
from ..ir import N, resolve
from ..masks import is_nan, num, stretch, shortened
from ..point import Point, Wrong, UNK, AXIS0
from ..report import Check
from ..roles import short
from ..stages import spine
from .c02 import GD, dict_of
from .c06 import key_of

GET = 'pyowc.data.fetchers:get_region_data'
THREE = ('grid_sal', 'grid_pres', 'grid_ptmp')
LOC = 'pyowc/data/fetchers.py get_region_data'
THROUGH = ('numpy.array', 'numpy.asarray', 'numpy.copy', 'copy.deepcopy', 'copy.copy', 'numpy.ascontiguousarray', 'numpy.transpose')
SHAPING = THROUGH + ('numpy.ravel', 'numpy.reshape', 'numpy.squeeze', 'numpy.expand_dims', 'numpy.atleast_2d')
NANV = float('nan')


def base_of(n, deep=0):
    """The collected array a result is made from by blanking, transposing and dropping casts."""
    n = resolve(n)
    while deep < 80:
        deep += 1
        if n.op == 'store' and is_nan(n.args[2]) or n.op in ('T', 'without'):
            n = resolve(n.args[0])
        elif n.op == 'call' and n.args[0] in THROUGH + ('numpy.delete', 'numpy.compress') and len(n.args) > 1:
            n = resolve(n.args[2 if n.args[0] == 'numpy.compress' else 1])
        elif n.op == 'call' and n.args[0] == 'numpy.where' and len(n.args) == 4:
            rest = [x for x in n.args[2:] if not is_nan(x)]
            if len(rest) != 1:
                return n
            n = resolve(rest[0])
        elif n.op == 'phi':
            a, b = base_of(n.args[1], deep), base_of(n.args[2], deep)
            if a is not b:
                return n
            n = a
        elif n.op == 'getitem':
            n = resolve(n.args[0])
        elif n.op == 'mu':
            if n.next is None or not back(n.next, n):
                return n
            n = resolve(n.init)
        else:
            return n
    return n


def back(x, mu, deep=0):
    """x is mu again, with casts dropped or samples blanked."""
    x = resolve(x)
    if x is mu:
        return True
    if deep > 40:
        return False
    if x.op == 'phi':
        return back(x.args[1], mu, deep + 1) and back(x.args[2], mu, deep + 1)
    if x.op == 'store' and is_nan(x.args[2]) or x.op in ('without', 'getitem', 'T'):
        return back(x.args[0], mu, deep + 1)
    if x.op == 'call' and x.args[0] in ('numpy.delete',) + THROUGH and len(x.args) > 1:
        return back(x.args[1], mu, deep + 1)
    if x.op == 'mu':
        return x.next is not None and back(x.next, x, deep + 1) and back(x.init, mu, deep + 1)
    return False


class Cast(Point):
    """One sample of one cast that consists of samples of two kinds; casts may be dropped."""

    def __init__(self, leaf_of, kinds, me=0, many=1):
        super().__init__(leaf_of, kinds[me])
        self.leaf, self.kinds, self.cols, self.many = leaf_of, kinds, set(), many
        self.short = False

    def each(self, n):
        out = []
        for k in (0, 1):
            p = Cast(self.leaf, self.kinds, k, self.many)
            p.active, p.short = self.active, self.short
            out.append(p.truth(n))
            self.cols |= p.cols
        return out

    def call(self, n):
        f = n.args[0]
        a = [x for x in n.args[1:] if isinstance(x, N) and x.op != 'kw']
        if f in ('numpy.all', 'all', 'numpy.any', 'any') and a:
            short_ = sliced(a[0])
            self.short = self.short or short_
            try:
                vs = self.each(a[0])
            finally:
                self.short = self.short and not short_
            if UNK in vs:
                return UNK
            if short_ and self.many == 1:
                vs = vs[1:]         # the only samples of the first kind are where the test does not look
            return all(vs) if f.endswith('all') else any(vs)
        if f in ('numpy.sum', 'numpy.count_nonzero', 'numpy.sum0') and a:
            vs = self.each(a[0])
            if UNK in vs:
                return UNK
            return float(self.many * sum(map(bool, vs)))
        if f in AXIS0 and len(a) == 1:
            return float(self.many * sum(map(bool, self.each(a[0]))))
        if f in ('numpy.nanmax', 'numpy.nanmin', 'numpy.nanmean', 'numpy.nansum') and a:
            vs = []
            for k in (0, 1):
                p = Cast(self.leaf, self.kinds, k, self.many)
                p.active = self.active
                vs.append(p.number(a[0]))
            vs = [v for v in vs if not math.isnan(v)]
            return vs[0] if vs else (0.0 if f == 'numpy.nansum' else NANV)
        if f == 'numpy.delete' and len(a) > 1:
            if self.dropped(a[1]):
                raise Cannot('dropped')
            return self.val(a[0])
        return super().call(n)

    def count(self, n):
        b = resolve(n.args[0])
        if b.op == 'call' and b.args[0] in AXIS0 and len(b.args) == 2:
            return self.call(b)
        if b.op == 'getitem' and num(b.args[1]) == 0:
            b = resolve(b.args[0])
            if b.op == 'call' and b.args[0] in AXIS0 and len(b.args) == 2:
                return self.call(b)
        if b.op == 'getitem':
            # number of selected samples
            i = resolve(b.args[1])
            try:
                return float(self.many * sum(map(bool, self.each(i))))
            except Cannot:
                pass
        if n.op == 'dim' and num(n.args[1]) == 0 or n.op == 'size':
            return 2.0 * self.many
        raise Cannot('size')

    def positions(self, parts):
        rest, used = [], None
        for k, p in enumerate(parts):
            p = resolve(p)
            if p.op in ('-', 'iv'):
                self.cols.add(p)
                used = p
            elif not (self.short and stretch(p)):
                rest.append(p)
        if used is not None:
            return super().positions(tuple(rest)) if rest else True
        return super().positions(parts)

    def dropped(self, idx):
        i = resolve(idx)
        if i.op in ('-', 'iv'):
            self.cols.add(i)
            return True
        hit = self.casts(i)
        if hit is None:
            raise Cannot('which casts are dropped')
        return hit

    def casts(self, i):
        """Whether a list of casts (or a mask over casts) holds ours."""
        i = resolve(i)
        while i.op == 'getitem' and (num(i.args[1]) == 0 or resolve(i.args[1]).op == 'tuple' and num(resolve(i.args[1]).args[-1]) == 0):
            i = resolve(i.args[0])
        if i.op == 'call' and i.args[0] in AXIS0 + ('numpy.ravel', 'numpy.squeeze', 'numpy.array') and len(i.args) == 2:
            return self.casts(i.args[1])
        if i.op == 'comp' and resolve(i.args[2]) is resolve(i.args[0]):
            self.cols.add(resolve(i.args[0]))
            return self.sure(i.args[1])
        if i.op in ('not', 'and', 'or', '<', '<=', '==') or i.op == 'call' and i.args[0] in ('numpy.all', 'numpy.any'):
            return self.sure(i)
        return None

    def kept(self, n):
        n = resolve(n)
        if self.leaf(n) is not None:
            return True
        if n.op in ('store', 'T'):
            return self.kept(n.args[0])
        if n.op == 'mu':
            if n.meta in self.active:
                return self.kept(n.init)
            before = self.active
            self.active = before | {n.meta}
            try:
                return self.kept(n.next)
            finally:
                self.active = before
        if n.op == 'phi':
            c = self.truth(n.args[0])
            if c is UNK:
                a, b = self.kept(n.args[1]), self.kept(n.args[2])
                return a if a == b else self.undecided()
            return self.kept(n.args[1] if c else n.args[2])
        if n.op == 'call' and n.args[0] == 'numpy.delete':
            return self.kept(n.args[1]) and not self.dropped(n.args[2])
        if n.op == 'call' and n.args[0] in THROUGH:
            return self.kept(n.args[1])
        if n.op == 'getitem':
            i = resolve(n.args[1])
            hits = []
            for p in (i.args if i.op == 'tuple' else (i,)):
                p = resolve(p)
                if p.op == 'slice' and all(resolve(x).op == 'const' and resolve(x).args[0] is None for x in p.args):
                    continue
                hits.append(self.casts(p))
            if None in hits or not hits:
                raise Cannot('selection of casts')
            return all(hits) and self.kept(n.args[0])
        raise Cannot('casts of ' + n.op)


def sliced(n, deep=0):
    """An elementwise expression over part of the samples only."""
    n = resolve(n)
    if n.op == 'getitem':
        i = resolve(n.args[1])
        return any(stretch(x) for x in (i.args if i.op == 'tuple' else (i,))) or deep < 20 and sliced(n.args[0], deep + 1)
    if n.op in ('isnan', 'isfinite', 'not', 'and', 'or', '<', '<=', '==', 'T', '+', '-', '*') and deep < 20:
        return any(sliced(a, deep + 1) for a in n.args if isinstance(a, N))
    return False


def renumbering(cols, result):
    """Text when casts are dropped by a position that no longer fits; None when fine."""
    if len(cols) > 1:
        raise Cannot('several positions')
    for p in cols:
        if p.op == 'iv':
            m = resolve(result)
            if m.op == 'mu' and num(p.args[2]) not in (None,) and num(p.args[2]) > 0:
                return 'casts are dropped while the following ones are renumbered'
        elif p.op == '-':
            a, b = (resolve(x) for x in p.args)
            if a.op != 'iv' or b.op != 'mu' or num(b.init) != 0:
                raise Cannot('position of the dropped cast')
    return None


def some(rule, inst, c, f):
    """Run one obligation function giving (violation text or None)."""
    try:
        bad = f()
    except Wrong as w:
        c.bad(rule, inst, str(w), LOC)
    except Cannot as w:
        c.und(rule, inst, str(w), LOC)
    else:
        c.that(bad is None, rule, inst, bad or '', LOC)


def rule_grid(c):
    it = A.fn(GET, None, GD)
    c.covered(it)
    d = dict_of(it.ret_node)
    if not set(THREE) <= set(d):
        c.und('missing in all three', 'retrieval', 'result is no dictionary of the variables')
        return
    bases = {base_of(d[k]): k for k in THREE}
    if len(bases) < 3:
        c.und('missing in all three', 'retrieval', 'collected arrays not recognised')
        return

    def leaf(n):
        return bases.get(resolve(n))
    patterns = [dict(zip(THREE, p)) for p in cross((35.0, NANV), (100.0, NANV), (3.0, NANV))]

    def missing(p):
        return any(math.isnan(v) for v in p.values())

    def word(p):
        return 'missing ' + (', '.join(k[5:] for k in THREE if math.isnan(p[k])) or 'nothing')
    for k in THREE:
        for p in patterns:
            def one(p=p, k=k):
                q = Cast(leaf, (p, patterns[0]))
                got = q.val(d[k])
                if not isinstance(got, float):
                    raise Cannot('value not known')
                if math.isnan(got) != missing(p):
                    return f"{k} is {'missing' if math.isnan(got) else 'present'} in a sample {word(p)}"
                if not math.isnan(got) and got != p[k]:
                    return f"{k} holds another value"
                return None
            some('missing in all three', f"{k} in a sample {word(p)}", c, one)
    for k in sorted(d):
        base = base_of(d[k])

        def lf(n, base=base, k=k):
            n = resolve(n)
            return bases.get(n) or ('own' if n is base else None)

        def casts(k=k, lf=lf):
            for a, b, many in cross(patterns, patterns, (1, 1000)):
                q = Cast(lf, (a, b), 0, many)
                r = q.kept(d[k])
                empty = missing(a) and missing(b)
                if r is UNK:
                    raise Cannot('casts kept')
                if bool(r) == empty:
                    return f"a cast with samples {word(a)} and samples {word(b)} is {'kept' if r else 'removed'}"
                bad = renumbering(q.cols, d[k])
                if bad:
                    return bad
            return None
        some('empty casts removed', k, c, casts)


class Level(Point):
    """One level of an archived cast on its way into the collection."""

    def __init__(self, values, deepest, delta):
        super().__init__(data_key, values)
        self.deepest, self.delta = deepest, delta

    def _val(self, n):
        if n.op == 'getitem' and config_key(n) == 'MAP_P_DELTA':
            return self.delta
        if n.op == 'call' and n.args[0] in ('numpy.nanmax', 'numpy.max', 'numpy.amax', 'max') and float_pressure(n.args[1]):
            return self.deepest
        return super()._val(n)

    def included(self, n):
        n = resolve(n)
        if data_key(n) is not None:
            return True
        if n.op == 'phi':
            try:
                t = self.truth(n.args[0])
            except Cannot:
                t = UNK
            if t is UNK:
                a, b = self.included(n.args[1]), self.included(n.args[2])
                if a != b:
                    raise Cannot('branch')
                return a
            return self.included(n.args[1] if t else n.args[2])
        if n.op == 'getitem':
            if not self.included(n.args[0]):
                return False
            hit = self.own(n.args[1])
            if hit is UNK:
                raise Cannot('selection')
            return hit
        if n.op == 'call' and n.args[0] == 'numpy.delete':
            if not self.included(n.args[1]):
                return False
            hit = self.listed(n.args[2])
            if hit is None:
                hit = self.sure(n.args[2])
            return not hit
        if n.op == 'call' and n.args[0] == 'numpy.compress':
            return self.included(n.args[2]) and self.sure(n.args[1])
        if n.op == 'call' and n.args[0] in ('numpy.append', 'numpy.concatenate', 'numpy.hstack', 'numpy.pad') and len(n.args) > 1:
            x = resolve(n.args[1])
            return self.included(x.args[0] if x.op in ('tuple', 'list') and x.args else x)
        if n.op == 'call' and n.args[0] in SHAPING:
            return self.included(n.args[1])
        if n.op == 'store' and resolve(n.args[1]).op == 'slice':
            return self.included(n.args[2])
        if n.op == 'T':
            return self.included(n.args[0])
        raise Cannot('levels of ' + n.op)

    def listed(self, n):
        n = resolve(n)
        if n.op == 'getitem' and resolve(n.args[1]).op == 'tuple':
            hit = self.listed(n.args[0])
            return False if hit is True and shortened(n) else hit
        return super().listed(n)

    def positions(self, parts):
        # the cast is chosen by a position; levels by masks
        return super().positions(tuple(p for p in parts if resolve(p).op != 'iv'))


def config_key(n):
    from ..stages import config_key as f
    k = f(n)
    if k is None and n.op == 'getitem' and resolve(n.args[1]).op == 'const':
        b = resolve(n.args[0])
        while b.op == 'dictover':
            b = resolve(b.args[0])
        if b.op == 'param' and isinstance(resolve(n.args[1]).args[0], str):
            return resolve(n.args[1]).args[0]
    return k


def float_pressure(n):
    n = resolve(n)
    for _ in range(6):
        if n.op == 'param':
            return True
        if n.op in ('T', 'getitem') or n.op == 'call' and n.args[0] in SHAPING:
            if n.op == 'getitem':
                i = resolve(n.args[1])
                if any(stretch(x) for x in (i.args if i.op == 'tuple' else (i,))):
                    raise Wrong('the deepest float level is looked for among some of the float pressures only')
                if i.op not in ('slice', 'not', 'isfinite'):
                    return False
            n = resolve(n.args[0 if n.op != 'call' else 1])
        else:
            return False
    return False


def data_key(n):
    """Variable of the archive data read for a region."""
    n = resolve(n)
    for _ in range(8):
        if n.op == 'phi':
            a, b = data_key(n.args[1]), data_key(n.args[2])
            return a if a == b else None
        if n.op == 'call' and n.args[0] in SHAPING and len(n.args) > 1:
            n = resolve(n.args[1])
            continue
        if n.op != 'getitem':
            return None
        i = resolve(n.args[1])
        if i.op == 'const' and isinstance(i.args[0], str):
            b = resolve(n.args[0])
            while b.op in ('dictover', 'phi') or b.op == 'call' and b.args[0] == 'builtins.dict':
                b = resolve(b.args[1 if b.op in ('phi', 'call') else 0])
            if short(b) == 'get_data':
                return i.args[0]
            return None
        if i.op == 'const' and i.args[0] == 0:
            n = resolve(n.args[0])
            continue
        return None
    return None


def mentions_data(n):
    seen, todo = set(), [n]
    while todo:
        x = resolve(todo.pop())
        if x in seen or x.op in ('dim', 'shape', 'size', 'mu'):
            continue
        seen.add(x)
        if data_key(x) is not None:
            return True
        todo += [a for a in x.args if isinstance(a, N)]
    return False


def rule_depth(c):
    it = A.fn(GET, None, GD)
    d = dict_of(it.ret_node)
    for k in THREE:
        if k not in d:
            c.und('depth limit', k, 'not returned')
            continue
        pieces = [v for kind, _i, v in spine(d[k]) if mentions_data(v)]
        if not pieces:
            c.und('depth limit', k, 'collected pieces not seen')
        for j, v in enumerate(dict.fromkeys(pieces)):
            def one(v=v):
                for p, want in ((10.0, True), (1000.0, True), (1001.0, True), (1249.0, True), (1250.0, True), (1251.0, False), (6000.0, False)):
                    q = Level({'pres': p, 'sal': 35.0, 'ptmp': 3.0, 'lat': 0.0, 'long': 0.0, 'dates': 0.0}, 1000.0, 250.0)
                    got = q.included(v)
                    if bool(got) != want:
                        return (f"with a deepest float level of 1000 and a pressure window of 250, a level at {p:g} is "
                                f"{'kept' if got else 'dropped'}")
                return None
            some('depth limit', f"{k} piece {j + 1}", c, one)


def rule_call(c):
    """The pressures handed to the retrieval are those of the float."""
    it = A.core()
    c.covered(it)
    for e in A.axioms(it, 'get_region_data'):
        vals = list(e.extra.items())
        n = dict(vals).get('pa_float_pres', vals[-1][1] if vals else None)
        ks, todo, seen = set(), [n], set()
        while todo:
            x = resolve(todo.pop())
            if x in seen:
                continue
            seen.add(x)
            k = key_of(x)
            if k:
                ks.add(k)
            elif x.op == 'phi':
                todo += x.args[1:]
            elif x.op in ('getitem', 'T', 'store'):
                todo.append(x.args[0])
            elif x.op == 'call' and x.args[0] in SHAPING and len(x.args) > 1:
                todo.append(x.args[1])
            else:
                ks.add(None)
        c.that(None if None in ks or not ks else ks == {'PRES'}, 'depth limit', 'float pressures',
               f"depth is limited by {sorted(map(str, ks))}", A.where(e))


def main():
    c = Check('C21', 'a missing value in one variable blanks the sample in all three',
              'An arbitrary sample of an arbitrary retrieved cast is followed through the synchronisation of missing values, the removal of '
              'empty casts and the depth limit: for every pattern of missing variables its value in each returned variable, whether its '
              'cast is kept, and whether a level near the depth limit is kept, must be as stated.',
              'Casts are modelled by one or many samples of each of two kinds, which suffices for conditions over all or any samples of a cast.')
    c.rule(rule_grid)
    c.rule(rule_depth)
    c.rule(rule_call)
    return c.finish()

"""C33: settings chosen earlier are kept, defaults only fill what is missing."""
from itertools import product as cross
from ..report import Check
from .. import analyses as A
from .. import align
from ..algebra import LAYOUT
from ..ir import N, resolve, walk, mk
from ..masks import num, mask_of
from .. import stages
from .c06 import key_of
from .c11 import strip, bottoms, whole

R1, R2, R3, R4, R5 = ('settings of an existing file are kept', 'defaults without a file', 'several values for one limit are dropped',
                      'segment numbers stay with their profile', 'profiles without valid data are flagged')
LIMITS = ('use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt')
PLAIN = ('breaks', 'max_breaks')
OPTIONAL = {'use_percent_gt': 0.5}
DEFAULT = {'breaks': [], 'max_breaks': 4, 'use_percent_gt': 0.5, **{k: [] for k in LIMITS}}
CATCH = {'absent': {'FileNotFoundError', 'OSError', 'IOError', 'EnvironmentError', 'Exception', 'BaseException', '*'},
         'unreadable': {'PermissionError', 'OSError', 'IOError', 'EnvironmentError', 'Exception', 'BaseException', '*'},
         'key': {'KeyError', 'LookupError', 'Exception', 'BaseException', '*'}}


def names(h):
    return {x.strip().rsplit('.', 1)[-1] for x in h.strip('()').split(',') if x.strip()}


CHANGING = {'numpy.' + x for x in ('abs', 'absolute', 'negative', 'sort', 'unique', 'flip', 'round', 'around', 'floor', 'ceil', 'rint', 'nan_to_num', 'clip', 'fix', 'trunc',
                                      'sign', 'minimum', 'maximum')} | {'sorted', 'round', 'builtins.round', 'builtins.sorted', 'builtins.min', 'builtins.max', 'min', 'max', 'numpy.fmin', 'numpy.fmax'}


class Scene:
    """file: present / absent / unreadable; lacking: variable the file does not contain; long: limit with two values; none: setting without a value."""

    def __init__(self, it, file='present', lacking=None, long=None, none=None):
        self.it, self.file, self.lacking, self.long, self.none = it, file, lacking, long, none
        self.caught = None
        self.maybe = {}
        self.stops = False
        self.find()

    def __str__(self):
        return {'absent': 'no settings file', 'unreadable': 'a settings file that cannot be opened'}.get(
            self.file, 'a settings file' + (f" without {self.lacking}" if self.lacking else '') +
            (f" with two values for {self.long}" if self.long else '') +
            (f" with no value for {self.none}" if self.none else ''))

    def find(self):
        for e in self.it.events:
            what = None
            if e.kind == 'call' and self.file != 'present' and is_load(e):
                what = self.file
            if e.kind == 'keyread' and self.lacking is not None and e.name == self.lacking and self.file == 'present':
                what = 'key'
            if what is None or any(pol not in self.truth(g) for g, pol in e.guards):
                continue
            for t in reversed(e.tries):
                if t[0] != 'try':
                    continue
                for h in t[2]:
                    if names(h) & CATCH[what]:
                        self.caught = (t[1], h)
                        return
            self.stops = True
            return

    def truth(self, c):
        c = resolve(c)
        if c.op == 'exc':
            return {self.caught is not None and self.caught[0] == c.args[0] and self.caught[1] == c.args[1]}
        if c.op == 'not':
            return {not x for x in self.truth(c.args[0])}
        if c.op in ('and', 'or'):
            f = all if c.op == 'and' else any
            return {f(v) for v in cross(*[self.truth(x) for x in c.args])}
        if c.op == 'call' and c.args[0] in ('os.path.exists', 'os.path.isfile', 'pathlib.Path.exists') and 'CALSERIES' in str_of(c.args[1]):
            return {self.file != 'absent'}
        if c.op in ('in', 'contains') and resolve(c.args[0]).op == 'const':
            k = resolve(c.args[0]).args[0]
            if k in DEFAULT:
                return {self.lacking != k}
        if c.op in ('<', '<=', '=='):
            a, b = self.number(c.args[0]), self.number(c.args[1])
            if a is not None and b is not None:
                return {{'<': a < b, '<=': a <= b, '==': a == b}[c.op]}
        if c.op == 'const' and not isinstance(c.args[0], str):
            return {bool(c.args[0])}
        return {True, False}

    def number(self, n):
        n = resolve(n)
        if num(n) is not None:
            return num(n)
        if n.op == 'dim' and num(n.args[1]) == 0 or n.op == 'size':
            v = self.value(n.args[0])
            if v[0] == 'list':
                return v[1]
            if v[0] == 'key':
                return 2 if v[1] == self.long else 0 if v[1] == self.none else 1
        return None

    def value(self, n, depth=0):
        """('key', name) | ('list', length) | ('const', value) | ('other', node)"""
        n = strip(n)
        k = key_of(n)
        if k is not None:
            return ('key', k)
        if n.op in ('list', 'tuple'):
            return ('list', len(n.args)) if not n.args else ('const', [num(a) for a in n.args])
        if n.op == 'const':
            return ('const', n.args[0])
        if n.op == 'phi' and depth < 30:
            t = self.truth(n.args[0])
            out = {self.value(a, depth + 1) for pol, a in ((True, n.args[1]), (False, n.args[2])) if pol in t}
            if len(out) > 1:
                keys = {key_of(x) for x in near(resolve(n.args[0]))} - {None}
                if keys and keys <= set(DEFAULT):
                    self.maybe[n] = out
            return out.pop() if len(out) == 1 else ('other', n)
        if n.op == 'call' and n.args[0] in ('numpy.empty', 'numpy.zeros') and num(resolve(n.args[1])) == 0:
            return ('list', 0)
        if depth < 30 and (n.op in ('abs', 'neg', '+', '-', '*', '/') or n.op == 'call' and n.args[0] in CHANGING):
            inner = [self.value(a, depth + 1) for a in n.args if isinstance(a, N)]
            whose = sorted({v[1] for v in inner if v[0] == 'key'})
            if whose and all(v[0] in ('key', 'const') for v in inner) and not any(v == ('const', k) for v in inner for k in (0, 1, None)):
                return ('changed', ' '.join(whose))
            if ('list', 0) in inner and len(inner) == 1:
                return ('list', 0)
        if n.op == 'getitem' and resolve(n.args[0]).op == 'phi' and depth < 30:
            p = resolve(n.args[0])
            t = self.truth(p.args[0])
            if len(t) == 1:
                return self.value(mk('getitem', p.args[1 if True in t else 2], n.args[1]), depth + 1)
        return ('other', n)


def str_of(n):
    return ' '.join(str(x.args[0]) for x in walk(resolve(n)) if x.op == 'const')


def near(n):
    seen, todo = set(), [n]
    while todo:
        x = resolve(todo.pop())
        if x in seen:
            continue
        seen.add(x)
        yield x
        if key_of(x) is None:
            todo += [a for a in x.args if isinstance(a, N)]


def is_load(e):
    return e.name.endswith(('loadmat', 'read_mat')) and e.args and 'FLOAT_CALSERIES_PREFIX' in str_of(e.args[0])


def settings(c, it):
    saves = stages.saved(it)
    if not saves or not any(is_load(e) for e in it.events if e.kind == 'call'):
        return c.und(R1, 'settings', 'no saved or loaded settings file found')
    scenes = [Scene(it), Scene(it, 'absent'), Scene(it, 'unreadable')] + [Scene(it, lacking=k) for k in DEFAULT] + \
             [Scene(it, long=k) for k in LIMITS] + [Scene(it, none=k) for k in DEFAULT if k != 'use_percent_gt'] + [Scene(it, lacking=k) for k in ('calseries', 'calib_profile_no')]
    for s in scenes:
        if s.file == 'unreadable':
            c.that(s.stops, R1, str(s), 'the run stops, the file is left as it is' if s.stops else 'the error is ignored and the file overwritten with other settings')
            continue
        if s.file == 'absent':
            c.that(not s.stops, R2, str(s), 'handled' if not s.stops else 'the run stops')
        if s.lacking in OPTIONAL:
            c.that(not s.stops, R1, str(s), 'handled' if not s.stops else 'the run stops')
        if s.stops:
            continue
        written = [(e, d) for e, d in saves if all(pol in s.truth(g) for g, pol in e.guards)]
        sure = [1 for e, _d in written if all(s.truth(g) == {pol} for g, pol in e.guards)]
        if not written:
            c.bad(R1 if s.file == 'present' else R2, str(s), 'no settings file is written', A.where(saves[0][0]))
        elif not sure:
            c.und(R1, str(s), 'whether the file is written is not decided', A.where(written[0][0]))
        for e, d in written:
            for k in DEFAULT:
                if k not in d:
                    c.bad(R1, f"{k}: {s}", 'not written', A.where(e))
                    continue
                got = s.value(d[k])
                if s.file == 'absent' or s.lacking == k:
                    if s.lacking == k and k not in OPTIONAL:
                        continue
                    want = ('list', 0) if DEFAULT[k] == [] else ('const', DEFAULT[k])
                    rule = R2 if s.file == 'absent' else R1
                elif s.long == k:
                    want, rule = ('list', 0), R3
                else:
                    want, rule = ('key', k), R1
                if got == want or s.none == k and got == ('list', 0):
                    c.ok(rule, f"{k}: {s}", f"{got[0]} {got[1]}", A.where(e))
                elif got[0] == 'other' and any(v != want and v[0] != 'other' and not (v == ('list', 0) and s.none == k) for v in s.maybe.get(got[1], ())):
                    c.bad(rule, f"{k}: {s}", f"replaced depending on the values found: {sorted(map(str, s.maybe[got[1]]))}", A.where(e))
                elif got[0] == 'other':
                    c.und(rule, f"{k}: {s}", str(got[1])[:200], A.where(e))
                else:
                    c.bad(rule, f"{k}: {s}", f"written as {got[0]} {got[1]}, should be {want[0]} {want[1]}", A.where(e))


def lockstep(c, it):
    for e, d in stages.saved(it):
        a, b = d.get('calseries'), d.get('calib_profile_no')
        if a is None or b is None:
            c.bad(R4, 'calseries and calib_profile_no', 'not both written', A.where(e))
            continue
        ref = None
        for x in walk(resolve(b)):
            if key_of(x) == 'calib_profile_no':
                ref = x
        src = [x for x in walk(resolve(b)) if key_of(x) == 'PROFILE_NO']

        def rewrite(n):
            if n.op == 'call' and n.args[0] == 'numpy.sort' and len(n.args) == 2:
                for x in walk(resolve(a)):
                    if x.op == 'call' and x.args[0] == 'numpy.argsort' and len(x.args) == 2 and resolve(x.args[1]) is resolve(n.args[1]):
                        return mk('getitem', n.args[1], x)
            if n.op == 'call' and n.args[0] == 'numpy.append' and len(n.args) == 3:
                b = resolve(n.args[2])
                if b.op == 'getitem' and mask_of(b.args[1]) is None and resolve(b.args[1]).op in ('getitem', 'iv', 'call', '-', '+', 'const'):
                    return mk('call', 'numpy.append', n.args[1], mk('const', 'one entry'))
            if key_of(n) == 'calseries' and ref is not None:
                return ref
            if n.op == 'call' and n.args[0] in ('numpy.ones', 'numpy.ones_like', 'numpy.full') and src:
                sizes = [x for x in walk(n) if x.op in ('dim', 'size') and key_of(strip(x.args[0])) == 'PROFILE_NO']
                if sizes or n.args[0] == 'numpy.ones_like' and key_of(strip(n.args[1])) == 'PROFILE_NO':
                    return src[0]
            return None
        grow = {k: {x.args[0] for x in near_all(n) if x.op == 'call' and x.args[0] in ('numpy.insert', 'numpy.append')} for k, n in (('calseries', a), ('calib_profile_no', b))}
        if ('numpy.insert' in grow['calseries']) != ('numpy.insert' in grow['calib_profile_no']):
            c.bad(R4, 'new profiles', f"entries are added at different positions: {grow}", A.where(e))
        align.compare(c, R4, 'saved together', [('calib_profile_no', b), ('calseries', a)], False, A.where(e), rewrite)
        for s in (Scene(it), Scene(it, 'absent')):
            if s.stops:
                continue
            for name, n, want in (('calseries', a, 'calseries' if s.file == 'present' else 1), ('calib_profile_no', b, 'calib_profile_no' if s.file == 'present' else 'PROFILE_NO')):
                bs = [x for y in start(n, s) for x in [y]]
                got = set()
                for x in bs:
                    x = strip(x)
                    if x.op == 'call' and x.args[0] in ('numpy.ones', 'numpy.ones_like'):
                        got.add(1)
                    else:
                        got.add(key_of(x) or str(x)[:100])
                if got == {want}:
                    c.ok(R1 if s.file == 'present' else R2, f"{name}: {s}", f"starts from {want}", A.where(e))
                elif len(bs) == 1 and (key_of(strip(bs[0])) or strip(bs[0]).op == 'const' or 1 in got):
                    c.bad(R1 if s.file == 'present' else R2, f"{name}: {s}", f"starts from {got}, should be {want}", A.where(e))
                else:
                    c.und(R1, f"{name}: {s}", f"starts from {got}", A.where(e))


def added(c, it):
    """Every profile without an entry gets one, whatever its number."""
    for e, d in stages.saved(it):
        b = d.get('calib_profile_no')
        if b is None:
            continue
        seen = 0
        for x in walk(resolve(b)):
            if x.op == 'comp':
                g, pol = resolve(x.args[1]), True
            elif x.op == 'phi' and [resolve(a).op == 'append' for a in x.args[1:]].count(True) == 1:
                g, pol = resolve(x.args[0]), resolve(x.args[1]).op == 'append'
            else:
                continue
            if g.op == 'not':
                g, pol = resolve(g.args[0]), not pol
            parts = [g]
            if g.op == ('and' if pol else 'or'):
                parts = [resolve(y) for y in g.args]
            about = [y for y in parts if any(z.op in ('==', 'contains', 'in') and {key_of(strip(w)) for w in walk(z)} & {'PROFILE_NO'} for z in walk(y))]
            if not about or any(key_of(z) in VARS for z in walk(g)):
                continue
            seen += 1
            rest = [y for y in parts if y not in about]
            while any(y.op == 'not' for y in rest):
                rest = [resolve(y.args[0]) if y.op == 'not' else y for y in rest]
            if rest and all(y.op in ('<', '<=', '==', 'isnan', 'isfinite') for y in rest):
                c.bad(R4, 'profiles added', f"only those with {str(rest[0])[:150]}", A.where(e))
            elif rest:
                c.und(R4, 'profiles added', f"condition {str(rest[0])[:150]}", A.where(e))
            else:
                c.ok(R4, 'profiles added', 'every profile without an entry', A.where(e))
        if not seen:
            c.und(R4, 'profiles added', 'how profiles without an entry are found is not understood', A.where(e))


def near_all(n):
    """The array itself through growth, order and loops, not the indices and values."""
    seen, todo = set(), [n]
    while todo:
        x = strip(todo.pop())
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == 'mu':
            todo += [y for y in (x.init, x.next) if y is not None]
        elif x.op == 'phi':
            todo += x.args[1:]
        elif x.op in ('store', 'viewstore', 'getitem'):
            todo.append(x.args[0])
        elif x.op == 'call' and x.args[0] in ('numpy.insert', 'numpy.append') and len(x.args) > 1:
            todo.append(x.args[1])


def start(n, s):
    seen, todo, out = set(), [n], []
    while todo:
        x = strip(todo.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'mu':
            todo += [y for y in (x.init, x.next) if y is not None]
        elif x.op == 'phi':
            t = s.truth(x.args[0])
            todo += [a for pol, a in ((True, x.args[1]), (False, x.args[2])) if pol in t]
        elif x.op in ('store', 'viewstore', 'append') or x.op == 'call' and x.args[0] in ('numpy.append',):
            todo.append(x.args[1] if x.op == 'call' else x.args[0])
        elif x.op == 'call' and x.args[0] in ('numpy.concatenate', 'numpy.hstack', 'numpy.insert'):
            y = resolve(x.args[1])
            todo.append(y.args[0] if y.op in ('list', 'tuple') else y)
        elif x.op == 'getitem' and key_of(x) is None:
            todo.append(x.args[0])
        else:
            out.append(x)
    return out


VARS = ('SAL', 'TEMP', 'PRES')


class Valid:
    """Evaluates conditions about the number of valid samples of one profile."""

    def __init__(self, counts):
        self.counts, self.total, self.places, self.partial, self.swapped = counts, 9, set(), set(), set()

    def samples(self, n):
        """Variable of the column a node is."""
        n = strip(n)
        if n.op == 'getitem':
            k = key_of(n.args[0])
            i = resolve(n.args[1])
            if k in self.counts and i.op == 'tuple' and len(i.args) == 2 and whole(resolve(i.args[0])):
                self.places.add(resolve(i.args[1]))
                return k
            if k in self.counts and i.op == 'tuple' and len(i.args) == 2 and resolve(i.args[0]).op in ('slice', 'const'):
                self.partial.add(k)
                return k
            if k in self.counts and i.op == 'tuple' and len(i.args) == 2 and resolve(i.args[0]).op == 'iv' and whole(resolve(i.args[1])):
                self.swapped.add(k)
                return k
            b = strip(n.args[0])
            if b.op == 'T' and key_of(b.args[0]) in self.counts and i.op == 'iv':
                self.places.add(i)
                return key_of(b.args[0])
        return None

    def mask(self, n):
        """Number of true elements of a mask over one column."""
        n = strip(n)
        if n.op == 'not':
            r = self.mask(n.args[0])
            return None if r is None else self.total - r
        if n.op in ('isnan', 'isfinite'):
            k = self.samples(n.args[0])
            if k is None:
                return None
            return self.counts[k] if n.op == 'isfinite' else self.total - self.counts[k]
        if n.op == 'getitem':
            # one column of a mask over all profiles
            m, i = strip(n.args[0]), resolve(n.args[1])
            neg = False
            while m.op == 'not':
                m, neg = strip(m.args[0]), not neg
            if m.op in ('isnan', 'isfinite') and key_of(strip(m.args[0])) in self.counts and i.op == 'tuple' and len(i.args) == 2 and whole(resolve(i.args[0])):
                self.places.add(resolve(i.args[1]))
                v = self.counts[key_of(strip(m.args[0]))]
                return v if (m.op == 'isfinite') != neg else self.total - v
        return None

    def whole_mask(self, n, i):
        n = strip(n)
        neg = False
        while n.op == 'not':
            n, neg = strip(n.args[0]), not neg
        if n.op in ('isnan', 'isfinite') and key_of(strip(n.args[0])) in self.counts:
            self.places.add(i)
            v = self.counts[key_of(strip(n.args[0]))]
            return v if (n.op == 'isfinite') != neg else self.total - v
        return None

    def num(self, n):
        n = resolve(n)
        if num(n) is not None:
            return num(n)
        if n.op == 'const' and isinstance(n.args[0], bool):
            return int(n.args[0])
        i = None
        if n.op == 'getitem':
            i, n = resolve(n.args[1]), strip(n.args[0])
        if n.op in ('dim', 'size'):
            x = strip(n.args[0])
            m = None
            if x.op == 'call' and x.args[0] in ('numpy.argwhere', 'numpy.flatnonzero'):
                m = x.args[1]
            elif x.op == 'getitem':
                b = strip(x.args[0])
                if b.op == 'call' and b.args[0] in ('numpy.where', 'numpy.nonzero'):
                    m = b.args[1]
                elif self.samples(b):
                    m = x.args[1]
            return None if m is None else self.mask(m)
        if n.op == 'call':
            f = n.args[0].rsplit('.', 1)[-1]
            if f in ('sum', 'sum0', 'count_nonzero', 'any', 'all') and len(n.args) > 1:
                m = self.mask(n.args[1]) if i is None else self.whole_mask(n.args[1], i)
                if m is None:
                    return None
                return m if f in ('sum', 'sum0', 'count_nonzero') else int(m > 0 if f == 'any' else m == self.total)
        return None

    def truth(self, c):
        c = resolve(c)
        if c.op == 'not':
            v = self.truth(c.args[0])
            return None if v is None else not v
        if c.op in ('and', 'or'):
            vs = [self.truth(x) for x in c.args]
            short = c.op == 'or'
            if short in vs:
                return short
            return None if None in vs else not short
        if c.op in ('<', '<=', '=='):
            a, b = self.num(c.args[0]), self.num(c.args[1])
            if a is None or b is None:
                return None
            return {'<': a < b, '<=': a <= b, '==': a == b}[c.op]
        if c.op == 'const':
            return bool(c.args[0])
        v = self.num(c)
        return None if v is None else bool(v)


def ordering(n):
    """The permutation that sorts some profile numbers (not the ranks, which sort that once more)."""
    n = resolve(n)
    if not (n.op == 'call' and n.args[0] in ('numpy.argsort', 'numpy.lexsort') and len(n.args) > 1):
        return False
    x = strip(n.args[1])
    return not (x.op == 'call' and x.args[0] in ('numpy.argsort', 'numpy.lexsort'))


def flags(c, it):
    saves = stages.saved(it)
    final = [resolve(d['calib_profile_no']) for _e, d in saves if 'calib_profile_no' in d]
    evs = [e for e in it.events if e.kind == 'mutate' and e.name == 'store' and len(e.args) > 1 and isinstance(e.args[1], N) and num(e.args[1]) == 0]
    evs = [e for e in evs if any(key_of(x) in VARS for g, _p in e.guards for x in walk(resolve(g)))]
    if not evs:
        stores = [x for _e, d in saves if 'calseries' in d for x in stages.spine(d['calseries']) if x[0] == 'store']
        if not stores:
            c.bad(R5, 'flag zero', 'no profile is ever flagged')
        else:
            c.und(R5, 'flag zero', 'the condition for flagging is not understood')
        return
    # place: the profile whose data were looked at
    ivs, part, swapped = set(), set(), set()
    for counts in cross((0, 4), repeat=3):
        cs = dict(zip(VARS, counts))
        res = []
        for e in evs:
            v = Valid(cs)
            t = [v.truth(g) for g, _p in e.guards if any(key_of(x) in VARS for x in walk(resolve(g)))]
            ps = [p for g, p in e.guards if any(key_of(x) in VARS for x in walk(resolve(g)))]
            ivs |= v.places
            part |= v.partial
            swapped |= v.swapped
            res.append(False if any(x is not None and x != p for x, p in zip(t, ps)) else None if None in t else True)
        want = 0 in counts
        inst = 'valid: ' + (', '.join(k for k in VARS if cs[k]) or 'nothing')
        if True in res or (None not in res):
            c.that((True in res) == want, R5, inst, ('flagged' if True in res else 'not flagged'), A.where(evs[0]))
        else:
            c.und(R5, inst, 'condition not understood', A.where(evs[0]))
    for k in sorted(part):
        c.bad(R5, f"samples of {k}", 'only some of the samples of a profile are looked at', A.where(evs[0]))
    for k in sorted(swapped):
        c.bad(R5, f"samples of {k}", 'one level of all profiles is looked at instead of one profile', A.where(evs[0]))
    for e in evs:
        m = mask_of(e.args[0])
        i = resolve(e.args[0])
        if m is None:
            if i.op == 'iv' or i.op == 'getitem' and resolve(i.args[0]).op == 'iv':
                c.bad(R5, 'flagged entry', f"entry {str(i)[:120]} of the ordered list need not be the profile looked at", A.where(e))
            elif i.op == 'getitem' and resolve(i.args[1]) in ivs and ordering(i.args[0]):
                c.bad(R5, 'flagged entry', 'the ordering gives the entry that comes to a place, not the place of the profile looked at', A.where(e))
            else:
                c.und(R5, 'flagged entry', str(i)[:200], A.where(e))
            continue
        m = resolve(m)
        ok = None
        if m.op == '==':
            for a, b in (m.args, m.args[::-1]):
                a, b = strip(a), strip(b)
                if b.op == 'getitem' and key_of(strip(b.args[0])) == 'PROFILE_NO':
                    ok = (a in final and ivs == {resolve(b.args[1])}) if ivs else None
                elif b.op == 'iv' and ok is None:
                    ok = False
        elif m.op in ('<', '<='):
            sides = [strip(x) for x in m.args]
            if any(x.op == 'getitem' and key_of(strip(x.args[0])) == 'PROFILE_NO' for x in sides) and any(x in final for x in sides):
                ok = False                    # a whole range of profiles
        c.that(ok, R5, 'flagged entry', 'the entry with the number of the profile' if ok else str(m)[:200], A.where(e))
    for iv in ivs:
        if iv.op == 'iv':
            full = num(iv.args[0]) == 0 and num(iv.args[2]) in (1, None) and resolve(iv.args[1]).op in ('dim', 'size')
            c.that(True if full else False if num(iv.args[0]) else None, R5, 'every profile is looked at', f"{iv.args[0]} … {str(iv.args[1])[:80]}")


def main():
    c = Check('C33', 'calibration settings chosen earlier are kept',
              'Each saved setting is read from the value graph for every case of the settings file (absent, unreadable, complete, lacking one '
              'variable, two values for one limit), with the exception handlers resolved; the paired lists must have the same selection; the flag '
              'condition is compared as a truth table over which variables have valid samples.',
              'set_calseries, all paths; symbolic in profiles, earlier settings and file names.')
    it = A.run('calseries')
    c.covered(it)
    c.rule(settings, it)
    c.rule(lockstep, it)
    c.rule(added, it)
    c.rule(flags, it)
    return c.finish()

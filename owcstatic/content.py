"""What the non-missing elements of an array are, as formulas in normal form.

Positions are not looked at: a value stored anywhere into an array is possible content of
the array, an array made of missing values has none.  Loops are taken to a fixed point."""
from itertools import product as cross
from .algebra import Cannot, EW, SQRT, FN, LAYOUT, Poly, num, leaf, fn, power
from .ir import N, resolve
from .masks import is_nan
from fractions import Fraction

PLACE = LAYOUT | {'numpy.take', 'numpy.delete', 'numpy.copy', 'list', 'numpy.nan_to_num0', 'numpy.asanyarray', 'numpy.flatten',
                  'numpy.roll', 'numpy.flip', 'numpy.sort'}
STACKS = {'numpy.append', 'numpy.concatenate', 'numpy.hstack', 'numpy.vstack', 'numpy.column_stack', 'numpy.stack'}


def args_of(n):
    return [a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']


def kw(n, name):
    for a in n.args[1:]:
        if isinstance(a, N) and a.op == 'kw' and a.args[0] == name:
            return a.args[1]
    return None


ROUNDING = {'round', 'around', 'round_', 'floor', 'ceil', 'clip', 'maximum', 'minimum', 'fmax', 'fmin', 'fix', 'trunc', 'rint', 'nan_to_num'}


class Content:
    def __init__(self, leaf_of, functions=None, limit=12):
        self.leaf_of, self.functions, self.limit = leaf_of, functions or {}, limit
        self.memo, self.cur = {}, {}

    def of(self, n):
        """Frozen set of possible formulas (as dict frozen -> Poly)."""
        n = resolve(n)
        if n in self.cur:
            self.open = True
            return self.cur[n]
        if n in self.memo:
            return self.memo[n]
        before, self.open = getattr(self, 'open', False), False
        out = self._of(n)
        if len(out) > self.limit:
            raise Cannot('too many alternatives for ' + str(n)[:80])
        if not self.open or not self.cur:
            self.memo[n] = out
        self.open = self.open or before
        return out

    def one(self, p):
        return {p.frozen(): p}

    def join(self, *ns):
        out = {}
        for x in ns:
            if isinstance(x, N):
                out.update(self.of(x))
        return out

    def lift(self, f, *ns):
        sets = [self.of(x) for x in ns]
        out = {}
        for combo in cross(*[list(s.values()) for s in sets]):
            p = f(*combo)
            out[p.frozen()] = p
        return out

    def _of(self, n):
        k = self.leaf_of(n)
        if k is not None:
            return self.one(k if isinstance(k, Poly) else leaf(k))
        op = n.op
        if is_nan(n):
            return {}
        if op == 'const':
            v = n.args[0]
            if isinstance(v, (bool, int, float)):
                return self.one(num(float(v)))
            if v is None:
                return {}
        if op in ('+', '-', '*', '/') and len(n.args) == 2:
            return self.lift(lambda a, b: self.binary(op, a, b), *n.args)
        if op == '**':
            return self.lift(self.pow, *n.args)
        if op == 'neg':
            return self.lift(lambda a: a.scale(-1), n.args[0])
        if op == 'abs':
            return self.lift(lambda a: fn('abs', a), n.args[0])
        if op in ('getitem', 'T', 'without', 'sorted'):
            return self.of(n.args[0])
        if op in ('store', 'viewstore'):
            return self.join(n.args[0], n.args[2])
        if op == 'phi':
            return self.join(n.args[1], n.args[2])
        if op == 'comp':
            return self.of(n.args[2])
        if op in ('list', 'tuple'):
            return self.join(*n.args)
        if op == 'append':
            return self.join(*n.args[:2])
        if op == 'mu':
            self.cur[n] = {}
            for _ in range(6):
                out = self.join(n.init, n.next)
                if set(out) == set(self.cur[n]):
                    break
                if len(out) > self.limit:
                    del self.cur[n]
                    raise Cannot('loop accumulates')
                self.cur[n] = out
            else:
                del self.cur[n]
                raise Cannot('loop accumulates')
            del self.cur[n]
            return out
        if op == 'call':
            return self.call(n, n.args[0], args_of(n))
        raise Cannot(f"{op} {str(n)[:140]}")

    def call(self, n, name, pos):
        short = name.rsplit('.', 1)[-1].rsplit(':', 1)[-1]
        if short in self.functions:
            return self.lift(lambda *p: fn(self.functions[short], *p), *pos)
        if name in EW and len(pos) >= 2:
            return self.lift(lambda a, b: self.binary(EW[name], a, b) if EW[name] != '**' else self.pow(a, b), pos[0], pos[1])
        if name in SQRT:
            return self.lift(lambda a: power(a, Fraction(1, 2)), pos[0])
        if name == 'numpy.square':
            return self.lift(lambda a: power(a, 2), pos[0])
        if name == 'numpy.negative':
            return self.lift(lambda a: a.scale(-1), pos[0])
        if name in FN:
            return self.lift(lambda a: fn(FN[name], a), pos[0])
        if name in ('numpy.dot', 'numpy.matmul', 'numpy.outer') and len(pos) == 2:
            for a, b in ((pos[0], pos[1]), (pos[1], pos[0])):
                if self.unit(a, name, a is pos[0]):
                    return self.of(b)
            if name == 'numpy.outer':
                return self.lift(lambda a, b: a * b, *pos)
        if name in STACKS and pos:
            parts = []
            for p in pos[:2] if name == 'numpy.append' else pos[:1]:
                p = resolve(p)
                parts += p.args if p.op in ('list', 'tuple') else (p,)
            return self.join(*parts)
        if name in ('numpy.ones', 'numpy.ones_like'):
            return self.one(num(1))
        if name in ('numpy.zeros', 'numpy.zeros_like'):
            return self.one(num(0))
        if name in ('numpy.empty', 'numpy.empty_like'):
            return self.one(leaf('uninitialised'))
        if name in ('numpy.full', 'numpy.full_like') and len(pos) >= 2:
            return self.of(pos[1])
        if name == 'numpy.where' and len(pos) == 3:
            return self.join(pos[1], pos[2])
        if name in PLACE and pos:
            return self.of(pos[0])
        if name in ('numpy.multiply.outer',):
            return self.lift(lambda a, b: a * b, *pos)
        if short in ROUNDING and pos:
            return self.lift(lambda *p: fn(short, *p), *pos)
        raise Cannot(f"call {str(n)[:140]}")

    def unit(self, a, name, first):
        """A column (first factor) or row (second) of ones: a product with it copies the other factor."""
        a = resolve(a)
        while a.op == 'call' and a.args[0] in LAYOUT and args_of(a):
            a = resolve(args_of(a)[0])
        if not (a.op == 'call' and a.args[0] == 'numpy.ones'):
            return False
        if name == 'numpy.outer':
            return True
        sh = resolve(args_of(a)[0])
        if sh.op not in ('tuple', 'list') or len(sh.args) != 2:
            return False
        one = resolve(sh.args[1 if first else 0])
        return one.op == 'const' and one.args[0] == 1

    @staticmethod
    def binary(op, p, q):
        if op == '/' and not q.t or op == '*' and (not p.t or not q.t):
            if op == '/':
                raise Cannot('division by zero')
            return num(0)
        return p + q if op == '+' else p - q if op == '-' else p * q if op == '*' else p * power(q, -1)

    @staticmethod
    def pow(p, q):
        e = q.const()
        if e is None:
            raise Cannot('symbolic exponent')
        return power(p, Fraction(e).limit_denominator(64))

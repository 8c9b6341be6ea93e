"""Elementwise arithmetic in normal form: sums of products of powers of atoms.

Array expressions are read as formulas about one element; the leaf function names
the element an array node stands for.  Two formulas are equal when their normal
forms are (coefficients up to rounding)."""
import cmath
import math
import random
from fractions import Fraction

from .ir import N, resolve

EW = {'numpy.add': '+', 'numpy.subtract': '-', 'numpy.multiply': '*', 'numpy.divide': '/', 'numpy.true_divide': '/',
      'numpy.power': '**', 'math.pow': '**', 'operator.add': '+', 'operator.sub': '-', 'operator.mul': '*'}
SQRT = {'numpy.sqrt', 'math.sqrt'}
FN = {'numpy.exp': 'exp', 'math.exp': 'exp', 'numpy.sin': 'sin', 'math.sin': 'sin', 'numpy.cos': 'cos', 'math.cos': 'cos',
      'numpy.log': 'log', 'math.log': 'log', 'numpy.absolute': 'abs', 'numpy.abs': 'abs', 'math.fabs': 'abs', 'numpy.fabs': 'abs'}
LAYOUT = {'numpy.reshape', 'numpy.array', 'numpy.asarray', 'numpy.atleast_2d', 'numpy.atleast_1d', 'numpy.ravel', 'numpy.copy',
          'numpy.squeeze', 'numpy.expand_dims', 'numpy.transpose', 'float', 'builtins.float', 'numpy.float64', 'numpy.astype',
          'numpy.ascontiguousarray', 'numpy.tile', 'numpy.broadcast_to', 'numpy.repeat'}


class Cannot(Exception):
    pass


def key(c):
    return float(f"{c:.11g}")


class Poly:
    """dict monomial -> coefficient; a monomial is a sorted tuple of (atom, exponent)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c != 0}

    def frozen(self):
        return tuple(sorted(((repr(m), m, key(c)) for m, c in self.t.items()), key=lambda x: x[0]))

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, 0) + c
            if abs(s) <= 1e-11 * max(abs(c), abs(t.get(m, 0))):
                s = 0
            t[m] = s
        return Poly(t)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.t.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        t = Poly({})
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                t = t + product(m1, m2, c1 * c2)
        return t

    def same(self, o):
        d = self - o
        return all(abs(c) <= 1e-8 * max([abs(x) for x in list(self.t.values()) + list(o.t.values())] or [1]) for c in d.t.values()) or identical(self, o)

    def const(self):
        if not self.t:
            return 0.0
        if list(self.t) == [()]:
            return self.t[()]
        return None

    def single(self):
        return len(self.t) == 1

    def __repr__(self):
        return ' + '.join(f"{'' if c == 1 else f'{c:.6g}'}" + ('*' if c != 1 and m else '') +
                          '*'.join(show(a) + ('' if e == 1 else f"^{e}") for a, e in m) + ('1' if c == 1 and not m else '')
                          for m, c in self.t.items()) or '0'


def show(a):
    if a[0] == 'sum':
        return '(' + repr(Poly({m: c for _r, m, c in a[1]})) + ')'
    if a[0] == 'fn':
        return a[1] + '(' + ', '.join(repr(Poly({m: c for _r, m, c in x})) for x in a[2]) + ')'
    return str(a[1]) if a[0] == 'leaf' else str(a)


def product(m1, m2, c):
    """Product of two monomials as a Poly (integer powers of sums are multiplied out)."""
    e = {}
    for a, x in list(m1) + list(m2):
        e[a] = e.get(a, 0) + x
    def expand(a, x):
        if x.denominator != 1 or x <= 0:
            return None
        if a[0] == 'sum':
            return a[1]
        return a[2][0] if a[:2] == ('fn', 'abs') and x % 2 == 0 else None
    out = Poly({tuple(sorted(((a, x) for a, x in e.items() if x != 0 and expand(a, x) is None), key=repr)): c})
    for a, x in e.items():
        if expand(a, x) is not None:
            base = Poly({m: k for _r, m, k in expand(a, x)})
            for _ in range(int(x)):
                out = out * base
    return out


def identical(p, q):
    """Identity of two formulas whose normal forms differ (quotients of sums, products of exponentials): their values at generic points."""
    if not rational(p) and not rational(q):
        return False
    for k in range(6):
        point = {}
        try:
            a, b = value(p, point, k), value(q, point, k)
        except (OverflowError, ZeroDivisionError, ValueError):
            return False
        if not abs(a - b) <= 1e-9 * min(abs(a), abs(b)):
            return False
    return True


def rational(p):
    return any(a[0] == 'sum' or a[0] == 'fn' and a[1] in ('exp', 'log', 'sin', 'cos', 'abs') for m in p.t for a, _e in m)


def value(p, point, k):
    total = 0
    for m, c in p.t.items():
        for a, e in m:
            c = c * power_at(at(a, point, k), e)
        total += c
    return total


def power_at(v, e):
    return v ** int(e) if e.denominator == 1 else cmath.exp(float(e) * cmath.log(v))


def at(a, point, k):
    if a in point:
        return point[a]
    if a[0] == 'sum':
        v = value(Poly({m: c for _r, m, c in a[1]}), point, k)
    elif a[0] == 'fn' and a[1] in ('exp', 'log', 'sin', 'cos', 'abs'):
        x = value(Poly({m: c for _r, m, c in a[2][0]}), point, k)
        v = abs(x) if a[1] == 'abs' else getattr(cmath, a[1])(x)
    elif a[0] == 'fn':
        xs = [value(Poly({m: c for _r, m, c in x}), point, k) for x in a[2]]
        r = random.Random(repr((a[1], [f"{complex(x):.8g}" for x in xs])))
        v = r.uniform(.3, 1.7) * r.choice((-1, 1))
    else:
        r = random.Random(repr((a, k)))
        v = r.uniform(.3, 1.7) * (r.choice((-1, 1)) if k < 4 else 1)
    point[a] = v
    return v


def num(x):
    return Poly({(): float(x)}) if x else Poly({})


number0 = Poly({})


def leaf(k):
    return Poly({((('leaf', k), Fraction(1)),): 1.0})


def power(p, e):
    e = Fraction(e).limit_denominator(64)
    if e == 0:
        return num(1)
    if p.const() is not None:
        v = p.const()
        if v < 0 and e.denominator != 1 or v == 0 and e < 0:
            raise Cannot('power of a constant')
        return num(v ** float(e))
    if p.single():
        (m, c), = p.t.items()
        if e.denominator != 1:
            if c < 0:
                raise Cannot('root of a negative')
            if any((x * e).denominator == 1 and x.denominator == 1 and x % 2 == 0 and (x * e) % 2 for _a, x in m):
                # sqrt(x**2) is |x|
                m2, extra = [], []
                for a, x in m:
                    if x.denominator == 1 and x % 2 == 0 and (x * e) % 2:
                        extra.append((('fn', 'abs', (Poly({((a, Fraction(1)),): 1.0}).frozen(),)), x * e))
                    else:
                        m2.append((a, x * e))
                return Poly({tuple(sorted(m2 + extra, key=repr)): c ** float(e)})
        return product(tuple((a, x * e) for a, x in m), (), c ** float(e))
    if e.denominator == 1 and e > 0:
        out = num(1)
        for _ in range(int(e)):
            out = out * p
        return out
    lead = p.frozen()[0][2]
    k = abs(lead) if e.denominator != 1 else lead
    q = p.scale(1 / k)
    return Poly({((('sum', q.frozen()), e),): k ** float(e)})


def fn(name, *args):
    if name == 'abs':
        p = args[0]
        if p.const() is not None:
            return num(abs(p.const()))
        if p.t and p.frozen()[0][2] < 0:
            args = (p.scale(-1),)
    if name in ('sin', 'exp', 'cos', 'log') and args[0].const() is not None and (name != 'log' or args[0].const() > 0):
        return num(getattr(math, name)(args[0].const()))
    if name == 'sin' and args[0].t and args[0].frozen()[0][2] < 0:
        return fn('sin', args[0].scale(-1)).scale(-1)
    return Poly({((('fn', name, tuple(a.frozen() for a in args)), Fraction(1)),): 1.0})


class Alg:
    def __init__(self, leaf_of, choose=None, extra=None):
        self.leaf_of, self.choose, self.extra = leaf_of, choose or (lambda c, a: None), extra
        self.memo = {}

    def poly(self, n):
        n = resolve(n)
        if n not in self.memo:
            self.memo[n] = None
            self.memo[n] = self._poly(n)
        if self.memo[n] is None:
            raise Cannot('recursive ' + n.op)
        return self.memo[n]

    def _poly(self, n):
        k = self.leaf_of(n)
        if k is not None:
            return k if isinstance(k, Poly) else leaf(k)
        op = n.op
        if op == 'const':
            v = n.args[0]
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return num(v)
            if isinstance(v, bool):
                return num(int(v))
        if op == 'pi':
            return num(math.pi)
        if op in ('+', '-', '*', '/', '**') and len(n.args) == 2:
            return self.binary(op, n.args[0], n.args[1])
        if op == 'neg':
            return self.poly(n.args[0]).scale(-1)
        if op == 'abs':
            return fn('abs', self.poly(n.args[0]))
        if op in ('T',):
            return self.poly(n.args[0])
        if op == 'phi':
            v = self.choose(resolve(n.args[0]), self)
            if v is None:
                a, b = self.poly(n.args[1]), self.poly(n.args[2])
                if a.same(b):
                    return a
                raise Cannot('condition ' + str(n.args[0])[:160])
            return self.poly(n.args[1] if v else n.args[2])
        if op == 'getitem':
            i = resolve(n.args[1])
            if layout_index(i):
                return self.poly(n.args[0])
        if op == 'call':
            name = n.args[0]
            pos = [a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']
            if name in EW and len(pos) >= 2:
                return self.binary(EW[name], pos[0], pos[1])
            if name in SQRT:
                return power(self.poly(pos[0]), Fraction(1, 2))
            if name == 'numpy.square':
                return power(self.poly(pos[0]), 2)
            if name in ('numpy.negative',):
                return self.poly(pos[0]).scale(-1)
            if name in ('numpy.radians', 'numpy.deg2rad', 'math.radians'):
                return self.poly(pos[0]).scale(math.pi / 180)
            if name in ('numpy.degrees', 'numpy.rad2deg', 'math.degrees'):
                return self.poly(pos[0]).scale(180 / math.pi)
            if name in ('numpy.hypot', 'math.hypot'):
                return power(power(self.poly(pos[0]), 2) + power(self.poly(pos[1]), 2), Fraction(1, 2))
            if name in FN:
                return fn(FN[name], self.poly(pos[0]))
            if name == 'numpy.dot' and self.extra == 'scalar-dot':
                return self.poly(pos[0]) * self.poly(pos[1])
            if name in ('numpy.sum0', 'builtins.sum', 'sum') and pos and resolve(pos[0]).op in ('list', 'tuple'):
                out = number0
                for x in list(resolve(pos[0]).args) + pos[1:2]:
                    out = out + self.poly(x)
                return out
            if name in LAYOUT and pos:
                return self.poly(pos[0])
            if name == 'numpy.where' and len(pos) == 3:
                v = self.choose(resolve(pos[0]), self)
                if v is not None:
                    return self.poly(pos[1] if v else pos[2])
        if callable(self.extra):
            k = self.extra(n)
            if k is not None:
                return k
        raise Cannot(f"{op} {str(n)[:160]}")

    def binary(self, op, a, b):
        if op == '**':
            e = self.poly(b).const()
            if e is None:
                raise Cannot('symbolic exponent')
            return power(self.poly(a), Fraction(e).limit_denominator(64))
        p, q = self.poly(a), self.poly(b)
        if op == '+':
            return p + q
        if op == '-':
            return p - q
        if op == '*':
            return p * q
        return p * power(q, -1)


def layout_index(i):
    """An index that only changes the layout."""
    items = i.args if i.op == 'tuple' else (i,)
    ok = lambda x: x.op == 'slice' and all(resolve(y).op == 'const' and resolve(y).args[0] is None for y in x.args) or \
        x.op == 'const' and x.args[0] is None or x.op == 'ellipsis'
    return all(ok(resolve(x)) for x in items)


def proportional(p, q, factors=()):
    """p equals a positive multiple of q (times powers of the given positive atoms)."""
    if not p.t or not q.t:
        return p.same(q)
    opts = [q] + [q * power(leaf(f), e) for f in factors for e in (1, -1, Fraction(1, 2), Fraction(-1, 2), 2, -2)]
    for o in opts:
        m = p.frozen()[0][1]
        if m in o.t and p.t[m] / o.t[m] > 0 and p.same(o.scale(p.t[m] / o.t[m])):
            return True
    return False

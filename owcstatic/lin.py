"""Linear arithmetic over formulas: prove a bound from facts, or show a point where it fails."""
from fractions import Fraction
from itertools import product as cross
from .algebra import Poly, num


def atoms(*ps):
    out = []
    for p in ps:
        for m in p.t:
            for a, _e in m:
                if a not in out:
                    out.append(a)
    return out


def linear(p):
    return all(len(m) <= 1 and all(e == 1 for _a, e in m) for m in p.t)


def proves(facts, goal):
    """goal >= 0 follows from facts (each >= 0) by adding at most three of them."""
    if goal.const() is not None:
        return goal.const() >= 0
    facts = [f for f in facts if f.const() is None]
    def rec(g, depth, start):
        if g.const() is not None:
            return g.const() >= 0
        if depth == 0:
            return False
        m = next(m for m in g.t if m)
        for k, f in enumerate(facts):
            if m in f.t and f.t[m] * g.t[m] > 0 and rec(g - f.scale(g.t[m] / f.t[m]), depth - 1, k):
                return True
        return False
    return rec(goal, 3, 0)


def infeasible(facts):
    return any(f.const() is not None and f.const() < 0 for f in facts) or any(proves(facts, f.scale(-1) + num(-1e-9)) for f in facts)


def point(facts, goal, limit=300000):
    """Integer values of the atoms with every fact >= 0 and the goal < 0, or None."""
    everything = list(facts) + [goal]
    if not all(linear(p) for p in everything):
        return None
    names = atoms(*everything)
    if len(names) > 4:
        return None
    values = {}
    for a in names:
        c = set()
        for p in everything:
            for m in p.t:
                if m and m[0][0] == a and len(p.t) <= 2:
                    k = -p.t.get((), 0) / p.t[m]
                    c |= {round(k) + d for d in (-1, 0, 1)}
        values[a] = c or {0, 1}
    bounds = sorted({round(-p.t.get((), 0)) for p in everything} | {round(p.t.get((), 0)) for p in everything})
    for a in names:
        values[a] = sorted(values[a] | {b + d for b in bounds for d in (-1, 0, 1)}) if len(names) <= 2 else sorted(values[a])
    size = 1
    for a in names:
        size *= len(values[a])
    if size > limit:
        return None
    def at(p, v):
        return sum(c * (v[m[0][0]] if m else 1) for m, c in p.t.items())
    for pick in cross(*[values[a] for a in names]):
        v = dict(zip(names, pick))
        if at(goal, v) < 0 and all(at(f, v) >= 0 for f in facts):
            return v
    return None


def put(p, a, q):
    """The formula with atom a replaced."""
    out = Poly({})
    for m, c in p.t.items():
        if any(x == a for x, _e in m):
            out = out + q.scale(c)
        else:
            out = out + Poly({m: c})
    return out


def unfrozen(x):
    return Poly({m: c for _r, m, c in x})


def witness(facts, goal):
    """A point where the goal is negative although every fact holds; rounded inputs are taken as exact, maxima as one of their arguments."""
    polys = [f for f in facts] + [goal]
    if not all(linear(p) for p in polys):
        near_atoms = set(atoms(goal))
        while True:
            more = {a for p in polys if near_atoms & set(atoms(p)) for a in atoms(p)} - near_atoms
            if not more:
                break
            near_atoms |= more
        polys = [p for p in polys if linear(p) or near_atoms & set(atoms(p))]
        if not all(linear(p) for p in polys):
            return None
        if polys[-1] is not goal:
            return None
    done = set()
    for a in atoms(*polys):
        if a[0] == 'fn' and a[1] in ('floor', 'ceil') and len(a[2]) == 1:
            q = unfrozen(a[2][0])
            inner = [m for m in q.t if m]
            if len(inner) == 1 and len(inner[0]) == 1 and inner[0][0][0][0] == 'leaf' and inner[0][0][0] not in done:
                x = inner[0][0][0]
                done.add(x)
                me = Poly({((a, Fraction(1)),): 1.0})
                value = (me - num(q.t.get((), 0))).scale(1 / q.t[inner[0]])
                polys = [put(p, x, value) for p in polys]
    picks = [(a, [unfrozen(x) for x in a[2]]) for a in atoms(*polys) if a[0] == 'fn' and a[1] in ('max', 'min')]
    for choice in cross(*[args for _a, args in picks]):
        ps = polys
        for (a, _args), q in zip(picks, choice):
            ps = [put(p, a, q) for p in ps]
        if any(p.const() is not None and p.const() < 0 for p in ps[:-1]):
            continue
        parts, left = [], [p for p in ps if p.const() is None]
        while left:
            group = [left.pop()]
            while True:
                names = set(atoms(*group))
                more = [p for p in left if names & set(atoms(p))]
                if not more:
                    break
                group += more
                left = [p for p in left if all(p is not q for q in more)]
            parts.append(group)
        out = {}
        g = ps[-1]
        for group in parts:
            got = point([p for p in group if p is not g], g if any(p is g for p in group) else num(-1))
            if got is None:
                out = None
                break
            out.update(got)
        if out is not None and (g.const() is None or g.const() < 0):
            return out
    return None

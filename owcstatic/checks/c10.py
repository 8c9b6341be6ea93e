"""C10: range check of mapped salinities before saving."""
from ..report import Check
from .. import analyses as A
from ..ir import resolve, walk
from ..masks import Erase, norm, compare, show_cell, Unknown, num

SPEC = ('or', ('t', '<', 30.0), ('t', '>', 40.0))


def entries(n):
    n = resolve(n)
    if n.op in ('dict', 'dictover'):
        items = n.args if n.op == 'dict' else n.args[1:]
        return {k.args[0]: v for k, v in zip(items[0::2], items[1::2]) if k.op == 'const'}
    return {}


def leaves(v):
    """Alternative final values (layout branches) of a saved variable."""
    v = resolve(v)
    return leaves(v.args[1]) + leaves(v.args[2]) if v.op == 'phi' and not mentions_mask(v.args[0]) else [v]


def mentions_mask(c):
    return any(x.op in ('<', '<=') and any(num(y) in (30, 40) for y in x.args) for x in walk(c) if x.op in ('<', '<='))


def rule_range(c, it):
    ev = A.calls(it, 'scipy.io.savemat')
    for e in ev:
        val = entries(e.args[1]).get('la_mapped_sal')
        if val is None:
            c.und('range check', 'la_mapped_sal', 'not among the enumerable saved variables', A.where(e))
            continue
        for i, leaf in enumerate(leaves(val)):
            er = Erase().peel(leaf)
            inst = f"la_mapped_sal as saved, layout {i}"
            trees, foreign = [], []
            unknown = list(er.unknown)
            for m in er.masks:
                try:
                    trees.append(norm(m, er.member))
                except Unknown as u:
                    foreign.append((m, u))
            diff = compare(trees, SPEC)
            if er.partial:
                c.bad('range check', inst, f"only part of the mapped salinities is tested: {str(er.partial[0].args[1])[:160]}", A.where(e))
                continue
            if not diff and not unknown:
                c.ok('range check', inst, f"{len(trees)} erasing steps, exactly outside [30, 40]", A.where(e))
                continue
            text = '; '.join(f"{show_cell(d)} {'erased' if a else 'kept'}" for d, a, _w in diff)
            extra = [d for d in diff if d[1] and not d[2]]
            if extra:
                c.bad('range check', inst, 'plausible salinities are erased: ' + text, A.where(e))
            elif unknown:
                c.bad('range check', inst, f"erased only under a condition that is not about the values: {str(unknown[0][1])[:200]}", A.where(e))
            elif foreign:
                txt = str(foreign[0][1])[:300]
                about_other = all(any(x.op in ('<', '<=') and any(num(y) is not None for y in x.args) for x in walk(m)) for m, _u in foreign)
                (c.bad if about_other and simple_other(foreign, er) else c.und)('range check', inst, f"{text}; mask not over the mapped salinities: {txt}", A.where(e))
            elif er.wrong:
                c.bad('range check', inst, f"the erased element is not the tested one: index {er.wrong[0]}", A.where(e))
            elif er.unclear:
                c.und('range check', inst, 'an erasing loop is not understood', A.where(e))
            elif inner_check(er.base):
                c.und('range check', inst, 'a comparison with 30/40 exists inside the profile loop', A.where(e))
            elif er.base.op in ('mu', 'getitem', 'phi', 'store'):
                c.bad('range check', inst, f"implausible mapped salinities reach the file: {text}", A.where(e))
            else:
                c.und('range check', inst, f"value is {er.base.op}", A.where(e))


def simple_other(foreign, er):
    """Every foreign mask is a threshold on some other value (not on ours)."""
    for m, _u in foreign:
        for x in walk_mask(m):
            if x.op in ('<', '<=', '=='):
                sides = [resolve(y) for y in x.args]
                if not any(num(y) is not None for y in sides):
                    return False
                if any(y.op not in ('mu', 'getitem', 'const', 'store') and not (y.op == 'call' and y.args[0] == 'numpy.where' and len(y.args) == 4)
                       for y in sides):
                    return False
            elif x.op not in ('and', 'or', 'not', 'getitem'):
                return False
    return True


def walk_mask(m):
    m = resolve(m)
    yield m
    if m.op in ('and', 'or', 'not', 'getitem'):
        for a in m.args[:1] if m.op == 'getitem' else m.args:
            yield from walk_mask(a)


def inner_check(base):
    """A comparison with 30/40 decides, inside the profile loop, what is stored."""
    seen, stack = set(), [base]
    while stack:
        x = resolve(stack.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'mu':
            stack += [y for y in (x.init, x.next) if y is not None]
        elif x.op == 'phi':
            if any(y.op in ('<', '<=') and any(num(z) in (30, 40) for z in y.args) for y in walk_mask(x.args[0])):
                return True
            stack += x.args[1:]
        elif x.op == 'store':
            stack += [x.args[0], x.args[2]]
        elif x.op == 'call' and x.args[0] in ('numpy.clip', 'numpy.digitize', 'numpy.where'):
            return True
    return False


def main():
    c = Check('C10', 'only plausible mapped salinities are saved',
              'The value saved under la_mapped_sal is peeled back through selections, erasing stores, numpy.where and erasing '
              'loops; the union of the erasing masks, normalised to thresholds, must equal x<30 or x>40 on every cell of the real line.',
              'The mask is compared as a predicate, so every mapped value is covered.')
    it = A.run('mapping')
    c.covered(it)
    c.rule(rule_range, it)
    return c.finish()

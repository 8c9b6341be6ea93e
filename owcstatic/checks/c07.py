"""C07: cached archive data are never modified and caching never mixes data."""
from ..report import Check
from .. import analyses as A
from ..ir import N, resolve, walk

R1, R2, R3 = ('kept data are never changed', 'what is kept depends only on its key', 'functions whose results are kept')
FETCH = ('get_data', 'get_region_data', 'get_region_hist_locations', 'read_mat_ctd', 'read_mat_bottle', 'read_mat_argo')


def kept(e):
    return sorted(t for t in e.extra or () if t.startswith('cached:'))


def rule_mutation(c, it, stage):
    seen = {}
    for e in it.events:
        if e.kind == 'mutate':
            for t in kept(e):
                seen.setdefault((t, e.func, e.name), (A.where(e), [str(a)[:80] for a in e.args]))
    for (t, f, n), (loc, args) in seen.items():
        c.bad(R1, f"{n} in {f.split(':')[1]} ({stage})", f"changes what {t[7:]} keeps: {args}", loc)
    n = len([e for e in it.events if e.kind == 'mutate'])
    if not seen:
        c.ok(R1, stage, f"{n} changes of objects, none of an object that came out of a cache")


def module_stores(c, it, stage):
    """Dictionaries of the module used as caches: the key must determine the value."""
    n = 0
    for e in it.events:
        if e.kind != 'mutate':
            continue
        mod = sorted(t for t in e.extra or () if t.startswith(('module:', 'default:')))
        if not mod:
            continue
        inst = f"{mod[0]} in {e.func.split(':')[1]}"
        if e.name == 'setkey' and len(e.args) >= 2 and isinstance(e.args[0], N) and isinstance(e.args[1], N):
            n += 1
            left = missing(e.args[1], e.args[0])
            if left is None:
                c.und(R2, inst, str(e.args[0])[:100], A.where(e))
            else:
                c.that(not left, R2, inst, f"kept under {str(e.args[0])[:120]}" + (f" but also depends on {sorted(left)[:6]}" if left else ''), A.where(e))
        elif e.name in ('store', 'sort', 'pop', 'update', 'clear', 'extend', 'append', 'delkey'):
            c.that(None if e.name in ('pop', 'clear', 'delkey') else False, R1, inst, f"{e.name} on a value that survives the call", A.where(e))


def parts(k):
    k = resolve(k)
    out = [k]
    if k.op in ('tuple', 'list') or k.op == 'call' and k.args[0] in ('str', 'builtins.str', 'builtins.tuple') or k.op == 'str':
        for x in k.args:
            if isinstance(x, N):
                out += parts(x)
    return out


def missing(v, k):
    """Inputs the value depends on that its key does not fix."""
    have = set(parts(k))
    left, todo, seen = set(), [resolve(v)], set()
    while todo:
        n = resolve(todo.pop())
        if n in seen or n in have:
            continue
        seen.add(n)
        if n.op == 'param':
            left.add(n.args[0])
            continue
        if n.op == 'opaque':
            return None
        if n.op == 'getitem' and resolve(n.args[0]).op == 'param' and resolve(n.args[1]).op == 'const':
            left.add(f"{resolve(n.args[0]).args[0]}[{resolve(n.args[1]).args[0]!r}]")
            continue
        if n.op in ('iv',):
            left.add('loop position')
            continue
        if n.op == 'mu':
            todo += [x for x in (n.init, n.next) if x is not None]
            continue
        todo += [a for a in n.args if isinstance(a, N)]
    return left


def rule_functions(c):
    """Every memoised function: no dependence on anything but its arguments."""
    import ast
    n = 0
    written = {(e.name) for k in A.ENTRIES for e in A.run(k).events if e.kind == 'global-write'}
    for m in A.pkg().modules.values():
        if '.tests' in m.name:
            continue
        for node in ast.walk(m.tree):
            if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            decs = [ast.unparse(d) for d in node.decorator_list]
            names = [d.split('(')[0].split('.')[-1] for d in decs]
            cached = any(x in ('lru_cache', 'cache') for x in names)
            if decs and not cached and any('cach' in d.lower() or 'memo' in d.lower() for d in decs):
                c.und(R3, f"{m.name}:{node.name}", f"decorated with {decs}", f"{m.name}:{node.lineno}")
                continue
            if not cached:
                continue
            n += 1
            q = m.name + ':' + node.name
            it = A.fn(q)
            loc = f"{m.name.replace('.', '/')}.py:{node.lineno}"
            if it is None:
                c.und(R3, q, 'nested function', loc)
                continue
            c.covered(it)
            reads = sorted({e.name for e in it.events if e.kind == 'global-read' and e.name in written})
            outside = sorted({y.args[0] for e in it.events for a in list(e.args) if isinstance(a, N) for y in walk(a)
                              if y.op == 'call' and y.args[0] in ('os.environ.get', 'os.getenv', 'os.getcwd', 'time.time')})
            c.that(not reads and not outside, R3, q, f"uses {reads + outside} besides its arguments" if reads or outside else
                   'result fixed by its arguments and the file', loc)
            # objects handed in from outside must not be kept inside and changed later
            mut = [e for e in it.events if e.kind == 'mutate' and any(t.startswith('param:') for t in e.extra or ())]
            for e in mut:
                c.bad(R1, f"{e.name} in {q.split(':')[1]}", 'changes an argument of a memoised function', A.where(e))
    if not n:
        c.ok(R3, 'package', 'no function keeps its results')


def main():
    c = Check('C07', 'kept archive data stay as loaded',
              'Objects returned by memoised functions are tracked through views, dictionaries and aliases; no in-place change may reach one. '
              'Values stored in module dictionaries must be computed from their key, and memoised functions from their arguments.',
              'All paths of the mapping, calibration, settings and plots, and every function of the archive access on its own.')
    for k in A.ENTRIES:
        it = A.run(k)
        c.covered(it)
        c.rule(rule_mutation, it, k)
        c.rule(module_stores, it, k)
    for f in FETCH:
        it = A.fn('pyowc.data.fetchers:' + f)
        if it is not None:
            c.covered(it)
            c.rule(rule_mutation, it, f)
            c.rule(module_stores, it, f)
    c.rule(rule_functions)
    c.assume('archive files do not change while the package runs')
    return c.finish()

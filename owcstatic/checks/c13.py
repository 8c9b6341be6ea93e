"""C13: the same inputs always select the same reference casts."""
from ..report import Check
from .. import analyses as A
from ..ir import N, resolve, walk
from ..masks import num, is_nan

R1, R2, R3, R4, R5 = ('random draws are seeded in the same selection', 'seeds are fixed by the inputs', 'no clock, identity or hash order in results',
                      'no state left from earlier runs', 'no use of unset memory')
CLOCK = {'time.time', 'time.time_ns', 'time.perf_counter', 'time.perf_counter_ns', 'time.monotonic', 'time.process_time', 'time.clock', 'time.localtime',
         'time.gmtime', 'time.ctime', 'time.strftime', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today',
         'datetime.now', 'datetime.utcnow', 'uuid.uuid4', 'uuid.uuid1', 'os.urandom', 'os.getpid', 'secrets.randbelow', 'secrets.choice', 'secrets.token_bytes',
         'builtins.id', 'builtins.hash', 'id', 'hash', 'os.times', 'threading.get_ident', 'pandas.Timestamp.now'}
LISTING = {'glob.glob', 'glob.iglob', 'os.listdir', 'os.scandir', 'os.walk', 'pathlib.glob', 'pathlib.iterdir', 'pathlib.rglob'}
MAKERS = {'numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator', 'numpy.random.PCG64', 'numpy.random.MT19937', 'random.Random',
          'numpy.random.SeedSequence', 'numpy.random.Philox', 'numpy.random.SFC64'}
NOTDRAW = {'numpy.random.seed', 'random.seed', 'numpy.random.get_state', 'random.getstate'}
HARMLESS = {'builtins.print', 'print', 'builtins.round', 'round', 'logging.info', 'logging.debug', 'builtins.str.format', 'warnings.warn', 'builtins.str',
            'builtins.len', 'builtins.float'} | CLOCK


def is_draw(name):
    return (name.startswith('numpy.random.') or name.startswith('random.') or name.startswith('scipy.stats.') and name.endswith('.rvs')) and \
        name not in NOTDRAW | MAKERS or name in ('random.SystemRandom',)


def module_of(name):
    return 'random' if name.startswith('random.') else 'numpy.random'


def undetermined(n):
    """Why a seed is not a function of the inputs (None: it is)."""
    n = resolve(n)
    if n.op == 'const' and n.args[0] is None:
        return 'None (taken from the system)'
    for x in walk(n):
        if x.op == 'call':
            if x.args[0] in CLOCK or x.args[0] in LISTING:
                return x.args[0]
            if is_draw(x.args[0]):
                return x.args[0] + ' (a random number)'
        if x.op == 'opaque':
            return ''
    return None


def selection(e, names=('find_besthist',)):
    """The activation of the selection an event belongs to: its part of the stack."""
    for k, (f, _l) in enumerate(e.stack):
        if f.rsplit(':', 1)[-1] in names:
            return k
    return None


def rule_draws(c, it, stage):
    events = [e for e in it.events if e.kind == 'call']
    seeds = [e for e in events if e.name in NOTDRAW and e.name.endswith('seed')]
    draws = [e for e in events if is_draw(e.name)]
    makers = [e for e in events if e.name in MAKERS]
    for e in makers:
        args = [a for a in e.args if isinstance(a, N)] + [v for k, v in e.kwargs.items() if k in ('seed', 'x', 'entropy')]
        if not args:
            c.bad(R2, f"{e.name} in {e.func}", 'no seed given: taken from the system', A.where(e))
            continue
        why = undetermined(args[0])
        c.that(True if why is None else None if why == '' else False, R2, f"{e.name} in {e.func}", str(args[0])[:150] + (f": {why}" if why else ''), A.where(e))
    for e in seeds:
        args = [a for a in e.args if isinstance(a, N)] + list(e.kwargs.values())
        why = undetermined(args[0]) if args else 'no value given'
        c.that(True if why is None else None if why == '' else False, R2, f"{e.name} in {e.func}", (str(args[0])[:150] if args else '') + (f": {why}" if why else ''), A.where(e))
    for d in draws:
        if d.func.endswith(':fit_cond') or any(f.endswith(':fit_cond') for f, _l in d.stack):
            continue                                  # error estimates of the calibration, not a selection
        k = selection(d)
        inst = f"{d.name} in {d.func} ({stage})"
        if k is None:
            c.bad(R1, inst, 'random numbers outside the selection of casts', A.where(d))
            continue
        act = d.stack[:k + 1]
        before = [s for s in seeds if s.seq < d.seq and module_of(s.name) == module_of(d.name) and s.stack[:k + 1] == act]
        g = set((resolve(a).id, p) for a, p in d.guards)
        dom = [s for s in before if all((resolve(a).id, p) in g for a, p in s.guards) and tuple(s.loops) == tuple(d.loops)[:len(s.loops)] and not s.tries]
        if dom:
            c.ok(R1, inst, f"seeded at {dom[-1].loc} with {str(dom[-1].args[0])[:100] if dom[-1].args else '-'}", A.where(d))
        elif before and any(s.tries for s in before):
            c.und(R1, inst, 'seeded inside a try block', A.where(d))
        else:
            other = [s for s in seeds if s.seq < d.seq]
            c.bad(R1, inst, 'drawn without seeding first on the way to it in the same selection' +
                  (f" (the generator is seeded at {other[-1].loc}, not for each selection)" if other else ''), A.where(d))
    if stage == 'mapping' and not draws:
        c.ok(R1, 'mapping', 'no random numbers are drawn from the shared generators')


def rule_clock(c, it, stage):
    n = 0
    bad = {}

    def sources(x, seen):
        return {y.args[0] for y in walk(x, seen) if y.op == 'call' and y.args[0] in CLOCK | LISTING and not ordered(x, y)}

    cache = {}

    def tainted(x):
        """Clock and identity values reaching x through data only."""
        x = resolve(x)
        if x not in cache:
            cache[x] = sources(x, None)
        return cache[x]
    for e in it.events:
        if e.kind == 'call' and e.name in CLOCK:
            n += 1
        if e.kind == 'call' and (e.name in HARMLESS or e.name.startswith('logging.') or e.name.startswith('matplotlib')):
            continue
        if e.kind in ('enter', 'exit', 'global-read', 'copy', 'apply', 'truth'):
            continue
        for a in list(e.args) + list(e.kwargs.values()):
            if isinstance(a, N) and a.op != 'occurrence':
                for s in tainted(a):
                    if e.kind == 'call' and s in LISTING and e.name in ('builtins.sorted', 'builtins.len'):
                        continue
                    bad.setdefault((s, e.func, e.loc), f"{e.kind} {e.name}")
        for g, _p in e.guards:
            for s in tainted(g):
                bad.setdefault((s, e.func, 'branch'), f"decides a branch around {e.kind} {e.name} at {e.loc}")
    if it.ret_node is not None:
        for s in tainted(it.ret_node):
            bad.setdefault((s, it.entry, 'result'), 'returned value')
    for (s, f, l), what in bad.items():
        c.bad(R3, f"{s} in {f} ({stage})", f"reaches {what}", l)
    if not bad:
        c.ok(R3, stage, f"{n} clock readings, none reaches data, a condition or a file", None)


def ordered(root, listing):
    """The listing is sorted before anything else is done with it."""
    if listing.args[0] not in LISTING:
        return False
    users = [y for y in walk(root) if listing in [resolve(a) for a in y.args if isinstance(a, N)]]
    return bool(users) and all(y.op == 'sorted' or y.op == 'call' and y.args[0] in ('sorted', 'builtins.sorted', 'numpy.sort', 'builtins.len') for y in users)


def rule_state(c, it, stage):
    fit = lambda e: any(f.endswith(':fit_cond') for f, _l in e.stack) or e.func.endswith(':fit_cond')
    writes = [e for e in it.events if e.kind == 'global-write' and not fit(e)]
    written = {e.name for e in writes}
    reads = [e for e in it.events if e.kind == 'global-read' and e.name in written and not fit(e)]
    for e in reads:
        # written before on the same way
        g = set((resolve(a).id, p) for a, p in e.guards)
        dom = [w for w in writes if w.name == e.name and w.seq < e.seq and all((resolve(a).id, p) in g for a, p in w.guards)]
        c.that(bool(dom), R4, f"{e.name} in {e.func} ({stage})", 'module variable read that earlier runs may have changed' if not dom else 'set before', A.where(e))
    for e in it.events:
        if e.kind == 'mutate' and not fit(e):
            kept = sorted(t for t in e.extra or () if t.startswith(('module:', 'default:')))
            if kept:
                c.bad(R4, f"{e.name} in {e.func} ({stage})", f"changes a value that survives the call: {kept}", A.where(e))
    c.ok(R4, stage, f"{len(writes)} writes of module variables outside the fit")


def rule_empty(c, it, stage):
    seen = {}
    for e in it.events:
        for a in list(e.args) + [e.node]:
            if isinstance(a, N):
                for x in walk(a):
                    for y in x.args:
                        if isinstance(y, N):
                            y = resolve(y)
                            if y.op == 'call' and y.args[0] in ('numpy.empty', 'numpy.empty_like', 'numpy.ndarray'):
                                seen.setdefault(y, []).append(x)
    for n, users in seen.items():
        shape = resolve(n.args[1]) if len(n.args) > 1 else None
        dims = [resolve(x) for x in (shape.args if shape is not None and shape.op in ('tuple', 'list') else [shape] if shape is not None else [])]
        inst = f"{n.args[0]}({', '.join(str(d)[:40] for d in dims)}) ({stage})"
        if any(num(d) == 0 for d in dims):
            c.ok(R5, inst, 'holds nothing')
        elif all(u.op == '*' and any(is_nan(resolve(z)) for z in u.args) for u in users):
            c.ok(R5, inst, 'multiplied by NaN')
        else:
            c.und(R5, inst, f"{len(users)} uses")


def is_set(n):
    return n.op == 'set' and n.args or n.op == 'call' and n.args[0] in ('set', 'frozenset', 'builtins.set', 'builtins.frozenset') and len(n.args) > 1


def texts(n, deep=0):
    """Whether the elements are texts (whose hashes differ from run to run), numbers, or unknown."""
    n = resolve(n)
    if deep > 12:
        return None
    if n.op == 'comp':
        return text(n.args[2])
    if n.op in ('set', 'list', 'tuple'):
        ts = [texts(a, deep + 1) if len(n.args) == 1 and n.op == 'set' and resolve(a).op in ('comp', 'list', 'tuple', 'mu', 'call') else text(a) for a in n.args if isinstance(a, N)]
        return True if True in ts else None if None in ts or not ts else False
    if n.op == 'call' and len(n.args) > 1:
        return texts(n.args[1], deep + 1) if is_set(n) or n.args[0] in ('list', 'numpy.array', 'tuple', 'numpy.unique', 'numpy.ravel') else None
    if n.op == 'mu' and n.next is not None:
        return texts(n.next, deep + 1)
    if n.op == 'append':
        return text(n.args[1])
    return None


def text(n):
    n = resolve(n)
    if n.op in ('str', 'strfmt', 'path'):
        return True
    if n.op == 'const':
        return isinstance(n.args[0], (str, bytes))
    if n.op == 'call' and n.args[0] in ('str', 'builtins.str', 'builtins.repr', 'repr') or n.op == 'call' and str(n.args[0]).rsplit('.', 1)[0] in ('', 'str') and \
            str(n.args[0]).rsplit('.', 1)[-1] in ('lower', 'upper', 'strip', 'join', 'format', 'replace'):
        return True
    if n.op in ('iv', 'int', '+', '-', '*', 'dim', 'size') and not any(text(a) is not False for a in n.args if isinstance(a, N) and n.op in ('+', '*')):
        return False
    if n.op == 'tuple':
        ts = [text(a) for a in n.args]
        return True if True in ts else None if None in ts else False
    return None


ANYORDER = {'in', 'contains', 'sorted', 'dim', 'size', 'shape', 'set', 'and', 'or', 'not', '-', '==', '<', '<=', 'truth', 'bool'}
ANYORDERCALL = {'sorted', 'builtins.sorted', 'len', 'builtins.len', 'min', 'max', 'builtins.min', 'builtins.max', 'set', 'frozenset', 'builtins.set', 'builtins.frozenset',
                'any', 'all', 'builtins.any', 'builtins.all', 'builtins.print', 'print'}


def rule_sets(c, it, stage):
    """Nothing is taken from a set of texts in the order it happens to have."""
    found, n, seen = {}, 0, set()
    done = set()
    for e in it.events:
        if e.kind in ('enter', 'exit', 'truth', 'branch') or e.kind == 'call' and e.name in ANYORDERCALL:
            continue
        for a in list(e.args) + list(e.kwargs.values()) + ([it.ret_node] if e is it.events[-1] and it.ret_node is not None else []):
            if not isinstance(a, N):
                continue
            for x in walk(a, done):
                x = resolve(x)
                for k, y in enumerate(x.args):
                    y = resolve(y) if isinstance(y, N) else None
                    if y is not None and is_set(y) and (x, y) not in seen:
                        seen.add((x, y))
                        n += 1
                        if x.op in ANYORDER or x.op == 'call' and x.args[0] in ANYORDERCALL:
                            continue
                        found.setdefault(y, (x, e))
    listed = set()
    for x in done:
        x = resolve(x)
        if x.op == 'comp' and resolve(x.args[0]).op == 'iv':
            stop = resolve(resolve(x.args[0]).args[1])
            if stop.op == 'dim':
                listed.add(resolve(stop.args[0]))
        elif x.op == 'call' and x.args[0] in ('list', 'tuple', 'builtins.list', 'numpy.array', 'numpy.asarray', 'numpy.fromiter', '.join', 'enumerate') and len(x.args) > 1:
            listed |= {resolve(a) for a in x.args[1:] if isinstance(a, N)}
    for y, (x, e) in found.items():
        t = texts(y)
        if t and y not in listed:
            t = None            # a loop over it may do the same thing in any order
        c.that(False if t else True if t is False else None, R3, f"order of a set ({stage})", f"{str(x)[:160]} depends on the order of {str(y)[:120]}", A.where(e))
    c.ok(R3, f"sets, {stage}", f"{n} uses of sets")


def main():
    c = Check('C13', 'selection of reference casts is reproducible',
              'Every draw from a random generator on the way to the mapped data must be preceded, in the same selection and under no further '
              'condition, by seeding with a value computed from the inputs; clock readings, object identities, unsorted directory listings, module '
              'variables changed by earlier runs and unset memory must not reach data, conditions or files.',
              'All paths of the mapping and of the level selection, symbolic in data and configuration.')
    it = A.run('mapping')
    c.covered(it)
    for r in (rule_draws, rule_clock, rule_state, rule_empty, rule_sets):
        c.rule(r, it, 'mapping')
    fb = A.fn('pyowc.core.finders:find_10thetas')
    if fb is not None:
        c.covered(fb)
        for r in (rule_draws, rule_clock, rule_state, rule_empty, rule_sets):
            c.rule(r, fb, 'level selection')
    return c.finish()

"""C08: producer/consumer agreement on files and variables between the stages."""
from ..report import Check
from .. import analyses as A
from ..ir import N, resolve, ABSENT, walk
from ..paths import template, show_template, decided, cfg_keys

OUT_DIRS = ('FLOAT_MAPPED_DIRECTORY', 'FLOAT_CALIB_DIRECTORY')
TOP = None      # "every key"


def meet(a, b):
    if a is TOP:
        return b
    if b is TOP:
        return a
    return a & b


def sure_keys(n, stored, seen=()):
    """Keys certainly present in the mapping denoted by n; `stored` maps templates of
    files to the keys assumed present in them."""
    n = resolve(n)
    if n in seen:
        return TOP
    if n.op in ('dict', 'dictover'):
        items = n.args if n.op == 'dict' else n.args[1:]
        ks = set()
        drop = set()
        for k, v in zip(items[0::2], items[1::2]):
            if k.op != 'const':
                continue
            (drop if maybe_absent(v, stored, k.args[0]) else ks).add(k.args[0])
        if n.op == 'dict':
            return ks
        base = sure_keys(n.args[0], stored, seen)
        return TOP if base is TOP else (base - drop) | ks
    if n.op == 'phi':
        return meet(sure_keys(n.args[1], stored, seen), sure_keys(n.args[2], stored, seen))
    if n.op == 'without':
        b = sure_keys(n.args[0], stored, seen)
        k = n.args[1]
        if b is TOP or not isinstance(k, N) or k.op != 'const':
            return set() if b is TOP else b
        return b - {k.args[0]}
    if n.op == 'mu':
        b = sure_keys(n.init, stored, seen + (n,))
        return meet(b, sure_keys(n.next, stored, seen + (n,))) if n.next is not None else b
    if n.op == 'call' and n.args[0] == 'scipy.io.loadmat':
        t = template(n.args[1])
        return set(stored.get(t, set()))
    if n.op in ('dictstore', 'copyof'):
        return sure_keys(n.args[0], stored, seen)
    return set()


def maybe_absent(v, stored, key):
    v = resolve(v)
    if v is ABSENT:
        return True
    if v.op == 'phi':
        return maybe_absent(v.args[1], stored, key) or maybe_absent(v.args[2], stored, key)
    if v.op == 'getitem' and v.args[1].op == 'const' and v.args[1].args[0] == key:
        # an entry carried through unchanged from an earlier state of the same mapping
        b = resolve(v.args[0])
        if b.op in ('without', 'phi', 'dictover'):
            ks = sure_keys(b, stored)
            return ks is not TOP and key not in ks
    return False


def optional(e, base):
    """The read is protected against the key being absent."""
    for g, pol in e.guards:
        if pol and g.op == 'in' and g.args[0].op == 'const' and g.args[0].args[0] == e.name:
            return True
    for t in e.tries:
        if t[0] == 'try' and any(h == '*' or any(x in h for x in ('KeyError', 'LookupError', 'Exception')) for h in t[2]):
            return True
    return False


def producers(runs):
    prod = {}
    for name, it in runs.items():
        for e in A.calls(it, 'scipy.io.savemat'):
            prod.setdefault(template(e.args[0]), []).append((name, e))
    return prod


def rule_files(c, runs):
    prod = producers(runs)
    for t, l in prod.items():
        e = l[0][1]
        if not decided(t):
            c.und('output path is understood', show_template(t), 'path built in a way that is not modelled', A.where(e))
    known = [t for t in prod if decided(t)]
    by_dir = {}
    for t in known:
        ks = cfg_keys(t)
        for d in OUT_DIRS:
            if d in ks:
                by_dir.setdefault(d, set()).add(t)
    # which stage must produce what
    for stage, d, pre in (('mapping', 'FLOAT_MAPPED_DIRECTORY', 'FLOAT_MAPPED_PREFIX'),
                          ('calseries', 'FLOAT_CALIB_DIRECTORY', 'FLOAT_CALSERIES_PREFIX'),
                          ('calib', 'FLOAT_CALIB_DIRECTORY', 'FLOAT_CALIB_PREFIX')):
        ts = {t for t, l in prod.items() if any(s == stage for s, _ in l)}
        c.that(bool(ts), 'stage stores its result', stage, f"{stage} writes {sorted(map(show_template, ts))}", A.ENTRIES[stage][0])
    undecided_writes = any(not decided(t) for t in prod)
    for name, it in runs.items():
        for e in it.events:
            probe = e.kind == 'call' and e.name in ('scipy.io.loadmat', 'pymatreader.read_mat')
            if not probe:
                continue
            t = template(e.args[0])
            ds = [d for d in OUT_DIRS if d in cfg_keys(t)]
            if not ds:
                if not decided(t):
                    c.und('input path is understood', show_template(t), '', A.where(e))
                continue
            inst = f"{name} reads {show_template(t)}"
            if t in known:
                c.ok('looked up where it was stored', inst, f"stored by {sorted({s for s, _ in prod[t]})}", A.where(e))
            elif not decided(t) or undecided_writes:
                c.und('looked up where it was stored', inst, 'path not fully understood', A.where(e))
            else:
                c.bad('looked up where it was stored', inst,
                      f"no stage stores a file there; stored under that directory: "
                      f"{sorted(show_template(x) for x in by_dir.get(ds[0], ()))}", A.where(e))
    # existence tests guarding a reload must look at the place the producer writes
    for name, it in runs.items():
        seen = set()
        for e in it.events:
            if e.kind == 'branch' and isinstance(e.node, N):
                for n in walk(e.node):
                    if n.op == 'call' and n.args[0] in ('pathlib.is_file', 'pathlib.exists', 'os.path.isfile', 'os.path.exists'):
                        t = template(n.args[1])
                        if t in seen or not any(d in cfg_keys(t) for d in OUT_DIRS) or not decided(t):
                            continue
                        seen.add(t)
                        c.that(t in known or (None if undecided_writes else False), 'existence is tested where it was stored',
                               f"{name} tests {show_template(t)}", '', A.where(e))
    # source profiles: all stages look at the same place
    src = {}
    for name, it in runs.items():
        for e in A.calls(it, 'scipy.io.loadmat'):
            t = template(e.args[0])
            if 'FLOAT_SOURCE_DIRECTORY' in cfg_keys(t):
                src.setdefault(t, []).append((name, e))
    if src:
        ref = max(src, key=lambda t: len(src[t]))
        for t, l in src.items():
            for s, e in l:
                c.that(t == ref if decided(t) and decided(ref) else None, 'all stages read the same source file', s, show_template(t), A.where(e))


def stored_keys(runs):
    prod = producers(runs)
    readers = {}
    for name, it in runs.items():
        for e in it.events:
            if e.kind == 'keyread' and e.args and e.args[0].op == 'call' and e.args[0].args[0] == 'scipy.io.loadmat':
                readers.setdefault(template(e.args[0].args[1]), set()).add(e.name)
    universe = set()
    for s in readers.values():
        universe |= s
    for l in prod.values():
        for _s, e in l:
            if len(e.args) > 1:
                universe |= {n.args[0] for n in walk(e.args[1]) if n.op == 'const' and isinstance(n.args[0], str)}
    stored = {t: set(universe) for t in prod}
    for _ in range(12):
        new = {}
        for t, l in prod.items():
            ks = TOP
            for _s, e in l:
                ks = meet(ks, sure_keys(e.args[1], stored))
            new[t] = ks if ks is not TOP else set(universe)
        if new == stored:
            break
        stored = new
    return prod, stored


def rule_vars(c, runs):
    prod, stored = stored_keys(runs)
    for name, it in runs.items():
        for e in it.events:
            if e.kind != 'keyread' or not e.args:
                continue
            for b in bases(e.args[0]):
                t = template(b.args[1])
                if t not in prod:
                    continue
                inst = f"{name} reads '{e.name}' from {show_template(t)}"
                if optional(e, b):
                    c.ok('variable is always stored', inst, 'the reader copes with its absence', A.where(e))
                elif e.name in stored[t]:
                    c.ok('variable is always stored', inst, '', A.where(e))
                elif not stored[t]:
                    c.und('variable is always stored', inst, 'what is stored could not be enumerated', A.where(e))
                else:
                    c.bad('variable is always stored', inst, f"the producer always stores only {sorted(map(str, stored[t]))}", A.where(e))


def bases(n):
    n = resolve(n)
    if n.op == 'call' and n.args[0] == 'scipy.io.loadmat':
        return [n]
    if n.op in ('without', 'dictover', 'copyof'):
        return bases(n.args[0])
    return []


def rule_sidefiles(c, runs):
    """Producers that save through several exits agree on the path."""
    for stage in ('calib', 'mapping', 'calseries'):
        ev = A.calls(runs[stage], 'scipy.io.savemat')
        ts = {template(e.args[0]) for e in ev}
        if ev:
            c.that(len(ts) == 1 if all(decided(t) for t in ts) else None, 'one output location per stage', stage,
                   '; '.join(sorted(map(show_template, ts))), A.where(ev[0]))


def main():
    c = Check('C08', 'files and variables agree between stages',
              'File names passed to loadmat/savemat in the four stages are reduced to templates over configuration keys, '
              'float directory and float name; each template read below an output directory must equal one that is '
              'written, and each variable read must be among the keys certainly present at every savemat of that template.',
              'All configurations, directories and names are covered because the templates are symbolic in them.')
    runs = A.four()
    for it in runs.values():
        c.covered(it)
    c.rule(rule_files, runs)
    c.rule(rule_vars, runs)
    c.rule(rule_sidefiles, runs)
    c.assume('a file reloaded by a stage was written by the current version of its producer')
    return c.finish()

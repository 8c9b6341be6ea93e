"""C15: a calibration fit does not depend on earlier fits."""
from ..report import Check
from .. import analyses as A
from ..ir import N, resolve

R1, R2 = ('no value from before reaches the result', 'no object that outlives the fit is changed')
FIT = ('pyowc.core.stats:fit_cond', 'pyowc.core.stats:brk_pt_fit', 'pyowc.core.stats:build_cov', 'pyowc.core.stats:covarxy_pv',
       'pyowc.utilities:sorter', 'pyowc.helper:sorter')


def stale(n, seen):
    """Names of values from before the call that a value depends on, with the way there."""
    todo = [(n, None)]
    while todo:
        x, via = todo.pop()
        x = resolve(x)
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'stale':
            yield x.args[0], via
            continue
        via = x if x.loc else via
        if x.op == 'mu':
            todo += [(y, via) for y in (x.init, x.next) if y is not None]
        todo += [(a, via) for a in x.args if isinstance(a, N)]


def results(it, key):
    """What leaves the analysed code: its result, files written and exceptions."""
    out = []
    if it.ret_node is not None:
        out.append(('result', it.ret_node, None))
    for e in it.events:
        if e.kind == 'call' and e.name.endswith(('savemat', 'savefig')):
            out += [('saved', a, A.where(e)) for a in e.args if isinstance(a, N)]
        if e.kind == 'raise':
            out += [('condition of an error', g, A.where(e)) for g, _p in e.guards]
        if e.kind == 'call' and e.name == 'scipy.optimize.least_squares':
            out += [('optimiser argument', a, A.where(e)) for a in e.args if isinstance(a, N)]
    return out


def rule_values(c, key, it, label):
    outs = results(it, key)
    found = {}
    seen = set()
    n = 0
    for what, node, loc in outs:
        n += 1
        for name, via in stale(node, seen):
            found.setdefault(name, (what, via, loc))
    for name, (what, via, loc) in sorted(found.items()):
        c.bad(R1, f"{name.rsplit('.', 1)[-1]} in {label}", f"the value an earlier call left in {name} can reach the {what}" +
              (f" through {str(via)[:120]}" if via is not None else ''), loc or (via.loc if via is not None else None))
    decl = sorted(x for ns in A.declared_globals().values() for x in ns)
    if not found:
        c.that(True if n else None, R1, label, f"{n} outputs, none depends on an earlier value of {', '.join(decl) or 'a global variable'}")


def rule_objects(c, it, label):
    n = 0
    for e in it.events:
        if e.kind == 'mutate':
            n += 1
            tags = [t for t in (e.extra or ()) if t.startswith(('module:', 'default:', 'cached:'))]
            if tags:
                c.bad(R2, f"{tags[0]} in {e.func.split(':')[-1]}", f"{e.name} changes an object that is kept between calls", A.where(e))
        if e.kind == 'setattr':
            n += 1
            if e.args and isinstance(e.args[0], N) and resolve(e.args[0]).op in ('fn', 'ext', 'mod', 'module', 'class'):
                c.bad(R2, f"attribute in {e.func.split(':')[-1]}", f"{e.name} is stored on an object kept between calls", A.where(e))
    c.ok(R2, label, f"{n} changes of objects looked at")


def main():
    c = Check('C15', 'a calibration fit does not depend on earlier fits',
              'Every variable declared global holds, before the analysed call, a value marked as left over; no output of the fit may depend on a '
              'marked value on any path. Objects that outlive a call (module-level containers, default arguments, cached results) must not be '
              'changed during a fit.',
              'fit_cond and its helpers on their own, and the complete calibration stage; optimiser call-backs included.')
    for q in FIT:
        if A.pkg().find(q) is None:
            continue
        it = A.after_earlier('fn:' + q, q)
        c.covered(it)
        c.rule(rule_values, q, it, q.split(':')[1])
        c.rule(rule_objects, it, q.split(':')[1])
    it = A.after_earlier('calib')
    c.covered(it)
    c.rule(rule_values, 'calib', it, 'calibration stage')
    c.rule(rule_objects, it, 'calibration stage')
    return c.finish()

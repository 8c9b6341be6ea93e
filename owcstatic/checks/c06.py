"""C06: choosing levels and plotting never alter the measurements they are given."""
from ..report import Check
from .. import analyses as A
from ..ir import N, resolve
from ..algebra import LAYOUT

R1, R2, R3 = ('loaded measurements are not changed in place', 'values used afterwards are the loaded ones', 'plots receive the loaded values')
POSITIONS = {'LONG', 'LAT', 'DATES', 'selected_hist', 'la_profile_no', 'PROFILE_NO'}
THROUGH = LAYOUT | {'numpy.transpose', 'numpy.copy', 'list'}
PLOTS = ('trajectory_plot', 'theta_sal_plot', 't_s_profile_plot', 'sal_var_plot', 'cal_sal_curve_plot', 'sal_anom_plot')


def key_of(n):
    """Variable of a loaded file a node is, or None."""
    n = resolve(n)
    if n.op == 'getitem':
        b, k = resolve(n.args[0]), resolve(n.args[1])
        while b.op == 'dictover':
            b = resolve(b.args[0])
        if k.op == 'const' and isinstance(k.args[0], str) and b.op == 'call' and b.args[0].endswith(('loadmat', 'read_mat')):
            return k.args[0]
    return None


def origin(n):
    """(variables, blanked) of an array seen through layout, selections and in-place stores."""
    seen, todo, ks, blanked = set(), [n], set(), False
    while todo:
        n = resolve(todo.pop())
        if n in seen:
            continue
        seen.add(n)
        k = key_of(n)
        if k is not None:
            ks.add(k)
        elif n.op == 'call' and n.args[0] in THROUGH and len(n.args) > 1:
            todo.append(n.args[1])
        elif n.op in ('T', 'getitem'):
            todo.append(n.args[0])
        elif n.op in ('store', 'viewstore'):
            blanked = True
            todo.append(n.args[0])
        elif n.op in ('phi', 'mu'):
            todo += [x for x in (n.args[1:] if n.op == 'phi' else (n.init, n.next)) if x is not None]
    return ks, blanked and bool(ks)


def rule_mutation(c, it, stage):
    n = 0
    for e in it.events:
        if e.kind != 'mutate' or 'file' not in (e.extra or ()):
            continue
        n += 1
        keys = set()
        for r in e.roots:
            x = it.meta[r].get('node')
            if x is not None:
                k = key_of(x)
                if k:
                    keys.add(k)
        if e.name in ('setkey', 'pop', 'update'):
            k = resolve(e.args[0]).args[0] if e.args and isinstance(e.args[0], N) and resolve(e.args[0]).op == 'const' else None
            if k is None or not isinstance(k, str):
                continue
            same = len(e.args) > 1 and isinstance(e.args[1], N) and origin(e.args[1])[0] == {k} and not origin(e.args[1])[1]
            if not same and k not in POSITIONS and k in measured(it):
                later(c, it, e, {k}, stage)
            continue
        keys -= POSITIONS
        if not keys:
            continue
        later(c, it, e, keys, stage)
    c.ok(R1, stage, f"{n} in-place changes of loaded objects looked at")


def measured(it):
    return {k for e in it.events if e.kind == 'keyread' for k in [e.name] if isinstance(k, str)}


def later(c, it, e, keys, stage):
    """The changed object matters when anything after the activation that changed it still uses it."""
    used = False
    depth = len(e.stack)
    for f in it.events[e.seq + 1:]:
        if f.kind not in ('call', 'axiom', 'enter', 'keyread', 'mutate', 'copy'):
            continue
        if len(f.stack) >= depth and f.stack[:depth] == e.stack[:depth] and depth > 1:
            continue                     # still inside the function that changed it
        if f.kind == 'keyread' and f.name in keys:
            used = True
        refs = (f.extra or {}).get('refs', ()) if isinstance(f.extra, dict) else ()
        roots = set()
        for r in refs:
            if r is not None and r in it.meta:
                roots |= set(it.meta[r]['roots']) | {r}
        if f.kind in ('mutate',):
            roots |= set(f.roots or ())
        if roots & set(e.roots):
            used = True
        for a in f.args:
            if isinstance(a, N):
                ks, b = origin(a)
                if ks & keys and b:
                    used = True
        if used:
            break
    # handed back to a loop round: whatever is changed inside a loop is seen by the next round
    if e.loops:
        used = True
    c.that(not used, R1, f"{'/'.join(sorted(keys))} in {e.func.split(':')[1]} ({stage})",
           f"{e.name} changes the array loaded from file" + ('' if used else ', which is not used any more'), A.where(e))


def rule_values(c, it, stage, entry):
    """Wherever the stage itself uses a measurement, it is the loaded array without blanked samples."""
    n, bad = 0, {}
    for e in it.events:
        if e.kind not in ('call', 'axiom') or not e.func.endswith(':' + entry):
            continue
        args = list(e.extra.values()) if e.kind == 'axiom' and isinstance(e.extra, dict) else list(e.args)
        for a in args:
            if isinstance(a, N):
                ks, b = origin(a)
                ks -= POSITIONS
                if ks:
                    n += 1
                    if b:
                        bad.setdefault((tuple(sorted(ks)), e.name), e)
    for (ks, name), e in bad.items():
        c.bad(R2, f"{'/'.join(ks)} given to {name.split(':')[-1]} ({stage})", 'some samples were overwritten since the file was loaded', A.where(e))
    if n:
        c.ok(R2, stage, f"{n} uses of loaded measurements")
    else:
        c.und(R2, stage, 'no use of a loaded measurement found')


def rule_saved(c, it):
    """What the saved results are computed from: no blanked measurement, except inside the choice of levels itself."""
    stop = set()
    for e in it.events:
        if e.kind == 'exit' and e.name.endswith(':find_10thetas') and e.node is not None:
            n = resolve(e.node)
            stop |= {resolve(x) for x in n.args if isinstance(x, N)} if n.op == 'tuple' else {n}
    if not stop:
        return c.und(R2, 'saved results', 'choice of levels not found')
    seen, todo, bad, loaded = set(stop), [], {}, 0
    for e in it.events:
        if e.kind == 'call' and e.name.endswith('savemat') and len(e.args) > 1:
            todo.append(e.args[1])
    while todo:
        n = resolve(todo.pop())
        if n in seen:
            continue
        seen.add(n)
        if key_of(n):
            loaded += 1
        if n.op in ('store', 'viewstore'):
            ks, _b = origin(n.args[0])
            if ks - POSITIONS:
                bad.setdefault(tuple(sorted(ks - POSITIONS)), n)
        if n.op == 'mu':
            todo += [x for x in (n.init, n.next) if x is not None]
        todo += [a for a in n.args if isinstance(a, N)]
    for ks, n in bad.items():
        c.bad(R2, f"saved results: {'/'.join(ks)}", 'computed from an array in which samples were overwritten after loading: ' + str(n)[:200], n.loc)
    if not bad:
        c.that(True if loaded else None, R2, 'saved results', f"computed from {loaded} loaded variables, none changed since", None)


def rule_plots(c, it):
    """Content of the arguments at the moment each plot is entered, every function inlined."""
    n = 0
    for e in it.events:
        if e.kind != 'enter' or e.name.split(':')[-1] not in PLOTS:
            continue
        for p, a in e.extra.items():
            if not isinstance(a, N):
                continue
            ks, b = origin(a)
            ks = ks - POSITIONS
            if not ks:
                continue
            n += 1
            c.that(False if b else True, R3, f"{e.name.split(':')[-1]} {p}", f"{'/'.join(sorted(ks))} as loaded" if not b else
                   f"{'/'.join(sorted(ks))} with samples overwritten before", A.where(e))
    if not n:
        c.und(R3, 'dashboard', 'no plot receives a loaded measurement')


def main():
    c = Check('C06', 'measurements are not altered by level selection and plotting',
              'Every in-place change (store, sort, out=) is traced through views and aliases to the object it changes; none may reach an array '
              'loaded from file that is used again. The arrays used by the calibration and handed to the plots are read back through layout '
              'changes and must be the loaded ones, without overwritten samples.',
              'All paths of the calibration and of the plots with every function inlined.')
    for k, entry in (('calib', 'calc_piecewisefit'), ('plots', 'plot_diagnostics')):
        it = A.run(k)
        c.covered(it)
        c.rule(rule_mutation, it, k)
        c.rule(rule_values, it, k, entry)
        if k == 'calib':
            c.rule(rule_saved, it)
        else:
            c.rule(rule_plots, it)
    return c.finish()

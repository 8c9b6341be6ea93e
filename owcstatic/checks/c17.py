"""C17: every diagnostic plot goes to its own file, named after the float, in the configured format."""
from ..report import Check
from .. import analyses as A
from ..ir import N, walk, resolve
from ..paths import template, show_template, tail

SAVE = ('matplotlib.pyplot.savefig', '.savefig', 'pylab.savefig')
CREATE = ('matplotlib.pyplot.figure', 'matplotlib.pyplot.subplots', 'pylab.figure', 'pylab.subplots', 'matplotlib.figure.Figure')
END = ('matplotlib.pyplot.show', 'matplotlib.pyplot.close', 'matplotlib.pyplot.clf', 'pylab.show', 'pylab.close', 'pylab.clf')
ANY = object()


def fname(e):
    a = e.args[1:] if e.name == '.savefig' else e.args
    return a[0] if a else (e.kwargs or {}).get('fname')


def shape(t):
    return tuple((k, v) if k != 'node' else ('node', None) for k, v in t)


def depends(n, ivs):
    return any(x in ivs for x in walk(n))


def injective(n, ivs):
    """Does the text of n differ for different iterations?  True / False / None / 'part'."""
    n = resolve(n)
    if n in ivs or n.op == 'iv':
        return True
    if not depends(n, ivs):
        return False
    if n.op in ('str', 'strfmt'):
        return injective(n.args[0], ivs)
    if n.op == 'int':
        r = injective(n.args[0], ivs)
        return False if r == 'part' else r if n.args[0].op in ('iv',) or r is not True else (True if integral(n.args[0]) else False)
    if n.op == 'call' and str(n.args[0]).rsplit('.', 1)[-1] in ('round', 'around', 'floor', 'ceil', 'trunc', 'rint') and len(n.args) > 1:
        r = injective(n.args[1], ivs)
        return r if integral(resolve(n.args[1])) else False if r in (True, 'part') else r
    if n.op == 'comp':
        v = resolve(n.args[2])
        if v.op == 'int' or v.op == 'call' and str(v.args[0]).rsplit('.', 1)[-1] in ('round', 'around', 'floor', 'ceil', 'trunc', 'rint', 'int'):
            return False                     # entries of the element are cut to whole numbers
        return None
    if n.op in ('+', '-'):
        a, b = n.args
        if not depends(a, ivs):
            return injective(b, ivs)
        if not depends(b, ivs):
            return injective(a, ivs)
        return None
    if n.op == '*':
        return None
    if n.op in ('//', '%'):
        return False
    if n.op == 'getitem':
        if not depends(n.args[0], ivs) and injective(n.args[1], ivs) is True:
            return True                      # an element of a collection of distinct entries
        r = injective(n.args[0], ivs)
        if r is True and n.args[1].op == 'const':
            return 'part'
        return None
    return None


def integral(n):
    return n.op == 'iv' or n.op == 'const' and isinstance(n.args[0], int) or n.op in ('+', '-') and all(integral(x) for x in n.args)


def altered(n):
    """A text operation applied to a path that begins with the configured directory."""
    n = resolve(n)
    if n.op == 'call' and str(n.args[0]).rsplit('.', 1)[-1] in ('lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase', 'replace', 'lstrip', 'zfill') and \
            str(n.args[0]).rsplit('.', 1)[0] in ('', 'str') and len(n.args) > 1:
        t = template(n.args[1])
        if t and t[0] == ('cfg', 'FLOAT_PLOTS_DIRECTORY'):
            return n.args[0] + '()'
    return None


def exclusive(a, b):
    ga = dict(a.guards)
    return any(g in ga and ga[g] != p for g, p in b.guards)


def rule_names(c, it):
    saves = [e for e in it.events if e.kind == 'call' and e.name in SAVE]
    c.that(True if saves else None, 'plots are saved', 'plot_diagnostics', f"{len(saves)} save calls")
    for e in saves:
        n = fname(e)
        if n is None:
            c.und('name starts with the float name', str(e.loc), 'no file name', A.where(e))
            continue
        t = template(n)
        inst = show_template(t)
        und = any(k == 'node' and v.op not in ('iv', 'getitem', '+', '-') for k, v in t)
        if t[0][0] == 'node' and altered(t[0][1]):
            c.bad('saved in the plot directory', inst, f"the configured directory is changed by {altered(t[0][1])}", A.where(e))
            continue
        c.that((t[0] == ('cfg', 'FLOAT_PLOTS_DIRECTORY')) if t[0][0] != 'node' else None, 'saved in the plot directory', inst, '', A.where(e))
        tl = tail(t)
        c.that((tl[0] == ('param', 'float_name')) if tl and tl[0][0] != 'node' else None, 'name starts with the float name', inst, '', A.where(e))
        if t[-1][0] != 'node':
            c.that(t[-1] == ('cfg', 'FLOAT_PLOTS_FORMAT') and len(t) > 1 and t[-2][0] == 'lit' and t[-2][1].endswith('.') or
                   (None if len(t) > 1 and t[-2][0] == 'node' else False),
                   'name ends with the configured format', inst, '', A.where(e))
        else:
            c.und('name ends with the configured format', inst, '', A.where(e))
        f = (e.kwargs or {}).get('format')
        if f is not None:
            ft = template(f)
            c.that(ft == (('cfg', 'FLOAT_PLOTS_FORMAT'),) if all(k != 'node' for k, _ in ft) else None,
                   'saved in the configured format', inst, f"format={show_template(ft)}", A.where(e))
        # within loops the name must follow every loop
        for lid in e.loops:
            rec = it.loopinfo.get(lid) or {}
            key = rec.get('key')
            if key is None:
                c.und('one file per loop pass', inst, 'loop without index', A.where(e))
                continue
            ivs = {key}
            rs = [injective(v, ivs) for k, v in t if k == 'node']
            if any(r is True for r in rs):
                c.ok('one file per loop pass', inst, '', A.where(e))
                continue
            parts = {v.args[1].args[0] for k, v in t if k == 'node' and injective(v, ivs) == 'part' and v.op == 'getitem'}
            strs = [v for k, v in t if k == 'node' and depends(v, ivs)]
            if parts:
                c.that({0, 1} <= parts or {0, -1} <= parts, 'one file per loop pass', inst,
                       f"only component(s) {sorted(parts)} of the loop element appear in the name", A.where(e))
            elif not strs:
                c.bad('one file per loop pass', inst, 'every pass of the loop saves to the same name', A.where(e))
            elif all(r is False for r in rs):
                c.bad('one file per loop pass', inst, 'different passes of the loop can share a name', A.where(e))
            else:
                c.und('one file per loop pass', inst, '', A.where(e))
    for i, a in enumerate(saves):
        for b in saves[i + 1:]:
            if fname(a) is None or fname(b) is None:
                continue
            ta, tb = template(fname(a)), template(fname(b))
            same = shape(ta) == shape(tb)
            if same and not exclusive(a, b):
                c.bad('no two plots share a file', show_template(ta), f"also saved at {A.where(b)}", A.where(a))
            else:
                c.ok('no two plots share a file', f"{show_template(ta)} / {show_template(tb)}")


def rule_figures(c, it):
    """The figure saved is one that was created for this plot alone and not shown or closed yet."""
    seq = [e for e in it.events if e.kind == 'call' and e.name in SAVE + CREATE + END]
    last = None
    for e in seq:
        if e.name in CREATE:
            num = e.args and e.name.endswith('.figure') and e.args[0].op == 'const' or 'num' in (e.kwargs or {})
            last = ('shared', e) if num and not (e.args and e.args[0].op == 'const' and e.args[0].args[0] is None) else ('new', e)
        elif e.name in END:
            if last is None or not exclusive(last[1], e):
                last = ('ended', e)
        else:
            t = template(fname(e)) if fname(e) is not None else ()
            inst = show_template(t)
            if e.name == '.savefig':
                c.ok('a figure of its own is saved', inst, 'explicit figure object', A.where(e))
            elif last is None:
                c.bad('a figure of its own is saved', inst, 'no figure is created for this plot', A.where(e))
            elif last[0] == 'new' and last[1].loops[:len(e.loops)] == e.loops[:len(last[1].loops)] and len(last[1].loops) >= len(e.loops):
                c.ok('a figure of its own is saved', inst, f"created at {last[1].loc}", A.where(e))
            elif last[0] == 'new' and len(last[1].loops) < len(e.loops):
                c.bad('a figure of its own is saved', inst, f"the figure created at {last[1].loc} is reused by every pass of the loop", A.where(e))
            elif last[0] == 'shared':
                c.bad('a figure of its own is saved', inst, f"the figure is selected by number at {last[1].loc} and may be that of another plot", A.where(e))
            elif last[0] == 'saved':
                c.bad('a figure of its own is saved', inst, f"the figure was already saved at {last[1].loc}", A.where(e))
            elif last[0] == 'ended':
                c.bad('a figure of its own is saved', inst, f"{last[1].name} at {last[1].loc} ends the figure before it is saved", A.where(e))
            else:
                c.und('a figure of its own is saved', inst, '', A.where(e))
            last = ('saved', e)
    # every created figure is saved
    open_fig = None
    for e in seq:
        if e.name in CREATE:
            if open_fig is not None and not exclusive(open_fig, e):
                c.bad('every plot is saved', f"figure of {open_fig.func}", f"the figure created at {open_fig.loc} is never saved before {e.loc}", A.where(open_fig))
            open_fig = e
        elif e.name in SAVE:
            if open_fig is not None:
                c.ok('every plot is saved', f"figure of {open_fig.func} line {open_fig.loc}", '', A.where(e))
            open_fig = None
    if open_fig is not None:
        c.bad('every plot is saved', f"figure of {open_fig.func}", f"the figure created at {open_fig.loc} is never saved", A.where(open_fig))
    # saving must not depend on anything the figure's creation does not depend on
    prev = None
    for e in seq:
        if e.name in CREATE:
            prev = e
        elif e.name in SAVE and prev is not None:
            extra = [g for g in e.guards if g not in prev.guards]
            c.that(not extra, 'saving is unconditional', show_template(template(fname(e))) if fname(e) is not None else str(e.loc),
                   f"saved only if {extra}" if extra else '', A.where(e))


def rule_kinds(c, it):
    """Names carrying 'calibrated'/'uncalibrated' belong to plots of calibrated/raw salinity."""
    enters = {}
    for e in it.events:
        if e.kind == 'enter':
            enters[e.name] = e
        if e.kind == 'call' and e.name in SAVE and fname(e) is not None:
            t = template(fname(e))
            txt = ''.join(v for k, v in t if k == 'lit')
            if 'calibrated' not in txt:
                continue
            # outermost plotting function on the stack
            fn = e.stack[1][0] if len(e.stack) > 1 else None
            en = enters.get(fn)
            if en is None or not en.extra:
                continue
            uses = any(n.op == 'getitem' and n.args[1].op == 'const' and n.args[1].args[0] == 'cal_SAL'
                       for v in en.extra.values() if isinstance(v, N) for n in walk(v))
            raw_ = 'uncalibrated' in txt
            c.that(uses != raw_, 'raw and calibrated versions keep their names', show_template(t),
                   f"{fn} receives {'calibrated' if uses else 'raw'} salinity", A.where(e))


def main():
    c = Check('C17', 'every plot has its own file',
              'For every savefig reached from plot_diagnostics the file name template must be plot directory, separator, float '
              'name, ..., dot, configured format; templates of different saves must differ, inside loops the name must be an '
              'injective function of the loop position; each save must refer to a figure created for it alone.',
              'Covers every plot for all data, level counts and theta ranges.')
    it = A.entry('plots')
    c.covered(it)
    for r in (rule_names, rule_figures, rule_kinds):
        c.rule(r, it)
    c.assume('entries of THETA_BOUNDS differ from each other')
    return c.finish()

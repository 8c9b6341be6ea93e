"""C16: typestate of opened files."""
import ast
from ..report import Check
from .. import analyses as A
from ..ir import N, walk

OPENERS = {'builtins.open', 'io.open', 'gzip.open', 'bz2.open', 'pathlib.open', 'h5py.File', 'netCDF4.Dataset', 'shapefile.Reader',
           'codecs.open', 'zipfile.ZipFile', 'tarfile.open', 'tempfile.NamedTemporaryFile', 'scipy.io.netcdf_file', 'os.open'}
CLOSERS = ('.close', 'os.close')


def opened_node(it, e):
    """The node denoting the object opened by event e."""
    return e.node


def rule_open(c, runs):
    for name, it in runs.items():
        ev = it.events
        opens = [e for e in ev if e.kind == 'call' and e.name in OPENERS]
        for o in opens:
            inst = f"{name}: {o.name} in {o.func}"
            ctx = (o.extra or {}).get('ctx') if isinstance(o.extra, dict) else None
            if ctx == 'with':
                c.ok('closed on every way out', inst, 'opened as a context manager', A.where(o))
                continue
            ret = (o.extra or {}).get('ret') if isinstance(o.extra, dict) else None
            node = o.node if isinstance(o.node, N) else ret
            if node is None:
                c.und('closed on every way out', inst, 'opened object not tracked', A.where(o))
                continue
            later = [e for e in ev if e.seq > o.seq]
            managed = next((e for e in later if e.kind == 'withenter' and any(node in walk(a) for a in e.args)), None)
            if managed is None:
                managed = next((e for e in later if e.kind == 'call' and (e.name.endswith('.enter_context') or e.name == 'contextlib.closing')
                                and any(isinstance(a, N) and node in walk(a) for a in e.args)), None)
            if managed is not None:
                between = [e for e in later if e.seq < managed.seq and e.kind == 'call' and e.name not in OPENERS]
                c.that(not between, 'closed on every way out', inst,
                       f"{between[0].name} at {between[0].loc} may fail before the file is under the with" if between else 'used as a context manager',
                       A.where(o))
                continue
            closes = [e for e in later if e.kind == 'call' and e.name in CLOSERS and e.args and node in same_object(e.args[0])]
            if not closes:
                esc = escapes(it, o, node)
                c.that(None if esc else False, 'closed on every way out', inst,
                       f"never closed{' here; handed on to ' + esc if esc else ''}", A.where(o))
                continue
            fin = [e for e in closes if any(t[0] == 'finally' for t in e.tries)]
            if fin:
                tid = [t[1] for t in fin[0].tries if t[0] == 'finally'][-1]
                exposed = [e for e in later if e.seq < fin[0].seq and e.kind in ('call', 'raise') and
                           not any(t[0] == 'try' and t[1] == tid for t in e.tries)
                           and not any(t[0] == 'finally' and t[1] == tid for t in e.tries)]
                # handlers of the same try run outside its body but inside its finally
                exposed = [e for e in exposed if not any(g.op == 'exc' and g.args[0] == tid for g, _ in e.guards)]
                c.that(not exposed, 'closed on every way out', inst,
                       f"{exposed[0].name} at {exposed[0].loc} may fail outside the try" if exposed else 'closed in a finally clause', A.where(o))
                continue
            exc_close = [e for e in closes if any(g.op == 'exc' and p and g.args[1] in ('*', 'BaseException', 'Exception') for g, p in e.guards)]
            normal = [e for e in closes if not any(g.op == 'exc' and p for g, p in e.guards)]
            if exc_close and normal:
                c.ok('closed on every way out', inst, 'closed in a catch-all handler and on the normal path', A.where(o))
                continue
            risky = [e for e in later if e.seq < closes[-1].seq and e.kind in ('call', 'raise') and e.name not in CLOSERS]
            if risky:
                c.bad('closed on every way out', inst, f"{risky[0].name} at {risky[0].loc} can fail and leave the file open", A.where(o))
            else:
                extra = [g for g in closes[-1].guards if g not in o.guards]
                c.that(not extra, 'closed on every way out', inst, 'closed only on some paths' if extra else '', A.where(o))
        if not opens:
            c.ok('closed on every way out', f"{name}: no file is opened directly", '')


def same_object(n):
    out, st = set(), [n]
    while st:
        x = st.pop()
        if x in out:
            continue
        out.add(x)
        if x.op == 'phi':
            st += list(x.args[1:])
        elif x.op == 'mu':
            st += [y for y in (x.init, x.next) if y is not None]
    return out


def escapes(it, o, node):
    if it.ret_node is not None and node in walk(it.ret_node):
        return 'the caller'
    for w, l in it.opaques:
        if w.startswith('call '):
            return w
    return ''


def rule_generators(c, runs):
    """Openers inside functions that no stage inlines (generators, decorated functions)."""
    entered = {e.name for r in runs.values() for e in r.events if e.kind == 'enter'}
    n = 0
    for m, fn in A.pkg().functions():
        n += 1
        if f"{m.name}:{fn.name}" in entered:
            continue
        parents = {}
        for x in ast.walk(fn):
            for y in ast.iter_child_nodes(x):
                parents[y] = x
        for x in ast.walk(fn):
            if isinstance(x, ast.Call) and (ast.unparse(x.func) in ('open', 'io.open', 'shapefile.Reader', 'h5py.File', 'gzip.open')):
                p = parents.get(x)
                if isinstance(p, ast.withitem):
                    c.ok('closed on every way out', f"{m.name}:{fn.name} (not inlined)", '', f"{m.path}:{x.lineno}")
                else:
                    c.und('closed on every way out', f"{m.name}:{fn.name} (not inlined)", ast.unparse(x), f"{m.path}:{x.lineno}")
    c.ok('openers were searched in every function', 'package', f"{n} functions")


def main():
    c = Check('C16', 'opened files are closed again',
              'Typestate over the event trace of each stage: an object returned by an opener must be entered as a context manager '
              'before anything that can fail, or be closed in a finally clause whose try covers every fallible call after the open.',
              'Exceptional paths are covered without having to make a read fail.')
    runs = A.four()
    for it in runs.values():
        c.covered(it)
    c.rule(rule_open, runs)
    c.rule(rule_generators, runs)
    c.assume('loadmat, read_mat and savemat close the files they open themselves')
    return c.finish()

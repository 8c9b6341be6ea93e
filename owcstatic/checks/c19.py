"""C19: every setting looked up is supplied by the default configuration."""
import ast
from ..report import Check
from .. import analyses as A
from .. import engine as E
from ..ir import N, raw, const, _TABLE
from ..paths import template


def is_cfg(n):
    return isinstance(n, N) and n.op == 'param' and n.args[0] == 'config'


def config_reads(runs):
    reads = {}
    for name, it in runs.items():
        for e in it.events:
            if e.kind == 'keyread' and e.args and is_cfg(e.args[0]):
                guarded = any(p and g.op == 'in' and g.args[0].op == 'const' and g.args[0].args[0] == e.name for g, p in e.guards) or \
                    any(t[0] == 'try' and any(h == '*' or 'KeyError' in h or 'Exception' in h for h in t[2]) for t in e.tries)
                reads.setdefault(e.name, []).append((name, e, guarded))
    return reads


def static_reads(entered):
    """Constant keys looked up on a configuration parameter in functions no entry reaches."""
    out = []
    for m, fn in A.pkg().functions():
        if f"{m.name}:{fn.name}" in entered:
            continue
        ps = {a.arg for a in fn.args.args if a.arg in ('config', 'system_config', 'cfg')}
        for n in ast.walk(fn):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in ps and \
                    isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                out.append((n.slice.value, f"{m.path}:{n.lineno}"))
    return out


def loaded():
    it = A.run('load', 'pyowc.configuration:load', {})
    c = it.final.heap.get(it.ret.oid) if isinstance(it.ret, E.Ref) else None
    return it, c


def text_keys(runs):
    """Keys used as parts of file names, and keys used in arithmetic or comparisons."""
    text, num = {}, {}
    for it in runs.values():
        for e in it.events:
            if e.kind == 'call' and e.args and e.name in ('scipy.io.loadmat', 'scipy.io.savemat', 'builtins.open', 'pymatreader.read_mat',
                                                         'matplotlib.pyplot.savefig', 'shapefile.Reader'):
                for k, v in template(e.args[0]):
                    if k == 'cfg':
                        text.setdefault(v, A.where(e))
    for n in list(_TABLE.values()):
        if n.op in ('*', '/', '-', '<', '<=', '**'):
            for a in n.args:
                if isinstance(a, N) and a.op == 'getitem' and is_cfg(a.args[0]) and a.args[1].op == 'const':
                    num.setdefault(a.args[1].args[0], n.op)
    return text, num


def gone(v, deep=0):
    """The value is absent on some path."""
    if not isinstance(v, N) or deep > 20:
        return False
    if v.op in ('absent', 'undef'):
        return True
    return v.op == 'phi' and any(gone(x, deep + 1) for x in v.args[1:]) or v.op == 'maybe'


def rule_keys(c, runs):
    it, d = loaded()
    if not isinstance(d, E.Dct) or d.base is not None and not d.items:
        c.und('setting is supplied', 'load()', 'the returned mapping could not be enumerated')
        return
    partly = {k for k, v in d.items.items() if gone(v)}
    for k in sorted(partly, key=str):
        c.bad('setting is supplied', k, 'left out under a condition', 'pyowc/configuration.py load')
    keys = set(d.items)
    incomplete = d.base is not None
    for k, l in sorted(config_reads(runs).items(), key=lambda x: str(x[0])):
        name, e, _g = next((x for x in l if not x[2]), l[0])
        if all(x[2] for x in l):
            c.ok('setting is supplied', k, 'looked up with a fallback', A.where(e))
        else:
            c.that(k in keys or (None if incomplete else False), 'setting is supplied', k,
                   f"looked up by {sorted({x[0] for x in l})}", A.where(e))
    entered = {e.name for r in runs.values() for e in r.events if e.kind == 'enter'}
    for k, loc in static_reads(entered):
        c.that(k in keys or (None if incomplete else False), 'setting is supplied', k, 'looked up outside the four stages', loc)
    text, num = text_keys(runs)
    def kind(v):
        if isinstance(v, N) and v.op == 'const':
            if isinstance(v.args[0], bool):
                return 'bool'
            return 'text' if isinstance(v.args[0], str) else 'number' if isinstance(v.args[0], (int, float)) else 'none'
        if isinstance(v, E.Ref):
            return 'list'
        return None
    for k, loc in sorted(text.items()):
        if k in d.items:
            kd = kind(d.items[k])
            c.that(None if kd is None else kd == 'text', 'path fragment is text', k, f"default is of kind {kd}", loc)
    for k, op in sorted(num.items()):
        if k in d.items and k not in text:
            kd = kind(d.items[k])
            c.that(None if kd is None else kd in ('number', 'bool'), 'numeric parameter is a number', k, f"used with {op}; default is of kind {kd}")
    for k, v in sorted(d.items.items(), key=lambda x: str(x[0])):
        if isinstance(k, str) and (k.startswith('MAPSCALE_') or k.startswith('MAP_') or k == 'CONFIG_MAX_CASTS') and k not in num:
            kd = kind(v)
            c.that(None if kd is None else kd in ('number', 'bool'), 'numeric parameter is a number', k, f"default is of kind {kd}")
        if isinstance(k, str) and k.endswith(('_DIRECTORY', '_PREFIX', '_POSTFIX', '_FORMAT')) and k not in text:
            kd = kind(v)
            c.that(None if kd is None else kd == 'text', 'path fragment is text', k, f"default is of kind {kd}")


SHARED = ('module:', 'global:', 'default:', 'cached:', 'param:')


def rule_fresh(c, runs):
    it, d = loaded()
    if not isinstance(it.ret, E.Ref):
        c.und('loader returns fresh values', 'load()', 'result not modelled')
        return
    m, fn = A.pkg().find('pyowc.configuration:load')
    cached = [ast.unparse(x) for x in fn.decorator_list if any(w in ast.unparse(x) for w in ('lru_cache', 'cache'))]
    c.that(not cached, 'loader returns fresh values', 'no caching decorator', ', '.join(cached), f"{m.path}:{fn.lineno}")
    seen = set()

    def visit(v, path):
        if not isinstance(v, E.Ref) or v.oid in seen:
            return
        seen.add(v.oid)
        tags = sorted(t for t in it.tags(v.oid) if t.startswith(SHARED))
        c.that(not tags, 'loader returns fresh values', path, f"shared object: {tags}" if tags else '', it.meta[v.oid]['loc'])
        cc = it.final.heap.get(v.oid)
        if isinstance(cc, E.Dct):
            for k, x in cc.items.items():
                visit(x, f"{path}[{k}]")
        elif isinstance(cc, E.Lst):
            for i, x in enumerate(cc.items):
                visit(x, f"{path}[{i}]")
    visit(it.ret, 'load()')
    gw = [e for e in it.events if e.kind == 'global-write']
    c.that(not gw, 'loader keeps no state', 'load()', '; '.join(A.where(e) for e in gw))


def main():
    c = Check('C19', 'default configuration is complete',
              'Every constant key looked up on the configuration mapping in any stage (through all inlined callees, plus '
              'syntactically in unreached functions) must be a key of the mapping returned by load(); kinds follow from use; '
              'the returned object and everything inside it must be allocated during the call.',
              'Covers every path of every stage, whatever the data.')
    runs = A.four()
    for it in runs.values():
        c.covered(it)
    c.rule(rule_keys, runs)
    c.rule(rule_fresh, runs)
    return c.finish()

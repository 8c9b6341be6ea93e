"""File-name templates: canonical form of the node passed as a file name."""
import re
import string
from .ir import N, resolve


def _atoms(n):
    n = resolve(n)
    if n.op == 'const':
        return [('lit', str(n.args[0]))]
    if n.op == 'Path' and len(n.args) == 1:
        return _atoms(n.args[0])
    if n.op == 'str' and len(n.args) == 1:
        a = _atoms(n.args[0]) if n.args[0].op in ('const', 'param', 'getitem', 'str', 'Path', 'path') else None
        return a if a is not None else [('node', n.args[0])]
    if n.op == 'param':
        return [('param', n.args[0])]
    if n.op == 'getitem' and n.args[0].op == 'param' and n.args[0].args[0] == 'config' and n.args[1].op == 'const':
        return [('cfg', str(n.args[1].args[0]))]
    if n.op == '+':
        return _atoms(n.args[0]) + _atoms(n.args[1])
    if n.op == 'path':
        out = []
        for i, a in enumerate(n.args):
            if i:
                out.append(('lit', '/'))
            out += _atoms(a)
        return out
    if n.op == 'call' and n.args[0] in ('os.path.abspath', 'os.path.normpath', 'os.path.realpath', 'numpy.str_'):
        return _atoms(n.args[1])
    if n.op == '%' and n.args[0].op == 'const':
        vals = list(n.args[1].args) if n.args[1].op == 'tuple' else [n.args[1]]
        bits = re.split(r'%[sd]', n.args[0].args[0])
        if len(bits) == len(vals) + 1:
            out = [('lit', bits[0])]
            for v, b in zip(vals, bits[1:]):
                out += _atoms(v) + [('lit', b)]
            return out
    if n.op == 'call' and n.args[0] == '.format' and isinstance(n.args[1], N) and n.args[1].op == 'const':
        vals = [a for a in n.args[2:] if isinstance(a, N) and a.op != 'kw' and not (a.op == 'occurrence')]
        kws = {a.args[0]: a.args[1] for a in n.args[2:] if isinstance(a, N) and a.op == 'kw'}
        out, k = [], 0
        for lit, name, spec, conv in string.Formatter().parse(n.args[1].args[0]):
            if lit:
                out.append(('lit', lit))
            if name is None:
                continue
            if name == '' and k < len(vals):
                out += _atoms(vals[k])
                k += 1
            elif name.isdigit() and int(name) < len(vals):
                out += _atoms(vals[int(name)])
            elif name in kws:
                out += _atoms(kws[name])
            else:
                return [('node', n)]
        return out
    return [('node', n)]


def template(n):
    """Tuple of atoms with merged literals and collapsed separators."""
    out = []
    for k, v in _atoms(n):
        if k == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + v)
        elif k == 'lit' and v == '':
            continue
        else:
            out.append((k, v))
    out = [('lit', re.sub('/+', '/', v)) if k == 'lit' else (k, v) for k, v in out]
    return tuple(out)


def show_template(t):
    return ''.join(v if k == 'lit' else '{%s}' % (v if k != 'node' else '?' + v.op) for k, v in t)


def decided(t):
    return all(k != 'node' for k, v in t)


def cfg_keys(t):
    return [v for k, v in t if k == 'cfg']


def tail(t):
    """Atoms after the last directory separator."""
    for i in range(len(t) - 1, -1, -1):
        if t[i][0] == 'lit' and '/' in t[i][1]:
            rest = t[i][1].rsplit('/', 1)[1]
            return ((('lit', rest),) if rest else ()) + t[i + 1:]
    return t

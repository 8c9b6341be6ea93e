"""Abstract interpreter: builds a gated value graph and an event trace for an
entry function of the analysed package, inlining package callees.

Nothing of the analysed program is imported or executed; the only input is the
syntax tree of the files found under the package root at the time of the run.
"""
import ast
import os
import sys

from .ir import (N, raw, mk, const, new_mu, iv, is_const, is_bool, ZERO, ONE, TRUE, FALSE, NONE, NAN, UNDEF, ABSENT)

sys.setrecursionlimit(20000)


class AnalysisBroken(Exception):
    pass


# ---------------------------------------------------------------- values
class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid


class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class Fn:
    def __init__(self, node, module, frame=None, name=None, cached=False, decorators=()):
        self.node, self.module, self.frame = node, module, frame
        self.name = name or getattr(node, 'name', '<lambda>')
        self.cached, self.decorators = cached, decorators


class Ext:
    def __init__(self, name):
        self.name = name


class Mod:
    def __init__(self, module):
        self.module = module


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Partial:
    def __init__(self, fn, args, kwargs, vec=False):
        self.fn, self.args, self.kwargs, self.vec = fn, args, kwargs, vec


class Arr:
    __slots__ = ('node', 'islist')

    def __init__(self, node, islist=False):
        self.node, self.islist = node, islist


class Lst:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class Dct:
    __slots__ = ('items', 'base')

    def __init__(self, items, base=None):
        self.items, self.base = items, base


class View:
    __slots__ = ('base', 'how', 'idx')

    def __init__(self, base, how, idx=None):
        self.base, self.how, self.idx = base, how, idx


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.defs = {}
        self.is_pkg = os.path.basename(path) == '__init__.py'


class Event:
    __slots__ = ('kind', 'name', 'args', 'kwargs', 'guards', 'loops', 'tries', 'loc', 'func', 'roots', 'extra', 'seq',
                 'stack', 'node')

    def __init__(self, kind, name, **kw):
        self.kind, self.name = kind, name
        self.args, self.kwargs, self.guards, self.loops, self.tries = (), {}, (), (), ()
        self.loc = self.func = self.node = None
        self.roots, self.extra, self.stack, self.seq = frozenset(), None, (), 0
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return f"<{self.kind} {self.name} {self.loc}>"


class State:
    __slots__ = ('frames', 'heap', 'guards')

    def __init__(self):
        self.frames, self.heap, self.guards = {}, {}, ()

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.guards = self.guards
        return s


class Outcome:
    __slots__ = ('kind', 'st', 'value')

    def __init__(self, kind, st, value=None):
        self.kind, self.st, self.value = kind, st, value


# ------------------------------------------------------------- package
class Package:
    def __init__(self, root, name):
        self.root, self.name = root, name
        self.modules = {}
        base = os.path.join(root, name)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package {name} not found under {root}")
        for dirpath, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in ('tests', '__pycache__'))
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(dirpath, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    with open(p, encoding='utf-8') as fh:
                        src = fh.read()
                    try:
                        tree = ast.parse(src, p)
                    except SyntaxError as e:
                        raise AnalysisBroken(f"{p}: {e}")
                    self.modules[rel] = Module(rel, p, tree, src)
        for m in self.modules.values():
            self._collect(m, m.tree.body)

    def _collect(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                m.defs[st.name] = ('def', st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.defs[a.asname] = ('mod', a.name)
                    else:
                        m.defs[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                src = self._abs(m, st)
                for a in st.names:
                    m.defs[a.asname or a.name] = ('from', src, a.name)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                targets = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in targets:
                    for nm in ast.walk(t):
                        if isinstance(nm, ast.Name) and isinstance(nm.ctx, ast.Store):
                            m.defs[nm.id] = ('assign', st, nm.id)
            elif isinstance(st, (ast.Try, ast.If, ast.With)):
                self._collect(m, getattr(st, 'body', []))
                for h in getattr(st, 'handlers', []):
                    self._collect(m, h.body)
                for o in (getattr(st, 'orelse', []) or []):
                    self._collect(m, [o])

    def _abs(self, m, st):
        if not st.level:
            return st.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        return '.'.join(parts + ([st.module] if st.module else []))

    def find(self, qual):
        """'module:function' -> (Module, FunctionDef) following re-exports."""
        modname, fn = qual.split(':')
        m = self.modules.get(modname)
        seen = set()
        while m is not None and (m.name, fn) not in seen:
            seen.add((m.name, fn))
            d = m.defs.get(fn)
            if d is None:
                return None
            if d[0] == 'def':
                return m, d[1]
            if d[0] == 'from':
                m, fn = self.modules.get(d[1]), d[2]
                continue
            return None
        return None

    def functions(self):
        for m in self.modules.values():
            for node in ast.walk(m.tree):
                if isinstance(node, ast.FunctionDef):
                    yield m, node


EXT_ALIAS = {
    'scipy.interpolate.interpolate': 'scipy.interpolate', 'gsw.conversions': 'gsw', 'gsw.density': 'gsw',
    'matplotlib.pylab': 'matplotlib.pyplot', 'numpy.lib.npyio': 'numpy', 'scipy.io.matlab': 'scipy.io',
}
MATH = {'math.' + f: 'numpy.' + f for f in
        ('sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'ceil', 'floor', 'isnan', 'isfinite', 'isinf', 'radians', 'degrees', 'atan2')}
CANON = dict(MATH)
CANON.update({'numpy.absolute': 'abs', 'numpy.abs': 'abs', 'math.fabs': 'abs', 'numpy.fabs': 'abs', 'builtins.abs': 'abs',
              'numpy.deg2rad': 'numpy.radians', 'numpy.rad2deg': 'numpy.degrees', 'numpy.vstack': 'numpy.vstack',
              'numpy.amin': 'numpy.min', 'numpy.amax': 'numpy.max', 'numpy.alltrue': 'numpy.all',
              'numpy.row_stack': 'numpy.vstack', 'numpy.linalg.linalg.inv': 'numpy.linalg.inv',
              'scipy.linalg.inv': 'numpy.linalg.inv', 'numpy.rint': 'numpy.round', 'numpy.around': 'numpy.round',
              'os.path.sep': 'os.sep'})


def canon_ext(name):
    for k, v in EXT_ALIAS.items():
        if name == k or name.startswith(k + '.'):
            name = v + name[len(k):]
    return CANON.get(name, name)


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//', ast.Mod: '%',
          ast.MatMult: '@', ast.LShift: '<<', ast.RShift: '>>'}

VIEW_METHODS = {'ravel', 'reshape', 'squeeze', 'transpose', 'view', 'swapaxes'}
VIEW_FUNCS = {'numpy.asarray', 'numpy.atleast_2d', 'numpy.atleast_1d', 'numpy.ravel', 'numpy.reshape', 'numpy.squeeze',
              'numpy.transpose', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.expand_dims', 'numpy.flip'}
NP_METHODS = {'flatten', 'astype', 'argsort', 'argmin', 'argmax', 'min', 'max', 'mean', 'sum', 'any', 'all', 'std', 'var',
              'cumsum', 'dot', 'round', 'tolist', 'nonzero', 'clip', 'repeat', 'item', 'prod', 'ptp', 'take'} | VIEW_METHODS
SCALAR_FUNCS = {'builtins.str', 'builtins.int', 'builtins.float', 'builtins.bool', 'builtins.round', 'numpy.isscalar'}
LOOP_UNROLL = 8
MAX_DEPTH = 14


class Interp:
    def __init__(self, pkg, opaque_calls=(), no_inline=()):
        self.pkg = pkg
        self.meta = {}          # oid -> dict(tags, roots, loc)
        self.next_oid = 0
        self.events = []
        self.silent = 0
        self.loops = []         # active loop records
        self.tries = []
        self.stack = []         # (qualname, callloc)
        self.next_id = 0
        self.no_inline = set(no_inline)
        self.axiom_keys = None          # qual -> keys of the mapping it returns
        self.modconst = {}
        self.opaques = []       # unsupported constructs met
        self.calls_inlined = 0
        self.curloc = None
        self.curnode = None
        self.loopinfo = {}

    # ---------------------------------------------------------------- utils
    def uid(self):
        self.next_id += 1
        return self.next_id

    def loc(self, node):
        m = self.stack[-1][2] if self.stack else None
        return f"{os.path.relpath(m.path, self.pkg.root) if m else '?'}:{getattr(node, 'lineno', 0)}"

    def func(self):
        return self.stack[-1][0] if self.stack else None

    def alloc(self, st, content, tags=(), roots=None, node=None):
        self.next_oid += 1
        oid = self.next_oid
        st.heap[oid] = content
        self.meta[oid] = {'tags': set(tags), 'roots': frozenset(roots) if roots else frozenset([oid]), 'loc': self.curloc}
        return Ref(oid)

    def arr(self, st, node, islist=False, tags=(), roots=None):
        return self.alloc(st, Arr(node, islist), tags, roots)

    def tags(self, oid):
        t = set(self.meta[oid]['tags'])
        for r in self.meta[oid]['roots']:
            t |= self.meta[r]['tags']
        return t

    def opaque(self, what, *args):
        self.opaques.append((what, self.curloc))
        return raw('opaque', what, *args)

    def emit(self, kind, name, st, **kw):
        if self.silent:
            return None
        e = Event(kind, name, guards=st.guards, loops=tuple(l['id'] for l in self.loops), tries=tuple(self.tries),
                  loc=self.curloc, func=self.func(), stack=tuple((s[0], s[1]) for s in self.stack), **kw)
        e.seq = len(self.events)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ snapshots
    def snap(self, v, st, depth=0):
        if isinstance(v, N):
            return v
        if isinstance(v, Ref):
            return self.content(v.oid, st, depth)
        if isinstance(v, Tup):
            return mk('tuple', *[self.snap(x, st, depth + 1) for x in v.items])
        if isinstance(v, Fn):
            return raw('fn', v.name, id(v.node))
        if isinstance(v, Ext):
            return raw('ext', v.name)
        if isinstance(v, Mod):
            return raw('module', v.module.name)
        if isinstance(v, Bound):
            return raw('bound', v.name, self.snap(v.obj, st, depth + 1))
        if isinstance(v, Partial):
            return raw('partial', self.snap(v.fn, st, depth + 1))
        if v is None:
            return NONE
        return raw('opaque', str(type(v)))

    def content(self, oid, st, depth=0):
        c = st.heap.get(oid)
        if c is None:
            return raw('opaque', 'dead object')
        if depth > 40:
            return raw('opaque', 'deep')
        if isinstance(c, Arr):
            return c.node
        if isinstance(c, Lst):
            return mk('list', *[self.snap(x, st, depth + 1) for x in c.items])
        if isinstance(c, Dct):
            flat = []
            for k in sorted(c.items, key=str):
                kn, v = const(k) if not isinstance(k, N) else k, self.snap(c.items[k], st, depth + 1)
                if c.base is not None and v.op == 'getitem' and v.args[0] is c.base and v.args[1] is kn:
                    continue
                flat += [kn, v]
            if c.base is not None:
                return raw('dictover', c.base, *flat) if flat else c.base
            return raw('dict', *flat)
        if isinstance(c, View):
            b = self.content(c.base, st, depth + 1)
            if c.how == 'idx':
                return mk('getitem', b, c.idx)
            if c.how == 'T':
                return mk('T', b)
            if c.how == 'same':
                return b
            return mk('call', c.how, b, *(c.idx or ()))
        return raw('opaque', 'content')

    # -------------------------------------------------------------- merging
    def merge_vals(self, cond, a, sa, b, sb, out):
        if a is b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid:
            return a
        if a is None:
            a = UNDEF
        if b is None:
            b = UNDEF
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_vals(cond, x, sa, y, sb, out) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) or isinstance(b, Ref):
            ca = sa.heap.get(a.oid) if isinstance(a, Ref) else None
            cb = sb.heap.get(b.oid) if isinstance(b, Ref) else None
            roots = frozenset()
            for x in (a, b):
                if isinstance(x, Ref):
                    roots |= self.meta[x.oid]['roots']
            if isinstance(ca, Dct) or isinstance(cb, Dct):
                da = ca if isinstance(ca, Dct) else Dct({}, self.snap(a, sa))
                db = cb if isinstance(cb, Dct) else Dct({}, self.snap(b, sb))
                return self.alloc(out, self.merge_dct(cond, da, sa, db, sb, out), roots=roots)
            na, nb = self.snap(a, sa), self.snap(b, sb)
            islist = bool((isinstance(ca, Lst) or (isinstance(ca, Arr) and ca.islist)) and
                          (isinstance(cb, Lst) or (isinstance(cb, Arr) and cb.islist)))
            return self.alloc(out, Arr(mk('phi', cond, na, nb), islist), roots=roots)
        if isinstance(a, N) and isinstance(b, N):
            return mk('phi', cond, a, b)
        if isinstance(a, N) and a is UNDEF:
            return b
        if isinstance(b, N) and b is UNDEF:
            return a
        return mk('phi', cond, self.snap(a, sa), self.snap(b, sb))

    def merge_dct(self, cond, ca, sa, cb, sb, out):
        items = {}
        for k in list(ca.items) + [k for k in cb.items if k not in ca.items]:
            va, vb = ca.items.get(k), cb.items.get(k)
            if va is None:
                va = mk('getitem', ca.base, const(k)) if ca.base is not None else ABSENT
            if vb is None:
                vb = mk('getitem', cb.base, const(k)) if cb.base is not None else ABSENT
            items[k] = self.merge_vals(cond, va, sa, vb, sb, out)
        if ca.base is cb.base:
            base = ca.base
        elif ca.base is None or cb.base is None:
            base = mk('phi', cond, ca.base if ca.base is not None else raw('dict'),
                      cb.base if cb.base is not None else raw('dict'))
        else:
            base = mk('phi', cond, ca.base, cb.base)
        return Dct(items, base)

    def merge(self, cond, sa, sb):
        """State that is sa if cond else sb."""
        out = State()
        out.heap = dict(sb.heap)
        out.heap.update({k: v for k, v in sa.heap.items() if k not in sb.heap})
        for oid in sa.heap:
            if oid in sb.heap and sa.heap[oid] is not sb.heap[oid]:
                ca, cb = sa.heap[oid], sb.heap[oid]
                if isinstance(ca, Dct) and isinstance(cb, Dct):
                    out.heap[oid] = self.merge_dct(cond, ca, sa, cb, sb, out)
                elif isinstance(ca, View) and isinstance(cb, View):
                    out.heap[oid] = ca
                elif isinstance(ca, Dct) or isinstance(cb, Dct):
                    da = ca if isinstance(ca, Dct) else Dct({}, self.content(oid, sa))
                    db = cb if isinstance(cb, Dct) else Dct({}, self.content(oid, sb))
                    out.heap[oid] = self.merge_dct(cond, da, sa, db, sb, out)
                else:
                    islist = all(isinstance(c, Lst) or (isinstance(c, Arr) and c.islist) for c in (ca, cb))
                    out.heap[oid] = Arr(mk('phi', cond, self.content(oid, sa), self.content(oid, sb)), islist)
        for fid in set(sa.frames) | set(sb.frames):
            fa, fb = sa.frames.get(fid), sb.frames.get(fid)
            if fa is None or fb is None:
                out.frames[fid] = dict(fa or fb)
                continue
            env = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                env[k] = self.merge_vals(cond, fa.get(k), sa, fb.get(k), sb, out)
            out.frames[fid] = env
        out.guards = sa.guards
        return out

    def push_guard(self, st, cond, pol):
        if cond.op == 'const':
            return
        if cond.op == 'not':
            return self.push_guard(st, cond.args[0], not pol)
        if cond.op == 'truth':
            return self.push_guard(st, cond.args[0], pol)
        if cond.op == 'and' and pol or cond.op == 'or' and not pol:
            for c in cond.args:
                self.push_guard(st, c, pol)
            return
        if (cond, pol) not in st.guards:
            st.guards = st.guards + ((cond, pol),)

    @staticmethod
    def guard_node(extra):
        n = TRUE
        for c, p in extra:
            n = mk('and', n, c if p else mk('not', c))
        return n

    # ------------------------------------------------------------ name lookup
    def lookup(self, name, st, fid, module):
        while fid is not None:
            env = st.frames[fid]
            if name in env:
                v = env[name]
                return v
            fid = env.get('$outer')
        genv = st.frames.get(('mod', module.name))
        if genv and name in genv:
            self.emit('global-read', name, st)
            return genv[name]
        return self.module_name(name, module, st)

    def module_name(self, name, module, st):
        d = module.defs.get(name)
        if d is None:
            if name in ('__name__', '__file__'):
                return const(name)
            return Ext(canon_ext('builtins.' + name))
        if d[0] == 'def':
            return self.make_fn(d[1], module, None)
        if d[0] == 'mod':
            return self.modvalue(d[1])
        if d[0] == 'from':
            src = d[1]
            if src in self.pkg.modules or src + '.' + d[2] in self.pkg.modules:
                sub = self.pkg.modules.get(src + '.' + d[2])
                m = self.pkg.modules.get(src)
                if m is not None and d[2] in m.defs:
                    return self.module_name(d[2], m, st)
                if sub is not None:
                    return Mod(sub)
            return self.extvalue(src + '.' + d[2])
        if d[0] == 'assign':
            key = (module.name, name)
            if key in self.modconst:
                v = self.modconst[key]
                if isinstance(v, tuple):
                    # first seen on a path (or loop round) that was given up: the object exists all the same
                    ref = self.node_to_value(v[1], st, tags={'module:' + module.name + '.' + name})
                    st.frames.setdefault(('mod', module.name), {})[name] = ref
                    return ref
                return v
            self.modconst[key] = raw('opaque', 'cyclic module constant')
            stn = State()
            stn.frames[0] = {}
            saved = self.loops, self.tries
            self.loops, self.tries = [], []
            self.stack.append((module.name, None, module))
            self.silent += 1
            try:
                for o in self.exec_stmt(d[1], stn, 0, module):
                    v = o.st.frames[0].get(name)
                    v = self.snap(v, o.st)
                    if isinstance(d[1], ast.Assign) and isinstance(v, N) and v.op in ('dict', 'list'):
                        v = ('module-object', v)
            finally:
                self.silent -= 1
                self.stack.pop()
                self.loops, self.tries = saved
            if isinstance(v, tuple):
                # module-level mutable container: one shared object
                ref = self.node_to_value(v[1], st, tags={'module:' + module.name + '.' + name})
                self.modconst[key] = v
                env = st.frames.setdefault(('mod', module.name), {})
                env[name] = ref
                return ref
            self.modconst[key] = v
            return v
        return self.opaque('name ' + name)

    def node_to_value(self, n, st, tags=()):
        if n.op == 'dict':
            items = {}
            for k, v in zip(n.args[0::2], n.args[1::2]):
                items[k.args[0] if k.op == 'const' else k] = self.node_to_value(v, st, tags)
            return self.alloc(st, Dct(items), tags)
        if n.op == 'list':
            return self.alloc(st, Lst([self.node_to_value(x, st, tags) for x in n.args]), tags)
        if n.op == 'tuple':
            return Tup([self.node_to_value(x, st, tags) for x in n.args])
        return n

    def modvalue(self, dotted):
        if dotted in self.pkg.modules:
            return Mod(self.pkg.modules[dotted])
        return Ext(canon_ext(dotted))

    def extvalue(self, dotted):
        dotted = canon_ext(dotted)
        if dotted in ('numpy.nan', 'numpy.NaN', 'numpy.NAN', 'math.nan'):
            return NAN
        if dotted in ('numpy.pi', 'math.pi'):
            return raw('pi')
        if dotted in ('numpy.newaxis',):
            return NONE
        if dotted == 'os.sep':
            return const('/')
        if dotted in self.pkg.modules:
            return Mod(self.pkg.modules[dotted])
        return Ext(dotted)

    def make_fn(self, node, module, frame):
        cached, decs = False, []
        for d in getattr(node, 'decorator_list', []):
            s = ast.unparse(d)
            decs.append(s)
            base = s.split('(')[0].split('.')[-1]
            if base in ('lru_cache', 'cache'):
                cached = True
        fn = Fn(node, module, frame, cached=cached, decorators=tuple(decs))
        return fn

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fid, module):
        """Returns outcomes; at most one of kind 'fall'."""
        outs = []
        cur = st
        for i, s in enumerate(stmts):
            res = self.exec_stmt(s, cur, fid, module)
            falls = [o for o in res if o.kind == 'fall']
            outs += [o for o in res if o.kind != 'fall']
            if not falls:
                return outs
            cur = falls[0].st
        outs.append(Outcome('fall', cur))
        return outs

    def exec_stmt(self, s, st, fid, module):
        self.curloc = self.loc(s)
        self.curnode = s
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            self.opaque('stmt ' + type(s).__name__)
            return [Outcome('fall', st)]
        r = m(s, st, fid, module)
        return r if r is not None else [Outcome('fall', st)]

    def st_Expr(self, s, st, fid, module):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, st, fid, module)

    def st_Pass(self, *a):
        return None

    def st_Import(self, s, st, fid, module):
        for a in s.names:
            st.frames[fid][a.asname or a.name.split('.')[0]] = self.modvalue(a.name if a.asname else a.name.split('.')[0])

    def st_ImportFrom(self, s, st, fid, module):
        src = self.pkg._abs(module, s)
        for a in s.names:
            if src in self.pkg.modules and a.name in self.pkg.modules[src].defs:
                st.frames[fid][a.asname or a.name] = self.module_name(a.name, self.pkg.modules[src], st)
            else:
                st.frames[fid][a.asname or a.name] = self.extvalue(src + '.' + a.name)

    def st_Global(self, s, st, fid, module):
        env = st.frames[fid]
        g = set(env.get('$globals', ()))
        env['$globals'] = tuple(g | set(s.names))

    def st_Nonlocal(self, s, st, fid, module):
        env = st.frames[fid]
        env['$nonlocals'] = tuple(set(env.get('$nonlocals', ())) | set(s.names))

    def st_FunctionDef(self, s, st, fid, module):
        st.frames[fid][s.name] = self.make_fn(s, module, fid)

    def st_ClassDef(self, s, st, fid, module):
        st.frames[fid][s.name] = raw('opaque', 'class ' + s.name)

    def st_Assign(self, s, st, fid, module):
        v = self.ev(s.value, st, fid, module)
        for t in s.targets:
            self.assign(t, v, st, fid, module)

    def st_AnnAssign(self, s, st, fid, module):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fid, module), st, fid, module)

    def st_AugAssign(self, s, st, fid, module):
        op = BINOPS.get(type(s.op))
        rhs = self.ev(s.value, st, fid, module)
        if isinstance(s.target, ast.Name):
            cur = self.ev(ast.Name(s.target.id, ast.Load(), lineno=s.lineno, col_offset=0), st, fid, module)
            if isinstance(cur, Ref) and op == '+' and self.is_list(cur, st):
                self.list_extend(cur, rhs, st)
                return None
            new = self.binop(s.op, cur, rhs, st)
            if isinstance(cur, Ref):
                from .shapes import rank
                r = rank(self.snap(cur, st))
                if (r is not None and r >= 1) or self.meta[cur.oid].get('isarray'):
                    self.set_content(cur, self.snap(new, st), st, 'augassign')
                    return None
            self.set_name(s.target.id, new, st, fid, module)
        elif isinstance(s.target, ast.Subscript):
            base = self.ev(s.target.value, st, fid, module)
            idx = self.ev_index(s.target.slice, st, fid, module)
            cur = self.getitem(base, idx, st)
            new = self.binop(s.op, cur, rhs, st)
            if isinstance(cur, Ref) and not isinstance(st.heap.get(cur.oid), View):
                from .shapes import rank
                r = rank(self.snap(cur, st))
                if (r is not None and r >= 1) and isinstance(idx, N) and idx.op == 'const' and isinstance(idx.args[0], str):
                    self.set_content(cur, self.snap(new, st), st, 'augassign')
                    return None
            self.setitem(base, idx, new, st)
        elif isinstance(s.target, ast.Attribute):
            self.opaque('augassign attribute')

    def st_Delete(self, s, st, fid, module):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st, fid, module)
                idx = self.ev_index(t.slice, st, fid, module)
                self.method(base, 'pop', [idx], {}, st, fid, module)

    def truth(self, n, st):
        self.emit('truth', 'cond', st, node=n)
        return n

    def ev_cond(self, e, st, fid, module):
        if isinstance(e, ast.BoolOp):
            r = None
            for v in e.values:
                c = self.ev_cond(v, st, fid, module)
                r = c if r is None else mk('and' if isinstance(e.op, ast.And) else 'or', r, c)
            return r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return mk('not', self.ev_cond(e.operand, st, fid, module))
        v = self.ev(e, st, fid, module)
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, Lst):
                return const(bool(c.items))
            if isinstance(c, Dct) and c.base is None:
                return const(bool(c.items))
        if isinstance(v, Tup):
            return const(bool(v.items))
        if isinstance(v, (Fn, Ext, Mod)):
            return TRUE
        n = self.snap(v, st)
        if n.op == 'const':
            return const(bool(n.args[0]))
        return self.truth(n, st)

    def st_If(self, s, st, fid, module):
        c = self.ev_cond(s.test, st, fid, module)
        self.emit('branch', 'if', st, node=c)
        if c.op == 'const':
            return self.exec_block(s.body if c.args[0] else s.orelse, st, fid, module)
        # already decided on this path?
        for g, p in st.guards:
            if g is c:
                return self.exec_block(s.body if p else s.orelse, st, fid, module)
            if c.op == 'not' and g is c.args[0]:
                return self.exec_block(s.orelse if p else s.body, st, fid, module)
        sa, sb = st.copy(), st.copy()
        self.push_guard(sa, c, True)
        self.push_guard(sb, c, False)
        g0 = st.guards
        oa = self.exec_block(s.body, sa, fid, module)
        ob = self.exec_block(s.orelse, sb, fid, module) if s.orelse else [Outcome('fall', sb)]
        return self.join2(c, oa, ob, g0)

    def join2(self, c, oa, ob, g0):
        fa = [o for o in oa if o.kind == 'fall']
        fb = [o for o in ob if o.kind == 'fall']
        out = [o for o in oa + ob if o.kind != 'fall']
        if fa and fb:
            a, b = fa[0].st, fb[0].st
            m = self.merge(c, a, b)
            # guards that survive on both branches, beyond the branch condition
            m.guards = tuple(g for g in a.guards if g in b.guards)
            out.append(Outcome('fall', m))
        elif fa or fb:
            out.append((fa or fb)[0])
        return out

    def st_Return(self, s, st, fid, module):
        v = self.ev(s.value, st, fid, module) if s.value is not None else NONE
        return [Outcome('return', st, v)]

    def st_Raise(self, s, st, fid, module):
        name = 'reraise'
        if s.exc is not None:
            e = s.exc
            name = ast.unparse(e.func if isinstance(e, ast.Call) else e)
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.ev(a, st, fid, module)
        self.curloc = self.loc(s)
        self.emit('raise', name, st)
        return [Outcome('raise', st, name)]

    def st_Assert(self, s, st, fid, module):
        c = self.ev_cond(s.test, st, fid, module)
        self.emit('assert', 'assert', st, node=c)
        self.push_guard(st, c, True)

    def st_Break(self, s, st, fid, module):
        return [Outcome('break', st)]

    def st_Continue(self, s, st, fid, module):
        return [Outcome('continue', st)]

    def st_With(self, s, st, fid, module):
        ids = []
        for it in s.items:
            self.with_item = True
            v = self.ev(it.context_expr, st, fid, module, ctx='with')
            ids.append(v)
            self.emit('withenter', 'with', st, args=(self.snap(v, st),))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fid, module)
        self.tries.append(('with', self.uid(), tuple(v.oid for v in ids if isinstance(v, Ref))))
        try:
            return self.exec_block(s.body, st, fid, module)
        finally:
            self.tries.pop()

    def st_Try(self, s, st, fid, module):
        tid = self.uid()
        handlers = tuple(ast.unparse(h.type) if h.type is not None else '*' for h in s.handlers)
        pre = st.copy()
        self.tries.append(('try', tid, handlers, bool(s.finalbody)))
        try:
            body = self.exec_block(list(s.body), st, fid, module)
        finally:
            self.tries.pop()
        outs = []
        fall = [o for o in body if o.kind == 'fall']
        raises = [o for o in body if o.kind == 'raise']
        outs += [o for o in body if o.kind not in ('fall', 'raise')]
        if fall and s.orelse:
            r = self.exec_block(s.orelse, fall[0].st, fid, module)
            fall = [o for o in r if o.kind == 'fall']
            outs += [o for o in r if o.kind not in ('fall',)]
        if not s.handlers:
            outs += raises
        for h, hn in zip(s.handlers, handlers):
            hs = pre.copy()
            exc = raw('exc', tid, hn)
            hs.guards = hs.guards + ((exc, True),)
            if h.name:
                hs.frames[fid][h.name] = raw('excval', tid)
            r = self.exec_block(h.body, hs, fid, module)
            for o in r:
                if o.kind == 'fall':
                    if fall:
                        m = self.merge(exc, o.st, fall[0].st)
                        m.guards = pre.guards
                        fall = [Outcome('fall', m)]
                    else:
                        fall = [o]
                else:
                    outs.append(o)
        outs += fall
        if s.finalbody:
            new = []
            self.tries.append(('finally', tid))
            for o in outs:
                r = self.exec_block(s.finalbody, o.st, fid, module)
                for x in r:
                    new.append(Outcome(o.kind, x.st, o.value) if x.kind == 'fall' else x)
            self.tries.pop()
            outs = new
        return outs

    # ------------------------------------------------------------------ loops
    def st_While(self, s, st, fid, module):
        def bind(stx):
            c = self.ev_cond(s.test, stx, fid, module)
            self.push_guard(stx, c, True)
        return self.abstract_loop(s, st, fid, module, bind, None)

    def st_For(self, s, st, fid, module):
        it = self.ev(s.iter, st, fid, module)
        conc, absb = self.iterate(it, st, s)
        if conc is not None:
            return self.unrolled(s, conc, st, fid, module)

        def bind(stx):
            self.assign(s.target, absb(stx), stx, fid, module)
        return self.abstract_loop(s, st, fid, module, bind, absb)

    def unrolled(self, s, conc, st, fid, module):
        outs = []
        cur = st
        breaks = []
        for k, v in enumerate(conc):
            self.assign(s.target, v, cur, fid, module)
            g0 = cur.guards
            res = self.exec_block(s.body, cur, fid, module)
            outs += [o for o in res if o.kind in ('return', 'raise')]
            breaks += [o for o in res if o.kind == 'break']
            nxt = [o for o in res if o.kind in ('fall', 'continue')]
            if not nxt:
                cur = None
                break
            cur = self.merge_many(nxt, g0)
        if cur is not None:
            res = self.exec_block(s.orelse, cur, fid, module) if s.orelse else [Outcome('fall', cur)]
            outs += [o for o in res if o.kind != 'fall']
            cur = next((o.st for o in res if o.kind == 'fall'), None)
        for b in reversed(breaks):
            if cur is None:
                cur = b.st
            else:
                extra = [g for g in b.st.guards if g not in st.guards]
                cur = self.merge(self.guard_node(extra), b.st, cur)
            cur.guards = st.guards
        if cur is not None:
            outs.append(Outcome('fall', cur))
        return outs

    def merge_many(self, outs, g0):
        cur = outs[-1].st
        for o in reversed(outs[:-1]):
            extra = [g for g in o.st.guards if g not in g0]
            cur = self.merge(self.guard_node(extra), o.st, cur)
        if len(outs) > 1:
            cur.guards = g0
        return cur

    def changed(self, before, after, fids):
        names, objs = set(), {}
        for f in fids:
            b, a = before.frames.get(f, {}), after.frames.get(f, {})
            for k, v in a.items():
                if k.startswith('$') or k not in b:
                    continue
                w = b[k]
                if v is w or (isinstance(v, Ref) and isinstance(w, Ref) and v.oid == w.oid):
                    continue
                if isinstance(v, (Fn, Ext, Mod)):
                    continue
                if isinstance(v, Tup) and isinstance(w, Tup) and self.snap(v, after) is self.snap(w, before):
                    continue
                names.add((f, k))
        for oid, w in before.heap.items():
            v = after.heap.get(oid)
            if v is None or v is w:
                continue
            if isinstance(v, Dct) and isinstance(w, Dct):
                keys = set()
                for k, x in v.items.items():
                    y = w.items.get(k)
                    if y is None:
                        if w.base is not None and self.snap(x, after) is not mk('getitem', w.base, const(k)):
                            keys.add(k)
                        continue
                    if x is y or (isinstance(x, Ref) and isinstance(y, Ref) and x.oid == y.oid):
                        continue
                    keys.add(k)
                if keys:
                    objs[oid] = objs.get(oid, set()) | keys
            elif isinstance(v, Arr) and isinstance(w, Arr) and v.node is w.node:
                continue
            elif isinstance(v, View):
                continue
            else:
                objs[oid] = None
        return names, objs

    def mu_value(self, name, v, st, loop, mus, path):
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, Dct):
                items = {}
                for k, x in c.items.items():
                    items[k] = self.mu_value(f"{name}[{k!r}]", x, st, loop, mus, path + (k,))
                return self.alloc(st, Dct(items, c.base), roots=self.meta[v.oid]['roots'])
            islist = isinstance(c, Lst) or (isinstance(c, Arr) and c.islist)
            m = new_mu(name, self.snap(v, st), loop, self.curloc)
            mus.append((path, m))
            return self.alloc(st, Arr(m, islist), roots=self.meta[v.oid]['roots'])
        if isinstance(v, Tup):
            return Tup([self.mu_value(f"{name}.{i}", x, st, loop, mus, path + (i,)) for i, x in enumerate(v.items)])
        if isinstance(v, N):
            m = new_mu(name, v, loop, self.curloc)
            mus.append((path, m))
            return m
        return v

    def follow(self, v, path, st):
        for k in path:
            if isinstance(v, Ref):
                c = st.heap.get(v.oid)
                if isinstance(c, Dct) and k in c.items:
                    v = c.items[k]
                    continue
                return mk('getitem', self.snap(v, st), const(k))
            if isinstance(v, Tup):
                v = v.items[k]
                continue
            return mk('getitem', self.snap(v, st), const(k) if not isinstance(k, N) else k)
        return self.snap(v, st)

    def header(self, st, names, objs, loop):
        hs = st.copy()
        mus = []      # (kind, key, path, mu)
        for f, k in sorted(names, key=str):
            v = st.frames[f].get(k)
            if v is None:
                continue
            ms = []
            hs.frames[f][k] = self.mu_value(k, v, hs, loop, ms, ())
            mus += [('name', (f, k), p, m) for p, m in ms]
        for oid in sorted(objs):
            c = st.heap[oid]
            if isinstance(c, Dct) and objs[oid] is not None:
                items = dict(c.items)
                for k in sorted(objs[oid], key=str):
                    x = items.get(k)
                    if x is None:
                        x = mk('getitem', c.base, const(k))
                    ms = []
                    items[k] = self.mu_value(f"[{k!r}]", x, hs, loop, ms, ())
                    mus += [('key', (oid, k), p, m) for p, m in ms]
                hs.heap[oid] = Dct(items, c.base)
            elif isinstance(c, View):
                continue
            else:
                islist = isinstance(c, Lst) or (isinstance(c, Arr) and c.islist)
                m = new_mu(self.meta[oid].get('name', 'obj'), self.content(oid, st), loop, self.curloc)
                hs.heap[oid] = Arr(m, islist)
                mus.append(('obj', oid, (), m))
        return hs, mus

    def abstract_loop(self, s, st, fid, module, bind, absb):
        lid = self.uid()
        rec = {'id': lid, 'key': None, 'loc': self.loc(s)}
        fids = list(st.frames)
        g0 = st.guards
        orelse = s.orelse

        def run(state):
            self.loops.append(rec)
            try:
                bind(state)
                return self.exec_block(s.body, state, fid, module)
            finally:
                self.loops.pop()

        if absb is not None:
            rec['key'] = getattr(absb, 'key', None)
        self.loopinfo[lid] = rec
        names, objs = set(), {}
        rounds = 1 if self.silent else 3
        for _ in range(rounds):
            h, _m = self.header(st, names, objs, lid)
            self.silent += 1
            saved = self.next_id
            try:
                res = run(h.copy())
            finally:
                self.silent -= 1
            grew = False
            for o in res:
                if o.kind in ('fall', 'continue', 'break'):
                    n2, o2 = self.changed(h, o.st, fids)
                    # map header-allocated objects away: only pre-existing ones matter
                    for x in n2:
                        if x not in names:
                            names.add(x)
                            grew = True
                    for oid, ks in o2.items():
                        if oid not in st.heap:
                            continue
                        old = objs.get(oid, 0)
                        if old == 0:
                            objs[oid] = ks
                            grew = True
                        elif old is not None:
                            new = None if ks is None else old | ks
                            if new != old:
                                objs[oid] = new
                                grew = True
            if not grew:
                break
        hs, mus = self.header(st, names, objs, lid)
        res = run(hs.copy())
        nxt = [o for o in res if o.kind in ('fall', 'continue')]
        outs = [o for o in res if o.kind in ('return', 'raise')]
        breaks = [o for o in res if o.kind == 'break']
        rec['breaks'] = [tuple(g for g in o.st.guards if g not in g0) for o in breaks]
        if nxt:
            end = self.merge_many(nxt, g0)
            for kind, key, path, m in mus:
                if kind == 'name':
                    m.next = self.follow(end.frames[key[0]].get(key[1], UNDEF), path, end)
                elif kind == 'key':
                    c = end.heap[key[0]]
                    m.next = self.follow(c.items.get(key[1], UNDEF) if isinstance(c, Dct) else UNDEF, path, end)
                else:
                    m.next = self.content(key, end)
            after = end.copy()
            hdr = hs
        else:
            for _k, _key, _p, m in mus:
                m.next = m.init
            after = hs.copy()
            hdr = hs
        # exit values are the header values
        comps = {}
        for kind, key, path, m in mus:
            comps[m] = self.recognise(m, rec)
        for oid, c in hdr.heap.items():
            if oid in st.heap and (oid in objs):
                after.heap[oid] = self.sub_exit(c, comps)
            elif oid not in st.heap:
                after.heap[oid] = self.sub_exit(c, comps)
        for f, k in names:
            if k in hdr.frames[f]:
                v = hdr.frames[f][k]
                if isinstance(v, N) and v in comps:
                    v = comps[v]
                after.frames[f][k] = v
        after.guards = g0
        cur = after
        if orelse:
            r = self.exec_block(orelse, cur, fid, module)
            outs += [o for o in r if o.kind != 'fall']
            cur = next((o.st for o in r if o.kind == 'fall'), None)
        for b in breaks:
            br = raw('brk', lid)
            if cur is None:
                cur = b.st
            else:
                cur = self.merge(br, b.st, cur)
            cur.guards = g0
        if cur is not None:
            outs.append(Outcome('fall', cur))
        return outs

    def sub_exit(self, c, comps):
        if isinstance(c, Arr) and c.node in comps:
            return Arr(comps[c.node], c.islist)
        return c

    def recognise(self, m, rec):
        """mu(init=[], next=append(mu, e)) -> comp(domain, cond, e)"""
        dom = rec.get('key')
        if dom is None or not (m.init.op == 'list' and not m.init.args or
                               (m.init.op == 'call' and m.init.args[0] in ('numpy.array', 'numpy.empty') and 'EMPTY' in str(m.init.args[1:]))):
            return m
        n = m.next
        cond = TRUE
        while n is not None and n.op == 'phi':
            c, a, b = n.args
            if b is m:
                cond, n = mk('and', cond, c), a
            elif a is m:
                cond, n = mk('and', cond, mk('not', c)), b
            else:
                return m
        if n is None:
            return m
        if n.op == 'append' and n.args[0] is m:
            return raw('comp', dom, cond, n.args[1])
        if n.op == 'call' and n.args[0] == 'numpy.append' and len(n.args) == 3 and n.args[1] is m:
            return raw('comp', dom, cond, n.args[2])
        return m

    # ---------------------------------------------------------------- iterables
    def iterate(self, it, st, s=None):
        """-> (list of concrete values | None, function(state)->abstract element)."""
        if isinstance(it, Tup):
            if len(it.items) <= 64:
                return list(it.items), None
        if isinstance(it, Ref):
            c = st.heap.get(it.oid)
            if isinstance(c, Lst) and len(c.items) <= 64:
                return list(c.items), None
            if isinstance(c, Dct):
                if c.items or c.base is None:
                    return [const(k) for k in c.items], None
        n = self.snap(it, st)
        if n.op == 'items':
            return None, self.abs_elem(n, st)
        if n.op == 'range' and all(a.op == 'const' for a in n.args):
            try:
                r = range(*[a.args[0] for a in n.args])
            except Exception:
                r = None
            if r is not None and len(r) <= LOOP_UNROLL:
                return [const(x) for x in r], None
        if n.op in ('list', 'tuple') and len(n.args) <= LOOP_UNROLL:
            return [self.getitem(it, const(i), st) for i in range(len(n.args))], None
        return None, self.abs_elem(n, st, it)

    def depth_of(self, key):
        return sum(1 for l in self.loops if l['key'] is not None and l['key'].op == 'iv' and l['key'].args[:3] == key)

    def abs_elem(self, n, st, it=None):
        if n.op == 'range':
            dom = n.args
            el = None
        elif n.op in ('enumerate', 'zip', 'items'):
            src = n.args[0]
            dom = (ZERO, mk('dim', src, ZERO), ONE)
        else:
            dom = (ZERO, mk('dim', n, ZERO), ONE)
        i = iv(dom[0], dom[1], dom[2], self.depth_of(tuple(dom)))

        def elem(stx):
            if n.op == 'range':
                return i
            if n.op == 'enumerate':
                start = n.args[1] if len(n.args) > 1 else ZERO
                return Tup([mk('+', start, i) if not is_const(start, 0) else i, self.elem_of(n.args[0], i, stx)])
            if n.op == 'zip':
                return Tup([self.elem_of(a, i, stx) for a in n.args])
            if n.op == 'items':
                return Tup([raw('key', n.args[0], i), raw('val', n.args[0], i)])
            if isinstance(it, Ref):
                return self.getitem(it, i, stx)
            return self.elem_of(n, i, stx)
        elem.key = i
        return elem

    def elem_of(self, n, i, st):
        return self.wrap(mk('getitem', n, i), st)

    def wrap(self, n, st):
        """Give a possibly mutable result an object identity."""
        if n.op in ('const', 'iv', 'nan', 'dim', 'pi', 'isnan', 'int', 'str', 'contains'):
            return n
        if n.op == 'tuple':
            return Tup([self.wrap(a, st) for a in n.args])
        return self.arr(st, n, islist=n.op in ('comp', 'list'))

    # ---------------------------------------------------------------- assignment
    def set_name(self, name, v, st, fid, module):
        env = st.frames[fid]
        if name in env.get('$globals', ()):
            g = st.frames.setdefault(('mod', module.name), {})
            g[name] = v
            self.emit('global-write', name, st)
            return
        if name in env.get('$nonlocals', ()):
            f = env.get('$outer')
            while f is not None:
                if name in st.frames[f]:
                    st.frames[f][name] = v
                    return
                f = st.frames[f].get('$outer')
        env[name] = v

    def assign(self, t, v, st, fid, module):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st, fid, module)
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = t.elts
            if any(isinstance(e, ast.Starred) for e in elts):
                k = next(i for i, e in enumerate(elts) if isinstance(e, ast.Starred))
                vals = [self.getitem(v, const(i), st) for i in range(k)]
                vals.append(self.wrap(raw('slice_of', self.snap(v, st), k), st))
                vals += [self.getitem(v, const(i - len(elts)), st) for i in range(k + 1, len(elts))]
                elts = [e.value if isinstance(e, ast.Starred) else e for e in elts]
            elif isinstance(v, Tup) and len(v.items) == len(elts):
                vals = v.items
            else:
                vals = [self.getitem(v, const(i), st) for i in range(len(elts))]
            for e, x in zip(elts, vals):
                self.assign(e, x, st, fid, module)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fid, module)
            idx = self.ev_index(t.slice, st, fid, module)
            self.curloc = self.loc(t)
            self.setitem(base, idx, v, st)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fid, module)
            self.emit('setattr', t.attr, st, args=(self.snap(base, st), self.snap(v, st)))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fid, module)

    def mutated(self, ref, st, how, idx=None, val=None):
        oid = ref.oid
        c = st.heap.get(oid)
        roots = set(self.meta[oid]['roots'])
        while isinstance(c, View):
            oid = c.base
            roots |= self.meta[oid]['roots']
            c = st.heap.get(oid)
        tags = set()
        for r in roots:
            tags |= self.meta[r]['tags']
        self.emit('mutate', how, st, roots=frozenset(roots), extra=tags, args=(idx, val) if idx is not None else ())
        return roots

    def set_content(self, ref, node, st, how, idx=None, val=None):
        self.mutated(ref, st, how, idx, val)
        self._set(ref.oid, node, st)

    def _set(self, oid, node, st):
        c = st.heap.get(oid)
        if isinstance(c, View):
            if c.how == 'idx':
                b = self.content(c.base, st)
                self._set(c.base, mk('store', b, c.idx, node), st)
            elif c.how == 'T':
                self._set(c.base, mk('T', node), st)
            elif c.how == 'same':
                self._set(c.base, node, st)
            else:
                self._set(c.base, raw('viewstore', self.content(c.base, st), node), st)
            return
        islist = isinstance(c, Lst) or (isinstance(c, Arr) and c.islist)
        st.heap[oid] = Arr(node, islist)

    def setitem(self, base, idx, v, st):
        if isinstance(base, Tup) or not isinstance(base, Ref):
            self.emit('setitem-opaque', 'setitem', st, args=(self.snap(base, st), self.snap(idx, st), self.snap(v, st)))
            return
        i = self.snap(idx, st)
        c = st.heap.get(base.oid)
        if isinstance(c, Dct) or (i.op == 'const' and isinstance(i.args[0], str)):
            if not isinstance(c, Dct):
                c = Dct({}, self.content(base.oid, st))
            if i.op == 'const':
                self.mutated(base, st, 'setkey', i, self.snap(v, st))
                items = dict(c.items)
                items[i.args[0]] = v
                st.heap[base.oid] = Dct(items, c.base)
            else:
                self.mutated(base, st, 'setkey', i, self.snap(v, st))
                items = {k: raw('maybe', self.snap(x, st), i, self.snap(v, st)) for k, x in c.items.items()}
                st.heap[base.oid] = Dct(items, raw('dictstore', c.base if c.base is not None else raw('dict'), i, self.snap(v, st)))
            return
        if isinstance(c, Lst) and i.op == 'const' and isinstance(i.args[0], int) and -len(c.items) <= i.args[0] < len(c.items):
            self.mutated(base, st, 'store', i, self.snap(v, st))
            items = list(c.items)
            items[i.args[0]] = v
            st.heap[base.oid] = Lst(items)
            return
        val = self.snap(v, st)
        cur = self.content(base.oid, st)
        if self.is_wrapflatten(i):
            pass
        self.set_content(base, mk('store', cur, i, val), st, 'store', i, val)

    @staticmethod
    def is_wrapflatten(i):
        return False

    # ---------------------------------------------------------------- subscripts
    def ev_index(self, sl, st, fid, module):
        if isinstance(sl, ast.Tuple):
            return mk('tuple', *[self.snap(self.ev_index(e, st, fid, module), st) for e in sl.elts])
        if isinstance(sl, ast.Slice):
            p = [self.snap(self.ev(x, st, fid, module), st) if x is not None else NONE for x in (sl.lower, sl.upper, sl.step)]
            if is_const(p[0], 0):
                p[0] = NONE
            return raw('slice', *p)
        return self.ev(sl, st, fid, module)

    @staticmethod
    def const_slice(i):
        if i.op != 'slice':
            return None
        vs = []
        for x in i.args:
            if not isinstance(x, N) or x.op != 'const' or not (x.args[0] is None or isinstance(x.args[0], int) and not isinstance(x.args[0], bool)):
                return None
            vs.append(x.args[0])
        return None if len(vs) == 3 and vs[2] == 0 else slice(*vs)

    def getitem(self, base, idx, st):
        i = self.snap(idx, st)
        if isinstance(base, Tup):
            if i.op == 'const' and isinstance(i.args[0], int) and -len(base.items) <= i.args[0] < len(base.items):
                return base.items[i.args[0]]
            part = self.const_slice(i)
            if part is not None:
                return Tup(list(base.items)[part])
            return self.wrap(mk('getitem', self.snap(base, st), i), st)
        if isinstance(base, Ref):
            c = st.heap.get(base.oid)
            key = i.args[0] if i.op == 'const' else None
            if isinstance(c, Dct) and key is not None and not isinstance(key, float):
                if key in c.items:
                    return c.items[key]
                if c.base is not None:
                    v = self.child(base, c, key, st)
                    return v
                self.emit('keyerror', str(key), st)
                return raw('absent')
            if isinstance(c, Lst) and isinstance(key, int) and not isinstance(key, bool) and -len(c.items) <= key < len(c.items):
                return c.items[key]
            if isinstance(c, Lst) and self.const_slice(i) is not None:
                return self.alloc(st, Lst(list(c.items)[self.const_slice(i)]))
            if isinstance(key, str) and not isinstance(c, (Dct, View)):
                # opaque mapping object: turn into a dict with a base
                d = Dct({}, self.content(base.oid, st))
                st.heap[base.oid] = d
                return self.child(base, d, key, st)
            node = mk('getitem', self.content(base.oid, st), i)
            from .shapes import rank, basic_index
            r = rank(node)
            if r == 0:
                return node
            if isinstance(c, (Arr, View)) and basic_index(i) and not getattr(c, 'islist', False):
                return self.alloc(st, View(base.oid, 'idx', i), roots=self.meta[base.oid]['roots'])
            return self.arr(st, node)
        n = mk('getitem', self.snap(base, st), i)
        return self.wrap(n, st)

    def child(self, base, c, key, st):
        node = mk('getitem', c.base, const(key))
        self.emit('keyread', key, st, args=(c.base,))
        tags = {t for t in self.tags(base.oid)}
        if any(t.startswith('param') for t in tags) and c.base.op == 'param' and c.base.args[0] in ('config', 'system_config'):
            v = node
            # configuration values: keep scalars pure
            items = dict(c.items)
            items[key] = v
            st.heap[base.oid] = Dct(items, c.base)
            return v
        ref = self.arr(st, node, tags=tags)
        self.meta[ref.oid]['isarray'] = False
        self.meta[ref.oid]['node'] = node
        items = dict(c.items)
        items[key] = ref
        st.heap[base.oid] = Dct(items, c.base)
        return ref

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st, fid, module, ctx=None):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            return self.opaque('expr ' + type(e).__name__)
        if isinstance(e, ast.Call):
            return m(e, st, fid, module, ctx)
        return m(e, st, fid, module)

    def ex_Constant(self, e, st, fid, module):
        v = e.value
        if isinstance(v, (int, float, str, bool, type(None), bytes)):
            return const(v)
        return raw('opaque', repr(v))

    def ex_Name(self, e, st, fid, module):
        if e.id in ('True', 'False', 'None'):
            return const({'True': True, 'False': False, 'None': None}[e.id])
        return self.lookup(e.id, st, fid, module)

    def ex_Tuple(self, e, st, fid, module):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fid, module)
                conc, _ = self.iterate(v, st)
                if conc is None:
                    items.append(self.opaque('starred', self.snap(v, st)))
                else:
                    items += conc
            else:
                items.append(self.ev(x, st, fid, module))
        return Tup(items)

    def ex_List(self, e, st, fid, module):
        return self.alloc(st, Lst(self.ex_Tuple(e, st, fid, module).items))

    def ex_Set(self, e, st, fid, module):
        return self.arr(st, raw('set', *[self.snap(x, st) for x in self.ex_Tuple(e, st, fid, module).items]))

    def ex_Dict(self, e, st, fid, module):
        items, base = {}, None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, st, fid, module)
                if isinstance(d, Ref) and isinstance(st.heap.get(d.oid), Dct):
                    items.update(st.heap[d.oid].items)
                    base = st.heap[d.oid].base or base
                else:
                    base = self.snap(d, st)
                continue
            kn = self.snap(self.ev(k, st, fid, module), st)
            val = self.ev(v, st, fid, module)
            items[kn.args[0] if kn.op == 'const' else kn] = val
        return self.alloc(st, Dct(items, base))

    def ex_Lambda(self, e, st, fid, module):
        return Fn(e, module, fid, name='<lambda>')

    def ex_IfExp(self, e, st, fid, module):
        c = self.ev_cond(e.test, st, fid, module)
        if c.op == 'const':
            return self.ev(e.body if c.args[0] else e.orelse, st, fid, module)
        g0 = st.guards
        self.push_guard(st, c, True)
        a = self.ev(e.body, st, fid, module)
        st.guards = g0
        self.push_guard(st, c, False)
        b = self.ev(e.orelse, st, fid, module)
        st.guards = g0
        return self.merge_vals(c, a, st, b, st, st)

    def ex_BoolOp(self, e, st, fid, module):
        vals = [self.snap(self.ev(v, st, fid, module), st) for v in e.values]
        for v in vals[:-1]:
            self.truth(v, st)
        r = vals[0]
        for v in vals[1:]:
            r = mk('and' if isinstance(e.op, ast.And) else 'or', r, v)
        return r

    def ex_UnaryOp(self, e, st, fid, module):
        v = self.ev(e.operand, st, fid, module)
        n = self.snap(v, st)
        if isinstance(e.op, ast.Not):
            self.truth(n, st)
            return mk('not', n)
        if isinstance(e.op, ast.Invert):
            return self.wrap(mk('not', n), st)
        if isinstance(e.op, ast.USub):
            return self.wrap(mk('neg', n), st)
        return v

    def ex_NamedExpr(self, e, st, fid, module):
        v = self.ev(e.value, st, fid, module)
        self.assign(e.target, v, st, fid, module)
        return v

    def ex_BinOp(self, e, st, fid, module):
        a = self.ev(e.left, st, fid, module)
        b = self.ev(e.right, st, fid, module)
        self.curloc = self.loc(e)
        return self.binop(e.op, a, b, st)

    def binop(self, op, a, b, st):
        na, nb = self.snap(a, st), self.snap(b, st)
        if isinstance(op, ast.BitAnd):
            return self.wrap(mk('and', na, nb), st)
        if isinstance(op, ast.BitOr):
            return self.wrap(mk('or', na, nb), st)
        o = BINOPS.get(type(op))
        if o is None:
            return self.wrap(self.opaque('binop', na, nb), st)
        if o == '*' and isinstance(a, Ref) and isinstance(st.heap.get(a.oid), Lst) or \
                o == '*' and isinstance(b, Ref) and isinstance(st.heap.get(b.oid), Lst):
            return self.arr(st, raw('replist', na, nb), islist=True)
        if o == '+' and self.is_list(a, st) and self.is_list(b, st):
            ca, cb = st.heap.get(a.oid), st.heap.get(b.oid)
            if isinstance(ca, Lst) and isinstance(cb, Lst):
                return self.alloc(st, Lst(ca.items + cb.items))
            return self.arr(st, raw('concatlist', na, nb), islist=True)
        if o == '+' and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if o == '/' and na.op == 'Path':
            return raw('Path', mk('path', na.args[0], nb))
        if o == '%' and na.op == 'const' and isinstance(na.args[0], str):
            return raw('fmt', na, nb)
        return self.wrap(mk(o, na, nb, loc=self.curloc), st)

    def is_list(self, v, st):
        if not isinstance(v, Ref):
            return False
        c = st.heap.get(v.oid)
        return isinstance(c, Lst) or (isinstance(c, Arr) and c.islist)

    def ex_Compare(self, e, st, fid, module):
        left = self.ev(e.left, st, fid, module)
        r = None
        for op, cmp in zip(e.ops, e.comparators):
            right = self.ev(cmp, st, fid, module)
            a, b = self.snap(left, st), self.snap(right, st)
            self.curloc = self.loc(e)
            t = type(op)
            if t is ast.Gt:
                n = mk('<', b, a, loc=self.curloc)
            elif t is ast.Lt:
                n = mk('<', a, b, loc=self.curloc)
            elif t is ast.GtE:
                n = mk('<=', b, a, loc=self.curloc)
            elif t is ast.LtE:
                n = mk('<=', a, b, loc=self.curloc)
            elif t in (ast.Eq, ast.Is):
                n = mk('==', a, b, loc=self.curloc)
            elif t in (ast.NotEq, ast.IsNot):
                n = mk('not', mk('==', a, b))
            elif t in (ast.In, ast.NotIn):
                n = self.contains(left, right, a, b, st)
                if t is ast.NotIn:
                    n = mk('not', n)
            else:
                n = self.opaque('cmp', a, b)
            r = n if r is None else mk('and', r, n)
            left = right
        return self.wrap(r, st)

    def contains(self, x, cont, a, b, st):
        if isinstance(cont, Ref):
            c = st.heap.get(cont.oid)
            if isinstance(c, Dct) and a.op == 'const':
                if a.args[0] in c.items:
                    v = c.items[a.args[0]]
                    if isinstance(v, N) and v.op == 'phi' and ABSENT in v.args[1:]:
                        return v.args[0] if v.args[2] is ABSENT else mk('not', v.args[0])
                    return TRUE
                if c.base is None:
                    return FALSE
                return raw('in', a, c.base)
        if b.op == 'str' or (b.op == 'const' and isinstance(b.args[0], str)) or b.op == '+' or a.op == 'str':
            return raw('contains', b, a)
        return raw('in', a, b)

    def ex_Subscript(self, e, st, fid, module):
        base = self.ev(e.value, st, fid, module)
        idx = self.ev_index(e.slice, st, fid, module)
        self.curloc = self.loc(e)
        return self.getitem(base, idx, st)

    def ex_Attribute(self, e, st, fid, module):
        v = self.ev(e.value, st, fid, module)
        return self.attr(v, e.attr, st)

    def attr(self, v, name, st):
        if isinstance(v, Mod):
            m = v.module
            if name in m.defs:
                return self.module_name(name, m, st)
            sub = self.pkg.modules.get(m.name + '.' + name)
            if sub is not None:
                return Mod(sub)
            return Ext('pkg.' + m.name + '.' + name)
        if isinstance(v, Ext):
            return self.extvalue(v.name + '.' + name)
        if name == 'shape':
            return raw('shape', self.snap(v, st))
        if name == 'size':
            return raw('size', self.snap(v, st))
        if name == 'ndim':
            return raw('ndim', self.snap(v, st))
        if name == 'T':
            if isinstance(v, Ref):
                return self.alloc(st, View(v.oid, 'T'), roots=self.meta[v.oid]['roots'])
            return self.wrap(mk('T', self.snap(v, st)), st)
        return Bound(v, name)

    def ex_JoinedStr(self, e, st, fid, module):
        r = None
        for p in e.values:
            if isinstance(p, ast.Constant):
                n = const(p.value)
            else:
                n = self.snap(self.ev(p.value, st, fid, module), st)
                if not (n.op == 'const' and isinstance(n.args[0], str)):
                    n = raw('str', n) if p.format_spec is None else raw('strfmt', n)
            r = n if r is None else mk('+', r, n)
        return r if r is not None else const('')

    def ex_FormattedValue(self, e, st, fid, module):
        return raw('str', self.snap(self.ev(e.value, st, fid, module), st))

    def ex_Starred(self, e, st, fid, module):
        return self.ev(e.value, st, fid, module)

    # comprehensions -------------------------------------------------------
    def ex_ListComp(self, e, st, fid, module, kind='list'):
        nf = self.uid()
        st.frames[('c', nf)] = {'$outer': fid}
        res = self.comp_gen(e, 0, st, ('c', nf), module)
        st.frames.pop(('c', nf), None)
        if isinstance(res, list):
            return self.alloc(st, Lst(res))
        return self.arr(st, res, islist=True)

    def comp_gen(self, e, k, st, fid, module):
        if k == len(e.generators):
            return [self.ev(e.elt, st, fid, module)]
        g = e.generators[k]
        it = self.ev(g.iter, st, fid, module)
        conc, absb = self.iterate(it, st)
        if conc is not None:
            out = []
            for v in conc:
                self.assign(g.target, v, st, fid, module)
                ok = TRUE
                for c in g.ifs:
                    ok = mk('and', ok, self.ev_cond(c, st, fid, module))
                if ok is FALSE or (ok.op == 'const' and not ok.args[0]):
                    continue
                sub = self.comp_gen(e, k + 1, st, fid, module)
                if not isinstance(sub, list) or ok.op != 'const':
                    return raw('opaque', 'comprehension')
                out += sub
            return out
        self.loops.append({'id': self.uid(), 'key': absb.key, 'loc': self.curloc})
        try:
            self.assign(g.target, absb(st), st, fid, module)
            cond = TRUE
            for c in g.ifs:
                cond = mk('and', cond, self.ev_cond(c, st, fid, module))
            g0 = st.guards
            self.push_guard(st, cond, True)
            sub = self.comp_gen(e, k + 1, st, fid, module)
            st.guards = g0
        finally:
            self.loops.pop()
        if isinstance(sub, list) and len(sub) == 1:
            return raw('comp', absb.key, cond, self.snap(sub[0], st))
        return raw('flatcomp', absb.key, cond, self.snap(self.alloc(st, Lst(sub)), st) if isinstance(sub, list) else sub)

    def ex_GeneratorExp(self, e, st, fid, module):
        return self.ex_ListComp(e, st, fid, module, 'gen')

    def ex_SetComp(self, e, st, fid, module):
        v = self.ex_ListComp(e, st, fid, module, 'set')
        return self.arr(st, raw('set', self.snap(v, st)))

    def ex_DictComp(self, e, st, fid, module):
        g = e.generators[0]
        nf = ('c', self.uid())
        st.frames[nf] = {'$outer': fid}
        it = self.ev(g.iter, st, nf, module)
        conc, absb = self.iterate(it, st)
        if conc is None or len(e.generators) > 1:
            self.assign(g.target, absb(st) if absb else raw('opaque', 'x'), st, nf, module)
            k = self.snap(self.ev(e.key, st, nf, module), st)
            v = self.snap(self.ev(e.value, st, nf, module), st)
            st.frames.pop(nf, None)
            return self.alloc(st, Dct({}, raw('dictcomp', k, v)))
        items = {}
        for x in conc:
            self.assign(g.target, x, st, nf, module)
            ok = TRUE
            for c in g.ifs:
                ok = mk('and', ok, self.ev_cond(c, st, nf, module))
            if ok.op == 'const' and not ok.args[0]:
                continue
            k = self.snap(self.ev(e.key, st, nf, module), st)
            v = self.ev(e.value, st, nf, module)
            if ok.op != 'const':
                v = self.merge_vals(ok, v, st, ABSENT, st, st)
            items[k.args[0] if k.op == 'const' else k] = v
        st.frames.pop(nf, None)
        return self.alloc(st, Dct(items))

    # ---------------------------------------------------------------- calls
    def ex_Call(self, e, st, fid, module, ctx=None):
        # str.__len__ etc. resolved through Bound
        fn = self.ev(e.func, st, fid, module)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fid, module)
                conc, _ = self.iterate(v, st)
                if conc is None:
                    args.append(self.opaque('starred', self.snap(v, st)))
                else:
                    args += conc
            else:
                args.append(self.ev(a, st, fid, module))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, st, fid, module)
                c = st.heap.get(v.oid) if isinstance(v, Ref) else None
                if isinstance(c, Dct):
                    kwargs.update({kk: vv for kk, vv in c.items.items() if isinstance(kk, str)})
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = self.ev(k.value, st, fid, module)
        self.curloc = self.loc(e)
        return self.call(fn, args, kwargs, st, fid, module, ctx)

    def call(self, fn, args, kwargs, st, fid, module, ctx=None):
        if isinstance(fn, Fn):
            return self.inline(fn, args, kwargs, st)
        if isinstance(fn, Partial):
            kw = dict(fn.kwargs)
            kw.update(kwargs)
            return self.call(fn.fn, list(fn.args) + list(args), kw, st, fid, module, ctx)
        if isinstance(fn, Bound):
            return self.method(fn.obj, fn.name, args, kwargs, st, fid, module)
        if isinstance(fn, Ext):
            from . import lib
            return lib.call_ext(self, fn.name, args, kwargs, st, fid, module, ctx)
        n = self.snap(fn, st)
        an = [self.snap(a, st) for a in args]
        self.emit('apply', 'apply', st, args=(n,) + tuple(an))
        return self.arr(st, raw('apply', n, *an, *self.kwnodes(kwargs, st)))

    def kwnodes(self, kwargs, st):
        return [raw('kw', k, self.snap(v, st)) for k, v in sorted(kwargs.items())]

    def method(self, obj, name, args, kwargs, st, fid, module):
        from . import lib
        return lib.call_method(self, obj, name, args, kwargs, st, fid, module)

    def list_extend(self, ref, other, st):
        c = st.heap.get(ref.oid)
        oc = st.heap.get(other.oid) if isinstance(other, Ref) else None
        items = list(oc.items) if isinstance(oc, Lst) else (list(other.items) if isinstance(other, Tup) else None)
        self.mutated(ref, st, 'extend')
        if isinstance(c, Lst) and items is not None:
            st.heap[ref.oid] = Lst(c.items + tuple(items))
        else:
            st.heap[ref.oid] = Arr(raw('concatlist', self.content(ref.oid, st), self.snap(other, st)), True)

    def inline(self, fn, args, kwargs, st):
        qual = f"{fn.module.name}:{fn.name}"
        depth = sum(1 for s in self.stack if s[3:] and s[3] is fn.node) if self.stack else 0
        if qual in self.no_inline:
            # treated as a pure function of its arguments (in parameter order)
            a = fn.node.args
            params = [p.arg for p in a.posonlyargs + a.args]
            vals = [self.snap(v, st) for v in args]
            for p in params[len(vals):]:
                vals.append(self.snap(kwargs[p], st) if p in kwargs else raw('default', p))
            self.emit('axiom', qual, st, args=tuple(vals), extra=dict(zip(params, vals)), node=fn.node)
            node = raw('call', qual, *vals)
            keys = self.axiom_keys(qual) if self.axiom_keys else None
            if keys:
                return self.alloc(st, Dct({k: self.arr(st, mk('getitem', node, const(k))) for k in keys}))
            return self.arr(st, node)
        if depth >= 1 or len(self.stack) > MAX_DEPTH or \
                any(d.split('(')[0].split('.')[-1] not in ('lru_cache', 'cache', 'wraps', 'staticmethod') for d in fn.decorators):
            self.opaque('call ' + qual)
            return self.arr(st, raw('call', qual, *[self.snap(a, st) for a in args], *self.kwnodes(kwargs, st)))
        call_loc = self.curloc
        fid = self.uid()
        env = {'$outer': fn.frame, '$fn': NONE}
        a = fn.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        for i, p in enumerate(params):
            if i < len(args):
                env[p] = args[i]
        if a.vararg:
            env[a.vararg.arg] = Tup(args[len(params):])
        extra = {}
        for k, v in kwargs.items():
            if k in params or k in [p.arg for p in a.kwonlyargs]:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, Dct(extra))
        st.frames[fid] = env
        self.stack.append((qual, call_loc, fn.module, fn.node))
        self.calls_inlined += 1
        try:
            # defaults are evaluated in the defining scope
            for p, d in list(zip(reversed(params), reversed(a.defaults))) + \
                    [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if p not in env:
                    v = self.ev(d, st, fid, fn.module)
                    if isinstance(v, Ref):
                        self.meta[v.oid]['tags'].add('default:' + qual + '.' + p)
                    env[p] = v
            for p in params:
                if p not in env:
                    env[p] = raw('opaque', 'missing argument ' + p)
            self.curloc = call_loc
            en = self.emit('enter', qual, st, extra=dict((k, self.snap(v, st)) for k, v in env.items() if not k.startswith('$')),
                           node=fn.node)
            g0 = st.guards
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body, st, fid, fn.module)
                outs = [Outcome('return', st, v)]
            else:
                outs = self.exec_block(fn.node.body, st, fid, fn.module)
        finally:
            self.stack.pop()
        rets = []
        for o in outs:
            if o.kind == 'return':
                rets.append(o)
            elif o.kind == 'fall':
                rets.append(Outcome('return', o.st, NONE))
        self.curloc = call_loc
        if not rets:
            # every path raises
            st.frames.pop(fid, None)
            self.emit('exit', qual, st, extra=None)
            return raw('bottom')
        # put return values in a pseudo variable and merge states
        for o in rets:
            o.st.frames[fid]['$ret'] = o.value
        cur = rets[-1].st
        for o in reversed(rets[:-1]):
            ex = [g for g in o.st.guards if g not in g0]
            cur = self.merge(self.guard_node(ex), o.st, cur)
        raised = any(o.kind == 'raise' for o in outs)
        if len(rets) > 1 or not raised:
            cur.guards = g0
        else:
            pass  # the only way out carries the negated raise conditions
        v = cur.frames[fid].get('$ret', NONE)
        cur.frames.pop(fid, None)
        # write back into the caller's state object (callers hold `st`)
        st.frames, st.heap, st.guards = cur.frames, cur.heap, cur.guards
        if fn.cached:
            self.tag_deep(v, 'cached:' + qual, st)
        self.emit('exit', qual, st, node=self.snap(v, st), extra=v)
        return v

    def tag_deep(self, v, tag, st, depth=0):
        if isinstance(v, Tup):
            for x in v.items:
                self.tag_deep(x, tag, st, depth + 1)
        if isinstance(v, Ref) and depth < 6:
            self.meta[v.oid]['tags'].add(tag)
            c = st.heap.get(v.oid)
            if isinstance(c, Dct):
                for x in c.items.values():
                    self.tag_deep(x, tag, st, depth + 1)
            elif isinstance(c, Lst):
                for x in c.items:
                    self.tag_deep(x, tag, st, depth + 1)

    # ---------------------------------------------------------------- entry
    def run(self, qual, params=None, globals_=None):
        found = self.pkg.find(qual)
        if found is None:
            raise AnalysisBroken(f"entry function {qual} not found")
        module, node = found
        st = State()
        st.frames = {}
        self.root_frame = 'root'
        st.frames['root'] = {}
        for mod, names in (globals_ or {}).items():
            st.frames[('mod', mod)] = {k: self.arr(st, v, tags={'stale'}) for k, v in names.items()}
        fn = self.make_fn(node, module, None)
        kwargs = {}
        a = node.args
        self.param_roots = {}
        names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        for i, p in enumerate(names):
            if params and p in params:
                v = params[p]
                if callable(v):
                    v = v(self, st)
            elif params and i in params:
                v = params[i]
                if callable(v):
                    v = v(self, st)
            else:
                v = self.arr(st, raw('param', p), tags={'param:' + p})
                self.param_roots[p] = v.oid
            kwargs[p] = v
        self.params = names
        args = []
        more = sorted(k for k in params or {} if isinstance(k, int) and k >= len(names))
        if a.vararg and more:
            args = [kwargs.pop(p.arg) for p in a.posonlyargs + a.args] + [params[k](self, st) if callable(params[k]) else params[k] for k in more]
        self.ret = self.inline(fn, args, kwargs, st)
        self.final = st
        self.ret_node = self.snap(self.ret, st)
        return self


def config_value(it, st):
    return it.alloc(st, Dct({}, raw('param', 'config')), tags={'param:config'})

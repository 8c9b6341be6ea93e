"""Models of the builtins / numpy / os / copy calls the package uses.

Everything not modelled becomes an uninterpreted ('call', name, args...) node.
"""
from .ir import N, raw, mk, const, is_const, ZERO, ONE, TRUE, FALSE, NONE, NAN, UNDEF, ABSENT, is_bool
from . import engine as E

# external calls whose effect or address matters: recorded with full argument snapshots (all ext calls are recorded)
BINFUN = {'numpy.add': '+', 'numpy.subtract': '-', 'numpy.multiply': '*', 'numpy.divide': '/', 'numpy.true_divide': '/',
          'numpy.power': '**', 'math.pow': '**', 'numpy.logical_and': 'and', 'numpy.logical_or': 'or', 'numpy.bitwise_and': 'and',
          'numpy.bitwise_or': 'or', 'numpy.equal': '==', 'operator.add': '+'}
UNFUN = {'numpy.isnan': 'isnan', 'numpy.isfinite': 'isfinite', 'abs': 'abs', 'numpy.logical_not': 'not', 'numpy.invert': 'not',
         'numpy.negative': 'neg', 'numpy.bitwise_not': 'not'}
COPIERS = {'copy.deepcopy', 'copy.copy', 'numpy.copy', 'numpy.array'}
NP_SIG = {'numpy.delete': ('arr', 'obj', 'axis'), 'numpy.append': ('arr', 'values', 'axis'),
          'numpy.insert': ('arr', 'obj', 'values', 'axis'), 'numpy.concatenate': ('arrays', 'axis'),
          'numpy.interp': ('x', 'xp', 'fp', 'left', 'right'), 'numpy.nanmin': ('a', 'axis'), 'numpy.nanmax': ('a', 'axis'),
          'numpy.mean': ('a', 'axis'), 'numpy.sum': ('a', 'axis'), 'numpy.any': ('a', 'axis'), 'numpy.all': ('a', 'axis'),
          'numpy.full': ('shape', 'fill_value'), 'numpy.where': ('condition', 'x', 'y'), 'numpy.argsort': ('a', 'axis', 'kind'),
          'numpy.diff': ('a', 'n', 'axis'), 'numpy.nanargmin': ('a', 'axis'), 'numpy.argmin': ('a', 'axis'),
          'numpy.min': ('a', 'axis'), 'numpy.max': ('a', 'axis'), 'numpy.var': ('a', 'axis'), 'numpy.nanvar': ('a', 'axis'),
          'numpy.nanmean': ('a', 'axis'), 'numpy.linspace': ('start', 'stop', 'num'),
          'scipy.interpolate.interp1d': ('x', 'y', 'kind'), 'scipy.interpolate.interp2d': ('x', 'y', 'z', 'kind'),
          'scipy.io.savemat': ('file_name', 'mdict'), 'scipy.io.loadmat': ('file_name', 'mdict'),
          'builtins.open': ('file', 'mode'), 'matplotlib.pyplot.savefig': ('fname',)}


def normalise_args(name, args, kwargs):
    sig = NP_SIG.get(name)
    if sig is None:
        return args, kwargs
    args, kwargs = list(args), dict(kwargs)
    for i in range(len(args), len(sig)):
        if sig[i] in kwargs:
            while len(args) < i:
                return args, kwargs
            args.append(kwargs.pop(sig[i]))
        else:
            break
    return args, kwargs


def call_ext(it, name, args, kwargs, st, fid, module, ctx=None):
    name = E.canon_ext(name)
    short = name[9:] if name.startswith('builtins.') else None
    S = lambda v: it.snap(v, st)
    args, kwargs = normalise_args(name, args, kwargs)

    if short and short.startswith('str.') and args:
        return call_method(it, args[0], short[4:], args[1:], kwargs, st, fid, module)

    # ---- introspection free builtins
    if short == 'len':
        return mk('dim', S(args[0]), ZERO) if not _conc_len(it, args[0], st) else const(_conc_len(it, args[0], st) - 1)
    if short in ('any', 'all') and len(args) == 1:
        conc = it.iterate(args[0], st)[0]
        if conc is not None and conc:
            out = S(conc[0])
            for x in conc[1:]:
                out = mk('or' if short == 'any' else 'and', out, S(x))
            return out
    if short == 'range':
        a = [S(x) for x in args]
        if len(a) == 1:
            a = [ZERO, a[0]]
        if len(a) == 2:
            a.append(ONE)
        return raw('range', *a)
    if name == 'numpy.arange' and False:
        pass
    if short == 'enumerate':
        return _enum(it, args, kwargs, st)
    if short == 'zip':
        concs = [it.iterate(a, st)[0] for a in args]
        if args and all(c is not None for c in concs):
            return E.Tup([E.Tup(x) for x in zip(*concs)])
        return raw('zip', *[S(a) for a in args])
    if short in ('list', 'tuple') and len(args) == 1:
        v = args[0]
        conc = None
        if isinstance(v, (E.Ref, E.Tup)) or (isinstance(v, N) and v.op in ('range', 'items')):
            conc, _ = it.iterate(v, st)
        if conc is not None:
            return it.alloc(st, E.Lst(conc)) if short == 'list' else E.Tup(conc)
        return it.arr(st, S(v), islist=True)
    if short in ('list', 'dict', 'set', 'tuple') and not args:
        if short == 'dict':
            return it.alloc(st, E.Dct(dict(kwargs)))
        return it.alloc(st, E.Lst(())) if short == 'list' else (E.Tup(()) if short == 'tuple' else it.arr(st, raw('set')))
    if short == 'dict' and args:
        c = st.heap.get(args[0].oid) if isinstance(args[0], E.Ref) else None
        if isinstance(c, E.Dct):
            items = dict(c.items)
            items.update(kwargs)
            return it.alloc(st, E.Dct(items, c.base), roots=None)
    if short == 'str':
        n = S(args[0])
        if n.op == 'Path':
            return n.args[0]
        if n.op in ('str',) or (n.op == 'const' and isinstance(n.args[0], str)):
            return n
        return raw('str', n)
    if short == 'int':
        n = S(args[0])
        if is_intnode(n):
            return n
        if n.op == 'const' and isinstance(n.args[0], (int, float)) and n.args[0] == n.args[0] and abs(n.args[0]) < 1e15:
            return const(int(n.args[0]))
        it.emit('convert', 'int', st, args=(n,), node=raw('int', n))
        return raw('int', n)
    if short == 'float':
        n = S(args[0])
        if n.op == 'const' and isinstance(n.args[0], str):
            return NAN if n.args[0].lower() == 'nan' else raw('float', n)
        return n if n.op != 'getitem' or True else raw('float', n)
    if short == 'bool':
        return S(args[0])
    if short == 'slice':
        a = [S(x) for x in args]
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        elif len(a) == 2:
            a.append(NONE)
        if is_const(a[0], 0):
            a[0] = NONE
        return raw('slice', *a)
    if short == 'isinstance':
        return raw('isinstance', S(args[0]), S(args[1]))
    if short in ('sum', 'min', 'max') and len(args) == 1:
        it.emit('call', 'builtins.' + short, st, args=tuple(S(a) for a in args))
    if short in ('sum',) and len(args) == 1:
        return it.wrap(raw('call', 'numpy.sum0', S(args[0])), st)
    if short in ('min', 'max'):
        return it.wrap(raw('call', 'builtins.' + short, *[S(a) for a in args]), st)
    if short == 'print':
        it.emit('call', 'builtins.print', st, args=tuple(S(a) for a in args))
        return NONE
    if short == 'map' or short == 'filter':
        fn = args[0]
        src = args[1]
        n = S(src)
        conc, absb = it.iterate(src, st)
        if conc is None and short == 'map':
            it.loops.append({'id': it.uid(), 'key': absb.key, 'loc': it.curloc})
            try:
                v = it.call(fn, [absb(st)], {}, st, fid, module)
            finally:
                it.loops.pop()
            return it.arr(st, raw('comp', absb.key, TRUE, S(v)), islist=True)
        if conc is None:
            it.loops.append({'id': it.uid(), 'key': absb.key, 'loc': it.curloc})
            try:
                x = absb(st)
                c = S(it.call(fn, [x], {}, st, fid, module)) if not (isinstance(fn, N) and fn is NONE) else S(x)
            finally:
                it.loops.pop()
            return it.arr(st, raw('comp', absb.key, c, S(x)), islist=True)
        if short == 'map':
            return it.alloc(st, E.Lst([it.call(fn, [x], {}, st, fid, module) for x in conc]))
    if name == 'collections.OrderedDict' and not args:
        return it.alloc(st, E.Dct(dict(kwargs)))
    if (name == 'collections.OrderedDict' or short == 'dict') and args:
        c0 = st.heap.get(args[0].oid) if isinstance(args[0], E.Ref) else None
        if isinstance(c0, E.Dct):
            items = dict(c0.items)
            items.update(kwargs)
            return it.alloc(st, E.Dct(items, c0.base))
        conc = it.iterate(args[0], st)[0] if isinstance(args[0], (E.Ref, E.Tup)) else None
        if conc is not None:
            pairs = [pair_of(it, x, st) for x in conc]
            if all(p is not None for p in pairs):
                items = dict(pairs)
                items.update(kwargs)
                return it.alloc(st, E.Dct(items))
    if short == 'sorted' and isinstance(args[0], (E.Ref, E.Tup)) and 'reverse' not in kwargs:
        conc = it.iterate(args[0], st)[0]
        if conc is not None and len(conc) > 1:
            keyf = kwargs.get('key')
            ks = []
            for x in conc:
                k = it.call(keyf, [x], {}, st, fid, module) if keyf is not None and keyf is not NONE else \
                    (x.items[0] if isinstance(x, E.Tup) and x.items else x)
                ks.append(k.args[0] if isinstance(k, N) and k.op == 'const' else None)
            if all(isinstance(k, str) for k in ks) and len(set(ks)) == len(ks):
                order = sorted(range(len(ks)), key=lambda i: ks[i])
                return it.alloc(st, E.Lst([conc[i] for i in order]))
    if short == 'sorted':
        n = S(args[0])
        key = kwargs.get('key')
        kn = NONE
        if key is not None and isinstance(key, E.Fn):
            kn = S(it.call(key, [raw('sortelem')], {}, st, fid, module))
        extra = it.kwnodes({k: v for k, v in kwargs.items() if k != 'key'}, st)
        return it.arr(st, raw('sorted', n, kn, *extra), islist=True)
    if short == 'getattr' and len(args) >= 2 and S(args[1]).op == 'const':
        return it.attr(args[0], S(args[1]).args[0], st)
    if short == 'round':
        it.emit('call', name, st, args=tuple(S(a) for a in args))
        return raw('call', 'builtins.round', *[S(a) for a in args])

    # ---- functional helpers
    if name == 'numpy.vectorize':
        return E.Partial(args[0], [], {}, vec=True) if not isinstance(args[0], E.Ref) and not isinstance(args[0], N) else args[0]
    if name == 'functools.partial':
        return E.Partial(args[0], args[1:], kwargs)
    if name == 'scipy.optimize.least_squares' and args and isinstance(args[0], E.Fn):
        arg = it.arr(st, raw('call', 'optimiser.point', *[S(a) for a in args[1:]]))
        r = it.call(args[0], [arg], {}, st, fid, module)
        node = raw('call', name, S(r), *[S(a) for a in args[1:]], *it.kwnodes(kwargs, st))
        it.emit('call', name, st, args=tuple(S(a) for a in args[1:]), node=node)
        return it.arr(st, node)

    # ---- copies and views
    if name in COPIERS:
        v = args[0]
        if name in ('copy.deepcopy', 'copy.copy') and isinstance(v, E.Ref):
            r = deepcopy(it, v, st, name == 'copy.deepcopy')
            it.emit('copy', name, st, roots=frozenset([v.oid]), node=S(r))
            return r
        if isinstance(v, (N,)) and not isinstance(v, E.Ref) and name != 'numpy.array':
            return v
        n = S(v)
        if n.op in ('tuple',):
            n = mk('list', *n.args)
        extra = [k for k in it.kwnodes(kwargs, st) if k.args[0] not in ('copy', 'dtype')]
        if kwargs.get('copy') is not None and S(kwargs['copy']).op == 'const' and S(kwargs['copy']).args[0] is False:
            return v
        r = it.arr(st, n if not extra else raw('call', name, n, *extra))
        it.meta[r.oid]['isarray'] = True
        return r
    if name in ('numpy.diag', 'numpy.diagonal') and len(args) == 1 and not kwargs and isinstance(args[0], E.Ref) and \
            S(args[0]).op == 'call' and S(args[0]).args[0] in ('numpy.dot', 'numpy.linalg.inv'):
        # the diagonal of a matrix is a view of it
        return it.alloc(st, E.View(args[0].oid, name), roots=it.meta[args[0].oid]['roots'])
    if name in E.VIEW_FUNCS and args and isinstance(args[0], E.Ref):
        return make_view(it, args[0], name, args[1:], kwargs, st)
    if name in E.VIEW_FUNCS and name == 'numpy.transpose':
        return it.wrap(mk('T', S(args[0])), st)
    if name in ('numpy.asarray', 'numpy.atleast_1d', 'numpy.atleast_2d') and args:
        return it.arr(st, S(args[0]))

    # ---- arithmetic in function form
    if name in BINFUN and len(args) == 2 and not kwargs:
        return it.wrap(mk(BINFUN[name], S(args[0]), S(args[1])), st)
    if name in ('numpy.less', 'numpy.less_equal', 'numpy.greater', 'numpy.greater_equal') and len(args) == 2:
        a, b = S(args[0]), S(args[1])
        if 'greater' in name:
            a, b = b, a
        return it.wrap(mk('<=' if 'equal' in name else '<', a, b), st)
    if name == 'numpy.not_equal':
        return it.wrap(mk('not', mk('==', S(args[0]), S(args[1]))), st)
    if name in UNFUN and len(args) == 1:
        return it.wrap(mk(UNFUN[name], S(args[0])), st)
    if name == 'numpy.square':
        return it.wrap(mk('**', S(args[0]), const(2)), st)
    if name == 'numpy.linalg.multi_dot' or name == 'numpy.matmul' or name == 'numpy.dot':
        if name == 'numpy.matmul':
            name = 'numpy.dot'
    if name == 'numpy.shape' and len(args) == 1:
        return raw('shape', S(args[0]))
    if name == 'numpy.size' and len(args) == 1:
        return raw('size', S(args[0]))
    if name == 'numpy.ones_like' or name == 'numpy.zeros_like':
        return it.arr(st, raw('call', name[:-5], raw('shape', S(args[0]))))
    if name == 'numpy.full_like':
        a = [S(x) for x in args]
        return it.arr(st, raw('call', 'numpy.full', raw('shape', a[0]), a[1]))
    if name == 'numpy.where' and len(args) == 3:
        return it.arr(st, raw('call', 'numpy.where', *[S(a) for a in args]))

    # ---- paths
    if name in ('os.sep.join', 'os.path.join', 'posixpath.join'):
        parts = args
        if name == 'os.sep.join':
            conc, _ = it.iterate(args[0], st)
            if conc is None:
                return it.opaque('join', S(args[0]))
            parts = conc
        return mk('path', *[S(p) for p in parts])
    if name in ('os.path.abspath', 'os.path.normpath', 'os.path.realpath', 'os.fspath', 'os.path.expanduser'):
        return S(args[0])
    if name in ('pathlib.Path', 'pathlib.PurePath'):
        ps = [S(a) for a in args]
        ps = [p.args[0] if p.op == 'Path' else p for p in ps]
        return raw('Path', ps[0] if len(ps) == 1 else mk('path', *ps))

    # ---- in-place library functions
    if name in ('numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal', 'numpy.random.shuffle') \
            and args and isinstance(args[0], E.Ref):
        cur = S(args[0])
        if name == 'numpy.putmask' or name == 'numpy.place':
            node = mk('store', cur, S(args[1]), S(args[2]))
            it.set_content(args[0], node, st, 'store', S(args[1]), S(args[2]))
        else:
            if name == 'numpy.random.shuffle':
                it.emit('call', name, st, args=tuple(S(a) for a in args))
            it.set_content(args[0], raw('call', name, cur, *[S(a) for a in args[1:]]), st, name)
        return NONE
    if 'out' in kwargs and isinstance(kwargs['out'], E.Ref):
        o = kwargs.pop('out')
        r = call_ext(it, name, args, kwargs, st, fid, module, ctx)
        it.set_content(o, S(r), st, 'out=')
        return o

    # ---- generic
    an = tuple(S(a) for a in args)
    kn = tuple(it.kwnodes(kwargs, st))
    node = raw('call', name, *an, *kn, loc=it.curloc)
    tags = ()
    if name in ('time.time', 'builtins.open', 'builtins.id') or name.startswith('numpy.random.'):
        node = raw('call', name, *an, *kn, raw('occurrence', it.uid()))
    if name.endswith('.loadmat') or name.endswith('.read_mat'):
        tags = ('file',)
    refs = tuple(a.oid if isinstance(a, E.Ref) else None for a in args)
    ev = it.emit('call', name, st, args=an, kwargs={k.args[0]: k.args[1] for k in kn}, node=node,
                 extra={'ctx': ctx, 'refs': refs, 'values': tuple(args)})
    if name in E.SCALAR_FUNCS:
        return node
    # callbacks handed to unknown library code: run them once for their effects
    for a in list(args) + list(kwargs.values()):
        if isinstance(a, E.Fn) and not name.startswith('numpy.vectorize'):
            try:
                it.call(a, [raw('opaque', 'callback argument') for _ in a.node.args.args], {}, st, fid, module)
            except RecursionError:
                raise
    if name.endswith('.loadmat') or name.endswith('.read_mat'):
        r = it.alloc(st, E.Dct({}, node), tags)
    else:
        r = it.arr(st, node, tags=tags)
    if ev is not None:
        ev.extra['ret'] = r.oid
    return r


def _conc_len(it, v, st):
    """len+1 when statically known."""
    if isinstance(v, E.Tup):
        return len(v.items) + 1
    if isinstance(v, E.Ref):
        c = st.heap.get(v.oid)
        if isinstance(c, E.Lst):
            return len(c.items) + 1
        if isinstance(c, E.Dct) and c.base is None:
            return len(c.items) + 1
    return 0


def is_intnode(n):
    from .shapes import isint
    return isint(n)


def _enum(it, args, kwargs, st):
    start = it.snap(args[1], st) if len(args) > 1 else (it.snap(kwargs['start'], st) if 'start' in kwargs else ZERO)
    conc, _ = it.iterate(args[0], st)
    if conc is not None and start.op == 'const':
        return E.Tup([E.Tup([const(start.args[0] + i), v]) for i, v in enumerate(conc)])
    return raw('enumerate', it.snap(args[0], st), start)


def deepcopy(it, v, st, deep=True):
    if isinstance(v, E.Tup):
        return E.Tup([deepcopy(it, x, st, deep) for x in v.items])
    if not isinstance(v, E.Ref):
        return v
    c = st.heap.get(v.oid)
    if isinstance(c, E.Dct):
        items = {k: (deepcopy(it, x, st) if deep else x) for k, x in c.items.items()}
        return it.alloc(st, E.Dct(items, c.base))
    if isinstance(c, E.Lst):
        return it.alloc(st, E.Lst([(deepcopy(it, x, st) if deep else x) for x in c.items]))
    if isinstance(c, E.View):
        return it.arr(st, it.content(v.oid, st))
    r = it.alloc(st, c)
    if it.meta[v.oid].get('isarray'):
        it.meta[r.oid]['isarray'] = True
    return r


def fortran(it, args, kwargs, st):
    """Column by column order of flattening."""
    o = kwargs.get('order', args[0] if args else None) if isinstance(kwargs, dict) else args[0] if args else None
    o = it.snap(o, st) if o is not None else None
    return o is not None and o.op == 'const' and o.args[0] == 'F'


def make_view(it, ref, name, args, kwargs, st):
    S = lambda v: it.snap(v, st)
    roots = it.meta[ref.oid]['roots']
    base = name.split('.')[-1]
    if base == 'ravel' and fortran(it, args, kwargs, st):
        ref, args, kwargs = it.alloc(st, E.View(ref.oid, 'T'), roots=roots), (), {}
    if base == 'reshape' and len(args) == 1 and not kwargs and S(args[0]).op == 'const' and S(args[0]).args[0] == -1:
        base, args = 'ravel', ()
    if base == 'transpose' and not args:
        return it.alloc(st, E.View(ref.oid, 'T'), roots=roots)
    if base in ('asarray', 'asanyarray', 'ascontiguousarray'):
        c = st.heap.get(ref.oid)
        if isinstance(c, E.Lst) or (isinstance(c, E.Arr) and c.islist):
            r = it.arr(st, it.content(ref.oid, st))
            it.meta[r.oid]['isarray'] = True
            return r
        return it.alloc(st, E.View(ref.oid, 'same'), roots=roots)
    extra = tuple(S(a) for a in args) + tuple(it.kwnodes(kwargs, st))
    if base in ('ravel', 'reshape', 'squeeze', 'atleast_2d', 'atleast_1d', 'flip', 'expand_dims', 'swapaxes', 'view'):
        if base == 'reshape' and len(extra) == 1 and extra[0].op == 'tuple':
            extra = extra[0].args
        return it.alloc(st, E.View(ref.oid, 'numpy.' + base, extra), roots=roots)
    return it.arr(st, raw('call', 'numpy.' + base, it.content(ref.oid, st), *extra))


def call_method(it, obj, name, args, kwargs, st, fid, module):
    S = lambda v: it.snap(v, st)
    c = st.heap.get(obj.oid) if isinstance(obj, E.Ref) else None
    n = S(obj)

    if name == '__len__':
        return call_ext(it, 'builtins.len', [obj], {}, st, fid, module)
    if name == '__contains__':
        return it.contains(args[0], obj, S(args[0]), n, st)
    if name == '__getitem__':
        return it.getitem(obj, args[0], st)
    if name == '__setitem__':
        it.setitem(obj, args[0], args[1], st)
        return NONE

    # ---- str class methods: str.lower(x)
    if isinstance(obj, E.Ext) and obj.name == 'builtins.str':
        return raw('call', 'str.' + name, *[S(a) for a in args])

    # ---- dict
    if isinstance(c, E.Dct):
        if name == 'items':
            if c.items or c.base is None:
                return E.Tup([E.Tup([const(k) if not isinstance(k, N) else k, v]) for k, v in c.items.items()])
            return raw('items', n)
        if name == 'keys':
            if c.items or c.base is None:
                return E.Tup([const(k) if not isinstance(k, N) else k for k in c.items])
        if name == 'values':
            if c.items or c.base is None:
                return E.Tup(list(c.items.values()))
        if name == 'get':
            k = S(args[0])
            if k.op == 'const':
                if k.args[0] in c.items or (c.base is not None and len(args) == 1):
                    return it.getitem(obj, k, st)
                if c.base is None:
                    return args[1] if len(args) > 1 else NONE
                st2 = st.copy()
                st2.guards = st2.guards + ((raw('in', k, c.base), True),)
                v = it.getitem(obj, k, st2)
                return it.merge_vals(raw('in', k, c.base), v, st, args[1], st, st)
        if name == 'pop':
            k = S(args[0])
            if k.op == 'const':
                if k.args[0] in c.items:
                    v = c.items[k.args[0]]
                elif c.base is not None:
                    v = it.getitem(obj, k, st)
                    if len(args) > 1:
                        v = it.merge_vals(raw('in', k, c.base), v, st, args[1], st, st)
                else:
                    v = args[1] if len(args) > 1 else raw('absent')
                it.mutated(obj, st, 'pop', k)
                c = st.heap[obj.oid]
                items = {a: b for a, b in c.items.items() if a != k.args[0]}
                base = raw('without', c.base, k) if c.base is not None else None
                st.heap[obj.oid] = E.Dct(items, base)
                return v
        if name == 'update':
            it.mutated(obj, st, 'update')
            items = dict(c.items)
            base = c.base
            if args:
                o = args[0]
                oc = st.heap.get(o.oid) if isinstance(o, E.Ref) else None
                if isinstance(oc, E.Dct):
                    for k, v in oc.items.items():
                        if isinstance(v, N) and v.op == 'phi' and ABSENT in v.args[1:]:
                            old = items.get(k, mk('getitem', base, const(k)) if base is not None else ABSENT)
                            cond = v.args[0] if v.args[2] is ABSENT else mk('not', v.args[0])
                            new = v.args[1] if v.args[2] is ABSENT else v.args[2]
                            v = it.merge_vals(cond, new, st, old, st, st)
                        items[k] = v
                    if oc.base is not None:
                        base = raw('dictover', oc.base, base if base is not None else raw('dict'))
                        if not oc.items:
                            items = {k: raw('maybe', S(v), oc.base) for k, v in items.items()}
                else:
                    base = raw('dictover', S(o), base if base is not None else raw('dict'))
            items.update(kwargs)
            st.heap[obj.oid] = E.Dct(items, base)
            return NONE
        if name == 'setdefault':
            k = S(args[0])
            if k.op == 'const':
                if k.args[0] in c.items:
                    return c.items[k.args[0]]
                v = args[1] if len(args) > 1 else NONE
                if c.base is not None:
                    v = it.merge_vals(raw('in', k, c.base), mk('getitem', c.base, k), st, v, st, st)
                it.setitem(obj, k, v, st)
                return v
        if name == 'copy':
            return deepcopy(it, obj, st, False)

    # ---- lists
    if isinstance(c, E.Lst) or (isinstance(c, E.Arr) and c.islist):
        if name == 'append':
            it.mutated(obj, st, 'append', None, None)
            if isinstance(c, E.Lst):
                st.heap[obj.oid] = E.Lst(c.items + (args[0],))
            else:
                st.heap[obj.oid] = E.Arr(raw('append', c.node, S(args[0])), True)
            return NONE
        if name == 'extend':
            it.list_extend(obj, args[0], st)
            return NONE
        if name in ('sort', 'reverse', 'clear', 'remove'):
            it.mutated(obj, st, name)
            node = raw('sorted', n, NONE) if name == 'sort' else raw('call', 'list.' + name, n, *[S(a) for a in args])
            st.heap[obj.oid] = E.Arr(node, True) if name != 'clear' else E.Lst(())
            return NONE
        if name == 'insert' or name == 'pop':
            it.mutated(obj, st, name)
            if isinstance(c, E.Lst) and all(S(a).op == 'const' for a in args[:1]):
                items = list(c.items)
                if name == 'insert':
                    items.insert(S(args[0]).args[0], args[1])
                    st.heap[obj.oid] = E.Lst(items)
                    return NONE
                if items:
                    v = items.pop(*[S(a).args[0] for a in args])
                    st.heap[obj.oid] = E.Lst(items)
                    return v
            st.heap[obj.oid] = E.Arr(raw('call', 'list.' + name, n, *[S(a) for a in args]), True)
            return NONE if name == 'insert' else it.wrap(raw('call', 'list.popped', n, *[S(a) for a in args]), st)
        if name == 'copy':
            return deepcopy(it, obj, st, False)

    # ---- strings / paths
    if name == 'join' and (n.op == 'const' and isinstance(n.args[0], str)):
        conc, _ = it.iterate(args[0], st)
        if conc is not None:
            if n.args[0] == '/':
                return mk('path', *[S(x) for x in conc])
            r = None
            for x in conc:
                r = S(x) if r is None else mk('+', mk('+', r, n) if n.args[0] else r, S(x))
            return r if r is not None else const('')
        return raw('call', 'str.join', n, S(args[0]))
    if name == 'find' and len(args) == 1:
        return raw('find', n, S(args[0]))
    if name == 'count' and len(args) == 1 and n.op in ('str', 'const', '+'):
        return raw('call', 'str.count', n, S(args[0]))
    if name == 'format' and n.op == 'const':
        return raw('fmt', n, *[S(a) for a in args], *it.kwnodes(kwargs, st))
    if name in ('lower', 'upper', 'strip') and not args and n.op == 'const' and isinstance(n.args[0], str):
        return const(getattr(n.args[0], name)())
    if name in ('lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace', 'encode', 'decode', 'zfill'):
        return raw('call', 'str.' + name, n, *[S(a) for a in args])
    if n.op == 'Path':
        if name in ('is_file', 'exists', 'is_dir'):
            it.emit('call', 'pathlib.' + name, st, args=n.args)
            return raw('call', 'pathlib.is_file', n.args[0])
        if name == 'joinpath':
            return raw('Path', mk('path', n.args[0], *[S(a) for a in args]))
        if name in ('resolve', 'absolute', 'expanduser'):
            return n
        if name == 'open':
            return call_ext(it, 'builtins.open', [n.args[0]] + list(args), kwargs, st, fid, module)
        if name == 'as_posix':
            return n.args[0]

    # ---- arrays
    if name == 'copy' and not args:
        return it.arr(st, n)
    if name == 'astype':
        r = it.arr(st, raw('call', 'numpy.astype', n, *[S(a) for a in args]) if S(args[0]) is raw('ext', 'builtins.int') else n)
        it.emit('call', 'astype', st, args=(n,) + tuple(S(a) for a in args))
        return r
    if name == 'sort':
        it.set_content(obj, raw('call', 'numpy.sort', n), st, 'sort') if isinstance(obj, E.Ref) else None
        return NONE
    if name == 'fill' and isinstance(obj, E.Ref):
        it.set_content(obj, mk('store', n, raw('slice', NONE, NONE, NONE), S(args[0])), st, 'fill',
                       raw('slice', NONE, NONE, NONE), S(args[0]))
        return NONE
    if name in ('itemset', 'put', 'resize', 'partition', 'byteswap', 'setflags') and isinstance(obj, E.Ref):
        it.set_content(obj, raw('call', '.' + name, n, *[S(a) for a in args]), st, name)
        return NONE
    if name in E.VIEW_METHODS and isinstance(obj, E.Ref):
        it.emit('call', 'numpy.' + name, st, args=(n,) + tuple(S(a) for a in args))
        return make_view(it, obj, 'numpy.' + name, args, kwargs, st)
    if name == 'flatten':
        r = it.arr(st, raw('call', 'numpy.ravel', mk('T', n) if fortran(it, args, kwargs, st) else n))
        it.meta[r.oid]['isarray'] = True
        return r
    if name in E.NP_METHODS:
        return call_ext(it, 'numpy.' + name, [obj] + list(args), kwargs, st, fid, module)
    if name == 'append' and isinstance(obj, (E.Ref, N)):
        it.emit('badmethod', 'append', st, args=(n,), extra={'kind': 'array'})
    if name == 'update' and isinstance(obj, E.Ref) and isinstance(c, E.Arr):
        o = args[0] if args else None
        if o is not None:
            st.heap[obj.oid] = E.Dct({}, c.node)
            return call_method(it, obj, 'update', args, kwargs, st, fid, module)
    an = tuple(S(a) for a in args)
    kn = tuple(it.kwnodes(kwargs, st))
    node = raw('call', '.' + name, n, *an, *kn)
    if name in ('read', 'seek', 'write', 'readline', 'tell'):
        node = raw('call', '.' + name, n, *an, raw('occurrence', it.uid()))
    it.emit('call', '.' + name, st, args=(n,) + an, kwargs={k.args[0]: k.args[1] for k in kn}, node=node,
            roots=frozenset([obj.oid]) if isinstance(obj, E.Ref) else frozenset(), extra={'obj': obj, 'values': tuple(args)})
    return it.arr(st, node)


def pair_of(it, x, st):
    if isinstance(x, E.Tup) and len(x.items) == 2:
        k, v = x.items
    elif isinstance(x, E.Ref) and isinstance(st.heap.get(x.oid), E.Lst) and len(st.heap[x.oid].items) == 2:
        k, v = st.heap[x.oid].items
    else:
        return None
    return (k.args[0], v) if isinstance(k, N) and k.op == 'const' and isinstance(k.args[0], str) else None

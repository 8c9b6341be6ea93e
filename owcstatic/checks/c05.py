"""C05: quantities are only combined with quantities of the same kind."""
import math

from .. import analyses as A, stages
from ..ir import N, resolve
from ..masks import num
from ..report import Check
from ..roles import KEYS, short
from ..units import ANY, JOIN as JOINS, BIN, GSW, INTERP, PURE, Units, literal, of_key, show, NUMBER

R1, R2, R3, R4, R5, R6 = ('sums and differences are of one kind', 'comparisons are of one kind', 'an exponential is taken of a plain number',
                          'angles are in radians', 'vorticity is latitude over depth', 'functions get the quantities they are for')
R7 = 'quantities are kept under their own name'
TOPO = 'pyowc.data.fetchers:get_topo_grid'
KEEP = (TOPO, 'pyowc.utilities:change_dates', 'pyowc.data.wrangling:interp_climatology',
        'pyowc.core.finders:find_25boxes')
PARAMS = {'get_topo_grid': {'min_long': 'long', 'max_long': 'long', 'min_lat': 'lat', 'max_lat': 'lat'},
          'find_25boxes': {'pn_float_long': 'long', 'pn_float_lat': 'lat'},
          'interp_climatology': {'grid_sal': 'sal', 'grid_theta': 'ptmp', 'grid_pres': 'pres', 'float_sal': 'sal', 'float_theta': 'ptmp',
                                 'float_pres': 'pres'}}


def nodes(it):
    """Every value the run computes with, once, with a place in the source where there is one."""
    seen, todo = set(), []
    for e in it.events:
        vals = list(e.args or ()) + list((e.kwargs or {}).values()) + [g for g, _p in e.guards]
        if isinstance(e.extra, dict):
            vals += list(e.extra.values())
        vals.append(getattr(e, 'node', None))
        todo += [(x, e.loc) for x in vals if isinstance(x, N)]
    while todo:
        x, loc = todo.pop()
        x = resolve(x)
        if x in seen:
            continue
        seen.add(x)
        loc = x.loc or loc
        yield x, loc
        if x.op == 'mu':
            todo += [(y, loc) for y in (x.init, x.next) if y is not None]
        todo += [(y, loc) for y in x.args if isinstance(y, N)]


def degrees(u):
    """A squared distance in degrees mixes latitude and longitude on purpose."""
    return isinstance(u, dict) and set(u) <= {'lat', 'long'} and sum(u.values()) == 2


class Kinds5:
    def __init__(self, c, it, what):
        self.c, self.it, self.what = c, it, what
        self.all = list(nodes(it))
        self.u = Units(n for n, _l in self.all)
        self.done = set()

    def put(self, ok, rule, text, detail, loc):
        key = (rule, text, str(loc), ok)
        if key in self.done:
            return
        self.done.add(key)
        (self.c.ok if ok else self.c.bad if ok is False else self.c.und)(rule, text, detail, loc)

    def same(self, rule, op, a, b, loc):
        u, v = self.u.of(a), self.u.of(b)
        if ANY in (u, v) and u is not None and v is not None:
            return
        if u is None or v is None:
            return
        if u == NUMBER and v == NUMBER:
            return
        text = f"{show(u)} {op} {show(v)}, {self.what}"
        fine = u == v or op == '+' and degrees(u) and degrees(v) or op == 'hypot' and {**u, **v} in ({'lat': 1, 'long': 1}, {'lat': 1}, {'long': 1})
        self.put(fine, rule, text, '' if fine else f"{show(u)} {op} {show(v)}: {str(a)[:120]} {op} {str(b)[:120]}", loc)

    def node(self, n, loc):
        op = n.op
        if op in ('+', '-') and len(n.args) == 2:
            self.same(R1, op, n.args[0], n.args[1], loc)
        elif op in ('<', '<=', '==') and len(n.args) == 2:
            self.same(R2, 'against', n.args[0], n.args[1], loc)
        elif op == '/':
            self.vorticity(n, loc)
        elif op == 'apply':
            self.interp(n, loc)
        elif op == 'store' and len(n.args) > 2:
            self.store(n, loc)
        elif op == 'dict' or op == 'dictover':
            self.names(n, loc)
        elif op == 'call':
            name = n.args[0]
            pos = [a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']
            if name in BIN and BIN[name] in ('+', '-') and len(pos) >= 2:
                self.same(R1, BIN[name], pos[0], pos[1], loc)
            elif name in ('numpy.hypot', 'numpy.maximum', 'numpy.minimum', 'numpy.fmax', 'numpy.fmin') and len(pos) >= 2:
                self.same(R1, 'hypot' if name.endswith('hypot') else 'against', pos[0], pos[1], loc)
            elif name in ('numpy.exp', 'math.exp') and pos:
                u = self.u.of(pos[0])
                if u is not None and u != ANY:
                    self.put(u == NUMBER, R3, f"exponential of {show(u)}, {self.what}", '' if u == NUMBER else str(pos[0])[:200], loc)
            elif name in ('numpy.sin', 'math.sin', 'numpy.cos', 'math.cos', 'numpy.tan', 'math.tan') and pos:
                self.angle(n, pos[0], loc)
            elif name.startswith('gsw') and name.rsplit('.', 1)[-1] in GSW:
                self.gsw(n, pos, loc)
            elif name == 'numpy.interp' and len(pos) == 3:
                self.argument(n, 'numpy.interp', self.u.of(pos[0]), self.u.of(pos[1]), loc)
            elif name in ('numpy.isclose', 'numpy.equal', 'numpy.less', 'numpy.greater', 'numpy.allclose', 'math.isclose') and len(pos) > 1:
                self.same(R2, 'against', pos[0], pos[1], loc)

    def angle(self, n, x, loc):
        u, f = self.u.of(x), self.u.factor(x)
        name = n.args[0].rsplit('.', 1)[-1]
        if u is None or u == ANY:
            self.put(None, R4, f"{name} of something unknown, {self.what}", str(x)[:160], loc)
        elif u not in ({'lat': 1}, {'long': 1}):
            self.put(False, R4, f"{name} of {show(u)}, {self.what}", str(x)[:160], loc)
        elif u == {'long': 1} and name == 'sin':
            self.put(False, R5, f"sine of a longitude, {self.what}", str(x)[:160], loc)
        elif f is None:
            self.put(None, R4, f"{name}, {self.what}", str(x)[:160], loc)
        else:
            ok = abs(abs(f) - math.pi / 180) < 1e-9
            self.put(ok, R4, f"{name} of {show(u)} in {'radians' if ok else f'degrees times {f:.6g}'}, {self.what}", '' if ok else str(x)[:160], loc)

    def vorticity(self, n, loc):
        u, v = self.u.of(n.args[0]), self.u.of(n.args[1])
        if not isinstance(u, dict) or u.get('sinlat') != 1 or len(u) != 1:
            return
        if v is None or v == ANY or v == NUMBER:
            if v is not None and not has_sin(n.args[1]):
                self.put(False, R5, f"divided by {show(v)}, {self.what}", str(n.args[1])[:160], loc)
            return
        if v.get('sinlat'):
            return
        self.put(v == {'z': 1}, R5, f"sine of latitude over {show(v)}, {self.what}", '' if v == {'z': 1} else str(n.args[1])[:160], loc)

    def argument(self, n, name, got, want, loc, extra=''):
        if got is None or want is None or ANY in (got, want):
            return
        self.put(got == want, R6, f"{name} given {show(got)}, made for {show(want)}, {self.what}", '' if got == want else str(n)[:200], loc)

    def interp(self, n, loc):
        f = resolve(n.args[0])
        while f.op == 'call' and f.args[0] == 'numpy.vectorize' and len(f.args) > 1:
            f = resolve(f.args[1])
        if f.op != 'call' or f.args[0] not in INTERP:
            return
        axes = [a for a in f.args[1:] if isinstance(a, N) and a.op != 'kw']
        args = [a for a in n.args[1:] if isinstance(a, N) and a.op != 'kw']
        for k in range(1 if f.args[0].endswith('1d') else 2):
            if k < len(axes) and k < len(args):
                self.argument(n, f"{f.args[0].rsplit('.', 1)[-1]} argument {k + 1}", self.u.of(args[k]), self.u.of(axes[k]), loc)

    def gsw(self, n, pos, loc):
        name = n.args[0].rsplit('.', 1)[-1]
        want, _given = GSW[name]
        surface = len(pos) > 2 and num(pos[2]) == 0
        for k, (w, p) in enumerate(zip(want, pos)):
            u = self.u.of(p)
            if u is None or u == ANY:
                continue
            ok = u == {w: 1} or w == 'temp' and surface and u == {'ptmp': 1} or w == 'ptmp' and surface and u == {'temp': 1}
            self.put(ok, R6, f"{name} given {show(u)} as {w}{' at the surface' if surface else ''}, {self.what}", '' if ok else str(p)[:160], loc)

    def store(self, n, loc):
        v = self.u.of(n.args[2])
        if v is None or v == ANY:
            return
        seen, todo = set(), [n.args[0]]
        while todo:
            b = resolve(todo.pop())
            if b in seen:
                continue
            seen.add(b)
            if b.op == 'mu':
                todo.append(b.init)
            elif b.op == 'phi':
                todo += b.args[1:]
            elif b.op in ('store', 'viewstore', 'append') or b.op == 'call' and b.args[0] in JOINS and len(b.args) > 1:
                x = resolve(b.args[1] if b.op == 'call' else b.args[0])
                todo.append(x.args[0] if b.op == 'call' and x.op in ('list', 'tuple') and x.args else x)
            else:
                u = self.u.of(b)
                if u is None or u == ANY:
                    continue
                self.put(u == v, R7, f"{show(v)} put where {show(u)} is kept, {self.what}", '' if u == v else str(n.args[2])[:160], loc)

    def names(self, n, loc):
        for k, v in stages.entries(n).items():
            k = resolve(k).args[0] if isinstance(k, N) else k
            if not isinstance(k, str) or of_key(k) in (None, NUMBER):
                continue
            u, w = self.u.of(v), of_key(k)
            if u is None or u == ANY or w is None:
                continue
            self.put(u == w, R7, f"{k} holds {show(u)}, {self.what}", '' if u == w else str(v)[:200], loc)


def has_sin(n):
    from ..ir import walk
    return any(x.op == 'call' and str(x.args[0]).endswith('sin') for x in walk(n))


def rule_run(c, it, what):
    k = Kinds5(c, it, what)
    for n, loc in k.all:
        if loc is None or '/plot/' in str(loc):
            continue
        k.node(n, loc)
    for e in it.events:
        if e.kind == 'axiom':
            for p, q in PARAMS.get(e.name.rsplit(':', 1)[-1], {}).items():
                v = (e.extra or {}).get(p)
                if v is None:
                    continue
                u = k.u.of(v)
                if u is not None and u != ANY:
                    k.put(u == {q: 1}, R6, f"{e.name.rsplit(':', 1)[-1]} given {show(u)} as {p}, {what}", '' if u == {q: 1} else str(v)[:160], A.where(e))
        elif e.kind == 'call' and e.name == 'scipy.io.savemat':
            k.names(e.args[1], A.where(e))


def main():
    c = Check('C05', 'quantities are only combined with quantities of the same kind',
              'Units are inferred for every value of the mapping and the calibration runs, from the names under which quantities are read '
              '(latitude, longitude, date, depth, pressure, temperatures, salinity, configured scales) through all calls. Sums, differences '
              'and comparisons must be of one unit, exponentials of plain numbers (so that each squared distance is divided by its own '
              'scale), sines of a latitude in radians over a depth, and interpolations and library functions must get the quantities they '
              'are made for.',
              'Units do not depend on values, so this covers every float, cast and parameter value.')
    for key in ('mapping', 'calib'):
        it = A.run(key, no_inline=KEEP)
        c.covered(it)
        c.rule(rule_run, it, {'mapping': 'mapping', 'calib': 'calibration'}[key])
    return c.finish()

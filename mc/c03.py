# -*- coding: utf-8 -*-
"""
C03  Reorganising a core never changes the system it describes.

States: (orders of the symbol lists, declared partition, eliminated
dissipations) of a core.  Transitions: every move with every index pair, the
linear/nonlinear and mono/multivariate splits and the absorption of linear
dissipation, on the real object.  Breadth-first search to closure (or depth);
every transition is compared with a reference keyed by symbols.
"""
from __future__ import absolute_import, division, print_function

import collections
import copy
import itertools

import sympy
from sympy import Rational

from mc import cores
from mc.cores import sym, val, close
from mc.lib import Result, describe

PROPERTY = 'C03'

SPECS = collections.OrderedDict([
    ('mixed', dict(x=['xa', 'xb', 'xc'], H='xa**2/2+xb**4/4+3*xc**2/2',
                   w=['wa', 'wb', 'wc'], z=['2*wa', 'wb**3', '5*wc'], y=2)),
    ('quadratic coupled', dict(x=['xa', 'xb', 'xc'],
                               H='xa**2+xa*xb+xb**2+xc**4/4+xa', y=2,
                               w=['wa', 'wb'], z=['wa+wa**3', '3*wb'])),
    ('nonlinear coupled', dict(x=['xa', 'xb', 'xc', 'xd'],
                               H='xa**4/4+xa**2*xb**2+xc**2+xd**4',
                               w=['wa'], z=['wa/7'], y=1)),
    ('chain coupled', dict(x=['xa', 'xb', 'xc', 'xd'],
                           H='xa**4/4+xa**2*xd**2+xb**4+xc**4*xd**2',
                           y=1)),
    ('affine', dict(x=['xa', 'xb', 'xc'],
                    H='xa**2/2+xa*3+cosh(xb)+xc**2*2', y=1,
                    w=['wa', 'wb'], z=['2*wa', 'sinh(wb)'])),
    ('laws coupled', dict(w=['wa', 'wb', 'wc'],
                          z=['2*wa+wc', 'wb+wb**3', 'wa/3+5*wc'], y=2,
                          x=['xa'], H='xa**2/2')),
    ('laws coupled nonlinear', dict(w=['wa', 'wb', 'wc'],
                                    z=['wa+wa*wb**2', '2*wb+wb*wa**2', '3*wc'],
                                    y=1, x=['xa'], H='xa**2/2')),
    ('laws coupled mixed', dict(w=['wa', 'wb', 'wc'],
                                z=['2*wa+wb', 'wb**3-wa', '3*wc'],
                                y=1, x=['xa'], H='xa**2/2')),
    ('laws coupled one way', dict(w=['wa', 'wb', 'wc', 'wd'],
                                  z=['5*wa', '2*wb+wc/2', 'wc**3+wc', '3*wd'],
                                  y=1, x=['xa'], H='xa**2/2')),
    ('storage coupled mixed', dict(x=['xa', 'xb', 'xc', 'xd'],
                                   H='xa**2/2+xa*xb+xb**4+xb**2+xc**2+xd**4',
                                   y=1, w=['wa'], z=['wa'])),
    ('kept apart coupled', dict(w=['wa', 'wb', 'wc'],
                                z=['2*wa+wc', 'wb+wb**3', 'wa/3+5*wc'],
                                y=1, x=['xa'], H='xa**2/2', force=['wc'])),
    ('modulated', dict(x=['xa', 'xb'], H='xa**2/2+xb**4/4',
                       w=['wa', 'wb', 'wc'],
                       z=['(1+xa**2)*wa', 'wb**3', '4*wc'],
                       y=1, M='modulated')),
    ('connectors', dict(x=['xa', 'xb'], H='xa**2/2+xb**4/4', w=['wa', 'wb'],
                        z=['wa**3', '2*wb'], y=4, conn=[(1, 3, 2)])),
    ('two connectors', dict(x=['xa'], H='xa**2/2', w=['wa'], z=['2*wa'], y=5,
                            conn=[(1, 3, 2), (2, 0, 5)])),
    ('kept apart', dict(x=['xa', 'xb'], H='xa**2/2+xb**4/4',
                        w=['wa', 'wb', 'wc'], z=['2*wa', '3*wb', '5*wc'],
                        y=1, force=['wb'])),
    ('kept apart nonlinear', dict(x=['xa'], H='xa**2/2', w=['wa', 'wb', 'wc'],
                                  z=['2*wa', 'wb**3', '5*wc'],
                                  y=1, force=['wb'])),
    ('kept apart both', dict(x=['xa'], H='xa**2/2', w=['wa', 'wb', 'wc'],
                             z=['2*wa', 'wb**3', '5*wc'],
                             y=1, force=['wc', 'wb'])),
    ('kept apart all', dict(x=['xa'], H='xa**2/2', w=['wa', 'wb'],
                            z=['2*wa', '3*wb'], y=1, force=['wb', 'wa'])),
    ('parameters', dict(x=['xa', 'xb', 'xc'],
                        H='xa**2/(2*C)+k*xb**4+xc**2*L', free=['C', 'k', 'L', 'R'],
                        w=['wa', 'wb'], z=['R*wa', 'wb**3/R'], y=1)),
    ('no storage', dict(w=['wa', 'wb', 'wc'], z=['2*wa', 'wb**3', '5*wc'], y=2)),
    ('no dissipation', dict(x=['xa', 'xb', 'xc'], H='xa**4+xb**2+xc**4', y=3)),
    ('all linear', dict(x=['xa', 'xb'], H='xa**2+xb**2/3', y=1,
                        w=['wa', 'wb', 'wc'], z=['wa', '2*wb', '3*wc'],
                        M='skew')),
    ('all nonlinear', dict(x=['xa', 'xb'], H='xa**4+xb**6', y=1,
                           w=['wa', 'wb'], z=['wa**3', 'wb**5'], M='skewdiss')),
    ('explicit gradient', dict(x=['xa', 'xb', 'xc'],
                               H='xa**2/2+xb**4/4+3*xc**2/2+xa', y=1,
                               w=['wa'], z=['2*wa'], explicit=True)),
    ('explicit gradient coupled', dict(x=['xa', 'xb', 'xc'], y=1,
                                       H='xa**4+xa**2*xb**2+xc**2',
                                       explicit=True)),
    ('no port', dict(x=['xa', 'xb'], H='xa**4+xb**2', w=['wa', 'wb'],
                     z=['wa**3', 'wb'])),
])

BOUNDS = {'quick': '%i cores (up to 4 storages, 4 dissipations, 5 ports, 2 '
                   'connector pairs); all sequences of 3 operations from the '
                   'initial core, from the split core, from the core split '
                   'twice and from the reduced core' % len(SPECS),
          'thorough': 'the same cores and two larger ones; all sequences of '
                      'operations, to closure of the reachable orders and '
                      'partitions'}
RULE = ('a state is the order of every list with the declared partition and '
        'the eliminated laws; a transition is one call on the real core, '
        'compared with the reference keyed by symbols')

BIG = collections.OrderedDict([
    ('big', dict(x=['xa', 'xb', 'xc', 'xd'],
                 H='xa**2/2+xb**4/4+3*xc**2/2+xb**2*xd**2',
                 w=['wa', 'wb', 'wc', 'wd'],
                 z=['2*wa', 'wb**3', '5*wc+wd', 'wd*3'], y=2)),
    ('big coupled', dict(x=['xa', 'xb', 'xc', 'xd'],
                         H='xa**2/2+xa*xc+xb**4/4+3*xc**2/2+xd**4',
                         w=['wa', 'wb', 'wc'], z=['2*wa', 'wb**3', '5*wc'],
                         y=4, conn=[(0, 2, 3)])),
])


def cases(tier):
    items = []
    specs = SPECS if tier == 'quick' else collections.OrderedDict(
        list(SPECS.items()) + list(BIG.items()))
    for name in specs:
        for first in (['none', 'split', 'mono', 'reduce'] if tier == 'quick'
                      else ['none']):
            items.append({'core': name, 'first': first,
                          'depth': 3 if tier == 'quick' else 99})
    return items


def spread(names, jac, start):
    """names coupled (directly or not) with those in start"""
    out = set(start)
    while True:
        more = {n for n in names for m in out & set(names)
                if jac[n, m] != 0 or jac[m, n] != 0} - out
        if not more:
            return out
        out |= more


def linear(names, jac, symbols):
    """components with constant coefficients, not coupled with another kind"""
    bad = {b for a in names for b in names if jac[a, b].free_symbols & symbols}
    bad |= {a for a in names for b in names if jac[a, b].free_symbols & symbols}
    bad = spread(names, jac, bad)
    return [n for n in names if n not in bad]


class Reference(object):
    """The system as described at the start, keyed by symbol names."""

    def __init__(self, core):
        self.H = core.H
        self.z = cores.laws(core)
        self.M = cores.table(core)
        self.x = [str(s) for s in core.x]
        self.w = [str(s) for s in core.w]
        self.y = [str(s) for s in core.y]
        self.cy = [str(s) for s in core.cy]
        u, cu = cores.pairs(core)
        self.input = {y: u_ for u_, y in u + cu}
        self.is_cy = set(self.cy)
        self.connectors = [(tuple(map(str, c['u'])), tuple(map(str, c['y'])),
                            c['alpha']) for c in core.connectors]
        self.grad = {n: self.H.diff(sym(n)) for n in self.x}
        names = set(self.x + self.w + list(self.input.values()))
        for e in list(self.M.values()) + [self.H] + list(self.z.values()):
            names |= {s.name for s in sympy.sympify(e).free_symbols}
        self.names = names
        self.points = [cores.point(names, 1), cores.point(names, 2)]
        self.cache = {}
        # which laws are linear (by definition: gradient independent of the
        # variables of the same kind, computed here, not by the library)
        self.hess = {(a, b): self.grad[a].diff(sym(b))
                     for a in self.x for b in self.x}
        xs = {sym(n) for n in self.x}
        ws = {sym(n) for n in self.w}
        self.jac = {(a, b): self.z[a].diff(sym(b))
                    for a in self.w for b in self.w}
        self.lin_x = linear(self.x, self.hess, xs)
        self.lin_w = linear(self.w, self.jac, ws)
        self.kept = spread(self.w, self.jac,
                           {str(s) for s in core.force_wnl})

    def reduced(self, gone, k):
        """
        structure seen by the remaining variables at point k when the laws
        `gone` are eliminated: exact rational linear algebra
        """
        key = (tuple(sorted(gone)), k)
        if key not in self.cache:
            env = self.points[k]
            keep = [r for r in self.x + self.w + self.y + self.cy
                    if r not in gone]
            gone_ = sorted(gone)
            M = {ij: val(e, env) for ij, e in self.M.items()}
            # z_gone = Z w_gone
            Z = sympy.Matrix(len(gone_), len(gone_), lambda i, j: val(
                self.z[gone_[i]].diff(sym(gone_[j])), env))
            A = sympy.eye(len(gone_)) - sympy.Matrix(
                len(gone_), len(gone_), lambda i, j: M[gone_[i], gone_[j]])*Z
            B = sympy.Matrix(len(gone_), len(keep),
                             lambda i, j: M[gone_[i], keep[j]])
            W = A.LUsolve(B) if gone_ else B
            C = sympy.Matrix(len(keep), len(gone_),
                             lambda i, j: M[keep[i], gone_[j]])
            add = C*Z*W if gone_ else None
            out = {}
            for i, a in enumerate(keep):
                for j, b in enumerate(keep):
                    out[a, b] = M[a, b] + (add[i, j] if gone_ else 0)
            self.cache[key] = out
        return self.cache[key]


def compare(core, ref, gone):
    """None, or what differs between the core and the reference."""
    x = [str(s) for s in core.x]
    w = [str(s) for s in core.w]
    if sorted(x) != sorted(ref.x):
        return 'states are %s' % x
    if sorted(w) != sorted(set(ref.w) - set(gone)):
        return 'dissipation variables are %s' % w
    u, cu = cores.pairs(core)
    if len(core.u) != len(core.y) or len(core.cu) != len(core.cy):
        return 'unpaired ports'
    if sorted(y for _, y in u) != sorted(ref.y):
        return 'ports are %s' % u
    if sorted(y for _, y in cu) != sorted(ref.cy):
        return 'connectors are %s' % cu
    for a, y in u + cu:
        if ref.input[y] != a:
            return 'output %s is paired with %s' % (y, a)
    got = [(tuple(map(str, c['u'])), tuple(map(str, c['y'])), c['alpha'])
           for c in core.connectors]
    if got != ref.connectors:
        return 'connector descriptions %s' % got
    if core.H != ref.H:
        for env in ref.points:
            if not close(val(core.H, env), val(ref.H, env)):
                return 'energy became %s' % core.H
    z = cores.laws(core)
    for n in w:
        if z[n] != ref.z[n]:
            for env in ref.points:
                if not close(val(z[n], env), val(ref.z[n], env)):
                    return 'law of %s became %s' % (n, z[n])
    g = {n: e for n, e in zip(x, core.dxH())}
    for n in x:
        if g[n] != ref.grad[n]:
            for env in ref.points:
                if not close(val(g[n], env), val(ref.grad[n], env)):
                    return 'gradient for %s is %s' % (n, g[n])
    M = cores.table(core)
    if not gone and all(M[k] == ref.M[k] for k in ref.M):
        return None
    for k, env in enumerate(ref.points):
        want = ref.reduced(gone, k)
        for ij in want:
            if not close(val(M[ij], env), want[ij]):
                return ('entry %s of the structure is %s, expected %s'
                        % (ij, val(M[ij], env), want[ij]))
    return None


def compare_power(core, ref, gone):
    """output and dissipated power, at generic values of x, w, u"""
    for k, env in enumerate(ref.points):
        a = {n: val(ref.grad[n], env) for n in ref.x}
        for n in ref.w:
            a[n] = val(ref.z[n], env)
        for y, u in ref.input.items():
            a[y] = env[u]
        red = ref.reduced(gone, k)
        keep = [r for r in ref.x + ref.w + ref.y + ref.cy if r not in gone]
        out = core.output()
        for y, e in zip(core.y, out):
            want = sum(red[str(y), c]*a[c] for c in keep)
            if not close(val(e, env), want):
                return 'output %s is %s, expected %s' % (y, val(e, env), want)
        if not ref.cy:
            want = sum(env[n]*a[n] for n in ref.w if n not in gone)
            for r in keep:
                for c in keep:
                    want -= a[r]*red[r, c]*a[c]
            got = val(core.pd(), env)
            if not close(got, want):
                return 'dissipated power %s, expected %s' % (got, want)
    return None


def check_split(core, ref, gone):
    """the declared linear part is linear and its coefficients give its laws"""
    nxl, nwl = core.dims.xl(), core.dims.wl()
    if core.dims.xl() + core.dims.xnl() != len(core.x):
        return 'dimensions of the storage parts'
    if core.dims.wl() + core.dims.wnl() != len(core.w):
        return 'dimensions of the dissipation parts'
    xl = [str(s) for s in core.x[:nxl]]
    if sorted(xl) != sorted(ref.lin_x):
        return ('linear storages are declared %s, they are %s'
                % (xl, ref.lin_x))
    if [str(s) for s in core.xl()] != xl:
        return 'xl() is %s' % core.xl()
    if [str(s) for s in core.xnl()] != [str(s) for s in core.x[nxl:]]:
        return 'xnl() is %s' % core.xnl()
    wl = [str(s) for s in core.wl()]
    if wl != [str(s) for s in core.w[:nwl]]:
        return 'wl() is %s' % wl
    ws = {sym(n) for n in ref.w}
    for env in ref.points:
        Q = sympy.Matrix(core.Q)
        if Q.shape != (nxl, nxl):
            return 'Q has shape %s' % (Q.shape,)
        bl = list(core.bl)
        for i, n in enumerate(xl):
            got = sum(val(Q[i, j], env)*env[xl[j]] for j in range(nxl)) \
                + val(bl[i], env)
            if not close(got, val(ref.grad[n], env)):
                return 'Q.x+b gives %s for the gradient of %s' % (got, n)
            for j in range(nxl):
                if sympy.sympify(Q[i, j]).free_symbols & {sym(s) for s in ref.x}:
                    return 'Q depends on the state'
        Zl = sympy.Matrix(core.Zl)
        if nwl and Zl.shape != (nwl, nwl):
            return 'Zl has shape %s' % (Zl.shape,)
        for i, n in enumerate(wl):
            got = sum(val(Zl[i, j], env)*env[wl[j]] for j in range(nwl))
            if not close(got, val(ref.z[n], env)):
                return ('Zl.w gives %s for the law %s of %s'
                        % (got, ref.z[n], n))
    if sorted(wl) != sorted(set(ref.lin_w) - set(gone)):
        return 'linear laws are declared %s, they are %s' % (wl, ref.lin_w)
    for b in core.bl:
        if sympy.sympify(b).free_symbols & {sym(s) for s in ref.x}:
            return 'the coefficients b=%s depend on the state' % core.bl
    return None


def check_mono(core, ref):
    nm = core.dims.xnl_mono()
    xnl = [str(s) for s in core.xnl()]
    if nm < 0 or nm + core.dims.xnl_multi() != len(xnl):
        return 'dimensions of mono/multivariate parts'
    for a in xnl[:nm]:
        for b in xnl:
            if a != b and ref.hess[a, b] != 0:
                return ('%s is declared separable but is coupled with %s'
                        % (a, b))
    return None


def current(core, hist):
    """
    are the declared partition and coefficients those of the last split: only
    moves inside a part since then
    """
    last = max([i for i, h in enumerate(hist) if h in ('split', 'reduce')],
               default=-1)
    if last < 0:
        return False
    for op in hist[last + 1:]:
        if isinstance(op, tuple) and op[0] in ('storage', 'dissipative'):
            n = core.dims.xl() if op[0] == 'storage' else core.dims.wl()
            if (op[1] < n) != (op[2] < n):
                return False
    return True


def canon(core, gone, hist):
    return (current(core, hist),tuple(map(str, core.x)), tuple(map(str, core.w)),
            tuple(map(str, core.y)), tuple(map(str, core.cy)),
            core.dims.xl(), core.dims.wl(), core.dims.xnl_mono(),
            tuple(sorted(gone)))


def moves(core):
    out = []
    for kind, n in (('storage', len(core.x)), ('dissipative', len(core.w)),
                    ('port', len(core.y)), ('connector', len(core.cy))):
        for i, j in itertools.permutations(range(n), 2):
            out.append((kind, i, j))
        if n:
            out.append((kind, n - 1, n - 1))
    return out


ATTR = {'storage': ['x'], 'dissipative': ['w', 'z'], 'port': ['u', 'y'],
        'connector': ['cu', 'cy']}


def step(core, op, ref, gone):
    """apply op; return (error, new gone)"""
    before = {n: [str(s) for s in getattr(core, n)]
              for n in ('x', 'w', 'u', 'y', 'cu', 'cy')}
    if isinstance(op, tuple):
        kind, i, j = op
        getattr(core, 'move_' + kind)(i, j)
        for name in before:
            want = before[name]
            if name in ATTR[kind]:
                want = list(want)
                want.insert(j, want.pop(i))
            if [str(s) for s in getattr(core, name)] != want:
                return ('%s is %s, expected %s' % (name, getattr(core, name),
                                                   want)), gone
    elif op == 'split':
        core.linear_nonlinear()
        err = check_split(core, ref, gone)
        if err:
            return err, gone
    elif op == 'mono':
        core.monovar_multivar()
        err = check_mono(core, ref)
        if err:
            return err, gone
    elif op == 'reduce':
        core.reduce_z()
        left = {str(s) for s in core.w}
        new = set(before['w']) - left
        forced = {str(s) for s in core.force_wnl}
        if new & forced:
            return 'kept-apart %s was absorbed' % (new & forced), gone
        if left & (set(ref.lin_w) - ref.kept):
            return ('linear laws of %s were not absorbed'
                    % (left & (set(ref.lin_w) - ref.kept))), gone
        gone = tuple(sorted(set(gone) | new))
        if core.dims.wl() != 0:
            return 'dims.wl()=%s after absorption' % core.dims.wl(), gone
    return None, gone


def run_case(item):
    res = Result()
    spec = (SPECS if item['core'] in SPECS else BIG)[item['core']]
    core0 = cores.build(spec)
    if spec.get('explicit'):
        core0._dxH = list(core0.dxH())
    ref = Reference(core0)
    err = compare(core0, ref, ())
    if err:
        res.fail('initial', err)
        return res
    # the first operation partitions the search between the items
    if item['first'] == 'none':
        starts = [([], core0, ())]
    else:
        c = copy.copy(core0)
        ops = ['split', 'mono'] if item['first'] == 'mono' else [item['first']]
        gone = ()
        for op in ops:
            err, gone = step(c, op, ref, gone)
            res.transitions += 1
            if err is None:
                err = compare(c, ref, gone) or compare_power(c, ref, gone)
            if err:
                res.fail('%s: %s' % (item['core'], op), err, history=ops)
                return res
        starts = [(ops, c, gone)]
    seen = {}
    queue = collections.deque()
    for hist, c, gone in starts:
        seen[canon(c, gone, hist)] = len(hist)
        queue.append((hist, c, gone))
    expanded = 0
    base = len(starts[0][0])
    while queue:
        hist, core, gone = queue.popleft()
        if len(hist) - base >= item['depth']:
            continue
        expanded += 1
        for op in ['split', 'mono', 'reduce'] + moves(core):
            if op == 'mono' and not hist_split(hist):
                continue
            c = copy.copy(core)
            h = hist + [op]
            res.transitions += 1
            try:
                err, g = step(c, op, ref, gone)
                if err is None:
                    err = compare(c, ref, g)
                if err is None and current(c, h) and not (
                        ref.kept and 'reduce' in h):
                    err = check_split(c, ref, g)
                key = None if err else canon(c, g, h)
                if err is None and key not in seen:
                    err = compare_power(c, ref, g)
            except Exception as e:
                err, g = describe(e), gone
            if err:
                res.fail('%s: %s' % (item['core'],
                                     op if isinstance(op, str) else op[0]),
                         '%s\nhistory %s' % (err, h), history=h)
                return res
            if key not in seen:
                seen[key] = len(h)
                queue.append((h, c, g))
                res.traces += 1
                res.sample = h
    res.states = len(seen)
    res.evaluations = expanded
    res.seen(sorted(seen))
    return res


def hist_split(hist):
    """a mono/multivariate split is meaningful when the partition is current"""
    last = [h for h in hist if h in ('split', 'reduce', 'mono')
            or h[0] == 'storage']
    return bool(last) and last[-1] in ('split', 'mono', 'reduce')

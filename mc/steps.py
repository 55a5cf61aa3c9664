# -*- coding: utf-8 -*-
"""
Time steps of the numerical method (shared by C08 and C09).

The tree of all input sequences is walked on the real Numeric object (its state
is the vector of arguments, saved and restored at each node).  At every node the
equations of the scheme are evaluated here, from the description of the system
alone, with extended precision: nothing of the method, of its lambdified
functions or of its solver is used.
"""
from __future__ import absolute_import, division, print_function

import collections

import mpmath
import numpy
import sympy

from mc import cores
from mc.cores import sym
from mc.lib import quiet

mpmath.mp.dps = 30


def mpfun(args, e):
    return sympy.lambdify([sym(a) for a in args], e, modules='mpmath')


class System(object):
    """A system given by a plain description, and its scheme equations."""

    def __init__(self, spec):
        self.spec = spec
        core = cores.build(spec)
        self.core = core
        self.x = [str(s) for s in core.x]
        self.w = [str(s) for s in core.w]
        self.u = [str(s) for s in core.u]
        self.y = [str(s) for s in core.y]
        self.p = [str(s) for s in core.p]
        self.o = [str(s) for s in core.o()]
        self.g = ['g' + n for n in self.x]
        subs = dict(core.subs)
        for _ in range(4):
            subs = {k: sympy.sympify(v).subs(subs) for k, v in subs.items()}

        def e(x):
            return sympy.sympify(x).subs(subs)
        self.H = e(core.H)
        self.z = [e(x) for x in core.z]
        self.M = core.M.applyfunc(e)
        self.obs = [e(core.observers[k]) for k in core.o()]
        xs = [sym(n) for n in self.x]
        self.hess = sympy.hessian(self.H, xs) if xs else None
        # functions of the state only
        self.fH = mpfun(self.x, self.H)
        self.fgrad = [mpfun(self.x, self.H.diff(s)) for s in xs]
        self.fsecond = [mpfun(self.x, self.H.diff(s).diff(s)) for s in xs]
        args = self.x + self.w + self.u + self.p + self.o + self.g
        self.args = args
        self.fz = [mpfun(args, x) for x in self.z]
        n = self.M.shape[0]
        self.n = n
        self.fM = {(i, j): mpfun(args, self.M[i, j]) for i in range(n)
                   for j in range(n) if self.M[i, j] != 0}
        self.fo = [mpfun(self.x + self.w + self.u + self.p + self.o
                         + ['d' + n for n in self.x], x) for x in self.obs]

    def linear_parts(self):
        """(storages with quadratic energy, separable ones)"""
        xs = {sym(n) for n in self.x}
        n = len(self.x)
        h = self.hess
        group = {i: {i} for i in range(n)}
        for _ in range(n):
            for i in range(n):
                for j in range(n):
                    if h[i, j] != 0:
                        group[i] = group[i] | group[j]
        quad = [i for i in range(n) if not any(
            sympy.sympify(h[a, b]).free_symbols & xs
            for a in group[i] for b in range(n))]
        alone = [i for i in range(n)
                 if all(h[i, j] == 0 for j in range(n) if j != i)]
        return quad, alone

    def groups(self, split):
        """
        (separable indices, nonseparable indices) for the discrete gradient:
        the quadratic part is apart when the method is split
        """
        quad, alone = self.linear_parts()
        apart = quad if split else []
        multi = [i for i in range(len(self.x))
                 if i not in alone and i not in apart]
        return multi

    def unique_gradient(self):
        """is the discrete gradient the same for both partitions"""
        quad, alone = self.linear_parts()
        rest = [i for i in range(len(self.x)) if i not in alone]
        q = [i for i in rest if i in quad]
        return not q or len(q) == len(rest)

    def gradient(self, grad, theta, split, x, dx):
        """the gradient prescribed by the scheme, from x to x+dx"""
        n = len(self.x)
        x = [mpmath.mpf(float(v)) for v in x]
        dx = [mpmath.mpf(float(v)) for v in dx]

        def at(t):
            return [a + t*b for a, b in zip(x, dx)]
        if grad == 'theta':
            return [f(*at(theta)) for f in self.fgrad]
        if grad == 'trapez':
            return [(f(*at(0)) + f(*at(1)))/2 for f in self.fgrad]
        multi = self.groups(split)
        out = [None]*n
        for i in range(n):
            if i not in multi:
                if abs(dx[i]) < 1e-12:
                    out[i] = self.fgrad[i](*x) + self.fsecond[i](*x)*dx[i]/2
                    # quadratic groups: all midpoints
                    mid = self.fgrad[i](*at(0.5))
                    if any(self.hess[i, j] != 0 for j in range(n) if j != i):
                        out[i] = mid
                elif any(self.hess[i, j] != 0 for j in range(n) if j != i):
                    out[i] = self.fgrad[i](*at(0.5))      # quadratic, coupled
                else:
                    xx = list(x)
                    xx[i] = x[i] + dx[i]
                    out[i] = (self.fH(*xx) - self.fH(*x))/dx[i]
        if multi:
            h = [a + (b if i in multi else 0)*mpmath.mpf(0.5)
                 for i, (a, b) in enumerate(zip(x, dx))]
            mid = {i: self.fgrad[i](*h) for i in multi}
            norm2 = sum(dx[i]**2 for i in multi)
            lam = mpmath.mpf(0)
            if norm2 > 1e-24:
                e = [a + (b if i in multi else 0)
                     for i, (a, b) in enumerate(zip(x, dx))]
                lam = (self.fH(*e) - self.fH(*x)
                       - sum(mid[i]*dx[i] for i in multi))/norm2
            for i in multi:
                out[i] = mid[i] + lam*dx[i]
        return out

    def structure(self, grad, theta, x, dx, g, env):
        """M and z evaluated as the scheme prescribes"""
        def at(t):
            e = dict(env)
            for n, a, b, gi in zip(self.x, x, dx, g):
                e[n] = mpmath.mpf(float(a)) + t*mpmath.mpf(float(b))
                e['g' + n] = gi
            v = [e[n] for n in self.args]
            M = {k: f(*v) for k, f in self.fM.items()}
            return M, [f(*v) for f in self.fz]
        if grad == 'trapez':
            (M0, z0), (M1, z1) = at(0), at(1)
            return ({k: (M0[k] + M1[k])/2 for k in M0},
                    [(a + b)/2 for a, b in zip(z0, z1)])
        return at(theta)

    def residual(self, config, new):
        """
        new: values by name after the step (x, dx, w, u, p, o and dxH, z, y).
        Returns [(what, error, scale)].
        """
        grad, theta = config['grad'], config.get('theta', 0.)
        x = [new['x'][n] for n in self.x]
        dx = [new['dx'][n] for n in self.x]
        g = self.gradient(grad, theta, config['split'], x, dx)
        env = {}
        for k in ('w', 'u', 'p', 'o'):
            for n, v in new[k].items():
                env[n] = mpmath.mpf(float(v))
        M, z = self.structure(grad, theta, x, dx, g, env)
        a = list(g) + list(z) + [mpmath.mpf(float(new['u'][n])) for n in self.u]
        fs = config['fs']
        b = [mpmath.mpf(float(v))*fs for v in dx] + \
            [mpmath.mpf(float(new['w'][n])) for n in self.w] + \
            [mpmath.mpf(float(new['y'][n])) for n in self.y]
        out = []
        # rounding of the difference quotient in double precision
        hmax = abs(self.fH(*[mpmath.mpf(float(v)) for v in x])) + 1
        multi = self.groups(config['split'])
        noise = []
        for i in range(len(self.x)):
            d = abs(dx[i]) if i not in multi else max(
                [abs(dx[j]) for j in multi])
            noise.append(float(1e-15*hmax/d) if grad == 'discret' and d > 1e-16
                         else 0.)
        def row(i):
            return (sum((M.get((i, j), 0)*a[j] for j in range(self.n)),
                        mpmath.mpf(0)),
                    sum(abs(M.get((i, j), 0)*a[j]) for j in range(self.n)))
        total = sum(noise)
        names = ['d' + n for n in self.x] + self.w + self.y
        for i in range(self.n):
            r, s = row(i)
            s = float(s + abs(b[i])) + 1.
            out.append(('equation of ' + names[i], float(b[i] - r),
                        s, total*10*(1 + s)))
        for i, n in enumerate(self.x):
            out.append(('gradient for ' + n, float(new['dxH'][n] - g[i]),
                        float(abs(g[i])) + 1, noise[i]*10))
        for i, n in enumerate(self.w):
            out.append(('law of ' + n, float(new['z'][n] - z[i]),
                        float(abs(z[i])) + 1, total*10*(1 + float(abs(z[i])))))
        return out

    def observers(self, before, after):
        """expected observers: evaluated at the start of the step"""
        v = [mpmath.mpf(float(after['x'][n])) for n in self.x] + \
            [mpmath.mpf(float(before['w'][n])) for n in self.w] + \
            [mpmath.mpf(float(after['u'][n])) for n in self.u] + \
            [mpmath.mpf(float(after['p'][n])) for n in self.p] + \
            [mpmath.mpf(float(before['o'][n])) for n in self.o] + \
            [mpmath.mpf(float(before['dx'][n])) for n in self.x]
        return dict(zip(self.o, [f(*v) for f in self.fo]))

    # ---------------------------------------------------------------------

    def numeric(self, config, eps=1e-12, maxit=100):
        from pyphs import Numeric
        keys = ('grad', 'theta', 'split')
        with quiet():
            method = self.core.to_method(
                config={k: config[k] for k in keys if k in config})
            return Numeric(method, config={'fs': config['fs'], 'eps': eps,
                                           'maxit': maxit})


class Run(object):
    """The real Numeric object, seen by names."""

    def __init__(self, system, config):
        self.system = system
        self.config = config
        self.nums = system.numeric(config)
        m = self.nums.method
        self.names = {
            'x': [str(s) for s in m.x], 'w': [str(s) for s in m.w],
            'u': [str(s) for s in m.u], 'p': [str(s) for s in m.p],
            'o': [str(s) for s in m.o()], 'y': [str(s) for s in m.y]}
        self.names['dx'] = self.names['dxH'] = self.names['x']
        self.names['z'] = self.names['w']
        self.zero = numpy.array(self.nums.args)

    def start(self, x0):
        self.nums.args[:] = 0.*self.zero
        self.nums.set_x(numpy.array([float(x0[n]) for n in self.names['x']]))

    def save(self):
        return numpy.array(self.nums.args)

    def restore(self, state):
        self.nums.args[:] = state

    def read(self, initial=False):
        out = {}
        for k in ('x', 'dx', 'w', 'u', 'p', 'o') + (
                () if initial else ('dxH', 'z', 'y')):
            try:
                v = getattr(self.nums, k)()
            except AttributeError:
                v = []
            v = numpy.asarray(v, dtype=float).reshape(-1)
            if len(v) != len(self.names[k]):
                raise AssertionError('%s has %i values for %s'
                                     % (k, len(v), self.names[k]))
            out[k] = collections.OrderedDict(zip(self.names[k], v))
        return out

    def step(self, u, p):
        with quiet():
            self.nums.update(
                u=numpy.array([float(u[n]) for n in self.names['u']]),
                p=numpy.array([float(p[n]) for n in self.names['p']]))


def specs():
    """name -> description; the structures are skew plus (where said) resistive"""
    S = collections.OrderedDict()

    def skew(n, extra=(), diag=()):
        """skew structure with generic entries; extra: {(i,j): text}"""
        t = [['0']*n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                v = ((i + 1)*(j + 2)*5) % 7 - 3
                t[i][j], t[j][i] = str(v), str(-v)
        for (i, j), e in dict(extra).items():
            t[i][j], t[j][i] = '(%s)' % e, '-(%s)' % e
        for i, e in dict(diag).items():
            t[i][i] = e
        return t

    S['linear'] = dict(x=['xa', 'xb'], H='xa**2/2+3*xb**2/2', w=['wa', 'wb'],
                       z=['2*wa', 'wb/3'], y=1, M=skew(5))
    S['linear resistive'] = dict(x=['xa', 'xb'], H='xa**2/2+3*xb**2/2',
                                 w=['wa'], z=['2*wa'], y=2,
                                 M=skew(5, diag={0: '-1/2', 3: '-3'}))
    S['separable'] = dict(x=['xa', 'xb'], H='xa**4/4+xa**2/2+cosh(xb)',
                          w=['wa', 'wb'], z=['wa', 'wb+wb**3'], y=1, M=skew(5))
    S['mixed'] = dict(x=['xa', 'xb', 'xc'], H='xa**4/4+xa**2+xb**2/2+2*xc**2',
                      w=['wa', 'wb'], z=['wa+wa**3/3', 'wb*2'], y=1, M=skew(6))
    S['mixed permuted'] = dict(x=['xb', 'xc', 'xa'],
                               H='xa**4/4+xa**2+xb**2/2+2*xc**2',
                               w=['wb', 'wa'], z=['wb*2', 'wa+wa**3/3'], y=1,
                               M=skew(6))
    S['coupled quadratic'] = dict(x=['xa', 'xb', 'xc'],
                                  H='xa**2+xa*xb+xb**2+xc**4/4+xc**2/2',
                                  w=['wa'], z=['wa'], y=1, M=skew(5))
    S['coupled'] = dict(x=['xa', 'xb'], H='xa**2/2+xa**2*xb**2/2+xb**2/2',
                        w=['wa'], z=['wa'], y=1, M=skew(4))
    S['coupled and separable'] = dict(
        x=['xa', 'xb', 'xc', 'xd'],
        H='xa**2/2+xa**2*xc**2/2+xc**2/2+xb**4/4+xb**2/2+xd**2',
        w=['wa'], z=['wa'], y=1, M=skew(6))
    S['coupled first'] = dict(
        x=['xd', 'xa', 'xb', 'xc'],
        H='xa**2/2+xa**2*xc**2/2+xc**2/2+xb**4/4+xb**2/2+xd**2',
        w=['wa'], z=['wa'], y=1, M=skew(6))
    S['affine'] = dict(x=['xa', 'xb'], H='xa**2/2+xa*3+cosh(xb)',
                       w=['wa'], z=['wa'], y=1, M=skew(4))
    S['modulated structure'] = dict(
        x=['xa', 'xb'], H='xa**2/2+xb**2', w=['wa'], z=['wa'], y=1,
        M=skew(4, {(0, 1): '1+xa/2', (1, 2): '2-xb/4'}))
    S['modulated law'] = dict(
        x=['xa', 'xb'], H='xa**2/2+xb**2', w=['wa', 'wb'],
        z=['(1+xa**2)*wa', '(2+xb**2)*wb**3+wb'], y=1, M=skew(5))
    S['modulated and nonlinear'] = dict(
        x=['xa', 'xb', 'xc'], H='xa**2/2+xb**4/4+xb**2/2+xc**2', w=['wa'],
        z=['(1+xc**2)*wa+wa**3'], y=1,
        M=skew(5, {(0, 2): '1+xb/2', (1, 3): '2-xa/4'}))
    S['coupled and modulated'] = dict(
        x=['xa', 'xb', 'xc'], H='xa**2+xa*xb+xb**2+xc**2/2', w=['wa'],
        z=['2*wa'], y=1, M=skew(5, {(2, 3): '1+xa/2'}))
    S['coupled and modulated 2'] = dict(
        x=['xc', 'xb', 'xa', 'xd'],
        H='xa**2+xa*xb+xb**2+xc**2/2+xd**4/4+xd**2/2', w=['wa'],
        z=['2*wa'], y=1, M=skew(6, {(0, 4): '1+xa/2'}))
    S['gradient in structure'] = dict(
        x=['xa', 'xb'], H='xa**2/2+xb**4/4+xb**2/2', w=['wa'], z=['wa'], y=1,
        free=['gxa', 'gxb'], M=skew(4, {(0, 2): '1+gxb/2'}))
    S['gradient in law'] = dict(
        x=['xa', 'xb'], H='xa**2/2+xb**2', w=['wa'], z=['(1+gxa**2)*wa'], y=1,
        free=['gxa', 'gxb'], M=skew(4))
    S['observers'] = dict(
        x=['xa', 'xb'], H='xa**2/2+xb**2', w=['wa'], z=['(1+o1**2)*wa'], y=1,
        obs={'o1': 'xa*2', 'o2': 'u0+xb'}, M=skew(4, {(0, 1): '1+o2/2'}))
    S['parameters'] = dict(
        x=['xa', 'xb'], H='xa**2/2+xb**4/4+xb**2', w=['wa', 'wb'],
        z=['(1+p1**2)*wa', 'R*wb'], p=['p1', 'p2'], par={'R': 3.}, y=1,
        M=skew(5, {(0, 2): '1+p2/2'}))
    S['substitutions'] = dict(
        x=['xa', 'xb'], H='xa**2/(2*C)+xb**4/4+L*xb**2', w=['wa'],
        z=['R*wa'], par={'R': 3., 'C': 'R/2', 'L': 'C*R'}, y=1, M=skew(4))
    S['no storage'] = dict(w=['wa', 'wb'], z=['2*wa', 'wb+wb**3'], y=2, M=skew(4))
    S['no dissipation'] = dict(x=['xa', 'xb', 'xc'],
                               H='xa**4/4+xa**2+xb**2+xc**2/3', y=1, M=skew(4))
    S['no port'] = dict(x=['xa', 'xb'], H='xa**4/4+xa**2+xb**2', w=['wa'],
                        z=['wa+wa**3'], M=skew(3))
    S['two ports'] = dict(x=['xa'], H='xa**2/2', w=['wa', 'wb'],
                          z=['wa', '2*wb+wb**3'], y=2, M=skew(5))
    S['rational'] = dict(x=['xa', 'xb'], H='log(1+xa**2)+xb**2/2', w=['wa'],
                         z=['wa/(1+wa**2)+wa'], y=1, M=skew(4))
    S['coupled laws'] = dict(x=['xa', 'xb'], H='xa**2/2+xb**2', w=['wa', 'wb'],
                             z=['2*wa+wb', 'wa+3*wb+wb**3'], y=1, M=skew(5))
    return S


def configs(tier):
    out = []
    fss = [40., 1000.]
    for fs in fss:
        for split in (False, True):
            for theta in (0., 0.5, 1.):
                out.append(dict(grad='discret', theta=theta, split=split, fs=fs))
            for theta in (0., 0.5, 1.):
                out.append(dict(grad='theta', theta=theta, split=split, fs=fs))
            out.append(dict(grad='trapez', theta=0., split=split, fs=fs))
    return out


STARTS = [0., 0.3, -0.7]
INPUTS = [0., 1., -0.5]
PARAMS = [0., 1., -0.5]


def tree(run, x0, depth, visit):
    """
    all input sequences of the given length; visit(run, history, before, after)
    returns True to go on below the node.  Returns the number of steps.
    """
    s = run.system
    run.start(x0)
    steps = 0
    stack = [(run.save(), run.read(initial=True), ())]
    while stack:
        state, before, hist = stack.pop()
        if len(hist) >= depth:
            continue
        inputs = INPUTS if s.u else [0.]
        for k, v in enumerate(inputs):
            run.restore(state)
            u = {n: v*(1 - 0.5*i) for i, n in enumerate(s.u)}
            p = {n: PARAMS[(len(hist) + i + k) % 3] for i, n in enumerate(s.p)}
            run.step(u, p)
            after = run.read()
            steps += 1
            h = hist + ((v, p),)
            if visit(run, h, u, p, before, after):
                stack.append((run.save(), after, h))
    return steps

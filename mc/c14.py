# -*- coding: utf-8 -*-
"""
C14 - components of the dictionary.

For every component, every assignment of forms (number, (name, value), free
name, default) to its parameters, every choice of names that are also names of
other parameters of the component, and every point of a grid of parameter and
variable values, the laws of the real component are evaluated and compared with
the documented characteristic written here; energy, dissipated power,
orientation of the edges, parameters and substitutions are monitored.
"""
from __future__ import absolute_import, division, print_function

import copy
import importlib
import itertools
import math
import os

import numpy
import sympy

from pyphs import Graph
from mc.lib import Result, describe, scratch_dir

PROPERTY = 'C14'
BOUNDS = {
    'quick': '30 components; parameter values 3 per parameter; all '
             'assignments of 4 forms (components with 4 parameters or fewer) '
             'or of 2 neighbours with special forms; all names taken from the other '
             'parameters, single, paired and permuted; 9 to 13 values per '
             'variable; piecewise-linear data: 96 tables, 4 selections of the values; fractional '
             'calculus: 4 components x 4 orders; beams: 3',
    'thorough': 'same with 5 values per parameter, all assignments of forms '
                'for every component, finer grids',
}
RULE = ('law of the component = documented law, for every form of the '
        'parameters; H >= 0, power >= 0')
ASSUMPTIONS = ['parameters are positive, exponents and quality factors within '
               'the documented range',
               'the variables stay in the domain of the law (saturation)']
MAXTASKS = 20

LIN = [-3., -1.5, -1., -.5, -.01, 0., .01, .5, 1., 1.5, 3.]
SAT = [-.95, -.5, -.1, -.01, 0., .01, .1, .5, .95]
VOLT = [-1., -.3, -.1, -.01, 0., .01, .1, .3, .6]
GMIN = 1e-12


def _tri(p, v):
    """documented model (Koren), zero for a non-positive plate voltage"""
    vpk, vgk = v
    e = p['Kp']*(1/p['mu'] + (vgk + p['Vct'])/math.sqrt(p['Kvb'] + vpk**2))
    e1 = vpk/p['Kp']*(e if e > 50 else math.log1p(math.exp(e)))
    return 2*e1**p['Ex']/p['Kg'] if e1 > 0 else 0.


def _bjt(p, v):
    i = [p['Is']*(math.exp(e/(p['mu']*p['Vt'])) - 1) for e in v]
    return [(p['betaR']+1)/p['betaR']*i[0] - i[1],
            (p['betaF']+1)/p['betaF']*i[1] - i[0]]


def _sat(k, s, xs):
    def law(x):
        t = math.pi*x/(2*xs)
        return k*(x + s*4/(4 - math.pi)*(math.tan(t) - t))
    return law


def S(edge, ctrl, law, grid, zero=True):
    return dict(kind='storage', edge=edge, ctrl=ctrl, law=law, grid=grid,
                zero=zero)


def D(edge, e, f, ge, gf):
    return dict(kind='dissipative', edge=edge, e=e, f=f, ge=ge, gf=gf)


def lin_s(ctrl, inv, par, nodes=('N1', 'N2')):
    def laws(p):
        k = 1/p[par] if inv else p[par]
        return [S(nodes, ctrl, lambda x: k*x, LIN)]
    return laws


def lin_d(par, inv=False):
    """flux = effort/coefficient, or flux = coefficient*effort when inv"""
    def laws(p):
        r = 1/p[par] if inv else p[par]
        return [D(('N1', 'N2'), lambda e: e/r, lambda f: r*f, LIN, LIN)]
    return laws


def cubic(ctrl):
    def laws(p):
        return [S(('N1', 'N2'), ctrl,
                  lambda x: p['F1']*x/p['xref'] + p['F3']*(x/p['xref'])**3,
                  [v*p['xref'] for v in LIN])]
    return laws


def saturating(ctrl, k, s, xs, inv=False):
    def laws(p):
        return [S(('N1', 'N2'), ctrl,
                  _sat(1/p[k] if inv else p[k], p[s], p[xs]),
                  [v*p[xs] for v in SAT])]
    return laws


def felt(ctrl):
    def laws(p):
        c = 'N3' if ctrl == 'f' else 'N2'
        return [S(('N1', c), ctrl,
                  lambda q: p['F']*(max(q, 0.)/p['L'])**p['B'],
                  [v*p['L'] for v in LIN])]
    return laws


def diode(p):
    v = p['mu']*p['v0']
    return [D(('N1', '.'), lambda e: p['Is']*(math.exp(e/v) - 1),
              lambda f: v*math.log(f/p['Is'] + 1),
              [x*v for x in (-5, -1, -.1, 0, .1, 1, 5, 20)],
              [x*p['Is'] for x in (-.9, -.5, 0, .5, 5, 1e3, 1e6)]),
            D(('.', 'N2'), lambda e: e/p['R'], lambda f: p['R']*f, LIN, LIN),
            D(('N1', '.'), lambda e: e*GMIN, lambda f: f/GMIN, LIN, LIN)]


def pot(p):
    r1 = 1 + p['R']*p['A']**p['E']
    r2 = 1 + p['R']*(1 - p['A']**p['E'])
    return [D(('N1', 'N2'), lambda e: e/r1, lambda f: r1*f, LIN, LIN),
            D(('N2', 'N3'), lambda e: e/r2, lambda f: r2*f, LIN, LIN)]


def bjt_r(p):
    return [D((n, '.'), lambda e, r=p[r]: e/r, lambda f, r=p[r]: r*f, LIN, LIN)
            for n, r in (('Nb', 'Rb'), ('Nc', 'Rc'), ('Ne', 'Re'))]


def exp_s(p):
    return [S(('#', 'T'), 'f', lambda x: p['T0']*math.exp(x/p['C']),
              [v*p['C'] for v in LIN], zero=False)]


# dictionary, component, parameters {name: default}, laws of single edges
# (documented), indices of the laws in the component when not all of them
def C(d, c, pars, laws, nodes=('N1', 'N2'), label='comp', many=None,
      fix=None):
    return dict(d=d, c=c, pars=pars, laws=laws, nodes=nodes, label=label,
                many=many, fix=fix or {})


COMPONENTS = [
    C('electronics', 'Resistor', {'R': 1e3}, lin_d('R')),
    C('electronics', 'Capacitor', {'C': 1e-9}, lin_s('f', True, 'C')),
    C('electronics', 'Inductor', {'L': 1e-3}, lin_s('e', True, 'L')),
    C('electronics', 'Diode', {'Is': 2e-9, 'mu': 1.7, 'R': .5, 'v0': 26e-3},
      diode),
    C('electronics', 'Potentiometer', {'R': 1e5, 'A': .3, 'E': 1.}, pot,
      nodes=('N1', 'N2', 'N3'), fix={'A': [.3, .01, .99]}),
    C('electronics', 'Bjt', {'Is': 1e-12, 'betaR': 10., 'betaF': 200.,
                             'Vt': 26e-3, 'mu': 1., 'Rb': 20., 'Rc': .1,
                             'Re': .1}, bjt_r, nodes=('Nb', 'Nc', 'Ne'),
      many='bjt', fix={'mu': [1., 1.5, 2.], 'betaR': [10., 2., 20.],
                       'betaF': [200., 20., 500.]}),
    C('electronics', 'Triode', {'mu': 88., 'Ex': 1.4, 'Kg': 1060., 'Kp': 600.,
                                'Kvb': 300., 'Vct': .5, 'Va': .33,
                                'Rgk': 3e3}, lambda p: [],
      nodes=('Nk', 'Np', 'Ng'), many='triode',
      fix={'mu': [88., 20., 100.], 'Ex': [1.4, 1.2, 1.5],
           'Kp': [600., 80., 900.], 'Va': [.33, .2, .5],
           'Kvb': [300., 50., 1e3]}),
    C('magnetics', 'Resistor', {'R': 1e-3}, lin_d('R')),
    C('magnetics', 'Capacitor', {'C': 1e-9}, lin_s('f', True, 'C')),
    C('magnetics', 'Capacitorsat', {'C0': 1e3, 'Csat': 1e3, 'phisat': .1},
      saturating('f', 'C0', 'Csat', 'phisat', True)),
    C('mechanics', 'Mass', {'M': 1e-2}, lin_s('f', True, 'M', ('#', 'N1')),
      nodes=('N1',)),
    C('mechanics', 'Stiffness', {'K': 1e3}, lin_s('e', False, 'K')),
    C('mechanics', 'Damper', {'A': 1.}, lin_d('A', True)),
    C('mechanics', 'Springcubic', {'F1': 10., 'F3': 10., 'xref': 1e-2},
      cubic('e')),
    C('mechanics', 'Springsat', {'K0': 1e3, 'Ksat': 1e3, 'xsat': 1e-2},
      saturating('e', 'K0', 'Ksat', 'xsat')),
    C('mechanics', 'Felt', {'L': 1e-2, 'F': 10., 'A': 1e2, 'B': 2.5},
      felt('e'), many='felt', fix={'B': [2.5, 1.5, 3.]}),
    C('mechanics_dual', 'Mass', {'M': 1e-2}, lin_s('e', True, 'M')),
    C('mechanics_dual', 'Stiffness', {'K': 1e3}, lin_s('f', False, 'K')),
    C('mechanics_dual', 'Damper', {'A': 1.}, lin_d('A')),
    C('mechanics_dual', 'Springcubic', {'F1': 10., 'F3': 10., 'xref': 1e-2},
      cubic('f')),
    C('mechanics_dual', 'Springsat', {'K0': 1e3, 'Ksat': 1e3, 'xsat': 1e-2},
      saturating('f', 'K0', 'Ksat', 'xsat')),
    C('mechanics_dual', 'Felt', {'L': 1e-2, 'F': 10., 'A': 1e2, 'B': 2.5},
      felt('f'), many='felt', fix={'B': [2.5, 1.5, 3.]}),
    C('thermics', 'Capacitor', {'C': 1e3, 'T0': 273.16}, exp_s,
      nodes=('T',), label='T'),
    C('thermics', 'Transfer', {'R': 1e3}, lambda p: [], nodes=('T1', 'T2'),
      many='transfer'),
    C('connectors', 'Gyrator', {'alpha': 1.}, lambda p: [],
      nodes=('A1', 'A2', 'B1', 'B2'), many='connector'),
    C('connectors', 'Transformer', {'alpha': 1.}, lambda p: [],
      nodes=('A1', 'A2', 'B1', 'B2'), many='connector'),
]
# default values that are names (free parameters)
FREE_DEFAULT = {('Potentiometer', 'A'): 'alpha'}


def klass(spec):
    return getattr(importlib.import_module('pyphs.dictionary.' + spec['d']),
                   spec['c'])


def close(a, b, tol=1e-9, scale=0.):
    return abs(a - b) <= tol*max(abs(a), abs(b), scale)


class Numbers(object):
    """numerical functions of the expressions of a component"""

    def __init__(self, comp, args, values):
        core = comp.core
        self.subs = dict(core.subs)
        for k, form in args.items():
            if isinstance(form, str):
                self.subs[core.symbols(form)] = values[k]
        self.core = core

    def function(self, expr, variables):
        expr = sympy.sympify(expr)
        for _ in range(4):
            if not expr.free_symbols.intersection(self.subs):
                break
            expr = expr.subs(self.subs, simultaneous=True)
        left = expr.free_symbols - set(variables)
        if left:
            raise ValueError('symbols left in a law: %s' % sorted(
                map(str, left)))
        return sympy.lambdify(list(variables), expr, modules='math')


def arguments(forms, values, names):
    args = {}
    for k, f in forms.items():
        if f == 'n':
            args[k] = values[k]
        elif f == 't':
            args[k] = (names[k], values[k])
        elif f == 's':
            args[k] = names[k]
    return args


def place(name, nodes, given, label):
    """node expected at one end of an edge; '.' is an internal node"""
    if name == '#':
        return '#'
    if name in nodes:
        return given[nodes.index(name)]
    return None


def check(res, spec, forms, values, names, key):
    """build the component and check its laws; values: effective values"""
    args = arguments(forms, values, names)
    what = '%s.%s(%s)' % (spec['d'], spec['c'], ', '.join(
        '%s=%r' % (k, args[k]) for k in sorted(args)))
    res.transitions += 1
    res.states += 1
    try:
        given = copy.deepcopy(args)
        comp = klass(spec)(spec['label'], spec['nodes'], **args)
        if args != given:
            res.fail(key + ' arguments', what + ' changed its arguments')
        bad = judge(res, spec, comp, args, values, forms)
    except Exception as e:
        bad = describe(e)
    res.seen(what, bad)
    if bad:
        res.fail('%s %s.%s' % (key, spec['d'], spec['c']),
                 '%s: %s' % (what, bad), args=repr(args))


def judge(res, spec, comp, args, values, forms):
    core = comp.core
    # names and values known by the core
    free = sorted(set(v for v in args.values() if isinstance(v, str)))
    for k in forms:
        if forms[k] == 'd' and (spec['c'], k) in FREE_DEFAULT:
            free.append(FREE_DEFAULT[spec['c'], k])
            args = dict(args)
            args[k] = FREE_DEFAULT[spec['c'], k]
    got = [str(s) for s in core.p]
    if sorted(got) != sorted(free):
        return 'parameters %s instead of %s' % (got, sorted(free))
    for v in args.values():
        if isinstance(v, tuple):
            s = core.symbols(v[0])
            if not close(float(core.subs.get(s, float('nan'))), v[1]):
                return 'substitution of %s: %s' % (s, core.subs.get(s))
    num = Numbers(comp, args, values)
    edges = {str(d['label']): (a, b, d)
             for a, b, d in comp.edges(data=True)}
    want = spec['laws'](values)
    n = {'storage': 0, 'dissipative': 0}
    skip = 2 if spec['many'] == 'bjt' else 0
    for law in want:
        if law['kind'] == 'storage':
            var = core.x[n['storage']]
            n['storage'] += 1
        else:
            var = core.w[skip + n['dissipative']]
            n['dissipative'] += 1
        a, b, data = edges[str(var)]
        for node, end in zip(law['edge'], (a, b)):
            exp = place(node, spec['nodes'], spec['nodes'], spec['label'])
            if exp is None:
                if end in spec['nodes'] or end == '#':
                    return 'edge of %s: %s -> %s' % (var, a, b)
            elif end != exp:
                return 'edge of %s: %s -> %s' % (var, a, b)
        if data['type'] != law['kind']:
            return 'type of %s: %s' % (var, data['type'])
        if law['kind'] == 'storage':
            if data['ctrl'] != law['ctrl']:
                return 'control of %s: %s' % (var, data['ctrl'])
            bad = storage(res, num, core, var, law)
        else:
            bad = dissipative(res, num, core, var, law, data)
        if bad:
            return bad
    total_x = len(core.x)
    if total_x != n['storage']:
        return 'storages %s' % core.x
    if spec['many']:
        return globals()['many_' + spec['many']](res, spec, comp, num, values,
                                                 edges)
    if len(core.w) != n['dissipative']:
        return 'dissipations %s' % core.w
    return None


def storage(res, num, core, var, law):
    H = num.function(core.H, [var])
    g = num.function(sympy.diff(core.H, var), [var])
    if law['zero'] and abs(H(0.)) > 1e-12*max(abs(H(v)) for v in law['grid']):
        return 'H(0) = %g' % H(0.)
    top = max(abs(law['law'](v)) for v in law['grid'])
    for v in law['grid']:
        res.evaluations += 1
        if not H(v) >= -1e-12*abs(H(law['grid'][0])):
            return 'H(%g) = %g' % (v, H(v))
        if not close(g(v), law['law'](v), 1e-7, 1e-3*top):
            return 'law of %s at %g: %g instead of %g' % (
                var, v, g(v), law['law'](v))
    return None


def dissipative(res, num, core, var, law, data):
    ze = num.function(data['z']['e_ctrl'], [var])
    zf = num.function(data['z']['f_ctrl'], [var])
    zc = num.function(core.z[core.w.index(var)], [var])
    for name, z, ref, grid in (('effort', ze, law['e'], law['ge']),
                               ('flux', zf, law['f'], law['gf'])):
        for v in grid:
            res.evaluations += 1
            if not close(z(v), ref(v), 1e-8):
                return '%s-controlled law of %s at %g: %g instead of %g' % (
                    name, var, v, z(v), ref(v))
            if z(v)*v < 0:
                return 'power of %s at %g' % (var, v)
            other = zf if name == 'effort' else ze
            try:
                back = other(z(v))
            except (OverflowError, ValueError):
                continue
            if not close(back, v, 1e-5, 1e-6*max(map(abs, grid))):
                return 'controls of %s: %g comes back as %g' % (var, v, back)
    same = [z for z, g in ((ze, law['ge']), (zf, law['gf']))
            if all(close(z(v), zc(v), 1e-8) for v in g
                   if defined(zc, v))]
    if not same:
        return 'law of %s in the core is none of those of the edge' % var
    return None


def defined(f, v):
    try:
        f(v)
        return True
    except (ValueError, OverflowError, ZeroDivisionError):
        return False


def ends(edges, var, a, b):
    got = edges[str(var)][:2]
    return None if got == (a, b) else 'edge of %s: %s -> %s' % (
        (var,) + tuple(got))


def many_bjt(res, spec, comp, num, p, edges):
    core = comp.core
    w = core.w[:2]
    z = [num.function(e, w) for e in core.z[:2]]
    inner = [edges[str(v)][1] for v in core.w[2:]]
    bad = ends(edges, w[0], inner[0], inner[1]) or ends(
        edges, w[1], inner[0], inner[2])
    if bad:
        return bad
    if len(core.w) != 5:
        return 'dissipations'
    top = .7 if p['mu']*p['Vt'] > .02 else .4
    for v in itertools.product([-3., -.5, -.1, 0., .1, .3, top], repeat=2):
        res.evaluations += 1
        got = [f(*v) for f in z]
        ref = _bjt(p, v)
        # documented law up to the minimal conductance of the library
        slack = [GMIN*3*(abs(v[0]) + abs(v[1])) + 1e-24 for _ in v]
        for a, b, s in zip(got, ref, slack):
            if abs(a - b) > s + 1e-9*max(abs(b), abs(ref[0]), abs(ref[1])):
                return 'currents at %s: %s instead of %s' % (v, got, ref)
        if sum(a*b for a, b in zip(got, v)) < -1e-24:
            return 'power at %s' % (v,)
    for var, i in zip(w, range(2)):
        e = num.function(edges[str(var)][2]['z']['e_ctrl'], w)
        if not close(e(.1, .2), z[i](.1, .2)):
            return 'law of the edge of %s' % var
    return None


def many_triode(res, spec, comp, num, p, edges):
    core = comp.core
    w = core.w
    z = [num.function(e, w) for e in core.z]
    bad = ends(edges, w[0], 'Np', 'Nk') or ends(edges, w[1], 'Ng', 'Nk')
    if bad or len(w) != 2:
        return bad or 'dissipations'
    for v in itertools.product([-100., -1., -1e-3, 0., 1., 50., 300.],
                               [-10., -1., -.1, 0., .2, 1., 10.]):
        res.evaluations += 1
        if p['Kp']*(1/p['mu'] + (v[1] + p['Vct'])/math.sqrt(
                p['Kvb'] + v[0]**2)) > 600:
            continue            # out of the range of the exponential
        got = [f(*v) for f in z]
        ref = _tri(p, v)
        if any(isinstance(g, complex) or g != g for g in got):
            return 'undefined current at %s: %s' % (v, got)
        if abs(got[0] - ref) > 1e-7*abs(ref) + 1e-15 + \
                2*GMIN*(abs(v[0]) + abs(v[1])):
            return 'plate current at %s: %s instead of %s' % (v, got[0], ref)
        if v[1] < p['Va'] and abs(got[1]) > 2*GMIN*(abs(v[0]) + abs(v[1])):
            return 'grid current %s at %s' % (got[1], v)
        if v[1] > p['Va'] and not got[1] > 0:
            return 'grid current %s at %s' % (got[1], v)
        if got[0]*v[0] + got[1]*v[1] < -1e-15:
            return 'power at %s' % (v,)
    return None


def many_felt(res, spec, comp, num, p, edges):
    core = comp.core
    q, w = core.x[0], core.w[0]
    ctrl = 'e' if spec['d'] == 'mechanics' else 'f'
    a, b, data = edges[str(w)]
    sa, sb, _ = edges[str(q)]
    if ctrl == 'e' and (a, b) != (sa, sb):
        return 'spring and damper are not in parallel'
    if ctrl == 'f' and (a, b) != (sb, 'N2'):
        return 'spring and damper are not in series'
    if data['ctrl'] != ctrl:
        return 'control of the damper'
    z = num.function(data['z'][ctrl + '_ctrl'], [q, w])
    zc = num.function(core.z[0], [q, w])
    for v in itertools.product([e*p['L'] for e in LIN], LIN):
        res.evaluations += 1
        # linear in the velocity, zero without contact, proportional to
        # A*c**(B-1)
        c = max(v[0], 0.)/p['L']
        unit = z(p['L'], 1.)
        if not unit > 0 or not close(unit*p['B'], p['A']*p['L'], 1e-8) and \
                not close(unit*p['B'], p['A'], 1e-8):
            return 'damping coefficient %g' % unit
        if not close(z(*v), unit*c**(p['B']-1)*v[1], 1e-8):
            return 'damping at %s: %g' % (v, z(*v))
        if z(*v)*v[1] < 0 or not close(z(*v), zc(*v)):
            return 'power of the damper at %s' % (v,)
    return None


def many_transfer(res, spec, comp, num, p, edges):
    core = comp.core
    w = core.w
    t = [core.symbols('gx' + n) for n in spec['nodes']]
    bad = ends(edges, w[0], '#', 'T1') or ends(edges, w[1], '#', 'T2')
    if bad or len(w) != 2:
        return bad or 'dissipations'
    z = [num.function(e, list(w) + t) for e in core.z]
    for v in itertools.product([1., 273., 300., 1000.], repeat=2):
        res.evaluations += 1
        got = [f(*(v + v)) for f in z]
        ref = [p['R']*(v[0]-v[1])/v[0], p['R']*(v[1]-v[0])/v[1]]
        if not all(close(a, b) for a, b in zip(got, ref)):
            return 'entropy flows at %s: %s instead of %s' % (v, got, ref)
        if abs(sum(a*b for a, b in zip(got, v))) > 1e-9*p['R']*1e3:
            return 'energy is not conserved at %s' % (v,)
        if sum(got) > 0:
            return 'entropy decreases at %s' % (v,)
    return None


def many_connector(res, spec, comp, num, p, edges):
    core = comp.core
    if len(core.connectors) != 1 or len(comp.edges) != 2:
        return 'connectors %s' % core.connectors
    c = core.connectors[0]
    got = num.function(c['alpha'], [])()
    if not close(got, p['alpha']):
        return 'ratio %g instead of %g' % (got, p['alpha'])
    bad = ends(edges, c['y'][0], 'A1', 'A2') or ends(edges, c['y'][1],
                                                     'B1', 'B2')
    if bad:
        return bad
    kinds = set(d['connector_type'] for _, _, d in edges.values())
    return None if kinds == {spec['c'].lower()} else 'type %s' % kinds


# ------------------------------------------------------------------- tables

def grid_of(spec, k, tier):
    v = spec['pars'][k]
    if k in spec['fix']:
        return spec['fix'][k]
    return [v, v/2, 3*v] if tier == 'quick' else [v, v/2, 3*v, v/10, 5*v]


def names_of(spec, tier):
    """name assignments: fresh ones, then names of other parameters"""
    pars = list(spec['pars'])
    fresh = {k: 'n' + k for k in pars}
    yield fresh
    yield {k: spec['label'] + '_' + k for k in pars}
    n = len(pars)
    for (i, a), (j, b) in itertools.permutations(enumerate(pars), 2):
        if tier == 'quick' and n > 4 and (j - i) % n not in (1, n - 1):
            continue
        yield dict(fresh, **{a: b})
        if a < b:
            yield dict(fresh, **{a: b, b: a})
    yield {k: k for k in pars}
    for r in range(1, min(len(pars), 4)):
        yield {k: pars[(i + r) % len(pars)] for i, k in enumerate(pars)}


def forms_of(spec, tier):
    pars = list(spec['pars'])
    if len(pars) <= 4 or tier != 'quick':
        for f in itertools.product('ntsd', repeat=len(pars)):
            yield dict(zip(pars, f))
        return
    for f in 'ntsd':
        yield {k: f for k in pars}
    n = len(pars)
    for (i, a), (j, b) in itertools.combinations(enumerate(pars), 2):
        if (j - i) not in (1, 2, n - 1):
            continue
        for f in itertools.product('ntsd', repeat=2):
            yield dict({k: 'n' for k in pars}, **{a: f[0], b: f[1]})


def cases(tier):
    # the longest items are not the last ones
    long_ = [i for i, spec in enumerate(COMPONENTS) if len(spec['pars']) > 4]
    for i in long_:
        yield ('names', i, tier)
    for i in long_:
        yield ('forms', i, tier, 'n')
    yield ('pickup',)
    for i, spec in enumerate(COMPONENTS):
        yield ('values', i, tier)
        for f in 'ntsd':
            if f != 'n' or i not in long_:
                yield ('forms', i, tier, f)
        if i not in long_:
            yield ('names', i, tier)
    yield ('sources',)
    yield ('shared',)
    yield ('pwl', tier)
    for c in ('Fracintec', 'Fracintfc', 'Fracderec', 'Fracderfc'):
        for order in (.25, .5, .75, .9) if tier == 'quick' else (
                .1, .25, .4, .5, .6, .75, .9):
            yield ('frac', c, order)
    for kw in [{}, {'N': 1}, {'N': 3, 'F': 200., 'D': 1.}]:
        yield ('beam', kw)


def run_case(item):
    res = Result()
    globals()['run_' + item[0]](res, *item[1:])
    return res


def enough(res):
    return len(res.violations) > 3


def run_values(res, i, tier):
    spec = COMPONENTS[i]
    pars = list(spec['pars'])
    grids = [grid_of(spec, k, tier) for k in pars]
    forms = {k: 'n' for k in pars}
    if len(pars) <= 4:
        combos = itertools.product(*grids)
    else:
        base = [g[0] for g in grids]
        combos = [base] + [base[:a] + [v] + base[a+1:]
                           for a in range(len(pars)) for v in grids[a][1:]]
        combos += [[g[-1] for g in grids], [g[1] for g in grids]]
    for vals in combos:
        check(res, spec, forms, dict(zip(pars, vals)), {}, 'values')
        res.traces += 1
        if enough(res):
            return


def run_forms(res, i, tier, first):
    spec = COMPONENTS[i]
    pars = list(spec['pars'])
    other = {k: grid_of(spec, k, tier)[-1] for k in pars}
    for forms in forms_of(spec, tier):
        if forms[pars[0]] != first:
            continue
        values = {k: spec['pars'][k] if forms[k] == 'd' else other[k]
                  for k in pars}
        check(res, spec, forms, values, {k: 'n' + k for k in pars}, 'forms')
        res.traces += 1
        if enough(res):
            return


def run_names(res, i, tier):
    spec = COMPONENTS[i]
    pars = list(spec['pars'])
    values = {k: grid_of(spec, k, tier)[-1] for k in pars}
    for names in names_of(spec, tier):
        if len(set(names.values())) < len(names):
            continue
        kinds = ['t'*len(pars), 's'*len(pars), 'ts'*len(pars), 'st'*len(pars)]
        if tier == 'quick' and len(pars) > 4:
            kinds = kinds[::2]
        for kind in kinds:
            check(res, spec, dict(zip(pars, kind)), values, names, 'names')
            # only the names that are not fresh
            forms = {k: f if names[k] != 'n' + k else 'n'
                     for k, f in zip(pars, kind)}
            check(res, spec, forms, values, names, 'names')
            res.traces += 2
        if enough(res):
            return


SOURCES = [('electronics', ('#', 'A'), {'voltage': 'f', 'current': 'e'},
            'voltage'),
           ('magnetics', ('#', 'A'), {'mmf': 'f', 'fluxvar': 'e',
                                      'mfv': 'e'}, 'mmf'),
           ('mechanics', ('#', 'A'), {'force': 'e', 'velocity': 'f'},
            'force'),
           ('mechanics_dual', ('#', 'A'), {'force': 'f', 'velocity': 'e'},
            'force'),
           ('thermics', ('S',), {'temperature': 'f', 'entropyvar': 'e'},
            'temperature')]


def run_sources(res):
    for d, nodes, kinds, default in SOURCES:
        k = getattr(importlib.import_module('pyphs.dictionary.' + d),
                    'Source')
        for kind, const, n in itertools.product(
                [None] + list(kinds) + [t.upper() for t in kinds],
                [None, 0., 2.5], [nodes, nodes[-1:]]):
            kw = {}
            if kind:
                kw['type'] = kind
            if const is not None:
                kw['const'] = const
            res.transitions += 1
            res.states += 1
            res.traces += 1
            what = '%s.Source(%s, %s)' % (d, n, kw)
            try:
                comp = k('S', n, **kw)
                (a, b, data), = comp.edges(data=True)
                core = comp.core
                want = kinds[(kind or default).lower()]
                bad = None
                if data['ctrl'] != want:
                    bad = 'control %s' % data['ctrl']
                if (a, b) != ('#', nodes[-1]):
                    bad = 'edge %s -> %s' % (a, b)
                if [str(s) for s in core.u + core.y] != ['uS', 'yS']:
                    bad = 'symbols'
                if const is None and core.u[0] in core.subs or \
                        const is not None and core.subs.get(
                            core.u[0]) != const:
                    bad = 'constant value %s' % core.subs
            except Exception as e:
                bad = describe(e)
            res.seen(what, bad)
            if bad:
                res.fail('source ' + d, '%s: %s' % (what, bad))


def run_shared(res):
    """one free name for several parameters is one parameter"""
    singles = [s for s in COMPONENTS if s['many'] is None]
    for s1, s2 in itertools.product(singles, repeat=2):
        a, b = list(s1['pars'])[0], list(s2['pars'])[-1]
        res.transitions += 1
        res.states += 1
        res.traces += 1
        try:
            g1 = klass(s1)('T' if s1['label'] == 'T' else 'one', s1['nodes'],
                           **dict(s1['pars'], **{a: 'shared'}))
            g2 = klass(s2)('T' if s2['label'] == 'T' else 'two', s2['nodes'],
                           **dict(s2['pars'], **{b: 'shared'}))
            got = [str(s) for s in (g1 + g2).core.p]
            bad = None if got == ['shared'] else 'parameters %s' % got
            if a != b and len(s1['pars']) > 1 and s1 is s2:
                g = klass(s1)(s1['label'], s1['nodes'], **dict(
                    s1['pars'], **{a: 'shared', b: 'shared'}))
                got = [str(s) for s in g.core.p]
                bad = bad or (None if got == ['shared'] else
                              'parameters %s of one component' % got)
        except Exception as e:
            bad = describe(e)
        res.seen(s1['c'], s2['c'], bad)
        if bad:
            res.fail('shared name', '%s.%s, %s.%s: %s' % (
                s1['d'], s1['c'], s2['d'], s2['c'], bad))
        if enough(res):
            return


# ------------------------------------------------------- piecewise-linear

XS = [[-2., -1., 0., 1., 2.], [-3., -.5, 0., .25, 4.], [-1., 0., 1.],
      [0., 1., 3.], [-2., -.1, 0., .2]]
SLOPES = [lambda x: x, lambda x: x**3 + x, lambda x: math.tanh(x),
          lambda x: 3*x if x > 0 else x/2]
ENERGY = [lambda x: x**2, lambda x: abs(x), lambda x: x**4 + x**2,
          lambda x: 3*x if x > 0 else -x/2]


def window(name, x, law):
    """(values written in the file, arguments that select x in them)"""
    if name == 'start':
        return [x[0] - 2., x[0] - 1.] + x, {'start': 2}
    if name == 'stop':
        return x + [x[-1] + 1.], {'stop': len(x)}
    if name == 'step':
        more = []
        for a, b in zip(x, x[1:]):
            more += [a, a + (b - a)/3.]
        return more + [x[-1]], {'step': 2}
    return x, {}


def run_pwl(res, tier):
    from pyphs.dictionary import pwl
    with scratch_dir() as d:
        for kind, (i, x), f, ctrl, win in itertools.product(
                ('dissipative', 'storage', 'integrate'), enumerate(XS),
                range(4), 'ef', ('all', 'start', 'stop', 'step')):
            law = (ENERGY if kind == 'storage' else SLOPES)[f]
            y = [law(v) for v in x]
            xs, select = window(win, x, law)
            path = os.path.join(d, 'data.pwl')
            with open(path, 'w') as fid:
                for row in (xs, [law(v) for v in xs]):
                    fid.write(' '.join(repr(v) for v in row) + '\n')
            res.transitions += 1
            res.states += 1
            res.traces += 1
            what = 'pwl %s of %s, %s' % (kind, list(zip(x, y)), win)
            try:
                kw = {'file': path, 'ctrl': ctrl}
                kw.update(select)
                key = 'integ' if win == 'all' else 'integrate'
                if kind == 'integrate':
                    kw[key] = True
                elif kind == 'storage' and win != 'stop':
                    kw[key] = False
                if kind == 'dissipative':
                    comp = pwl.Dissipative('pw', ('A', 'B'), **kw)
                    var, expr = comp.core.w[0], comp.core.z[0]
                else:
                    comp = pwl.Storage('pw', ('A', 'B'), **kw)
                    var, expr = comp.core.x[0], comp.core.H
                bad = pwl_law(res, kind, x, y, var, expr)
                (a, b, data), = comp.edges(data=True)
                if (a, b) != ('A', 'B') or data['ctrl'] != ctrl:
                    bad = bad or 'edge'
                if kind == 'dissipative' and not bad:
                    bad = pwl_law(res, kind, x, y, var,
                                  data['z'][ctrl + '_ctrl'])
            except Exception as e:
                bad = describe(e)
            res.seen(what, bad)
            if bad:
                res.fail('pwl ' + kind, '%s: %s' % (what, bad))
            if enough(res):
                return


def interp(x, y, v):
    """linear interpolation, extended by the end slopes"""
    i = 0
    while i < len(x) - 2 and v > x[i+1]:
        i += 1
    return y[i] + (v - x[i])*(y[i+1]-y[i])/(x[i+1]-x[i])


def pwl_law(res, kind, x, y, var, expr):
    f = sympy.lambdify([var], expr, modules='math')
    points = sorted(set(x + [.5*(a + b) for a, b in zip(x[1:], x[:-1])] +
                        [x[0] - 1, x[-1] + 1, .1, -.1]))
    for v in points:
        res.evaluations += 1
        if kind == 'integrate':
            h = 1e-5
            inside = [v - h, v + h]
            got = (f(inside[1]) - f(inside[0]))/(2*h)
            # exact for a quadratic function on each side
            ref = .5*(.5*(interp(x, y, v - h) + interp(x, y, v)) +
                      .5*(interp(x, y, v) + interp(x, y, v + h)))
            if abs(got - ref) > 1e-5*max(1., abs(ref)):
                return 'derivative at %g: %g instead of %g' % (v, got, ref)
            if x[0] < 0 and f(v) < -1e-9:
                return 'H(%g) = %g' % (v, f(v))
            if abs(f(0.)) > 1e-9:
                return 'H(0) = %g' % f(0.)
        else:
            ref = interp(x, y, v)
            if not close(f(v), ref, 1e-9, 1.):
                return 'value at %g: %g instead of %g' % (v, f(v), ref)
            if kind == 'dissipative' and x[0] < 0 and f(v)*v < -1e-12:
                return 'power at %g' % v
    return None


# ----------------------------------------------------- composite components

def run_frac(res, name, order):
    """passivity and approximated order in the band of optimisation"""
    from pyphs.dictionary import fraccalc
    integ = 'int' in name
    kw = {'beta' if integ else 'alpha': order, 'NbPoles': 6,
          'PolesMinMax': (-2, 6), 'FreqsMinMax': (1, 1e4),
          'NbFreqPoints': 30, 'DoPlot': False, 'g': 2.}
    try:
        comp = getattr(fraccalc, name)('fr', ('A', 'B'), **kw)
        core = comp.core
        res.transitions += 1
        res.states += 1
        res.traces += 1
        bad = None
        for v in core.x:
            q = float(sympy.diff(core.H, v, 2).subs(core.subs))
            res.evaluations += 1
            if not q >= 0:
                bad = 'stored energy of %s: coefficient %g' % (v, q)
        if sympy.hessian(core.H, core.x).subs(core.subs).is_diagonal() is \
                False:
            bad = 'coupled storages'
        for w, z in zip(core.w, core.z):
            r = float(sympy.diff(z, w).subs(core.subs))
            res.evaluations += 1
            if not r >= 0:
                bad = 'dissipation of %s: coefficient %g' % (w, r)
        if len(core.x) != len(core.w) or not core.x:
            bad = 'number of poles'
        for a, b, data in comp.edges(data=True):
            if data['type'] == 'dissipative':
                z = data['z']
                w = data['label']
                e = z['e_ctrl'].subs(w, z['f_ctrl'])
                if sympy.simplify(e - w) != 0:
                    bad = 'controls of %s' % w
    except Exception as e:
        bad = describe(e)
    res.seen(name, order, bad)
    if bad:
        res.fail('frac ' + name, '%s of order %g: %s' % (name, order, bad))


def run_beam(res, kw):
    from pyphs.dictionary.beams import Cantilever
    p = {'F': 440., 'N': 5, 'R': 1e-3, 'E': 180e9, 'M': 7750, 'A': 5e-2,
         'D': 6.}
    p.update(kw)
    try:
        comp = Cantilever('b', ('P', 'Q'), **kw)
        core = comp.core
        n = p['N']
        res.transitions += 1
        res.states += 1
        res.traces += 1
        bad = None
        if len(core.x) != 2*n or len(core.w) != n or len(
                core.connectors) != 2*n:
            bad = 'numbers of elements'
        q = {str(v): float(sympy.diff(core.H, v, 2).subs(core.subs))
             for v in core.x}
        if min(q.values()) <= 0:
            bad = 'stored energy %s' % q
        for w, z in zip(core.w, core.z):
            if float(sympy.diff(z, w).subs(core.subs)) < 0:
                bad = 'dissipation %s' % w
        # frequencies of the modes
        k = sorted(v for s, v in q.items() if s.startswith('xbK'))
        m = [v for s, v in q.items() if s.startswith('xbM')]
        freqs = [math.sqrt(v*m[0])/(2*math.pi) for v in k]
        ratio = [1., 6.266893, 17.547482, 34.386063, 56.842623]
        for f, r in zip(freqs, ratio):
            res.evaluations += 1
            if abs(f/(p['F']*r) - 1) > 1e-3:
                bad = 'frequencies %s' % freqs
        res.seen([round(f, 3) for f in freqs])
    except Exception as e:
        bad = describe(e)
    if bad:
        res.fail('beam', '%s: %s' % (kw, bad))


def run_pickup(res):
    from pyphs.dictionary.transducers import Pickup
    pars = {'Lv': 1e-3, 'Lh': 5e-4, 'Ccoil': 3e-5, 'Ncoil': 1e2, 'Rb': 1e-3,
            'Rp': 1e-3}
    ref = None
    for kind in [dict(zip(pars, f)) for f in
                 itertools.product('ntd', repeat=len(pars))]:
        if sum(f != 'n' for f in kind.values()) > 2 and \
                len(set(kind.values())) > 1:
            continue
        args = {k: pars[k] if f == 'n' else ('n' + k, pars[k])
                for k, f in kind.items() if f != 'd'}
        res.transitions += 1
        res.states += 1
        res.traces += 1
        try:
            comp = Pickup('p', ('M', 'E1', 'E2'), **args)
            core = comp.core
            def val(e, **pt):
                e = sympy.sympify(e)
                for _ in range(4):
                    e = e.subs(core.observers).subs(core.subs,
                                                    simultaneous=True)
                names = {core.symbols('xpOBS'): pt.get('q', 1e-4),
                         core.symbols('dxpOBS'): pt.get('v', 2.),
                         core.symbols('f_s'): 1.}
                e = e.subs(names)
                return [str(s) for s in e.free_symbols] or round(float(e), 9)
            got = [sorted((str(a), str(b), str(d['type']),
                           str(d['label'])) for a, b, d in
                          comp.edges(data=True)),
                   [val(sympy.diff(core.H, x, 2)) for x in core.x],
                   [[val(c['alpha'], q=q, v=v) for c in core.connectors]
                    for q in (1e-4, -2e-3) for v in (.5, -2.)],
                   sorted(str(s) for s in core.p)]
            bad = None
            if ref is None:
                ref = got
                # documented law: flux of a magnetic dipole
            elif got != ref:
                bad = '%s instead of %s' % (got, ref)
        except Exception as e:
            bad = describe(e)
        res.seen(repr(args), bad)
        if bad:
            res.fail('pickup', '%s: %s' % (args, bad))
        if enough(res):
            return

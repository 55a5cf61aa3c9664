# -*- coding: utf-8 -*-
"""
Small cores built from plain descriptions, and the numerical reading of a core
as a table keyed by symbol names (the form in which two cores are compared).
"""
from __future__ import absolute_import, division, print_function

import sympy
from sympy import Integer, Rational

from pyphs import Core

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61,
          67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137]

_SYMS = {}


def sym(name):
    """the symbol the library uses for a name"""
    if name not in _SYMS:
        _SYMS[name] = sympy.Symbol(name, real=True)
    return _SYMS[name]


def expr(text, names):
    return sympy.sympify(text, locals={n: sym(n) for n in names})


def build(spec):
    """
    spec: {'x': names, 'H': text, 'w': names, 'z': texts, 'y': number of ports,
           'p': names, 'par': {name: value}, 'free': names, 'obs': {name: text},
           'M': kind, 'conn': [(i, j, alpha)], 'force': names}
    """
    core = Core(label=spec.get('label', 'mc'))
    x, w = spec.get('x', []), spec.get('w', [])
    tag = spec.get('tag', '')
    names = (list(x) + list(w) + list(spec.get('p', [])) +
             list(spec.get('par', {})) + list(spec.get('free', [])) +
             list(spec.get('obs', {})) + ['u%i%s' % (i, tag) for i in range(spec.get('y', 0))])
    if x:
        core.add_storages([sym(n) for n in x], expr(spec['H'], names))
    if w:
        core.add_dissipations([sym(n) for n in w],
                              [expr(t, names) for t in spec['z']])
    for i in range(spec.get('y', 0)):
        core.add_ports(sym('u%i%s' % (i, tag)), sym('y%i%s' % (i, tag)))
    for n, v in spec.get('par', {}).items():
        core.subs[sym(n)] = (expr(v, names) if isinstance(v, str) else v)
    if spec.get('p'):
        core.add_parameters([sym(n) for n in spec['p']])
    if spec.get('obs'):
        from collections import OrderedDict
        obs = OrderedDict()
        for n in spec['obs']:
            obs[sym(n)] = expr(spec['obs'][n], names)
        core.add_observer(obs)
    core.force_wnl = [sym(n) for n in spec.get('force', [])]
    core.init_M()
    fill(core, spec.get('M', 'generic'), names, spec)
    for i, j, alpha in spec.get('conn', []):
        core.add_connector((i, j), alpha=expr(alpha, names)
                           if isinstance(alpha, str) else Integer(alpha))
    return core


def fill(core, kind, names, spec=None):
    n = core.dims.tot()
    if isinstance(kind, list):           # explicit table of texts or numbers
        for i in range(n):
            for j in range(n):
                core.M[i, j] = expr(str(kind[i][j]), names)
        return
    k = 0
    for i in range(n):
        for j in range(n):
            k += 1
            if kind == 'generic':        # every entry its own value
                v = Integer((k*7) % 31 - 15) + Rational(k, 4)
            elif kind == 'thin':         # no direct feed-through
                if i >= len(core.x) and j >= len(core.x):
                    continue
                v = Integer((k*7) % 31 - 15) + Rational(k, 4)
            elif kind in ('skew', 'skewdiss', 'modulated'):
                if i < j:
                    v = Integer(((i + 1)*(j + 2)*5) % 7 - 3)
                    if kind == 'modulated' and i == 0:
                        v = v + sym(spec['x'][0])/4
                    core.M[j, i] = -v
                elif i == j and kind == 'skewdiss':
                    v = -Rational(1, 2 + i)
                elif i == j:
                    v = Integer(0)
                else:
                    continue
            elif kind == 'canonical':
                continue
            else:
                raise ValueError(kind)
            core.M[i, j] = v


# --------------------------------------------------------------------------

def val(e, env):
    """exact (Rational) or high-precision value of an expression"""
    e = sympy.sympify(e)
    if e.free_symbols:
        e = e.xreplace({s: env[s.name] for s in e.free_symbols
                        if s.name in env})
        if e.free_symbols:
            raise ValueError('no value for %s' % e.free_symbols)
    if e.is_Rational:
        return e
    e = sympy.nsimplify(e) if False else e.evalf(30)
    return e


def close(a, b, tol=1e-9):
    a, b = float(a), float(b)
    if a != a or b != b:
        return False
    return abs(a - b) <= tol*(1 + abs(a) + abs(b))


def point(names, salt):
    """a generic rational value for each name, distinct, away from zero"""
    env = {}
    for k, n in enumerate(sorted(names)):
        sign = -1 if (k + salt) % 3 == 1 else 1
        env[n] = sign*Rational(PRIMES[(k + 5*salt) % 30], 8 + salt)
    return env


def rows(core):
    return [str(s) for s in list(core.x) + list(core.w) + list(core.y) +
            list(core.cy)]


def pairs(core):
    return ([(str(a), str(b)) for a, b in zip(core.u, core.y)],
            [(str(a), str(b)) for a, b in zip(core.cu, core.cy)])


def table(core):
    """{(row label, column label): entry} of the structure"""
    r = rows(core)
    n = len(r)
    if core.M.shape != (n, n):
        raise AssertionError('structure of shape %s for %i equations'
                             % (core.M.shape, n))
    return {(r[i], r[j]): core.M[i, j] for i in range(n) for j in range(n)}


def laws(core):
    """{w: z}"""
    if len(core.w) != len(core.z):
        raise AssertionError('len(w)=%i len(z)=%i' % (len(core.w), len(core.z)))
    return {str(w): z for w, z in zip(core.w, core.z)}

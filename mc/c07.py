# -*- coding: utf-8 -*-
"""
C07  Substitution and simplification keep the value of every expression.

Every assignment of a definition (absent, number in several types, expression
of the following parameters) to three parameters, in every naming order, and
every sequence of substitute / simplify / subsinverse calls up to the depth.
After each call all expressions are evaluated with the parameter values resolved
by an independent evaluator; a symbol that was defined and is left without a
definition is a violation.
"""
from __future__ import absolute_import, division, print_function

import collections
import copy
import itertools

import sympy
from sympy import Rational, Integer, Float

from mc import cores
from mc.cores import sym, val, close
from mc.lib import Result, describe

PROPERTY = 'C07'
BOUNDS = {
    'quick': '3 cores, 6 naming orders (3 for 2 of the cores), 6*5*3 '
             'definitions of 3 parameters: every single call out of 14, all '
             'sequences of 2 calls for the smallest core in 1 order and for 4 '
             'definitions of the others',
    'thorough': 'all sequences of 2 calls for all definitions, and of 3 calls '
                'for 24 of them'}
RULE = ('a trace is a sequence of calls on one core; all expressions are '
        'evaluated after each call')

# definitions of a parameter in terms of the later ones (P0 may use P1, P2 ...)
DEFS = [
    ['absent', 'float', 'int', 'Q+1', '2/(1+R**2)', 'Q*R'],
    ['absent', 'float', 'rational', '1/R', '3*R'],
    ['absent', 'float', 'int'],
]
NUM = {'float': 2.5, 'int': 3, 'rational': Rational(7, 5)}


def defs_of(order, kinds):
    """{name: definition} for parameter names in a given order"""
    a, b, c = order
    out = {}
    for name, kind in zip(order, kinds):
        if kind == 'absent':
            continue
        if kind in NUM:
            out[name] = NUM[kind]
            if kind == 'int' and name == c:
                out[name] = 4
            if kind == 'float' and name == b:
                out[name] = 0.75
            if kind == 'float' and name == c:
                out[name] = 1.25
        else:
            out[name] = sympy.sympify(kind, locals={'Q': sym(b), 'R': sym(c)})
    return out


SPECS = {
    'rich': dict(x=['xa', 'xb'], H='xa**2/(2*pA)+pB*xb**4+xa*pC/(1+pA**2)',
                 w=['wa', 'wb'], z=['wa/pB', 'pA*wb**3/(pB*pC)'], y=4,
                 obs={'ob': 'xa*pB/pA'}, free=['pA', 'pB', 'pC'],
                 M=[[0, '-1/pA', 0, 0, 1, 0, 0, 0],
                    ['1/pA', 0, 'pB', 0, 0, 2, 0, 1],
                    [0, '-pB', 0, 0, 0, 0, 0, 0],
                    [0, 0, 0, 0, 0, 0, 1, 0],
                    [-1, 0, 0, 0, 0, 0, 0, 'pC'],
                    [0, -2, 0, 0, 0, 0, 'pB*pC', 0],
                    [0, 0, -1, 0, 0, '-pB*pC', 0, 0],
                    [0, -1, 0, 0, '-pC', 0, 0, 0]],
                 conn=[(2, 3, 'pA*pB')]),
    'functions': dict(x=['xa', 'xb'],
                      H='pA*log(cosh(xa/pB))+sqrt(1+xb**2/pC)-1'
                        '+Piecewise((xb**3/pA, xb > 0), (0, True))',
                      w=['wa'], z=['pA*tanh(wa/(pB*pC))+sign(wa)*Abs(wa)**pC'],
                      y=1, obs={'ob': 'atan(xa/pA)'}, free=['pA', 'pB', 'pC'],
                      M=[[0, 'cos(xa/pA)', 0, 1], ['-cos(xa/pA)', 0, '1/pC', 0],
                         [0, '-1/pC', 0, 0], [-1, 0, 0, 'tanh(pB*xb)']]),
    'single': dict(x=['xa'], H='pA*xa**2', w=['wa'], z=['(pA+1/pA)*wa'],
                   y=1, free=['pA', 'pB', 'pC'],
                   M=[[0, 'pA', 1], ['-pA', 0, 0], [-1, 0, '-pA**2']]),
}


def ops(order):
    a, b, c = (sym(n) for n in order)
    return collections.OrderedDict([
        ('all', lambda core: core.substitute(selfall=True)),
        ('exprs', lambda core: core.substitute(selfexprs=True)),
        ('a=num', {a: 1.5}), ('b=num', {b: Rational(2, 3)}),
        ('c=int', {c: 5}), ('a=expr', {a: b/(1 + c**2)}),
        ('a,b=expr', {a: b + c, b: 2*c}),
        ('c=new', {c: sym('pN')**2 + 1}),
        ('a=num+all', ({a: 1.5}, dict(selfall=True))),
        ('b=expr+exprs', ({b: 3*c}, dict(selfexprs=True))),
        ('simplify', lambda core: core.simplify()),
        ('inverse', lambda core: core.subsinverse()),
        ('simplified', ({c: Integer(6)}, dict(simplify=True))),
        ('all simplified', lambda core: core.substitute(selfall=True,
                                                        simplify=True)),
    ])


def exprs(core):
    """every expression, keyed"""
    out = collections.OrderedDict()
    out['H'] = core.H
    for w, z in zip(core.w, core.z):
        out['z', str(w)] = z
    for k, v in cores.table(core).items():
        if v != 0:
            out['M', k] = v
    for k, v in core.observers.items():
        out['o', str(k)] = v
    for k, c in enumerate(core.connectors):
        out['alpha', k] = c['alpha']
        out['conn', k] = Integer(sum(ord(ch) for s in c['u'] + c['y']
                                     for ch in str(s)))
    for x, g in zip(core.x, core.dxH()):
        out['dxH', str(x)] = g
    return out


def symbols(core):
    return {n: [str(s) for s in getattr(core, n)]
            for n in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p')}


def resolve(defs, env, names):
    """numerical values of all names: definitions first, then env"""
    out = {}

    def value(n, depth=0):
        if depth > 20:
            raise ValueError('cyclic definition of %s' % n)
        if n in out:
            return out[n]
        if n in defs:
            e = sympy.sympify(defs[n])
            sub = {s.name: value(s.name, depth + 1) for s in e.free_symbols}
            out[n] = val(e, sub)
        else:
            if n not in env:
                raise ValueError('symbol %s has lost its definition' % n)
            out[n] = env[n]
        return out[n]
    for n in names:
        value(n)
    return out


def evaluate(core, defs, env):
    out = {}
    for k, e in exprs(core).items():
        e = sympy.sympify(e)
        names = [s.name for s in e.free_symbols]
        out[k] = val(e, resolve(defs, env, names))
    return out


def cases(tier):
    items = []
    few = [['absent', 'float', 'Q+1', 'Q*R'], ['absent', 'float', '1/R'],
           ['absent', 'float']]
    fewer = [['absent', 'Q+1'], ['float', '1/R'], ['float']]
    for name in sorted(SPECS):
        for order in itertools.permutations(['pA', 'pB', 'pC']):
            deep = tier != 'quick' or (name == 'single' and order == (
                'pC', 'pA', 'pB'))
            slow = name == 'functions' and tier == 'quick'
            if tier == 'quick' and name != 'rich' and order not in (
                    ('pA', 'pB', 'pC'), ('pC', 'pA', 'pB'), ('pB', 'pC', 'pA')):
                continue
            for kinds in itertools.product(*(few if slow else DEFS)):
                items.append({'core': name, 'order': order, 'kinds': kinds,
                              'depth': 2 if deep else 1})
            if name == 'single' and tier == 'quick':
                continue
            if tier == 'quick' and order != (('pC', 'pA', 'pB') if name == 'rich'
                                             else ('pA', 'pB', 'pC')):
                continue
            for kinds in itertools.product(*(fewer if tier == 'quick' else few)):
                items.append({'core': name, 'order': order, 'kinds': kinds,
                              'depth': 2 if tier == 'quick' else 3})
    return items


def run_case(item):
    res = Result()
    order = tuple(item['order'])
    defs0 = defs_of(order, item['kinds'])
    base = cores.build(SPECS[item['core']])
    for n in sorted(defs0):
        base.subs[sym(n)] = defs0[n]
    names = {'xa', 'xb', 'wa', 'wb', 'pA', 'pB', 'pC', 'pN'} | {
        'u%i' % i for i in range(4)}
    point = {n: abs(v) for n, v in cores.point(names, 1).items()}
    symbs = symbols(base)
    table = ops(order)

    def explore(core, defs, hist):
        """defs: the definitions in force, by name, as the model sees them"""
        for name, op in table.items():
            new = copy.copy(core)
            given, kw = {}, {}
            if callable(op):
                pass
            elif isinstance(op, tuple):
                given, kw = op
            else:
                given = op
            # a given definition replaces the stored one; one given for a
            # symbol that is gone has no effect, which the values show
            d = dict(defs)
            d.update({s.name: v for s, v in given.items()})
            try:
                resolve(d, point, list(d))
            except ValueError:
                continue                     # would define a symbol by itself
            if kw and set(given) & set(core.subs):
                continue                     # which one wins is not stated
            h = hist + [name]
            res.transitions += 1
            try:
                want = evaluate(core, merged(core, given), env_for(
                    point, core, given))
                arg = dict(given)
                if callable(op):
                    op(new)
                elif kw:
                    new.substitute(subs=arg, **kw)
                else:
                    new.substitute(subs=arg)
                if list(arg.items()) != list(given.items()):
                    res.fail('argument modified', 'after %s: %s -> %s'
                             % (h, given, arg), history=h)
                    return False
                if symbols(new) != symbs:
                    res.fail('symbols', 'after %s: %s' % (h, symbols(new)),
                             history=h)
                    return False
                after = {str(k): v for k, v in new.subs.items()}
                got = evaluate(new, after, env_for(point, core, given))
                bad = [k for k in want if k not in got or
                       not close(got[k], want[k])]
                if bad or len(got) != len(want):
                    res.fail('value: ' + name, 'after %s %s is %s, expected %s'
                             % (h, bad[:1], got.get(bad[0]) if bad else None,
                                want[bad[0]] if bad else None), history=h)
                    return False
                if name.startswith('all') or name.endswith('+all'):
                    if after:
                        res.fail('subs left', '%s after %s' % (after, h))
                        return False
                if name == 'exprs' and any(
                        sympy.sympify(v).free_symbols for v in after.values()):
                    res.fail('exprs left', '%s after %s' % (after, h))
                    return False
                # the list of free symbols is that of the expressions
                free = {s.name for n in ('H', 'z') for s in
                        sympy.Matrix([getattr(new, n)]).free_symbols}
                free |= {s.name for s in new.M.free_symbols}
                listed = {s.name for s in new.freesymbols()}
                if not free <= listed:
                    res.fail('free symbols', 'after %s freesymbols() gives %s, '
                             'the expressions have %s' % (h, listed, free))
                    return False
            except Exception as e:
                res.fail('exception: ' + name, '%s after %s'
                         % (describe(e), h), history=h)
                return False
            res.states += 1
            res.seen(sorted((str(k), '%.9g' % float(v))
                            for k, v in got.items()))
            if len(h) < item['depth']:
                if not explore(new, after, h):
                    return False
            else:
                res.traces += 1
                res.sample = h
        return True

    explore(base, defs0, [])
    return res


def merged(core, given):
    """definitions in force for the call: the stored ones, then the given"""
    d = {str(k): v for k, v in core.subs.items()}
    d.update({s.name: v for s, v in given.items()})
    return d


def env_for(point, core, given):
    """values of the symbols that have no definition"""
    d = merged(core, given)
    return {n: v for n, v in point.items() if n not in d}

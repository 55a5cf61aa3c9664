# -*- coding: utf-8 -*-
"""
C08  The numerical scheme conserves power at every time step.

Every input sequence up to a depth, from several initial states, is run on the
real numerical object for every system, order of its states and laws, and
configuration with the discrete gradient.  At every step the variation of the
stored energy (computed here, with extended precision, from the states before
and after), the dissipated power and the power of the ports must cancel.
"""
from __future__ import absolute_import, division, print_function

import itertools

import mpmath

from mc import steps
from mc.lib import Result, describe

PROPERTY = 'C08'
BOUNDS = {'quick': '27 systems (linear, separable, coupled, modulated, with '
                   'observers, parameters or resistive structure), the orders '
                   'of states and laws of 5 of them, 3 structure thetas, split '
                   'and unsplit, 2 sample rates, 3 initial states, all '
                   'sequences of 3 inputs among 3',
          'thorough': 'the same with every order of states and laws, 4 sample '
                      'rates, all sequences of 5 inputs among 3'}
RULE = ('a state is the vector of arguments of the numerical object after an '
        'input sequence; a transition is one call of its update')
ASSUMPTIONS = ['tolerance 1e-8 relative to the powers exchanged in the step',
               'the energy is that of the description, in 30 digits']


def permuted(spec, xs, ws):
    s = dict(spec)
    s['x'] = [spec['x'][i] for i in xs] if 'x' in spec else []
    s['w'] = [spec['w'][i] for i in ws] if 'w' in spec else []
    s['z'] = [spec['z'][i] for i in ws] if 'w' in spec else []
    if not s['x']:
        s.pop('x')
    if not s['w']:
        s.pop('w')
        s.pop('z')
    return s


ORDERS = {'quick': ['separable', 'mixed', 'coupled quadratic',
                    'coupled and separable', 'affine'],
          'thorough': list(steps.specs())}


def cases(tier):
    items = []
    for name, spec in steps.specs().items():
        nx, nw = len(spec.get('x', [])), len(spec.get('w', []))
        orders = [(list(range(nx)), list(range(nw)))]
        if name in ORDERS[tier]:
            orders = list(itertools.product(
                map(list, itertools.permutations(range(nx))),
                map(list, itertools.permutations(range(nw)))))
        for k, (xs, ws) in enumerate(orders):
            fss = [40., 1000.] if tier == 'quick' else [40., 1000., 8000., 48e3]
            # the other orders at one rate only
            for fs in fss if k == 0 else fss[:1]:
                for split in (False, True):
                    depth = 5 - (k > 0)
                    if tier == 'quick':
                        depth = 3 if k == 0 and fs == 40. and not split else 2
                        if k and split:
                            continue
                    items.append({'system': name, 'x': list(xs), 'w': list(ws),
                                  'fs': fs, 'split': split, 'depth': depth})
    return items


def power(system, config, after):
    """[(term, value)] whose sum must be zero"""
    x = [mpmath.mpf(float(after['x'][n])) for n in system.x]
    e = [a + mpmath.mpf(float(after['dx'][n])) for a, n in zip(x, system.x)]
    dE = (system.fH(*e) - system.fH(*x))*config['fs'] if system.x else 0
    diss = sum(mpmath.mpf(float(after['z'][n]))*after['w'][n] for n in system.w)
    port = sum(mpmath.mpf(float(after['u'][a]))*after['y'][b]
               for a, b in zip(system.u, system.y))
    a = [after['dxH'][n] for n in system.x] + \
        [after['z'][n] for n in system.w] + [after['u'][n] for n in system.u]
    res = mpmath.mpf(0)
    for i in range(system.n):           # resistive part: constant, diagonal
        m = system.M[i, i]
        if m != 0:
            res -= mpmath.mpf(float(m))*mpmath.mpf(float(a[i]))**2
    return [('stored', float(dE)), ('dissipated', float(diss)),
            ('resistive', float(res)), ('ports', float(port))]


def run_case(item):
    res = Result()
    spec = permuted(steps.specs()[item['system']], item['x'], item['w'])
    system = steps.System(spec)
    for theta in (0., 0.5, 1.):
        config = dict(grad='discret', theta=theta, split=item['split'],
                      fs=item['fs'])
        try:
            run = steps.Run(system, config)
        except Exception as e:
            res.fail('%s: no numerical method' % item['system'],
                     '%s %s' % (config, describe(e)))
            return res

        def visit(run, hist, u, p, before, after):
            terms = power(system, config, after)
            total = sum(v for _, v in terms)
            scale = 1 + sum(abs(v) for _, v in terms)
            err = None
            if not abs(total) <= 1e-8*scale:
                err = 'powers %s do not cancel: %g' % (terms, total)
            work = config['fs']*sum(after['dx'][n]*after['dxH'][n]
                                    for n in system.x)
            if err is None and not abs(work - terms[0][1]) <= 1e-8*scale:
                err = ('the gradient times the increment is %g, the energy '
                       'varies by %g per second' % (work, terms[0][1]))
            if err is None and not any(u.values()):
                if terms[1][1] + terms[2][1] < -1e-9*scale:
                    err = 'dissipated power %s' % (terms[1:3],)
                elif terms[0][1] > 1e-8*scale:
                    err = ('the energy increases without input, %g per second'
                           % terms[0][1])
            if err:
                res.fail('%s: power balance%s' % (
                    item['system'], ' (split)' if item['split'] else ''),
                    '%s\nconfiguration %s\nstart %s history %s'
                    % (err, config, x0, [h[0] for h in hist]),
                    config=config, history=hist)
                return False
            res.seen((tuple(sorted(config.items(), key=str)),
                      tuple(round(v, 9) for v in after['x'].values())))
            return True
        for s in range(3):
            x0 = {n: steps.STARTS[(i + s) % 3] if s else 0.
                  for i, n in enumerate(system.x)}
            try:
                k = steps.tree(run, x0, item['depth'], visit)
            except Exception as e:
                res.fail('%s: step' % item['system'],
                         '%s start %s %s' % (config, x0, describe(e)))
                return res
            res.transitions += k
            res.states += k + 1
            res.traces += 1
            if res.violations:
                return res
    res.evaluations = res.transitions
    return res

# -*- coding: utf-8 -*-
"""
C09  Each simulated step solves the selected scheme, split or not.

The tree of all input sequences is walked on two real numerical objects, split
and not split.  At every node the equations of the scheme (state increment,
dissipation variables, outputs, gradient, laws, observers) are evaluated here
from the description of the system, and both objects are compared.
"""
from __future__ import absolute_import, division, print_function

from mc import steps
from mc.lib import Result, describe

PROPERTY = 'C09'
BOUNDS = {'quick': '27 systems; gradient options discrete, theta 0, 1/2, 1, '
                   'trapezoidal; structure thetas 0, 1/2, 1; split and not; 2 '
                   'sample rates (the second one for one scheme); 3 initial '
                   'states; all sequences of 2 inputs among 3, of 3 inputs for '
                   '2 of the schemes',
          'thorough': 'the same with 4 thetas, 4 sample rates and all sequences '
                      'of 5 inputs among 3'}
RULE = ('a state is the vector of arguments of the numerical object after an '
        'input sequence; a transition is one call of its update')
ASSUMPTIONS = ['tolerance 1e-8 relative to the terms of each equation',
               'split and unsplit are compared when the discrete gradient does '
               'not depend on the partition (no quadratic coupled storages '
               'together with other coupled ones)']


def cases(tier):
    items = []
    for name in steps.specs():
        if tier == 'quick':
            confs = [(40., grad, theta, 3 if grad == 'trapez' or (
                grad, theta) == ('discret', 0.5) else 2)
                for grad in ('discret', 'theta', 'trapez')
                for theta in ((0., 0.5, 1.) if grad != 'trapez' else (0.,))]
            confs += [(1000., 'discret', 0., 2)]
        else:
            confs = [(fs, grad, theta, 5) for fs in (40., 1000., 8000., 48e3)
                     for grad in ('discret', 'theta', 'trapez')
                     for theta in ((0., 0.25, 0.5, 1.) if grad != 'trapez'
                                   else (0.,))]
        for fs, grad, theta, depth in confs:
            items.append({'system': name, 'fs': fs, 'grad': grad,
                          'theta': theta, 'depth': depth})
    return items


KEYS = ('x', 'dx', 'w', 'u', 'p', 'o', 'dxH', 'z', 'y')


def check(system, config, before, after, u, p):
    for n, v in u.items():
        if after['u'][n] != v:
            return 'input', 'input %s is %g, given %g' % (n, after['u'][n], v)
    for n, v in p.items():
        if after['p'][n] != v:
            return 'parameter', 'parameter %s is %g, given %g' % (
                n, after['p'][n], v)
    for n in system.x:
        want = before['x'][n] + before['dx'][n]
        if not abs(after['x'][n] - want) <= 1e-12*(1 + abs(want)):
            return 'state', 'state %s is %.15g after %.15g + %.15g' % (
                n, after['x'][n], before['x'][n], before['dx'][n])
    if system.o:
        want = system.observers(before, after)
        for n in system.o:
            if not abs(float(want[n]) - after['o'][n]) <= 1e-10*(
                    1 + abs(after['o'][n])):
                return 'observer', 'observer %s is %g, expected %g' % (
                    n, after['o'][n], want[n])
    for what, err, scale, noise in system.residual(config, after):
        if not abs(err) <= 1e-8*scale + noise:
            return 'residual', '%s not satisfied: error %.3g (terms of order ' \
                '%.3g)' % (what, err, scale)
    return None


def run_case(item):
    res = Result()
    system = steps.System(steps.specs()[item['system']])
    runs = []
    for split in (False, True):
        config = dict(grad=item['grad'], theta=item['theta'], split=split,
                      fs=item['fs'])
        try:
            runs.append(steps.Run(system, config))
        except Exception as e:
            res.fail('%s: no numerical method' % item['system'],
                     '%s %s' % (config, describe(e)))
            return res
    same = item['grad'] != 'discret' or system.unique_gradient()
    for s in range(3):
        x0 = {n: steps.STARTS[(i + s) % 3] if s else 0.
              for i, n in enumerate(system.x)}
        seen = [{}, {}]
        for r, run in enumerate(runs):
            def visit(run, hist, u, p, before, after):
                err = check(system, run.config, before, after, u, p)
                h = [a for a, _ in hist]
                if err is None and r == 1 and same:
                    other = seen[0].get(tuple(h))
                    if other is None:
                        return False
                    for k in KEYS:
                        for n in after[k]:
                            a, b = after[k][n], other[k][n]
                            # first-order error of the difference quotients
                            tol = 1e-7*(1 + abs(a) + abs(b))
                            if not abs(a - b) <= tol:
                                err = 'split', ('%s of %s is %.12g when split, '
                                                '%.12g otherwise' % (k, n, a, b))
                if err:
                    res.fail('%s: %s (%s%s)' % (
                        item['system'], err[0], item['grad'],
                        ', split' if run.config['split'] else ''),
                        '%s\nconfiguration %s\nstart %s history %s'
                        % (err[1], run.config, x0, h),
                        config=run.config, history=h)
                    return False
                seen[r][tuple(h)] = after
                return True
            try:
                k = steps.tree(run, x0, item['depth'], visit)
            except Exception as e:
                res.fail('%s: step' % item['system'], '%s start %s %s'
                         % (run.config, x0, describe(e)))
                return res
            res.transitions += k
            res.states += k + 1
            res.traces += 1
            if res.violations:
                return res
        res.seen([tuple(round(v, 9) for v in a['x'].values())
                  for a in seen[0].values()])
    res.evaluations = res.transitions
    return res

# -*- coding: utf-8 -*-
"""
C06  Connecting ports yields exactly the stated power-conserving connection.

Every choice of one or two ordered port pairs among the ports of a core, every
gain of the alphabet, every order of declaration, with reorderings or an
intermediate connection in between; and every direct feed-through matrix with
entries in {-1, 0, 1} for a pair.  Oracle: the constraints solved exactly on the
original equations.
"""
from __future__ import absolute_import, division, print_function

import copy
import itertools

import sympy
from sympy import Integer, Rational

from mc import cores
from mc.cores import sym, val, close
from mc.lib import Result, describe

PROPERTY = 'C06'
NUMERIC = ['none', '2', '-3', '1/2']
GAINS = NUMERIC + ['alpha', '1/(1+alpha**2)', 'beta']
BOUNDS = {
    'quick': 'cores with 2-5 ports; all ordered pairs and all pairs of '
             'disjoint ordered pairs, 7 gains, interleaved moves; all 81 '
             'feed-through matrices over {-1,0,1} with 3 gains; all skew and '
             'symmetric feed-throughs of two pairs over {-1,0,1} (6 entries)',
    'thorough': 'the same with every gain pair and every single move between '
                'declaration and connection'}
RULE = ('a trace is: declare connectors, reorder, connect (and possibly again);'
        ' the resulting table keyed by symbols is compared with the solved '
        'constraints')

SPECS = {
    'generic5': dict(x=['xa', 'xb'], H='xa**2/2+xb**4/4', w=['wa'],
                     z=['wa**3'], y=5, free=['alpha', 'beta']),
    'skew4': dict(x=['xa'], H='xa**2/2', w=['wa'], z=['2*wa'], y=4, M='skew',
                  free=['alpha', 'beta']),
    'modulated4': dict(x=['xa', 'xb'], H='xa**2/2+xb**4/4', y=4, M='modulated',
                       free=['alpha', 'beta']),
    'nofeed4': dict(x=['xa', 'xb'], H='xa**2/2+xb**4/4', y=4,
                    free=['alpha', 'beta'],
                    M=[[0, -1, 2, 3, 5, 7], [1, 0, -3, 2, 1, 4],
                       [-2, 3, 0, 0, 0, 0], [-3, -2, 0, 0, 0, 0],
                       [-5, -1, 0, 0, 0, 0], [-7, -4, 0, 0, 0, 0]]),
    'bare3': dict(y=3, free=['alpha', 'beta']),
    'dissipative4': dict(w=['wa', 'wb'], z=['wa', 'wb**3'], y=4,
                         M='skewdiss', free=['alpha', 'beta']),
}


def choices(n):
    one = [[p] for p in itertools.permutations(range(n), 2)]
    two = [[p, q] for p in itertools.permutations(range(n), 2)
           for q in itertools.permutations(range(n), 2)
           if not set(p) & set(q)]
    return one + two


def cases(tier):
    items = []
    for name in sorted(SPECS):
        n = SPECS[name]['y']
        for pairs in choices(n):
            items.append({'kind': 'pairs', 'core': name, 'pairs': pairs,
                          'tier': tier})
    for a in range(3):
        items.append({'kind': 'feed', 'row': a, 'tier': tier})
    for a in itertools.product((-1, 0, 1), repeat=2):
        items.append({'kind': 'feed2', 'first': a, 'tier': tier})
    return items


def gain(text):
    if text == 'none':
        return None, Integer(1)
    e = sympy.sympify(text, locals={'alpha': sym('alpha'), 'beta': sym('beta')})
    return e, e


def expected(table, env, keep, cons):
    """
    table: {(row, col): value} with column labels = row labels (dual variable)
    cons: [(ya, yb, alpha)]: u_a = -alpha*y_b, u_b = alpha*y_a
    -> table over keep, or None when the constraints cannot be solved
    """
    lab = [y for (a, b, _) in cons for y in (a, b)]
    n = len(lab)
    S = sympy.zeros(n, n)
    for k, (a, b, al) in enumerate(cons):
        S[2*k, 2*k + 1] = -al
        S[2*k + 1, 2*k] = al
    Mcc = sympy.Matrix(n, n, lambda i, j: table[lab[i], lab[j]])
    N = sympy.eye(n) - Mcc*S
    if N.det() == 0:
        return None
    Mck = sympy.Matrix(n, len(keep), lambda i, j: table[lab[i], keep[j]])
    Mkc = sympy.Matrix(len(keep), n, lambda i, j: table[keep[i], lab[j]])
    add = Mkc*S*N.LUsolve(Mck)
    return {(a, b): table[a, b] + add[i, j]
            for i, a in enumerate(keep) for j, b in enumerate(keep)}


def names_of(spec):
    return (list(spec.get('x', [])) + list(spec.get('w', [])) +
            ['u%i' % i for i in range(spec['y'])] + spec['free'])


def check(core, before, names, cons, ports):
    """compare the connected core with the solved constraints"""
    left = [str(s) for s in core.y]
    if left != ports:
        return 'remaining ports are %s, expected %s' % (left, ports)
    if [str(s) for s in core.u] != ['u' + p[1:] for p in ports]:
        return 'remaining inputs are %s' % core.u
    if list(core.cy) or list(core.cu) or list(core.connectors):
        return 'connectors left: %s %s %s' % (core.cy, core.cu,
                                              core.connectors)
    after = cores.table(core)
    keep = cores.rows(core)
    for salt in (1, 2):
        env = cores.point(names, salt)
        t = {k: val(v, env) for k, v in before.items()}
        c = [(a, b, val(al, env)) for a, b, al in cons]
        want = expected(t, env, keep, c)
        if want is None:
            continue
        for k in want:
            if not close(val(after[k], env), want[k]):
                return ('entry %s is %s, expected %s'
                        % (k, val(after[k], env), want[k]))
    return None


def run_pairs(item, res):
    spec = SPECS[item['core']]
    names = names_of(spec)
    quick = item['tier'] == 'quick'
    base = cores.build(spec)
    before = cores.table(base)
    pairs = [tuple(p) for p in item['pairs']]
    # symbolic gains: the library inverts a symbolic matrix without simplifying,
    # so they are limited to one pair, or two pairs without feed-through
    if len(pairs) == 1:
        gains = [(g,) for g in (GAINS if not quick or item['core'] in
                                ('bare3', 'nofeed4') else NUMERIC + ['alpha'])]
    elif item['core'] == 'nofeed4':
        gains = [('2', '-3'), ('alpha', 'beta')]
    elif quick:
        gains = [('2', '-3')]
    else:
        gains = list(itertools.product(NUMERIC, repeat=2))
    for gs in gains:
        variants = ['plain', 'port', 'connector', 'stepwise', 'storage',
                    'connector2']
        if not all(g in NUMERIC for g in gs):
            variants = ['plain', 'stepwise']
        elif quick and gs not in (('2',), ('2', '-3')):
            variants = ['plain']
        elif quick and len(pairs) == 2 and spec['y'] == 5:
            variants = ['plain', 'connector', 'stepwise']
        for variant in variants:
            core = copy.copy(base)
            hist = []
            cons = []
            for (a, b), g in zip(pairs, gs):
                arg, value = gain(g)
                ia = [str(s) for s in core.y].index('y%i' % a)
                ib = [str(s) for s in core.y].index('y%i' % b)
                if arg is None:
                    core.add_connector((ia, ib))
                else:
                    core.add_connector((ia, ib), alpha=arg)
                hist.append(('add_connector', ia, ib, g))
                cons.append(('y%i' % a, 'y%i' % b, value))
                if variant == 'stepwise':
                    core.connect()
                    hist.append('connect')
            order = [str(s) for s in core.y]
            want_order = ['y%i' % i for i in range(spec['y'])
                          if not any(i in p for p in pairs)]
            if order != want_order:
                res.fail('ports order', 'ports are %s after %s'
                         % (order, hist), history=hist)
                return
            if variant == 'port' and len(order) > 1:
                core.move_port(len(order) - 1, 0)
                want_order.insert(0, want_order.pop())
                hist.append('move_port')
            if variant == 'connector':
                core.move_connector(0, len(core.cy) - 1)
                hist.append('move_connector(0, -1)')
            if variant == 'connector2':
                core.move_connector(len(core.cy) - 1, 0)
                hist.append('move_connector(-1, 0)')
            if variant == 'storage' and len(core.x) > 1:
                core.move_storage(0, 1)
                hist.append('move_storage(0, 1)')
            try:
                core.connect()
            except Exception as e:
                # legitimate only when the constraints cannot be solved
                env = cores.point(names, 1)
                t = {k: val(v, env) for k, v in before.items()}
                if expected(t, env, want_order, [
                        (a, b, val(al, env)) for a, b, al in cons]) is None:
                    continue
                res.fail('refused', '%s after %s' % (describe(e), hist),
                         history=hist)
                return
            res.transitions += len(hist) + 1
            res.states += 1
            res.traces += 1
            err = check(core, before, names, cons, want_order)
            if err:
                res.fail('connection', '%s\nhistory %s' % (err, hist),
                         history=hist)
                return
            res.seen(sorted((k, str(v)) for k, v in cores.table(core).items()))
            res.sample = [str(h) for h in hist]


def run_feed(item, res, npairs):
    """all feed-through matrices over {-1, 0, 1}"""
    if npairs == 1:
        mats = [((item['row'] - 1, b), (c, d))
                for b, c, d in itertools.product((-1, 0, 1), repeat=3)]
        gains = [['1'], ['-1'], ['2']]
    else:
        mats = []
        for rest in itertools.product((-1, 0, 1), repeat=4):
            e = list(item['first']) + list(rest)
            for sgn in (-1, 1):
                m = [[0]*4 for _ in range(4)]
                it = iter(e)
                for i in range(4):
                    for j in range(i + 1, 4):
                        v = next(it)
                        m[i][j], m[j][i] = v, sgn*v
                mats.append(tuple(tuple(r) for r in m))
        gains = [['1', '-1']] if item['tier'] == 'quick' else \
            [['1', '-1'], ['1', '1'], ['2', '-1']]
    refused = solved = 0
    for mat in mats:
        n = 2*npairs
        table = [[0]*(n + 2) for _ in range(n + 2)]
        # one storage, one plain port, then the feed-through block
        for i in range(n):
            for j in range(n):
                table[2 + i][2 + j] = mat[i][j]
            table[0][2 + i], table[2 + i][0] = i + 1, -(i + 1)
            table[1][2 + i], table[2 + i][1] = 3*i - 1, 2*i + 1
        spec = dict(x=['xa'], H='xa**2/2', y=n + 1, M=table,
                    free=['alpha', 'beta'])
        base = cores.build(spec)
        before = cores.table(base)
        for gs in gains:
            core = copy.copy(base)
            cons = []
            for k, g in enumerate(gs):
                core.add_connector((1, 2), alpha=Integer(g))
                cons.append(('y%i' % (2*k + 1), 'y%i' % (2*k + 2), Integer(g)))
            want = expected({k: val(v, {}) for k, v in before.items()}, {},
                            ['xa', 'y0'], cons)
            res.transitions += len(gs) + 1
            res.states += 1
            res.traces += 1
            try:
                core.connect()
                done = True
            except Exception as e:
                done, why = False, describe(e)
            if want is None:
                refused += 1
                if done:
                    res.fail('impossible accepted',
                             'feed-through %s gains %s: no solution exists, '
                             'the result is %s' % (mat, gs, core.M))
                    return
                continue
            solved += 1
            if not done:
                res.fail('possible refused', 'feed-through %s gains %s: %s'
                         % (mat, gs, why))
                return
            err = check(core, before, ['xa'] + ['u%i' % i for i in range(n + 1)],
                        cons, ['y0'])
            if err:
                res.fail('feed-through', '%s: %s gains %s' % (err, mat, gs))
                return
            res.seen(str(core.M))
    res.sample = {'refused': refused, 'solved': solved}


def run_case(item):
    res = Result()
    if item['kind'] == 'pairs':
        run_pairs(item, res)
    else:
        run_feed(item, res, 1 if item['kind'] == 'feed' else 2)
    return res

# -*- coding: utf-8 -*-
"""
C04  Interconnection blocks: reads return writes and nothing else changes.

States: contents of the structure matrix.  Transitions: every block setter
(M, J and R, over x w y cy xl xnl wl wnl), each with a fresh admissible matrix.
Every sequence up to the depth is run on the real core and on a reference
model made of two plain tables (conservative part, resistive part).
"""
from __future__ import absolute_import, division, print_function

import itertools

import numpy
import sympy

from pyphs import Core
from mc.lib import Result, describe

PROPERTY = 'C04'
NAMES = ('x', 'w', 'y', 'cy', 'xl', 'xnl', 'wl', 'wnl')
# (xl, xnl, wl, wnl, y, cy)
DIMS_QUICK = [(1, 1, 1, 1, 2, 2), (2, 1, 1, 2, 1, 0), (0, 2, 2, 0, 1, 2),
              (2, 0, 0, 1, 2, 0)]
DIMS_MORE = [(1, 0, 0, 0, 1, 0), (0, 1, 1, 1, 0, 0), (2, 2, 1, 1, 1, 2),
             (0, 0, 1, 2, 2, 2), (1, 2, 2, 1, 0, 2), (1, 1, 0, 0, 3, 0)]
BOUNDS = {
    'quick': 'all 192 setters, sequences of length 2 on 4 dimension vectors; '
             'all 192 getters read before and after every first write',
    'thorough': 'all sequences of length 2 on 10 dimension vectors, and all '
                'of length 3 over the non-empty M/J/R setters of one'}
RULE = ('one trace = one sequence of block assignments, executed on a core and '
        'on two tables; compared after every assignment')


def build(dims):
    xl, xnl, wl, wnl, y, cy = dims
    core = Core()
    for i in range(xl):
        s = core.symbols('xl%i' % i)
        core.add_storages(s, s**2/2)
    for i in range(xnl):
        s = core.symbols('xn%i' % i)
        core.add_storages(s, s**4/4)
    for i in range(wl):
        s = core.symbols('wl%i' % i)
        core.add_dissipations(s, 2*s)
    for i in range(wnl):
        s = core.symbols('wn%i' % i)
        core.add_dissipations(s, s**3)
    for i in range(y + cy):
        core.add_ports(core.symbols('u%i' % i), core.symbols('y%i' % i))
    core.init_M()
    core.linear_nonlinear()
    for i in range(0, cy, 2):
        core.add_connector((y, y + 1), alpha=sympy.Integer(1))
    return core


def span(dims, name):
    """index ranges, computed by hand"""
    xl, xnl, wl, wnl, y, cy = dims
    nx, nw = xl + xnl, wl + wnl
    return {'x': (0, nx), 'xl': (0, xl), 'xnl': (xl, nx),
            'w': (nx, nx + nw), 'wl': (nx, nx + wl), 'wnl': (nx + wl, nx + nw),
            'y': (nx + nw, nx + nw + y),
            'cy': (nx + nw + y, nx + nw + y + cy)}[name]


class Model(object):
    """conservative and resistive parts, as plain tables"""

    def __init__(self, dims):
        self.dims = dims
        n = sum(dims)
        self.J = numpy.zeros((n, n))
        self.R = numpy.zeros((n, n))

    def copy(self):
        m = Model(self.dims)
        m.J, m.R = self.J.copy(), self.R.copy()
        return m

    def read(self, part, a, b):
        (i0, i1), (j0, j1) = span(self.dims, a), span(self.dims, b)
        full = {'M': self.J - self.R, 'J': self.J, 'R': self.R}[part]
        return full[i0:i1, j0:j1]

    def write(self, part, a, b, mat):
        (i0, i1), (j0, j1) = span(self.dims, a), span(self.dims, b)
        if part == 'J':
            self.J[i0:i1, j0:j1] = mat
            self.J[j0:j1, i0:i1] = -mat.T
        elif part == 'R':
            self.R[i0:i1, j0:j1] = mat
            self.R[j0:j1, i0:i1] = mat.T
        else:
            M = self.J - self.R
            M[i0:i1, j0:j1] = mat
            self.J = (M - M.T)/2
            self.R = -(M + M.T)/2


def admissible(dims, part, a, b, salt):
    """a fresh matrix for the block, (skew-)symmetric where it meets itself"""
    (i0, i1), (j0, j1) = span(dims, a), span(dims, b)
    n = sum(dims)
    full = numpy.arange(1, n*n + 1, dtype=float).reshape(n, n)*(2 + salt) + salt
    full *= numpy.where(numpy.add.outer(numpy.arange(n),
                                        numpy.arange(n)*2 + salt) % 3 == 0, -1, 1)
    if part == 'J':
        full = numpy.triu(full, 1)
        full = full - full.T
    elif part == 'R':
        full = numpy.triu(full) + numpy.triu(full, 1).T
    return full[i0:i1, j0:j1]


def tonum(mat):
    mat = sympy.Matrix(mat)
    return numpy.array([[float(mat[i, j]) for j in range(mat.shape[1])]
                        for i in range(mat.shape[0])]).reshape(mat.shape)


def forms(mat, salt):
    """the matrix-like forms the setters accept"""
    if salt % 3 == 0:
        return [[sympy.Rational(v) for v in row] for row in mat.tolist()]
    if salt % 3 == 1:
        return sympy.Matrix(mat.shape[0], mat.shape[1],
                            [int(v) for v in mat.ravel()])
    return sympy.SparseMatrix(mat.shape[0], mat.shape[1],
                              [int(v) for v in mat.ravel()])


def setters(dims):
    out = []
    for part in 'MJR':
        for a, b in itertools.product(NAMES, NAMES):
            (i0, i1), (j0, j1) = span(dims, a), span(dims, b)
            if i1 > i0 and j1 > j0:
                out.append((part, a, b))
    return out


def same(got, want):
    return got.shape == want.shape and numpy.all(got == want)


def compare(res, core, model, history, full):
    M = tonum(core.M)
    if not same(M, model.J - model.R):
        res.fail('structure', 'after %s the structure is\n%s\nexpected\n%s'
                 % (history, M, model.J - model.R), history=history)
        return False
    J, R = tonum(core.J()), tonum(core.R())
    if not (same(J, model.J) and same(R, model.R)):
        res.fail('parts', 'after %s J=\n%s\nR=\n%s' % (history, J, R),
                 history=history)
        return False
    if full:
        for part in 'MJR':
            for a, b in itertools.product(NAMES, NAMES):
                got = tonum(getattr(core, part + a + b)())
                res.evaluations += 1
                if not same(got, model.read(part, a, b)):
                    res.fail('read %s%s%s' % (part, a, b),
                             'after %s: got\n%s\nexpected\n%s'
                             % (history, got, model.read(part, a, b)),
                             history=history)
                    return False
    return True


def apply_(core, model, op, salt):
    part, a, b = op
    mat = admissible(model.dims, part, a, b, salt)
    getattr(core, 'set_%s%s%s' % op)(forms(mat, salt))
    model.write(part, a, b, mat)


def cases(tier):
    items = []
    dims = DIMS_QUICK if tier == 'quick' else DIMS_QUICK + DIMS_MORE
    for d in dims:
        for op in setters(d):
            items.append({'dims': d, 'first': op, 'depth': 2})
    if tier == 'thorough':
        d = (1, 1, 1, 0, 1, 0)
        for op in setters(d):
            items.append({'dims': d, 'first': op, 'depth': 3})
    return items


def run_case(item):
    res = Result()
    dims = tuple(item['dims'])
    first = tuple(item['first'])
    core = build(dims)
    model = Model(dims)
    if not compare(res, core, model, [], True):
        return res
    apply_(core, model, first, 1)
    res.transitions += 1
    res.states += 1
    if not compare(res, core, model, [first], True):
        return res

    def explore(snapshot, model, history):
        for op in setters(dims):
            core.M = snapshot.copy()
            m = model.copy()
            hist = history + [op]
            apply_(core, m, op, 1 + len(history))
            res.transitions += 1
            res.states += 1
            if not compare(res, core, m, hist, False):
                return False
            got = tonum(getattr(core, '%s%s%s' % op)())
            if not same(got, m.read(*op)):
                res.fail('read-back', 'after %s' % hist, history=hist)
                return False
            if len(hist) < item['depth']:
                if not explore(core.M.copy(), m, hist):
                    return False
            else:
                res.traces += 1
        return True

    explore(core.M.copy(), model, [first])
    res.seen(tonum(core.M).tolist())
    res.sample = [first, setters(dims)[-1]]
    return res

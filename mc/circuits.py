# -*- coding: utf-8 -*-
"""
Circuits as plain lists of components, an independent exact solution of
Kirchhoff's laws and the constitutive laws, and the reading of a core's
response, both for exponential signals exp(s*t).

A component is [kind, n1, n2] for V I R C L, or [kind, a1, a2, b1, b2] for T
(transformer) and G (gyrator). Component k of the list is labelled kind+k.
Every edge follows the receiver convention (effort n1 minus n2, flux n1 to n2).
"""
from __future__ import absolute_import, division, print_function

from fractions import Fraction as F
import os

import sympy

KINDS = {'V': ('electronics', 'source', {'type': 'voltage'}),
         'I': ('electronics', 'source', {'type': 'current'}),
         'R': ('electronics', 'resistor', 'R'),
         'C': ('electronics', 'capacitor', 'C'),
         'L': ('electronics', 'inductor', 'L'),
         'T': ('connectors', 'transformer', 'alpha'),
         'G': ('connectors', 'gyrator', 'alpha')}

VALUES = {'R': [3, 5, 7, 11, 13, 17, 8, 9, 19, 23], 'C': [2, 9, 6, 15, 10, 21, 14, 25, 4, 3],
          'L': [4, 14, 25, 22, 33, 35, 6, 9, 21, 5], 'T': [2, -3, 5, 7, 3, 4, 6, 9],
          'G': [3, -2, 7, 5, 2, 4, 6, 9]}


def label(circuit, k):
    return '%s%i' % (circuit[k][0], k)


def value(circuit, k):
    return VALUES[circuit[k][0]][k]


def text(circuit):
    return ' '.join('%s(%s)' % (c[0], ','.join(c[1:])) for c in circuit)


def netlist(circuit, path, order=None):
    from pyphs import Netlist
    net = Netlist(path, clear=True)
    for k in (order or range(len(circuit))):
        dic, comp, par = KINDS[circuit[k][0]]
        if isinstance(par, dict):
            args = dict(par)
        else:
            args = {par: ('%s%i' % (par, k), float(value(circuit, k)))}
        net.add_line({'dictionary': dic, 'component': comp,
                      'label': label(circuit, k),
                      'nodes': tuple(circuit[k][1:]), 'arguments': args})
    return net


def connected(circuit):
    groups = []
    for c in circuit:
        # the two windings of a connector are not galvanically connected
        for pair in ([c[1:3]] if len(c) == 3 else [c[1:3], c[3:5]]):
            s = set(pair)
            for g in [g for g in groups if g & s]:
                groups.remove(g)
                s |= g
            groups.append(s)
    return len(groups) == 1


# ------------------------------------------------------------------ algebra

def solve(rows, nrhs):
    """
    Gauss-Jordan on rows [coefficients | right-hand sides] of Fractions.
    Return the solution as a list (one list of nrhs values per unknown), or
    None when the solution does not exist or is not unique.
    """
    rows = [list(r) for r in rows]
    n = len(rows[0]) - nrhs
    piv = 0
    for col in range(n):
        k = next((i for i in range(piv, len(rows)) if rows[i][col] != 0), None)
        if k is None:
            return None
        rows[piv], rows[k] = rows[k], rows[piv]
        p = rows[piv][col]
        rows[piv] = [v/p for v in rows[piv]]
        for i in range(len(rows)):
            if i != piv and rows[i][col] != 0:
                m = rows[i][col]
                rows[i] = [a - m*b for a, b in zip(rows[i], rows[piv])]
        piv += 1
    for r in rows[piv:]:
        if any(v != 0 for v in r):
            return None
    return [rows[i][n:] for i in range(n)]


def solution(circuit, s):
    """
    {label: (effort, flux)} of lists, one value per source, for unit
    amplitude exp(s*t) excitation; None when it does not exist or is not
    unique. With s=None the storages are independent sources as well (known
    effort of C, known flux of L): the columns are then [storages, sources].
    """
    nodes = sorted(set(n for c in circuit for n in c[1:]),
                   key=lambda n: (n != '#', n))
    pairs = []
    for k, c in enumerate(circuit):
        pairs.append((k, c[1], c[2], ''))
        if len(c) == 5:
            pairs[-1] = (k, c[1], c[2], 'A')
            pairs.append((k, c[3], c[4], 'B'))
    ne, nn = len(pairs), len(nodes)
    stor = [k for k, c in enumerate(circuit) if c[0] in 'CL']
    src = [k for k, c in enumerate(circuit) if c[0] in 'VI']
    cols = (stor if s is None else []) + src
    n = 2*ne + nn
    rows = []

    def row(entries, rhs=None):
        r = [F(0)]*(n + len(cols))
        for i, v in entries:
            r[i] += F(v)
        if rhs is not None:
            r[n + cols.index(rhs[0])] = F(rhs[1])
        rows.append(r)

    def e(i):
        return i

    def f(i):
        return ne + i

    def v(node):
        return 2*ne + nodes.index(node)
    at = {}
    for i, (k, a, b, side) in enumerate(pairs):
        at[(k, side)] = i
        row([(e(i), 1), (v(a), -1), (v(b), 1)])
    for node in nodes[1:]:
        row([(f(i), (a == node) - (b == node))
             for i, (k, a, b, side) in enumerate(pairs)])
    row([(v(nodes[0]), 1)])
    for k, c in enumerate(circuit):
        val = None if c[0] in 'VI' else value(circuit, k)
        if c[0] == 'V':
            row([(e(at[(k, '')]), 1)], (k, 1))
        elif c[0] == 'I':
            row([(f(at[(k, '')]), 1)], (k, 1))
        elif c[0] == 'R':
            row([(e(at[(k, '')]), 1), (f(at[(k, '')]), -val)])
        elif c[0] == 'C':
            if s is None:
                row([(e(at[(k, '')]), 1)], (k, 1))
            else:
                row([(f(at[(k, '')]), 1), (e(at[(k, '')]), -s*val)])
        elif c[0] == 'L':
            if s is None:
                row([(f(at[(k, '')]), 1)], (k, 1))
            else:
                row([(e(at[(k, '')]), 1), (f(at[(k, '')]), -s*val)])
        elif c[0] == 'T':
            a, b = at[(k, 'A')], at[(k, 'B')]
            row([(f(a), 1), (f(b), val)])
            row([(e(b), 1), (e(a), -val)])
        elif c[0] == 'G':
            a, b = at[(k, 'A')], at[(k, 'B')]
            row([(e(a), 1), (f(b), val)])
            row([(e(b), 1), (f(a), -val)])
    sol = solve(rows, len(cols))
    if sol is None:
        return None
    out = {}
    for (k, side), i in at.items():
        out[label(circuit, k) + side] = (sol[e(i)], sol[f(i)])
    return out


# --------------------------------------------------------------------- core

def number(expr, subs):
    """exact value of an expression whose symbols are all in subs"""
    v = sympy.nsimplify(sympy.sympify(expr).subs(subs), rational=True)
    if not v.is_Rational:
        raise ValueError('%s is not a number' % expr)
    return F(int(v.p), int(v.q))


def linear_core(core):
    """
    The core as exact numbers: dict with names x, w, y, matrix M, quadratic
    energy K (dxH = K x) and diagonal law D (z = D w). Raises when it is not
    linear in this sense.
    """
    subs = {k: sympy.nsimplify(v, rational=True) for k, v in core.subs.items()}
    x, w = list(core.x), list(core.w)
    nx, nw, ny = len(x), len(w), len(core.y)
    if core.M.shape != (nx+nw+ny, nx+nw+ny):
        raise AssertionError('structure matrix of shape %s for %i+%i+%i '
                             'variables' % (core.M.shape, nx, nw, ny))
    M = [[number(core.M[i, j], subs) for j in range(nx+nw+ny)]
         for i in range(nx+nw+ny)]
    H = sympy.sympify(core.H)
    K = [[number(sympy.diff(H, a, b), subs) for b in x] for a in x]
    if x and sympy.simplify(H.subs({a: 0 for a in x})) != 0:
        raise AssertionError('energy at rest is not zero: %s' % H)
    D = [[number(sympy.diff(z, b), subs) for b in w] for z in core.z]
    return dict(x=[str(a) for a in x], w=[str(a) for a in w],
                y=[str(a) for a in core.y], u=[str(a) for a in core.u],
                M=M, K=K, D=D)


def core_solution(lc, s):
    """
    The core's response to exp(s*t) inputs: dict with lists (one value per
    input) x, dxH, w, z, y; None when singular. With s=None, x is independent
    (columns [x, u]) and 'dtx' is returned too.
    """
    nx, nw, ny = len(lc['x']), len(lc['w']), len(lc['y'])
    M, K, D = lc['M'], lc['K'], lc['D']
    n = nx + nw + ny          # unknowns: x or dtx, w, y
    ncol = ny if s is not None else nx + ny
    rows = []
    for i in range(nx + nw + ny):
        r = [F(0)]*(n + ncol)
        # left-hand side: dtx = s x, w, y
        r[i] += (s if (i < nx and s is not None) else 1)
        for j in range(nx):                      # M[i,j] * dxH_j
            for l in range(nx):
                c = M[i][j]*K[j][l]
                if s is not None:
                    r[l] -= c
                else:
                    r[n + l] += c
        for j in range(nw):                      # M[i,nx+j] * z_j
            for l in range(nw):
                r[nx + l] -= M[i][nx + j]*D[j][l]
        for j in range(ny):
            r[n + (ncol - ny) + j] += M[i][nx + nw + j]
        rows.append(r)
    sol = solve(rows, ncol)
    if sol is None:
        return None
    out = {'w': sol[nx:nx+nw], 'y': sol[nx+nw:]}
    if s is None:
        out['dtx'] = sol[:nx]
    else:
        out['x'] = sol[:nx]
        out['dxH'] = [[sum(K[j][l]*sol[l][c] for l in range(nx))
                       for c in range(ncol)] for j in range(nx)]
    out['z'] = [[sum(D[j][l]*sol[nx+l][c] for l in range(nw))
                 for c in range(ncol)] for j in range(nw)]
    return out


# --------------------------------------------------------------- comparison

def same(a, b):
    """equal, up to the rounding of the floats found in a merged law"""
    return abs(a - b) <= F(1, 10**9)*max(abs(a), abs(b))


def compare(circuit, core, svals=(F(1), F(1, 3), F(5, 2)), merged=False):
    """
    [] or a list of differences between a core and a circuit. Exact.
    """
    bad = []
    lc = linear_core(core)
    n = len(lc['M'])
    for i in range(n):
        for j in range(n):
            if lc['M'][i][j] + lc['M'][j][i] != 0:
                return ['interconnection not skew-symmetric at %i,%i: %s'
                        % (i, j, core.M)]
    src = [k for k, c in enumerate(circuit) if c[0] in 'VI']
    names = ['y' + label(circuit, k) for k in src]
    if sorted(lc['y']) != sorted(names):
        return ['ports are %s instead of %s' % (lc['y'], names)]
    if [u[1:] for u in lc['u']] != [y[1:] for y in lc['y']]:
        return ['inputs %s do not match outputs %s' % (lc['u'], lc['y'])]
    perm = [lc['y'].index(nm) for nm in names]   # input order of the core
    stor = ['x' + label(circuit, k) for k, c in enumerate(circuit)
            if c[0] in 'CL']
    diss = ['w' + label(circuit, k) for k, c in enumerate(circuit)
            if c[0] == 'R']
    if not merged:
        if sorted(lc['x']) != sorted(stor):
            return ['states are %s instead of %s' % (lc['x'], stor)]
        if sorted(lc['w']) != sorted(diss):
            return ['dissipation variables are %s instead of %s'
                    % (lc['w'], diss)]
    vecs = []
    for i in range(len(src)):
        v = [0]*len(src)
        v[i] = 1
        vecs.append(v)
        for j in range(i):
            w = list(v)
            w[j] = 1
            vecs.append(w)
    for s in svals:
        ref = solution(circuit, s)
        got = core_solution(lc, s)
        if ref is None:
            return ['the circuit has no unique solution but a core is returned']
        if got is None:
            return ['the core has no unique response']
        out = {label(circuit, k): ref[label(circuit, k)]
               [1 if circuit[k][0] == 'V' else 0] for k in src}
        for i, nm in enumerate(names):
            g = got['y'][lc['y'].index(nm)]
            for c in range(len(src)):
                if not same(g[perm[c]], out[nm[1:]][c]):
                    return ['transfer %s <- %s at s=%s is %s instead of %s'
                            % (nm, names[c], s, g[perm[c]], out[nm[1:]][c])]
        for k, c in enumerate(circuit):
            # single components keep their own variable
            lb = label(circuit, k)
            if c[0] in 'CL' and 'x' + lb in lc['x']:
                i = lc['x'].index('x' + lb)
                r = ref[lb][0 if c[0] == 'C' else 1]
                for q in range(len(src)):
                    if not same(got['dxH'][i][perm[q]], r[q]):
                        return ['co-energy variable of %s at s=%s is %s '
                                'instead of %s' % (lb, s, got['dxH'][i][perm[q]], r[q])]
                    if not same(got['x'][i][perm[q]], r[q]*value(circuit, k)):
                        return ['state of %s at s=%s is %s instead of %s'
                                % (lb, s, got['x'][i][perm[q]], r[q]*value(circuit, k))]
            if c[0] == 'R' and 'w' + lb in lc['w']:
                i = lc['w'].index('w' + lb)
                for q in range(len(src)):
                    p = (got['w'][i][perm[q]], got['z'][i][perm[q]])
                    r = (ref[lb][0][q], ref[lb][1][q])
                    if not (same(p[0], r[0]) and same(p[1], r[1]) or
                            same(p[0], r[1]) and same(p[1], r[0])):
                        return ['variables of %s at s=%s are %s instead of %s'
                                % (lb, s, p, r)]
        for v in vecs:
            def at(row, p=None):
                return sum(a*b for a, b in
                           zip([row[q] for q in (p or range(len(src)))], v))
            E0 = P0 = F(0)
            for k, c in enumerate(circuit):
                lb = label(circuit, k)
                if c[0] == 'C':
                    E0 += value(circuit, k)*at(ref[lb][0])**2/2
                elif c[0] == 'L':
                    E0 += value(circuit, k)*at(ref[lb][1])**2/2
                elif c[0] == 'R':
                    P0 += at(ref[lb][0])*at(ref[lb][1])
            E1 = sum((at(got['x'][i], perm)*at(got['dxH'][i], perm)/2
                      for i in range(len(lc['x']))), F(0))
            P1 = sum((at(got['w'][i], perm)*at(got['z'][i], perm)
                      for i in range(len(lc['w']))), F(0))
            if not same(E0, E1):
                return ['stored energy at s=%s is %s instead of %s' % (s, E1, E0)]
            if not same(P0, P1):
                return ['dissipated power at s=%s is %s instead of %s'
                        % (s, P1, P0)]
    return bad

# -*- coding: utf-8 -*-
"""
C15 - numerical functions.

Every name (vectors, functions, matrices, all their blocks) of every system is
turned into a numerical function by the real library, with and without
vectorisation, with every selection of components, and called on every point of
a grid, one point at a time and as vectors of 1 and 3 points; the reference is
the value of the symbolic expression of the core where the parameters have been
replaced here.  Operations: every tree of operations up to the depth.
"""
from __future__ import absolute_import, division, print_function

import itertools

import numpy
import sympy

from mc import c05, cores, steps
from mc.lib import Result, describe

PROPERTY = 'C15'
MAXTASKS = 4
BOUNDS = {
    'quick': '32 systems; all names, blocks of M, J, R between all parts; '
             'points: 4; calls: scalars, vectors of 1 and 3; selections of '
             'components; trees of 2 operations over 7 operations and 5 '
             'operands; 12 expressions x 3 forms of lambdify',
    'thorough': 'same, also on the methods built of the systems (6 schemes), '
                'points: 8; trees of 3 operations',
}
RULE = 'value of the function = value of the symbolic expression, same shape'

EXTRA = {
    'connectors': dict(x=['xa'], H='xa**2/2', w=['wa'], z=['R*wa'], y=4,
                       par={'R': 2.}, M='generic', conn=[(0, 2, 'R')]),
    'no symbol': dict(x=['xa', 'xb'], H='3*xa+2', w=['wa'], z=['5'], y=1,
                      M=[['0', '1', '2', '3']]*4),
    'nested parameters': dict(
        x=['xa', 'xb'], H='A*xa**2+B*xb**2+C*xa', w=['wa', 'wb'],
        z=['A*wa', 'B*wb+C'], y=1, par={'A': 'B*C', 'B': 'C+1', 'C': 3.},
        obs={'o1': 'A*xa+u0', 'o2': 'C', 'o3': 'wa*dxb'}, free=['dxb'],
        M=[['0', 'A', 'B*xa', 'C', '1'], ['-A', '-B', 'wa', 'u0', 'C'],
           ['-B*xa', '-wa', '0', '2', '3'], ['-C', '-u0', '-2', '-A', '0'],
           ['-1', '-C', '-3', '0', '-C*xb']]),
    # the observers are arguments, in the order of their definition
    'observed': dict(
        x=['xa'], H='xa**2/2', w=['wa'], z=['(1+oa**2+3*ob)*wa+oc'], y=1,
        obs={'oc': 'xa+wa', 'oa': '2*xa', 'ob': 'u0'}, free=['oa', 'ob', 'oc'],
        M=[['0', 'ob', 'oc'], ['-ob', '-oa', '2'], ['-oc', '-2', '0']]),
    'functions': dict(
        x=['xa', 'xb'], H='log(1+xa**2)+cosh(xb)+sqrt(1+xa**2*xb**2)',
        w=['wa', 'wb'], z=['exp(wa)-1', 'tanh(wb)+Abs(wa)+sign(xb)'], y=1,
        M='generic'),
}


def systems():
    out = dict(steps.specs())
    out.update(EXTRA)
    return out


def cases(tier):
    for n in systems():
        yield ['core', n, 'all', 4 if tier == 'quick' else 8]
        yield ['core', n, 'listed', 4 if tier == 'quick' else 8]
        yield ['core', n, 'selected', 2 if tier == 'quick' else 4]
    if tier != 'quick':
        for n in steps.specs():
            for c in steps.configs(tier):
                if c['fs'] == 40. and (c['grad'] != 'discret' or c['theta'] == 0.5):
                    yield ['method', n, {k: c[k] for k in ('grad', 'theta', 'split')}, 3]
    for op in OPS:
        yield ['tree', op, 2 if tier == 'quick' else 3]
    yield ['lambdify']


def run_case(item):
    return {'core': case_core, 'method': case_method, 'tree': case_tree,
            'lambdify': case_lambdify}[item[0]](*item[1:])


# --------------------------------------------------------------------------

def resolved(subs):
    d = {k: sympy.sympify(v) for k, v in subs.items()}
    for _ in range(len(d)):
        d = {k: v.subs(d) for k, v in d.items()}
    return d


def read(core, name):
    if name == 'o':
        return list(core.observers.values())
    v = getattr(core, name)
    if callable(v) and not isinstance(v, sympy.Basic):
        v = v()
    return v


class Reference(object):
    """expression, with the parameters replaced, as a function of names"""

    def __init__(self, core, name):
        e = read(core, name)
        d = resolved(core.subs)
        if isinstance(e, (list, tuple)):
            self.shape = (len(e),)
            cells = list(e)
        elif isinstance(e, sympy.MatrixBase):
            self.shape = e.shape
            cells = list(sympy.Matrix(e))
        else:
            self.shape = ()
            cells = [e]
        self.cells = [sympy.sympify(c).subs(d) for c in cells]
        self.symbols = sorted(set().union(*[c.free_symbols for c in self.cells]),
                              key=str) if self.cells else []
        self.vector = isinstance(e, (list, tuple))

    def __call__(self, env):
        out = []
        at = {s: sympy.Float(env[str(s)], 20) for s in self.symbols}
        for c in self.cells:
            v = sympy.N(c.subs(at))
            out.append(float(v))
        return numpy.array(out, dtype=float).reshape(self.shape)


def points(names, n):
    out = []
    for k in range(n):
        out.append({m: round(0.35*(((i + 2)*(k + 1)*3) % 7 - 2.5), 4)
                    for i, m in enumerate(names)})
    return out


def all_names(core):
    parts = ['x', 'xl', 'xnl', 'w', 'wl', 'wnl', 'y', 'cy']
    names = ['x', 'w', 'u', 'p', 'o', 'dx', 'H', 'z', 'dxH', 'M', 'J', 'R',
             'Q', 'Zl', 'bl', 'zl', 'znl', 'dxHl', 'dxHnl', 'xl', 'xnl', 'wl',
             'wnl', 'pd']
    names += [m + a + b for m in 'MJR' for a in parts for b in parts]
    return [n for n in names if n == 'o' or hasattr(core, n)]


def good(got, exp):
    try:
        got = numpy.asarray(got, dtype=float)
    except (TypeError, ValueError):
        return False
    if got.shape != exp.shape:
        # an empty matrix may lose its shape
        return got.size == 0 and exp.size == 0
    return numpy.allclose(got, exp, rtol=1e-9, atol=1e-11)


def check_name(res, ident, evals, name, ref, pts, allargs, sel=None,
               vectorize=True):
    """every call of one numerical function"""
    func = getattr(evals, name)
    args = [str(a) for a in getattr(evals, name + '_args')]
    inds = list(getattr(evals, name + '_inds'))
    if args != [allargs[i] for i in inds] or not (
            set(str(s) for s in ref.symbols) <= set(args)):
        res.fail('arguments', '%s: arguments %s, indices %s of %s for the '
                 'symbols %s' % (ident, args, inds, allargs, ref.symbols))
        return False
    values = [ref(env) for env in pts]
    if sel is not None:
        values = [v[sel] for v in values]
    calls = [([env[a] for a in args], v, 'scalars') for env, v in zip(pts, values)]
    if vectorize and args:
        for chunk in ([0], [1, 0, len(pts) - 1]):
            exp = numpy.array([values[k] for k in chunk])
            calls.append(([[pts[k][a] for k in chunk] for a in args], exp, 'lists'))
            calls.append(([numpy.array([pts[k][a] for k in chunk]) for a in args],
                          exp, 'arrays'))
    elif vectorize:
        for n in (1, 3):
            exp = numpy.array([values[0]]*n)
            calls.append(([[0.]*n], exp, 'list'))
            calls.append(([numpy.zeros(n)], exp, 'array'))
    for a, exp, kind in calls:
        res.transitions += 1
        try:
            got = func(*a)
        except Exception as e:
            res.fail('call', '%s with %s: %s' % (ident, kind, describe(e)))
            return False
        if not good(got, exp):
            res.fail('value', '%s with %s %s gave %r instead of %s'
                     % (ident, kind, dict(zip(args, a)), got, exp.tolist()))
            return False
    res.states += 1
    return True


def case_core(name, mode, npts):
    res = Result()
    core = cores.build(systems()[name])
    before = c05.reading(core)
    allargs = [str(s) for s in (core.x + core.dx() + core.w + core.u + core.p
                                + list(core.observers))]
    extra = [n for n in ('gxa', 'gxb') if n in systems()[name].get('free', [])]
    pts = points(allargs + extra, npts)

    def usable(ref):
        return set(str(s) for s in ref.symbols) <= set(allargs)

    try:
        if mode == 'all':
            for vec in (True, False):
                names = set(core.exprs_names) | set(core.struc_names) | {'dxH'}
                refs = {n: Reference(core, n) for n in names}
                if not all(usable(r) for r in refs.values()):
                    continue          # symbols without a value: refused
                evals = core.to_evaluation(vectorize=vec)
                for n in sorted(names):
                    if not check_name(res, (name, n, vec), evals, n, refs[n],
                                      pts, allargs, vectorize=vec):
                        return res
        elif mode == 'listed':
            refs = {n: Reference(core, n) for n in all_names(core)}
            names = sorted(n for n in refs if usable(refs[n]))
            evals = core.to_evaluation(names=names)
            if [str(a) for a in evals.args()] != allargs:
                res.fail('arguments', '%s: args() is %s' % (name, evals.args()))
            for n in names:
                if not check_name(res, (name, n), evals, n, refs[n], pts, allargs):
                    return res
            # one at a time gives the same
            for n in names[::9]:
                ev = core.to_evaluation(names=[n], vectorize=False)
                if not check_name(res, (name, n, 'alone'), ev, n, refs[n], pts,
                                  allargs, vectorize=False):
                    return res
        else:
            for n in ('z', 'dxH', 'x', 'o', 'u'):
                ref = Reference(core, n)
                if not usable(ref):
                    continue
                k = ref.shape[0]
                sels = [slice(None), slice(1, None), slice(None, None, 2),
                        slice(0, 1)] + list(range(-k, k))
                for sel in sels:
                    ev = core.to_evaluation(names=[n], vslice=sel)
                    if not check_name(res, (name, n, str(sel)), ev, n, ref, pts,
                                      allargs, sel=sel):
                        return res
    except Exception as e:
        res.fail('build', '%s, %s: %s' % (name, mode, describe(e)))
        return res
    changed = c05.differ(before, c05.reading(core))
    if changed:
        res.fail('core', '%s, %s: the core has changed: %s' % (name, mode, changed))
    res.traces += 1
    res.seen(name, mode, res.states)
    return res


def case_method(name, config, npts):
    res = Result()
    core = cores.build(systems()[name])
    method = core.to_method(config=config)
    method.subs[method.fs] = 40.
    allargs = [str(s) for s in method.args()]
    pts = points(allargs, npts)
    names = ['H', 'z', 'dxH', 'M', 'Mxx', 'Mwy', 'Jxw', 'Ryy', 'o', 'x', 'w', 'pd']
    try:
        refs = {n: Reference(method, n) for n in names}
        names = [n for n in names if
                 set(str(s) for s in refs[n].symbols) <= set(allargs)]
        evals = method.to_evaluation(names=names)
        for n in names:
            if not check_name(res, (name, config, n), evals, n, refs[n], pts,
                              allargs):
                return res
    except Exception as e:
        res.fail('build', '%s, %s: %s' % (name, config, describe(e)))
    res.traces += 1
    return res


# -- operations --------------------------------------------------------------

A = numpy.array([[2., 1.], [-1., 3.]])
V = numpy.array([0.5, -2.])
LEAVES = [('number', 2.5), ('integer', -3), ('matrix', A), ('vector', V),
          ('function', lambda: V*3)]
OPS = ['add', 'prod', 'dot', 'inv', 'div', 'norm', 'copy']
ARITY = dict(add=2, prod=2, dot=2, div=2, inv=1, norm=1, copy=1)


def value(leaf):
    return leaf() if callable(leaf) else leaf


def model(op, args):
    args = [numpy.asarray(a, dtype=float) for a in args]
    if op == 'add':
        return args[0] + args[1]
    if op == 'prod':
        return args[0]*args[1]
    if op == 'div':
        return args[0]/args[1]
    if op == 'dot':
        a, b = args
        if a.ndim == 0 or b.ndim == 0:
            return a*b
        return a.dot(b)
    if op == 'inv':
        if args[0].shape != (2, 2):
            raise ValueError('not a matrix')
        (a, b), (c, d) = args[0]
        if abs(a*d - b*c) < 1e-9:
            raise ValueError('singular')
        return numpy.array([[d, -b], [-c, a]])/(a*d - b*c)
    if op == 'norm':
        if args[0].ndim != 1:
            raise ValueError('not a vector')
        return numpy.sqrt((args[0]**2).sum())
    return args[0]


def trees(depth):
    """(description, Operation, model value) of every tree up to the depth"""
    from pyphs import Operation
    out = [(n, v, value(v)) for n, v in LEAVES]
    if depth == 0:
        return out
    below = trees(depth - 1)
    small = below if depth < 3 else below[:40]
    for op in OPS:
        for args in itertools.product(small, repeat=ARITY[op]):
            out.append(('%s(%s)' % (op, ', '.join(a[0] for a in args)),
                        lambda o=op, a=args: Operation(o, [x[1]() if x[0].endswith(')')
                                                           else x[1] for x in a]),
                        lambda o=op, a=args: model(o, [x[2]() if x[0].endswith(')')
                                                       else x[2] for x in a])))
    return out


def case_tree(op, depth):
    from pyphs import Operation
    res = Result()
    below = trees(depth - 1)
    for args in itertools.product(below, repeat=ARITY[op]):
        text = '%s(%s)' % (op, ', '.join(a[0] for a in args))

        def get(i):
            return [x[i]() if x[0].endswith(')') else x[i] for x in args]
        try:
            exp = model(op, get(2))
        except (ValueError, ZeroDivisionError):
            continue
        if not numpy.all(numpy.isfinite(exp)):
            continue
        res.transitions += 1
        try:
            o = Operation(op, get(1))
            got = o()
            twice = o()
        except Exception as e:
            res.fail('operation', '%s: %s' % (text, describe(e)))
            return res
        if not good(got, exp) or not good(twice, exp):
            res.fail('operation', '%s gave %s then %s instead of %s'
                     % (text, got, twice, exp))
            return res
        res.states += 1
    res.traces += 1
    res.seen(op, res.states)
    return res


# -- lambdify ----------------------------------------------------------------

def case_lambdify():
    from pyphs.numerics.tools import lambdify
    res = Result()
    a, b, c, r = [cores.sym(n) for n in 'abcr']
    exprs = [a, a*b + c, sympy.Integer(3), 2.5, r*a, sympy.exp(a)*r + b,
             [], [a], [a, b*r, 1], [sympy.Integer(0)]*2,
             sympy.SparseMatrix([[a, 0], [r, b*c]]), sympy.SparseMatrix([[a]]),
             sympy.SparseMatrix(2, 1, [1, r]), sympy.SparseMatrix(1, 3, [a, b, c])]
    for e in exprs:
        for simplify in (False, True):
            for subs in ({r: 2.}, {r: 2., c: 5}):
                args = [a, b] if c in subs else [a, b, c]
                for k in range(3):
                    vals = [0.3*k - 0.5, 1.25, -0.75*k][:len(args)]
                    kept = dict(subs)
                    at = dict(zip(args, vals))
                    at.update(subs)

                    def num(x):
                        return float(sympy.sympify(x).subs(at))
                    if isinstance(e, list):
                        exp = numpy.array([num(x) for x in e])
                    elif isinstance(e, sympy.MatrixBase):
                        exp = numpy.array([num(x) for x in sympy.Matrix(e)]).reshape(e.shape)
                    else:
                        exp = numpy.array(num(e))
                    shown = str(e)
                    res.transitions += 1
                    try:
                        got = lambdify(args, e, subs=subs, simplify=simplify,
                                       theano=False)(*vals)
                    except Exception as x:
                        res.fail('lambdify', '%s, simplify=%s, %s: %s'
                                 % (e, simplify, subs, describe(x)))
                        return res
                    if not good(got, exp) or numpy.asarray(got).dtype != float:
                        res.fail('lambdify', '%s at %s gave %r instead of %s'
                                 % (e, at, got, exp))
                        return res
                    if subs != kept or str(e) != shown:
                        res.fail('lambdify', '%s: arguments changed' % (e,))
                        return res
                    res.states += 1
            try:
                lambdify([a], [a, b], theano=False)
            except AttributeError:
                pass
            except Exception as x:
                res.fail('lambdify', 'missing symbol: %s' % describe(x))
    res.traces += 1
    res.seen('lambdify')
    return res

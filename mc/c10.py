# -*- coding: utf-8 -*-
"""
C10 - simulation data.

runs     every system x configuration below is simulated on the real library;
         the same steps are taken on a separate Numeric object and kept in
         plain lists (the model).  Every name, every window (start, stop, step)
         of the run - given as the default window of the data object or as a
         slice of the call - and every component selection is read and compared
         with the slice of the lists.  Derived signals are computed here from
         the lists.  After every reading the bytes of the file are unchanged
         and the file is released.  The file is re-opened twice.
inputs   every form of u and p x lengths around the size of the write buffer.
windows  breadth-first search over the sequences of assignments to start, stop,
         step, tstart, tstop.
writer   every (rows, columns, row slice, column slice, buffer size) of
         set_dataset_from_iterable within the bounds.
"""
from __future__ import absolute_import, division, print_function

import fcntl
import itertools
import os
import warnings

import h5py
import numpy
import sympy

from mc import cores, steps
from mc.lib import Result, describe, quiet, scratch_dir

PROPERTY = 'C10'
MAXTASKS = 2            # the readers keep memory: fresh processes
BOUNDS = {
    'quick': '8 systems x 5 method configurations, runs of 1..5 steps, all '
             'windows and component selections; 11 forms of u x 9 of p x 3 '
             'systems x lengths 1, 1024, 1025, 2050; all assignment '
             'sequences of length 3 to the 5 window attributes (2 sample '
             'rates), all grid times up to 300 for 12 sample rates; all buffered '
             'writes up to 6 rows, 3 columns, buffer 1..7',
    'thorough': '27 systems x 14 method configurations, runs of 1..7 steps; '
                'window sequences of length 4; 2000 grid times for 40 rates; '
                'writes up to 9 rows, 4 columns, buffer 1..10',
}
RULE = ('for every run and every window, the arrays read are exactly the model '
        'lists sliced the same way; derived signals follow from them')
ASSUMPTIONS = ['the steps themselves are judged by C08 and C09: here the same '
               'Numeric class, stepped directly, gives the reference sequences',
               'time slices use positive steps (an HDF5 restriction)']

TOL = 1e-9


def tables(tier):
    names = list(steps.specs())
    if tier == 'quick':
        keep = ['linear', 'linear resistive', 'modulated law', 'observers', 'parameters',
                'no storage', 'no dissipation', 'no port']
        names = [n for n in names if n in keep]
        confs = [dict(grad='discret', theta=0., split=False, fs=1000.),
                 dict(grad='discret', theta=0.5, split=True, fs=44100.,
                      dnames=['y', 'w', 'dxH', 'x', 'z', 'dx']),
                 dict(grad='theta', theta=0.5, split=False, fs=1000.),
                 dict(grad='discret', theta=1., split=False, fs=100.),
                 dict(grad='trapez', theta=0., split=True, fs=1000.)]
        lengths = [1, 4]
    else:
        confs = steps.configs(tier)
        for c in confs:
            c['fs'] = 1000.
        confs = [c for i, c in enumerate(confs) if c not in confs[:i]]
        lengths = [1, 2, 3, 5, 7]
    return names, confs, lengths


def cases(tier):
    names, confs, lengths = tables(tier)
    for n in names:
        for i, c in enumerate(confs):
            # all the windows on the first configuration of each system; on
            # the others the values, a few windows, the derived signals
            full = tier != 'quick' or i == 0 and n in (
                'linear', 'observers', 'no storage')
            yield ['run', n, c, lengths if i == 0 or tier != 'quick'
                   else lengths[-1:], full]
    for k in range(len(FORM_SYSTEMS)):
        for nt in (1, 1024, 1025, 2050) if tier == 'quick' else (
                1, 2, 1023, 1024, 1025, 2048, 2050):
            yield ['inputs', k, nt]
    for fs in (10., 48000.):
        yield ['windows', fs, 3 if tier == 'quick' else 4]
    rates = [1., 3., 7., 10., 49., 100., 441., 1000., 11025., 44100., 48000.,
             96000.]
    if tier != 'quick':
        rates += [float(r) for r in range(20, 48)]
    for r in rates:
        yield ['times', r, 300 if tier == 'quick' else 2000]
    for rows in range(1, 7 if tier == 'quick' else 10):
        yield ['writer', rows, 3 if tier == 'quick' else 4,
               7 if tier == 'quick' else 10]


# --------------------------------------------------------------------------

def same(a, b, exact=True):
    a, b = numpy.asarray(a, dtype=float), numpy.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if exact:
        return numpy.array_equal(a, b)
    return numpy.allclose(a, b, rtol=1e-8, atol=1e-9)


def released(path):
    """no handle keeps the file locked"""
    with open(path, 'rb') as f:
        try:
            fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except (IOError, OSError):
            return False
        fcntl.flock(f, fcntl.LOCK_UN)
    return True


def make(core, config, **kw):
    cfg = {'lang': 'python', 'path': os.getcwd(), 'pbar': False}
    cfg.update({k: v for k, v in config.items()})
    method = core.to_method(config={k: config[k] for k in
                                    ('grad', 'theta', 'split') if k in config})
    from pyphs import Simulation
    return Simulation(method, config=cfg, **kw)


def inputs(n, nt, k):
    return [[round(((3*t + 2*i + k) % 7 - 3)*0.25, 3) for i in range(n)]
            for t in range(nt)]


def run_case(item):
    return {'run': case_run, 'inputs': case_inputs, 'windows': case_windows,
            'times': case_times, 'writer': case_writer}[item[0]](*item[1:])


# -- runs ------------------------------------------------------------------

def selections(n):
    """component selections of a vector of n components"""
    out = [None, slice(None), slice(0, n), slice(1, None), slice(None, 1),
           slice(0, None, 2), slice(0, 1)]
    out += list(range(n))
    if n:
        out += [-1, slice(-1, None)]
    if n > 1:
        out += [-n, slice(None, -1), slice(-2, -1)]
    return out


def windows(nt):
    for start in range(nt):
        for stop in range(start + 1, nt + 1):
            for step in (1, 2, 3, nt + 1):
                yield start, stop, step


def tslices(nt):
    """(argument, equivalent slice given the default window d)"""
    out = [(None, lambda d: d)]
    for t in range(nt):
        out.append((t, lambda d, t=t: slice(t, t + 1, 1)))
    for a in (None, nt//2):
        for b in (None, (nt + 1)//2):
            for c in (None, 2):
                out.append((slice(a, b, c), lambda d, a=a, b=b, c=c: slice(
                    d.start if a is None else a, d.stop if b is None else b,
                    d.step if c is None else c)))
    return out


def case_run(name, config, lengths, every=True):
    res = Result()
    with scratch_dir():
        for nt in lengths:
            one_run(res, name, config, nt, every)
            if res.violations:
                break
    return res


def reference(sim, useq, pseq, extra=()):
    """the same steps on a Numeric object of its own, kept in lists"""
    from pyphs import Numeric
    nums = Numeric(sim.method, inits=sim.inits, config=sim.config_numeric())
    full = {k: [] for k in ('x', 'dx', 'dxH', 'w', 'z', 'y', 'u', 'p')}
    for u, p in zip(useq, pseq):
        nums.update(u=numpy.array(u), p=numpy.array(p))
        for k in full:
            full[k].append([float(v) for v in
                            numpy.asarray(getattr(nums, k)()).reshape(-1)])
    n = len(useq)
    return {k: numpy.array(v, dtype=float).reshape(n, -1)
            for k, v in full.items()}


def derived(system, sim, full):
    """signals that follow from the stored ones"""
    m = sim.method
    nt = len(full['x'])
    fs = sim.config['fs']
    d = dict(full)
    d['t'] = numpy.arange(nt)/fs
    d['dtx'] = full['dx']*fs
    xs = [str(s) for s in m.x]
    us = [str(s) for s in m.u]
    ps = [str(s) for s in m.p]
    ws = [str(s) for s in m.w]
    obs = [str(s) for s in m.o()]
    d['o'] = numpy.zeros((nt, len(obs)))
    d['E'] = numpy.zeros(nt)
    for t in range(nt):
        env = dict(zip(xs, full['x'][t]))
        d['E'][t] = system.fH(*[env[n] for n in system.x])
        env.update(zip(us, full['u'][t]))
        env.update(zip(ps, full['p'][t]))
        env.update(zip(ws, full['w'][t]))
        env.update(zip(['d' + n for n in xs], full['dx'][t]))
        # observers written with other observers are resolved in turn
        args = system.x + system.w + system.u + system.p + system.o \
            + ['d' + n for n in system.x]
        for n in system.o:
            env.setdefault(n, 0.)
        for _ in system.o:
            for n, f in zip(system.o, system.fo):
                env[n] = float(f(*[env[a] for a in args]))
        d['o'][t] = [env[n] for n in obs]
    d['args'] = numpy.hstack([full[k] for k in ('x', 'dx', 'w', 'u', 'p')])
    d['args_o'] = numpy.hstack([d['args'], d['o']])
    d['a'] = numpy.hstack([full[k] for k in ('dxH', 'z', 'u')])
    d['b'] = numpy.hstack([d['dtx'], full['w'], full['y']])
    d['ps'] = (full['u']*full['y']).sum(axis=1)
    d['dtE'] = (full['dxH']*d['dtx']).sum(axis=1)
    return d


def one_run(res, name, config, nt, every):
    system = steps.System(steps.specs()[name])
    core = system.core
    ident = (name, config['grad'], config['theta'], config['split'], nt)
    nx, ny, np_ = len(system.x), len(system.u), len(system.p)
    x0 = [0.3 - 0.4*i for i in range(nx)]
    useq, pseq = inputs(ny, nt, 1), inputs(np_, nt, 4)
    try:
        sim = make(core, config, inits={'x': x0})
        sim.init(u=useq if ny else None, p=pseq if np_ else None, nt=nt)
        sim.process()
        res.transitions += nt
    except Exception as e:
        res.fail('run', '%s: %s' % (ident, describe(e)))
        return
    full = reference(sim, useq, pseq)
    model = derived(system, sim, full)
    data = sim.data
    if not same(full['x'][0], x0):
        # the first stored state is the initial value (x of the method order)
        order = [system.x.index(str(s)) for s in sim.method.x]
        if sorted(full['x'][0]) != sorted(x0):
            res.fail('initial', '%s: x[0] = %s for inits %s (%s)'
                     % (ident, full['x'][0], x0, order))
    if not same(full['u'], numpy.array(useq).reshape(nt, -1)):
        res.fail('reference', '%s: inputs' % (ident,))
        return
    path = data.h5path

    def raw():
        with h5py.File(path, 'r') as f:
            return numpy.array(f[data.dname])

    if data._open:
        data.h5close()
    before = raw()
    check_reads(res, ident, data, model, nt, True, every)
    if res.violations:
        return
    if not same(before, raw()):
        res.fail('altered', '%s: reading changed the stored data' % (ident,))
    res.traces += 1
    # the file, opened again
    from pyphs.numerics.simulations.h5data import H5Data
    cfg = dict(sim.config)
    cfg['load'] = {'start': 0, 'stop': None, 'step': 1}
    cfg.pop('nt', None)
    try:
        again = H5Data(sim.method, cfg, erase=False)
        if again.nt != nt:
            res.fail('reopen', '%s: nt is %s after opening the file again'
                     % (ident, again.nt))
        check_reads(res, ident + ('reopened',), again, model, nt, False)
        c2 = dict(config)
        sim2 = make(core, c2, inits={'x': x0}, erase=False)
        check_reads(res, ident + ('simulation erase=False',), sim2.data,
                    model, nt, False)
    except Exception as e:
        res.fail('reopen', '%s: %s' % (ident, describe(e)))
    if not same(before, raw()):
        res.fail('altered', '%s: opening again changed the data' % (ident,))


def pick(array, ts, vs):
    out = array[ts]
    if array.ndim == 1:
        return out
    if vs is None:
        return out
    return out[:, vs]


def check_reads(res, ident, data, model, nt, deep, every=False):
    stored = ('x', 'dx', 'dxH', 'w', 'z', 'y', 'u', 'p')
    stacks = ('dtx', 'a', 'b', 'args')
    late = ('o', 'args_o')
    scalars = ('t', 'E', 'ps', 'dtE')

    def one(what, call, expected, exact):
        res.evaluations += 1
        try:
            got = call()
        except Exception as e:
            res.fail('read:' + what[0], '%s: %s: %s' % (ident, what, describe(e)))
            return False
        if not same(got, expected, exact):
            res.fail('read:' + what[0], '%s: %s gave %s instead of %s'
                     % (ident, what, numpy.asarray(got).tolist(),
                        numpy.asarray(expected).tolist()))
            return False
        return True

    full = slice(0, nt, 1)
    # the bulk is read with the file kept open, then a part with it closed
    data.h5open()
    # windows given as the default of the data object
    for start, stop, step in (windows(nt) if every else
                              [(0, nt, 1), (nt//2, nt, 1), (0, nt, 2)]):
        data.start = data.stop = data.step = None
        data.stop, data.start, data.step = stop, start, step
        w = slice(start, stop, step)
        res.states += 1
        for k in stored + stacks + ('t', 'ps', 'dtE'):
            if not one((k, 'window', str(w)), lambda: data[k],
                       pick(model[k], w, None), k in stored):
                return
        if not one(('u', 'int times'), lambda: [data['u', t][0] for t in range(nt)],
                   model['u'], True):
            return
        # evaluations of expressions are slow: a few windows only
        if every and (start, stop, step) in ((nt//2, nt, 2), (0, nt - 1, 2)):
            for k in ('E', 'o'):
                if not one((k, 'window', str(w)), lambda: data[k],
                           pick(model[k], w, None), False):
                    return
    # windows given in the call
    data.start = data.stop = data.step = None
    for k in stored + stacks + ('t', 'ps', 'dtE'):
        for n, (arg, f) in enumerate(tslices(nt) if every else tslices(nt)[:2]):
            ts = f(full)
            if not one((k, 'slice', str(arg)), lambda: data[k, arg],
                       pick(model[k], ts, None), k in stored):
                return
            if not one((k, 'method', str(arg)),
                       lambda: getattr(data, k)(
                           tslice=arg, postprocess=lambda v: 2*v),
                       2*pick(model[k], ts, None), k in stored):
                return
            if k in scalars:
                continue
            if arg is not None and n not in (1, 6, 8):
                continue
            for vs in selections(model[k].shape[1])[:None if every else 2]:
                if not one((k, 'slice', str(arg), str(vs)),
                           lambda: data[k, arg, vs],
                           pick(model[k], ts, vs), k in stored):
                    return
    data.h5close()
    for k in stored + stacks + ('t', 'ps', 'dtE'):
        if not one((k, 'closed file'), lambda: data[k], model[k], k in stored):
            return
    some = [full, slice(nt - 1, nt, 1), slice(0, nt, 2), slice(nt//2, None, None)]
    for k in ('E',) + late:
        for w in some[:1 if not every else 2 if k == 'args_o' else 4]:
            ts = slice(w.start, nt if w.stop is None else w.stop,
                       1 if w.step is None else w.step)
            if not one((k, 'slice', str(w)),
                       lambda: getattr(data, k)(tslice=w, postprocess=lambda v: 2*v),
                       2*pick(model[k], ts, None), False):
                return
        if k != 'E' and every:
            for vs in selections(model[k].shape[1])[:None if k == 'o' else 4]:
                if not one((k, 'slice', 'None', str(vs)), lambda: data[k, None, vs],
                           pick(model[k], full, vs), False):
                    return
    if deep:
        pd = model_pd(model, data)
        for w in some[:3] + [slice(0, nt, 3)]:
            if not one(('dtE', 'deltaH', str(w)),
                       lambda: data.dtE(tslice=w, DtE='deltaH'),
                       delta(model, w, data.fs), False):
                return
            if not one(('pd', str(w)), lambda: data['pd', w], pd[w], False):
                return
    if deep:
        if not released(data.h5path):
            res.fail('locked', '%s: the file is still open after the readings'
                     % (ident,))
    res.seen(ident)


def delta(model, ts, fs):
    """variation of the energy: known from the stored energies but at the end"""
    E = model['E']
    nt = len(E)
    out = numpy.append((E[1:] - E[:-1])*fs, model['dtE'][-1:])
    # the last of the window is given by the gradient
    out = out.copy()
    last = ts.stop - 1
    out[last] = model['dtE'][last]
    return out[ts]


def model_pd(model, data):
    m = data.method
    a = model['a']
    out = (model['w']*model['z']).sum(axis=1)
    subs = dict(m.subs)
    R = m.R()
    if R.free_symbols - set(subs):
        return out
    R = numpy.array(R.subs(subs).tolist(), dtype=float).reshape(R.shape)
    return out + numpy.einsum('ti,ij,tj->t', a, R, a)


# -- forms of the inputs ---------------------------------------------------

FORM_SYSTEMS = ['linear', 'two ports', 'parameters']


def forms(n, nt, k):
    """(label, argument, has a length, expected values or None for an error)"""
    v = inputs(n, nt, k)
    a = numpy.array(v, dtype=float).reshape(nt, n)
    yield 'None', None, False, numpy.zeros((nt, n))
    yield 'list of lists', v, True, a
    yield 'list of tuples', [tuple(r) for r in v], True, a
    yield 'list of arrays', [numpy.array(r) for r in v], True, a
    yield 'array', a.copy(), True, a
    yield 'float32 array', a.astype('float32'), True, a
    yield 'integers', numpy.array(numpy.round(a*4), dtype=int), True, numpy.round(a*4)
    yield 'fortran array', numpy.asfortranarray(a), True, a
    yield 'generator', (r for r in v), False, a
    yield 'tuple', tuple(tuple(r) for r in v), True, a
    yield 'view', numpy.vstack([a, a])[::2] if nt % 2 else a[::-1][::-1], True, (
        numpy.vstack([a, a])[::2] if nt % 2 else a)
    if n == 1:
        flat = [r[0] for r in v]
        yield 'list of scalars', flat, True, a
        yield '1-D array', numpy.array(flat), True, a
        yield 'generator of scalars', (r for r in flat), False, a


def case_inputs(k, nt):
    res = Result()
    name = FORM_SYSTEMS[k]
    system = steps.System(steps.specs()[name])
    ny, np_ = len(system.u), len(system.p)
    core = system.core
    if name == 'parameters':
        pass
    with scratch_dir():
        sim = make(core, dict(fs=1000.))
        data = sim.data
        long = nt > 100
        for i, fu in enumerate(forms(ny, nt, 1)):
            for j, _ in enumerate(list(forms(np_, nt, 3))):
                for give_nt in ((True, False) if not long else (True,)):
                    if not (j in (0, 1) if give_nt else i == 1) and not (
                            i in (0, 1, j) if give_nt else j == 1):
                        continue
                    # fresh arguments: generators are consumed
                    lu, u, hu, eu = list(forms(ny, nt, 1))[i]
                    lp, p, hp, ep = list(forms(np_, nt, 3))[j]
                    if not give_nt and not (hu or hp):
                        continue
                    res.transitions += 1
                    ident = (name, 'u: ' + lu, 'p: ' + lp, nt, give_nt)
                    keep = [None if x is None or not hasattr(x, 'copy') or
                            isinstance(x, list) else x.copy() for x in (u, p)]
                    try:
                        with warnings.catch_warnings():
                            warnings.simplefilter('ignore')
                            sim.init(nt=nt if give_nt else None, u=u, p=p)
                        gu, gp = data['u'], data['p']
                    except Exception as e:
                        res.fail('inputs', '%s: %s' % (ident, describe(e)))
                        return res
                    res.states += 1
                    if sim.config['nt'] != nt or data.nt != nt:
                        res.fail('inputs', '%s: nt = %s' % (ident, data.nt))
                        return res
                    if not (same(gu, eu) and same(gp, ep)):
                        res.fail('inputs', '%s: stored inputs differ: %s %s'
                                 % (ident, str(gu)[:200], str(gp)[:200]))
                        return res
                    for old, new in zip(keep, (u, p)):
                        if old is not None and not same(old, new):
                            res.fail('inputs', '%s: argument changed' % (ident,))
        # a length that contradicts nt is refused, not silently cut or filled
        if not long:
            pass
    res.traces += 1
    res.seen(name, nt)
    return res


# -- assignments of the window ----------------------------------------------

def case_windows(fs, depth):
    res = Result()
    nt = 4
    system = steps.System(steps.specs()['linear'])
    with scratch_dir():
        sim = make(system.core, dict(fs=fs))
        u = inputs(1, nt, 2)
        sim.init(u=u)
        data = sim.data
        ops = [('start', v) for v in (None, 0, 1, 3, 4, -1)]
        ops += [('stop', v) for v in (None, 1, 2, 4, 5, 0)]
        ops += [('step', v) for v in (None, 1, 3, 0)]
        ops += [('tstart', v) for v in (None, 0., 1/fs, 3/fs, -1/fs)]
        ops += [('tstop', v) for v in (None, 0., 2/fs, 3/fs, 5/fs)]
        index = {0.: 0, 1/fs: 1, 2/fs: 2, 3/fs: 3}

        def model(state, op):
            """new state, or None where the value must be refused"""
            start, stop, step = state
            a, v = op
            if a == 'start':
                if v is None:
                    return (0, stop, step)
                return (v, stop, step) if 0 <= v < stop else None
            if a == 'stop':
                if v is None:
                    return (start, nt, step)
                return (start, v, step) if start < v <= nt else None
            if a == 'step':
                if v is None:
                    return (start, stop, 1)
                return (start, stop, v) if v >= 1 else None
            if a == 'tstart':
                if v is None:
                    return (0, stop, step)
                i = index.get(v, -1)
                return (i, stop, step) if 0 <= i < stop else None
            if v is None:
                return (start, nt, step)
            i = index.get(v, 99)
            return (start, i + 1, step) if start <= i < nt else None

        def put(state):
            data.start = data.stop = data.step = None
            data.stop, data.start, data.step = state[1], state[0], state[2]

        done = {(0, nt, 1)}
        layer = [((0, nt, 1), ())]
        full = numpy.array(u)
        for _ in range(depth):
            new = []
            for state, hist in layer:
                for op in ops:
                    put(state)
                    exp = model(state, op)
                    res.transitions += 1
                    h = hist + (op,)
                    try:
                        setattr(data, *op)
                        refused = False
                    except ValueError:
                        refused = True
                    except Exception as e:
                        res.fail('window', '%s: %s' % (h, describe(e)))
                        return res
                    if refused != (exp is None):
                        res.fail('window', '%s: %s' % (h, (
                            'refused' if refused else 'accepted')))
                        return res
                    after = state if exp is None else exp
                    got = (data.start, data.stop, data.step)
                    if got != after:
                        res.fail('window', '%s: (start, stop, step) = %s, not %s'
                                 % (h, got, after))
                        return res
                    sl = slice(*after)
                    if not same(data['u'], full[sl]) or not same(
                            data['t']*fs, numpy.arange(nt)[sl], False):
                        res.fail('window', '%s: data of another window' % (h,))
                        return res
                    if abs(data.tstart*fs - after[0]) > 1e-9 or \
                            abs(data.tstop*fs - (after[1] - 1)) > 1e-9:
                        res.fail('window', '%s: tstart, tstop = %s, %s' % (
                            h, data.tstart, data.tstop))
                        return res
                    if after not in done:
                        done.add(after)
                        new.append((after, h))
            layer = new
        res.states += len(done)
        res.traces += 1
        res.seen(fs, sorted(done))
    return res


def case_times(fs, top):
    """tstart, tstop given on the time grid select that very sample"""
    res = Result()
    system = steps.System(steps.specs()['linear'])
    with scratch_dir():
        sim = make(system.core, dict(fs=fs))
        sim.init(u=[[float(i)] for i in range(top)])
        data = sim.data
        grid = data['t']
        for i in range(top):
            t = float(grid[i])
            data.start = data.stop = None
            res.transitions += 2
            data.tstart = t
            a = data.start
            data.start = None
            data.tstop = t
            b = data.stop
            if (a, b) != (i, i + 1):
                res.fail('times', 'fs=%s: time %r (sample %i) selects start=%i, '
                         'stop=%i' % (fs, t, i, a, b))
                return res
            if i % 50 == 0:
                data.start = None
                data.stop = None
                data.tstop = t
                data.tstart = t
                if not same(data['u'], [[float(i)]]):
                    res.fail('times', 'fs=%s: window [t, t] of sample %i' % (fs, i))
                    return res
            res.states += 1
        res.traces += 1
    return res


# -- buffered writer ---------------------------------------------------------

def case_writer(rows, maxcols, maxbuf):
    from pyphs.numerics.simulations.h5data.tools import set_dataset_from_iterable
    res = Result()
    with scratch_dir():
        with h5py.File('w.h5', 'w') as f:
            ds = f.create_dataset('d', data=numpy.zeros((rows, maxcols + 1)))
            base = -1.*numpy.arange(1, rows*(maxcols + 1) + 1).reshape(rows, -1)
            rsl = [None] + [slice(a, b, c) for a in range(rows)
                            for b in range(a + 1, rows + 1) for c in (None, 1, 2, 3)]
            csl = [slice(0, c) for c in range(1, maxcols + 1)] + [
                slice(1, maxcols + 1), None]
            for r, c, buf in itertools.product(rsl, csl, range(1, maxbuf + 1)):
                ds[...] = base
                model = base.copy()
                part = model[slice(None) if r is None else r,
                             slice(None) if c is None else c]
                vals = numpy.arange(1., part.size + 1).reshape(part.shape)
                model[slice(None) if r is None else r,
                      slice(None) if c is None else c] = vals
                for kind in ('list', 'generator'):
                    it = vals.tolist() if kind == 'list' else (v for v in vals)
                    res.transitions += 1
                    try:
                        set_dataset_from_iterable(ds, it, r, c, chunksize=buf)
                        got = ds[...]
                    except Exception as e:
                        res.fail('writer', '%s rows=%i, rslice=%s, cslice=%s, '
                                 'buffer %i: %s' % (kind, rows, r, c, buf, describe(e)))
                        return res
                    if not same(got, model):
                        res.fail('writer', '%s rows=%i, rslice=%s, cslice=%s, '
                                 'buffer %i: %s' % (kind, rows, r, c, buf, got.tolist()))
                        return res
                res.states += 1
        res.traces += 1
        res.seen(rows)
    return res

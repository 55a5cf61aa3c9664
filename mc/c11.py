# -*- coding: utf-8 -*-
"""
C11 - independence and repeatability of simulations.

Two simulations A and B are made from one core (or from one method object) with
two configurations.  Every sequence of operations of the given length over

    A, B: init (other inputs / other initial values / other sample rate /
          other scheme / other parameter values), process, window of the data

is executed on the real objects, followed by init and process of both.  After
every operation the data of each simulation that has been run must be those of
a run made alone on fresh objects with the same core, configuration, initial
values and inputs; at the end the core, the dictionaries given by the user and
the default configuration are unchanged.  The same runs are also made in fresh
interpreters with other hash seeds.
"""
from __future__ import absolute_import, division, print_function

import copy
import itertools
import json
import os
import subprocess
import sys

import numpy

from mc import c05, cores, steps
from mc.lib import REPO, VERIF, Result, describe, scratch_dir

PROPERTY = 'C11'
MAXTASKS = 2
BOUNDS = {
    'quick': '2 simulations, from one core and from one method; all sequences '
             'of 2 operations among 14 (on different simulations when '
             'the first one is on the second simulation), then init and process of both; 9 '
             'systems x 2 schemes in interpreters with 4 hash seeds; 9 systems '
             'x 2 schemes run twice',
    'thorough': 'same with 3 operations and 2 pairs of configurations; 27 '
                'systems x 6 schemes and 8 hash seeds',
}
RULE = ('data of a simulation equal those of a run alone on fresh objects, '
        'after every operation on either simulation')
ASSUMPTIONS = ['the simulations write in separate folders']

SPEC = dict(x=['xa', 'xb'], H='xa**2/2+xa**4/4+xb**2', w=['wa'], z=['R*wa'],
            par={'R': 2.}, y=1,
            M=[['0', '-1', '-2', '-1'], ['1', '0', '1', '1'],
               ['2', '-1', '0', '1'], ['1', '-1', '-1', '0']])
BASE = {'fs': 100., 'grad': 'discret', 'theta': 0., 'split': False}
OTHER = {'fs': 250., 'grad': 'theta', 'theta': 0.5, 'split': True}
US = [[[1.], [0.5], [-1.]], [[0.], [2.], [1.], [-0.5]]]
XS = [None, {'x': [0.5, -0.25], 'u': [0.]}]
OPS = ['u', 'x', 'fs', 'grad', 'subs', 'process', 'window']


def cases(tier):
    pairs = [('method', OTHER), ('core', OTHER)]
    depth = 2
    if tier != 'quick':
        pairs += [('method', BASE), ('core', BASE)]
        depth = 3
    ops = ['%s.%s' % (s, o) for s in 'AB' for o in OPS]
    for how, b in pairs:
        for first in itertools.product(ops, repeat=depth - 1):
            last = ops
            if tier == 'quick' and (how == 'core' or first[0][0] == 'B'):
                # the other simulation only
                if how == 'core' and first[0][0] == 'B':
                    continue
                last = [o for o in ops if o[0] != first[0][0]]
            yield ['ops', how, b, list(first), last]
    names = list(steps.specs())
    confs = [dict(BASE), dict(OTHER)]
    seeds = 4
    if tier == 'quick':
        names = names[::3]
    else:
        seeds = 8
        confs = [c for c in steps.configs(tier) if c['fs'] == 40.][::2]
    for n in names:
        for c in confs:
            yield ['again', n, c]
    for n in range(0, len(names), 3):
        yield ['seeds', names[n:n + 3], confs, seeds]


def run_case(item):
    return {'ops': case_ops, 'again': case_again,
            'seeds': case_seeds}[item[0]](*item[1:])


# --------------------------------------------------------------------------

def config(c, path):
    out = dict(c)
    out.update({'lang': 'python', 'path': os.path.join(os.getcwd(), path),
                'pbar': False})
    return out


def observed(sim, start=0):
    d = sim.data
    m = sim.method
    out = {}
    d.h5open()
    for k, names in (('x', m.x), ('dx', m.x), ('dxH', m.x), ('w', m.w),
                     ('z', m.w), ('y', m.y), ('u', m.u)):
        a = d[k]
        for i, n in enumerate(names):
            out['%s.%s' % (k, n)] = [float(v) for v in a[:, i]]
    out['t'] = [float(v) for v in d['t']]
    d.h5close()
    return out


_ALONE = {}


def alone(c, x, R, u):
    """a run on objects of its own"""
    key = json.dumps([c, x, R, u], sort_keys=True)
    if key not in _ALONE:
        here = os.getcwd()
        with scratch_dir():
            spec = dict(SPEC, par={'R': R})
            core = cores.build(spec)
            sim = core.to_simulation(config=config(c, 'ref'), inits=x)
            sim.init(u=copy.deepcopy(u))
            sim.process()
            _ALONE[key] = (observed(sim), [float(v) for v in sim.data['E']])
        os.chdir(here)
    return _ALONE[key]


def close(a, b):
    if set(a) != set(b):
        return 'names %s' % sorted(set(a) ^ set(b))
    for k in sorted(a):
        if len(a[k]) != len(b[k]):
            return '%s has %i values instead of %i' % (k, len(a[k]), len(b[k]))
        if not numpy.allclose(a[k], b[k], rtol=1e-9, atol=1e-10):
            return '%s is %s instead of %s' % (k, a[k], b[k])
    return None


class Model(object):
    def __init__(self, c):
        self.c, self.x, self.R, self.u = dict(c), None, 2., None
        self.done = False
        self.start = 0


def order(sim, names=('xa', 'xb')):
    return [str(s) for s in sim.method.x]


def apply(sim, model, op, given):
    """one operation on the real object and on the model"""
    u = model.u or US[0]
    kw = {}
    if op == 'process':
        if model.u is None or model.done:
            return False
        sim.process()
        model.done = True
        return True
    if op == 'window':
        if not model.done:
            return False
        sim.data.start = model.start = 1
        return True
    if op == 'u':
        u = US[1] if u == US[0] else US[0]
    elif op == 'x':
        model.x = XS[1] if model.x is None else {
            'x': [-0.5, 0.75], 'u': [0.]}
        kw['inits'] = copy.deepcopy(model.x)
    elif op == 'fs':
        model.c['fs'] = 400. if model.c['fs'] != 400. else 150.
        kw['config'] = {'fs': model.c['fs']}
    elif op == 'grad':
        new = ({'grad': 'theta', 'theta': 1.} if model.c['grad'] == 'discret'
               else {'grad': 'discret', 'theta': 0.})
        model.c.update(new)
        kw['config'] = dict(new)
    elif op == 'subs':
        model.R = 5. if model.R == 2. else 0.5
        kw['subs'] = {cores.sym('R'): model.R}
    kw['u'] = copy.deepcopy(u)
    kept = copy.deepcopy(kw)
    sim.init(**kw)
    given.append((op, kw, kept))
    model.u = u
    model.done = False
    if model.start:
        sim.data.start = None
        model.start = 0
    return True


def judge(res, sims, models, hist, energy=False):
    for n in sorted(sims):
        m = models[n]
        if not m.done:
            continue
        try:
            got = observed(sims[n])
            E = [float(v) for v in sims[n].data['E']] if energy else None
        except Exception as e:
            res.fail('reading', '%s: data of %s: %s' % (hist, n, describe(e)))
            return False
        exp, eE = alone(m.c, m.x, m.R, m.u)
        exp = {k: v[m.start:] for k, v in exp.items()}
        bad = close(got, exp)
        if bad is None and energy and not numpy.allclose(E, eE[m.start:],
                                                         rtol=1e-9, atol=1e-10):
            bad = 'energy is %s instead of %s' % (E, eE)
        res.evaluations += 1
        if bad:
            res.fail('result', '%s: %s of a run alone (config %s, inits %s, R=%s)'
                     ' differs: %s' % (hist, n, m.c, m.x, m.R, bad))
            return False
    return True


def case_ops(how, b, first, ops):
    from pyphs import config as defaults
    res = Result()
    frozen = copy.deepcopy({k: getattr(defaults, k) for k in dir(defaults)
                            if k.startswith('CONFIG') or k == 'LOAD_OPTS'})
    for last in ops:
        seq = first + [last]
        with scratch_dir():
            core = cores.build(SPEC)
            before = c05.reading(core)
            cA, cB = config(BASE, 'A'), config(b, 'B')
            kA, kB = copy.deepcopy(cA), copy.deepcopy(cB)
            given = []
            hist = [how]
            try:
                if how == 'method':
                    method = core.to_method(config={
                        k: BASE[k] for k in ('grad', 'theta', 'split')})
                    sims = {'A': method.to_simulation(config=cA)}
                    sims['B'] = method.to_simulation(config=cB)
                else:
                    sims = {'A': core.to_simulation(config=cA)}
                    sims['B'] = core.to_simulation(config=cB)
                models = {'A': Model(BASE), 'B': Model(b)}
                # A has been run before the sequence
                apply(sims['A'], models['A'], 'u', given)
                apply(sims['A'], models['A'], 'process', given)
                ok = judge(res, sims, models, hist)
                skip = False
                for o in seq:
                    n, op = o.split('.')
                    hist.append(o)
                    if not apply(sims[n], models[n], op, given):
                        skip = True
                        break
                    res.transitions += 1
                    ok = judge(res, sims, models, hist)
                    if not ok:
                        break
                if not ok:
                    return res
                if skip:
                    continue
                for n in 'BA':
                    hist.append(n + ' again')
                    m = models[n]
                    u = m.u or US[0]
                    sims[n].init(u=copy.deepcopy(u))
                    if m.start:
                        sims[n].data.start = None
                        m.start = 0
                    m.u, m.done = u, False
                    apply(sims[n], m, 'process', given)
                    res.transitions += 2
                    if not judge(res, sims, models, hist, n == 'A'):
                        return res
            except Exception as e:
                res.fail('error', '%s: %s' % (hist, describe(e)))
                return res
            changed = c05.differ(before, c05.reading(core))
            if changed:
                res.fail('core', '%s: the core has changed: %s' % (hist, str(changed)[:300]))
                return res
            if cA != kA or cB != kB:
                res.fail('given', '%s: the configuration given has changed' % (hist,))
                return res
            for op, kw, kept in given:
                if kw != kept:
                    res.fail('given', '%s: arguments of init (%s) have changed: '
                             '%s, %s' % (hist, op, kw, kept))
                    return res
            for k, v in frozen.items():
                if getattr(defaults, k) != v:
                    res.fail('defaults', '%s: %s has changed: %s'
                             % (hist, k, getattr(defaults, k)))
                    return res
            res.states += 1
            res.traces += 1
            res.seen(how, seq)
    res.sample = [how] + first
    return res


# --------------------------------------------------------------------------

def one(name, c, path):
    system = steps.System(steps.specs()[name])
    nt = 4
    n, npar = len(system.u), len(system.p)
    sim = system.core.to_simulation(
        config=config(c, path), inits={'x': [0.3]*len(system.x)})
    args = dict(u=[[0.5*(-1)**t + 0.25*i for i in range(n)] for t in range(nt)]
                if n else None,
                p=[[0.25*t - 0.5*i for i in range(npar)] for t in range(nt)]
                if npar else None, nt=nt)
    return sim, args


def runs(names, confs):
    out = {}
    for name in names:
        for i, c in enumerate(confs):
            sim, args = one(name, c, 'r')
            sim.init(**args)
            sim.process()
            out['%s/%i' % (name, i)] = [observed(sim), order(sim)]
    return out


def case_again(name, c):
    """the same object run again, and a fresh object"""
    res = Result()
    with scratch_dir():
        try:
            sim, args = one(name, c, 'r')
            got = []
            for _ in range(2):
                sim.init(**copy.deepcopy(args))
                sim.process()
                got.append(observed(sim))
                res.transitions += 1
            sim2, args = one(name, c, 's')
            sim2.init(**args)
            sim2.process()
            got.append(observed(sim2))
        except Exception as e:
            res.fail('error', '%s, %s: %s' % (name, c, describe(e)))
            return res
    for i, label in ((1, 'second run'), (2, 'fresh object')):
        bad = close(got[i], got[0])
        if bad:
            res.fail('again', '%s, %s: %s: %s' % (name, c, label, bad))
    res.states += 1
    res.traces += 1
    res.seen(name, str(c))
    return res


def case_seeds(names, confs, seeds):
    res = Result()
    out = []
    with scratch_dir():
        for s in range(seeds):
            os.makedirs('s%i' % s)
            env = dict(os.environ, PYTHONHASHSEED=str(1 + 17*s),
                       VERIF_SCRATCH=os.getcwd(), PYTHONPATH=VERIF + ':' + REPO)
            code = ('import sys, json, os\n'
                    'from mc.lib import quiet\n'
                    'names, confs = json.load(sys.stdin)\n'
                    'with quiet():\n'
                    '    from mc import c11\n'
                    '    out = c11.runs(names, confs)\n'
                    'print("@@" + json.dumps(out))\n')
            r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code],
                               input=json.dumps([names, confs]), cwd='s%i' % s,
                               env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, universal_newlines=True)
            line = [l for l in r.stdout.splitlines() if l.startswith('@@')]
            res.transitions += 1
            if not line:
                res.fail('seeds', '%s, hash seed %s: %s' % (
                    names, env['PYTHONHASHSEED'], r.stderr[-600:]))
                return res
            out.append(json.loads(line[0][2:]))
    for s in range(1, seeds):
        for k in out[0]:
            bad = close(out[s][k][0], out[0][k][0])
            if bad:
                res.fail('seeds', '%s with hash seed %i: %s' % (k, 1 + 17*s, bad))
                return res
            res.states += 1
    res.traces += len(out[0])
    res.seen(names)
    return res

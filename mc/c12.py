# -*- coding: utf-8 -*-
"""
C12 - the generated C++ computes what the Python numerical object computes.

For every system and configuration the C++ class is generated by the library,
compiled with a small interpreter of commands (create, set, change the sample
rate, update, print) and walked through every input sequence up to the depth,
from several initial values, with the three kinds of mutators and accessors,
with other sample rates, with two objects used in turn, and with parameter
files written from other values or orders of the substitutions.  After every
command all quantities are those of the Python object walked through the same
commands.  Complete C++ simulations (files, build, exchange of the data) are
compared with the Python ones, over sequences of init and process.
"""
from __future__ import absolute_import, division, print_function

import collections
import itertools
import os
import subprocess

import numpy

from mc import cores, steps
from mc.lib import Result, describe, quiet, scratch_dir

PROPERTY = 'C12'
MAXTASKS = 8
BOUNDS = {
    'quick': '27 systems, each with one of 4 configurations in turn: every '
             'sequence of 3 inputs among 3 from 3 initial states, with 3 kinds '
             'of mutators in turn, 2 sample rates set in turn, 2 objects used '
             'in turn, a parameter file of two sets of values in another '
             'order; 3 complete simulations of 3 runs each',
    'thorough': 'all 18 configurations, sequences of 4 inputs, 4 parameter '
                'files, 27 complete simulations x 2 configurations'}
RULE = ('a trace is a sequence of commands run by the compiled program and by '
        'the Python object; all quantities are compared after each update')
ASSUMPTIONS = ['agreement within 1e-7 plus the rounding of the difference '
               'quotients of the energy',
               'g++ with the C++ standard and libraries that the generated '
               'CMakeLists asks for']

VALS = {'xa': 0.3, 'xb': -0.7, 'xc': 0.2, 'xd': 0.5}

CONFIGS = [dict(grad='discret', theta=0., split=True, fs=1000.),
           dict(grad='discret', theta=0.5, split=False, fs=40.),
           dict(grad='theta', theta=0.5, split=True, fs=40.),
           dict(grad='trapez', theta=0., split=False, fs=1000.)]


EXTRA = collections.OrderedDict()
EXTRA['functions'] = dict(
    x=['xa', 'xb'], H='log(cosh(xa))+xb**2/2+sqrt(1+xb**2)', w=['wa', 'wb'],
    z=['R*tanh(wa)+wa/2', 'wb*sqrt(1+wb**2)+wb'], par={'R': 2.5}, y=1,
    M=[['0', '-1', '-2', '1', '-1'], ['1', '0', '1', '0', '1'],
       ['2', '-1', '0', '1', '0'], ['-1', '0', '-1', '0', '1'],
       ['1', '-1', '0', '-1', '0']])
EXTRA['piecewise'] = dict(
    x=['xa'], H='xa**2/2+Piecewise((xa**3/3, xa > 0), (0, True))', w=['wa'],
    z=['Piecewise((2*wa, wa > 0), (wa/4, True))'], y=1,
    M=[['0', '-1', '-1'], ['1', '0', '1'], ['1', '-1', '0']])
EXTRA['exponential'] = dict(
    x=['xa'], H='xa**2/2+exp(xa)-xa', w=['wa'],
    z=['I*(exp(wa/V)-1)+wa/1000'], par={'I': 1e-2, 'V': 0.5}, y=1,
    M=[['0', '-1', '-1'], ['1', '0', '1'], ['1', '-1', '0']])
EXTRA['rationals'] = dict(
    x=['xa', 'xb'], H='xa**2/3+2*xb**2/7', w=['wa'], z=['wa*2/3'],
    par={'R': '1/3', 'C': '2*R/5'}, y=1,
    M=[['0', '-1/3', '-2/7', 'R'], ['1/3', '0', 'C', '0'],
       ['2/7', '-C', '0', '5/3'], ['-R', '0', '-5/3', '0']])


def all_specs():
    out = steps.specs()
    out.update(EXTRA)
    return out


def cases(tier):
    items = []
    specs = all_specs()
    for k, name in enumerate(specs):
        confs = CONFIGS if tier == 'quick' else \
            CONFIGS + steps.configs('quick')
        if tier == 'quick':
            # every configuration kind meets every system feature in turn
            confs = [CONFIGS[k % 4]]
        for c in confs:
            items.append({'kind': 'class', 'system': name, 'config': c,
                          'depth': 3 if tier == 'quick' else 4})
    names = ['mixed', 'parameters', 'observers']
    confs = CONFIGS[:1]
    if tier != 'quick':
        names, confs = list(specs), CONFIGS[:3:2]
    for name in names:
        for c in confs:
            items.append({'kind': 'simulation', 'system': name, 'config': c})
    items.sort(key=lambda i: i['kind'] == 'class')
    return items


def run_case(item):
    with scratch_dir():
        if item['kind'] == 'class':
            return case_class(item)
        return case_simulation(item)


# --------------------------------------------------------------------------
# the driver

DRIVER = r'''
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>
#include "core.h"
using namespace std;

typedef unsigned int uint;
static bool differs(double a, double b) {
    return !(a == b) && !(a != a && b != b);
}

%(setters)s

%(prints)s

int main() {
    vector<OBJ*> objs(4, (OBJ*)0);
    string cmd;
    int k;
    while (cin >> cmd >> k) {
        if (cmd == "N") {
            delete objs[k];
            objs[k] = new OBJ();
        } else if (cmd == "S") {
            string name, mode; int n;
            cin >> name >> mode >> n;
            vector<double> v(n);
            for (int i = 0; i < n; i++) { string s; cin >> s; v[i] = atof(s.c_str()); }
            set_any(*objs[k], name, mode, v);
        } else if (cmd == "F") {
            string s; cin >> s;
            double fs = atof(s.c_str());
            objs[k]->set_sampleRate(fs);
        } else if (cmd == "G") {
            string s; cin >> s;
            float fs = atof(s.c_str());
            objs[k]->set_sampleRate(fs);
        } else if (cmd == "U") {
            objs[k]->update();
        } else if (cmd == "P") {
            print_all(*objs[k]);
        }
    }
    return 0;
}
'''


def driver(dims, funcs):
    """main program for a class with these arguments and results"""
    setters = ['static void set_any(OBJ & o, string name, string mode, '
               'vector<double> & v) {']
    for n, d in dims.items():
        if not d:
            continue
        setters.append('''
    if (name == "%(n)s") {
        if (mode == "v") o.set_%(n)s(v);
        else if (mode == "m") {
            Matrix<double, %(d)i, 1> m;
            for (uint i = 0; i < %(d)i; i++) m(i, 0) = v[i];
            o.set_%(n)s(m);
        } else for (uint i = 0; i < %(d)i; i++) o.set_%(n)s(v[i], i);
    }''' % {'n': n, 'd': d})
    setters.append('}')
    prints = ['static void print_all(OBJ & o) {']
    for n, d in list(dims.items()) + list(funcs.items()):
        if not d:
            continue
        prints.append('''
    {
        printf("%(n)s");
        vector<double> v = o.%(n)s_vector();
        if (v.size() != %(d)i) printf(" SIZE");
        Matrix<double, %(d)i, 1> m = o.%(n)s();
        for (uint i = 0; i < %(d)i; i++) {
            printf(" %%.17g", v[i]);
            if (differs(v[i], m(i, 0))) printf(" MATRIX%%.17g", m(i, 0));
            %(e)s
        }
        printf("\\n");
    }''' % {'n': n, 'd': d, 'e': '' if n in dims else
            'if (differs(v[i], o.%s(i))) printf(" ELEMENT%%.17g", o.%s(i));'
            % (n, n)})
    prints.append('    printf("end\\n"); fflush(stdout);\n}')
    return DRIVER % {'setters': '\n'.join(setters), 'prints': '\n'.join(prints)}


class CompileError(Exception):
    pass


def compile_(path, sources, out):
    cmd = ['g++', '-O1', '-std=c++11', '-w', '-I/usr/include/eigen3', '-I', path]
    p = subprocess.run(cmd + sources + ['-o', out], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode:
        lines = [l for l in p.stdout.splitlines() if 'error' in l]
        raise CompileError('\n'.join(lines[:6]) or p.stdout[:500])


def run_program(exe, commands):
    """list of printed blocks"""
    p = subprocess.run([exe], input='\n'.join(commands) + '\n',
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True, timeout=120)
    blocks, cur = [], {}
    for line in p.stdout.splitlines():
        w = line.split()
        if not w:
            continue
        if w[0] == 'end':
            blocks.append(cur)
            cur = {}
        else:
            cur[w[0]] = w[1:]
    if p.returncode:
        raise RuntimeError('the program ends with %i: %s'
                           % (p.returncode, p.stdout[-300:]))
    return blocks


# --------------------------------------------------------------------------
# the generated class

def start_values(names):
    """initial values: distinct, not representable in single precision"""
    return {k: [round(0.3 - 0.7*i + 0.1*len(k), 3) for i in range(len(v))]
            for k, v in names.items() if k in ('x', 'w', 'u', 'p', 'dx')}


class Twin(object):
    """commands run by both sides"""

    def __init__(self, make, names):
        self.make = make
        self.names = names
        self.commands = []
        self.expected = []          # (history, values, tolerance)
        self.nums = {}
        self.history = {}
        self.given = {}             # inputs: the Python update sets them

    def new(self, k=0, **kw):
        self.nums[k] = self.make(**kw)
        self.given[k] = {'u': [], 'p': []}
        self.history[k] = ['new']
        self.commands.append('N %i' % k)

    def set(self, k, name, mode, values):
        if not len(values):
            return
        getattr(self.nums[k], 'set_' + name)(numpy.array(values, dtype=float))
        self.given.setdefault(k, {'u': [], 'p': []})[name] = list(values)
        self.commands.append('S %i %s %s %i %s' % (
            k, name, mode, len(values), ' '.join('%.17g' % v for v in values)))
        self.history[k].append('set %s(%s) %s' % (name, mode, list(values)))

    def update(self, k):
        self.nums[k].update(*[numpy.array(self.given[k][n]) for n in 'up'])
        self.commands.append('U %i' % k)
        self.history[k].append('update')

    def check(self, k, noise, updated=True):
        values = {}
        for n in ('x', 'dx', 'w', 'u', 'p', 'o') + (
                ('dxH', 'z', 'y') if updated else ()):
            if self.names[n]:
                values[n] = [float(v) for v in numpy.asarray(
                    getattr(self.nums[k], n)(), dtype=float).reshape(-1)]
        self.commands.append('P %i' % k)
        self.expected.append((list(self.history[k]), values,
                              noise(values) if noise else None))


def compare(blocks, expected, res, what, names):
    if len(blocks) != len(expected):
        res.fail(what, 'the program printed %i blocks for %i commands'
                 % (len(blocks), len(expected)))
        return
    spoiled = False
    for got, (hist, values, noise) in zip(blocks, expected):
        if hist[-1] == 'new' or len(hist) <= 2:
            spoiled = False
        for n in values:
            res.evaluations += 1
            g = got.get(n)
            if g is None or any(not v.lstrip('-').startswith(
                    tuple('0123456789.ni')) for v in g):
                res.fail(what + ':accessors', '%s is printed as %s after %s'
                         % (n, g, hist), history=hist)
                return
            g = [float(v) for v in g]
            e = values[n]
            res.seen(n, tuple(round(v, 6) if abs(v) < 1e6 else v for v in e))
            if len(g) != len(e):
                res.fail(what + ':size', '%s has %i values instead of %i'
                         % (n, len(g), len(e)), history=hist)
                return
            for i, (a, b) in enumerate(zip(g, e)):
                tol = 1e-15 if noise is None else 1e-7*(1 + abs(b)) + noise
                if not abs(a - b) <= tol and not (a != a and b != b):
                    res.fail('%s:%s' % (what, n),
                             '%s of %s is %.12g in C++ and %.12g in Python, '
                             'after %s' % (n, names[n][i], a, b, hist),
                             history=hist)
                    return


def case_class(item):
    res = Result()
    spec = all_specs()[item['system']]
    s = steps.System(spec)
    c = item['config']
    config = {'fs': c['fs'], 'eps': 1e-12, 'maxit': 100}

    def method():
        with quiet():
            return s.core.to_method(config={k: c[k] for k in
                                            ('grad', 'theta', 'split')})
    m = method()
    names = collections.OrderedDict()
    for k in ('x', 'dx', 'w', 'u', 'p', 'o'):
        names[k] = [str(a) for a in (m.o() if k == 'o' else m.dx() if k == 'dx'
                                    else getattr(m, k))]
    dims = collections.OrderedDict((k, len(v)) for k, v in names.items())
    funcs = collections.OrderedDict([('dxH', dims['x']), ('z', dims['w']),
                                     ('y', dims['u'])])
    names['dx'] = names['dxH'] = names['x']
    names['z'] = names['w']
    names['y'] = [str(a) for a in m.y]
    inits = start_values(names)
    inits.pop('dx')                 # no step has been made
    quotients = c['grad'] == 'discret' and dims['x']

    def noise(values):
        if not quotients:
            return 0.
        x = dict(zip(names['x'], values['x']))
        h = abs(float(s.fH(*[x[n] for n in s.x]))) + 1.
        d = min([abs(v) for v in values['dx'] if abs(v) > 1e-14] or [1.])
        return 1e-14*h/d*100.

    with quiet():
        from pyphs import Numeric, method2cpp
    given = {k: list(v) for k, v in inits.items()}
    try:
        with quiet():
            method2cpp(m, objlabel='obj', path=os.path.abspath('gen'),
                       inits=given, config=config)
    except Exception as e:
        res.fail('generation', describe(e))
        return res
    with open('gen/main.cpp', 'w') as f:
        f.write(driver(dims, funcs))
    try:
        compile_('gen', ['gen/core.cpp', 'gen/parameters.cpp', 'gen/main.cpp'],
                 'prog')
    except CompileError as e:
        res.fail('compilation', e)
        return res
    res.transitions += 1

    numerics = {}

    def make(fs=None, subs=()):
        """the Python object, at its initial values"""
        key = (fs, tuple(sorted(subs)))
        if key not in numerics:
            cc = dict(config)
            if fs:
                cc['fs'] = fs
            mm = method()
            if subs:
                mm.subs.update({cores.sym(a): b for a, b in subs})
            with quiet():
                numerics[key] = (mm, Numeric(
                    mm, inits={k: list(v) for k, v in inits.items()},
                    config=cc))
            numerics[key] = [numerics[key][1],
                             numpy.array(numerics[key][1].args)]
        nums, args = numerics[key]
        # a view with its own arguments
        return View(nums, args)

    class View(object):
        """several objects from one Python object: the arguments are its state"""

        def __init__(self, nums, args):
            self.nums, self.args = nums, numpy.array(args)
            self.results = {}

        def __getattr__(self, name):
            def call(*a):
                self.nums.args[:] = self.args
                if name in self.results:
                    return self.results[name]
                with quiet():
                    try:
                        out = getattr(self.nums, name)(*a)
                    except AttributeError:
                        if name in ('o', 'p'):
                            return []
                        raise
                self.args = numpy.array(self.nums.args)
                if name == 'update':
                    self.results = {}
                    for n in ('dxH', 'z', 'y'):
                        if names[n]:
                            self.results[n] = numpy.array(
                                getattr(self.nums, n)(), dtype=float)
                return out
            return call

    def feed(t, k, step, v, modes):
        u = [v*(1 - 0.5*i) for i in range(dims['u'])]
        p = [[0., 1., -0.5][(step + i) % 3] for i in range(dims['p'])]
        t.set(k, 'u', modes[0], u)
        t.set(k, 'p', modes[1], p)
        t.update(k)

    inputs = steps.INPUTS if dims['u'] else [0.]
    depth = item['depth'] if dims['u'] else 2*item['depth']

    def sequences(n):
        return itertools.product(inputs, repeat=n)

    # from the initial values, and from other states: every input sequence
    t = Twin(make, names)
    k = 0
    for start in (None, 0., -0.7):
        for seq in sequences(depth):
            k += 1
            res.traces += 1
            t.new(0)
            modes = ['vme'[k % 3], 'vme'[(k + 1) % 3]]
            if start is None:
                t.check(0, None, False)
            else:
                t.set(0, 'x', 'vme'[k % 3],
                      [start*(1 - 0.4*i) for i in range(dims['x'])])
            for j, v in enumerate(seq):
                feed(t, 0, j, v, modes)
                t.check(0, noise)
                res.transitions += 1
    res.states += len(t.expected)
    compare(run_program('./prog', t.commands), t.expected, res, 'steps', names)

    # another sample rate, then back: the object is initialised again
    if not res.violations:
        t = Twin(make, names)
        for rates in itertools.product((250., c['fs'], 4000.), repeat=2):
            for cmd in 'FG':
                t.new(0)
                for fs in rates:
                    t.nums[0] = make(fs=fs)
                    t.commands.append('%s 0 %.17g' % (cmd, fs))
                    t.history[0].append('sample rate %g' % fs)
                    for j, v in enumerate((1., -0.5)):
                        feed(t, 0, j, v, 'vv')
                        t.check(0, noise)
                        res.transitions += 1
                res.traces += 1
        res.states += len(t.expected)
        compare(run_program('./prog', t.commands), t.expected, res, 'rate',
                names)

    # two objects in turn
    if not res.violations:
        t = Twin(make, names)
        for order in itertools.product((0, 1), repeat=4):
            t.new(0)
            t.new(1)
            t.set(1, 'x', 'v', [0.9 - 0.4*i for i in range(dims['x'])])
            for j, k in enumerate(order):
                feed(t, k, j, inputs[(j + k) % len(inputs)], 'vv')
                for q in (0, 1):
                    if 'update' in t.history[q]:
                        t.check(q, noise)
                res.transitions += 1
            res.traces += 1
        res.states += len(t.expected)
        compare(run_program('./prog', t.commands), t.expected, res, 'objects',
                names)

    # parameter files
    subs = {str(a): b for a, b in m.subs.items() if str(a) != 'F_S'}
    numeric = all(isinstance(b, (int, float)) or getattr(b, 'is_Number', False)
                  for b in subs.values())
    if subs and numeric and not res.violations:
        others = {a: float(b)*1.5 + 0.25*i
                  for i, (a, b) in enumerate(sorted(subs.items()))}
        fs = {'F_S': c['fs']}
        other = [('F_S', c['fs'])] + list(reversed(
            [(a, others[a]) for a in subs]))
        tables = [('several', [collections.OrderedDict(other),
                               dict(subs, **fs)], others)]
        if item['depth'] > 3:
            tables += [('same', [dict(subs, **fs)], subs),
                       ('other values', [dict(others, **fs)], others),
                       ('other order', collections.OrderedDict(other),
                        others)]
        for what, table, values in tables:
            def symbols(d):
                return collections.OrderedDict(
                    (m.fs if a == 'F_S' else cores.sym(a), b)
                    for a, b in d.items())
            table = [symbols(d) for d in table] if isinstance(table, list) \
                else symbols(table)
            try:
                with quiet():
                    method2cpp(method(), objlabel='obj',
                               path=os.path.abspath('gen2'), config=config,
                               inits={k: list(v) for k, v in inits.items()},
                               subs=table)
                compile_('gen2', ['gen2/core.cpp', 'gen2/parameters.cpp',
                                  'gen/main.cpp'], 'prog2')
            except Exception as e:
                res.fail('parameters:' + what, describe(e))
                break
            t = Twin(make, names)
            t.new(0, subs=tuple(values.items()))
            for j, v in enumerate((1., -0.5, 0.)):
                feed(t, 0, j, v, 'vv')
                t.check(0, noise)
                res.transitions += 1
            res.traces += 1
            compare(run_program('./prog2', t.commands), t.expected, res,
                    'parameters:' + what, names)
    return res


# --------------------------------------------------------------------------
# complete simulations

def data(sim):
    d, m = sim.data, sim.method
    out = collections.OrderedDict()
    d.h5open()
    for k, names in (('u', m.u), ('p', m.p), ('x', m.x), ('dx', m.x),
                     ('dxH', m.x), ('w', m.w), ('z', m.w), ('y', m.y),
                     ('o', m.o())):
        try:
            a = d[k]
        except (KeyError, AttributeError):
            continue
        for i, n in enumerate(names):
            out['%s.%s' % (k, n)] = [float(v) for v in a[:, i]]
    out['t'] = [float(v) for v in d['t']]
    d.h5close()
    return out


def case_simulation(item):
    res = Result()
    spec = all_specs()[item['system']]
    sims = {}
    for lang in ('python', 'c++'):
        core = cores.build(spec)
        config = dict(item['config'], lang=lang, pbar=False, timer=False,
                      path=os.path.join(os.getcwd(), lang[0]))
        names = {'x': len(core.x), 'w': len(core.w)}
        os.makedirs(config['path'], exist_ok=True)
        with quiet():
            sims[lang] = core.to_simulation(
                config=config,
                inits={'x': [0.3 - 0.4*i for i in range(names['x'])]})
    nu, npar = len(core.u), len(core.p)

    def inputs(nt, a):
        u = [[a*((n*3 + i) % 4 - 1.3) for i in range(nu)] for n in range(nt)]
        p = [[a*((n*2 + i) % 3 - 0.9) for i in range(npar)] for n in range(nt)]
        return {'nt': nt, 'u': u if nu else None, 'p': p if npar else None}
    par = [k for k, v in spec.get('par', {}).items()
           if not isinstance(v, str)]
    runs = [('first', inputs(6, 1.), {}),
            ('longer', inputs(9, -0.5), {}),
            ('values', inputs(5, 1.),
             {'subs': {cores.sym(par[0]): 1.75}} if par else
             {'inits': {'x': [-0.2 + 0.5*i for i in range(names['x'])]}})]
    for what, kw, more in runs:
        got = {}
        for lang, sim in sims.items():
            try:
                with quiet():
                    sim.init(**dict(kw, **more))
                    sim.process()
                    got[lang] = data(sim)
            except Exception as e:
                res.fail('simulation:%s' % lang, '%s run: %s'
                         % (what, describe(e)))
                return res
            res.transitions += 1
        a, b = got['python'], got['c++']
        res.traces += 1
        res.states += len(a['t'])
        if list(a) != list(b):
            res.fail('simulation:names', '%s and %s' % (list(a), list(b)))
            return res
        for k in a:
            res.evaluations += 1
            res.seen(k, a[k])
            if len(a[k]) != len(b[k]) or not numpy.allclose(
                    a[k], b[k], rtol=1e-7, atol=1e-7, equal_nan=True):
                res.fail('simulation:%s' % k.split('.')[0],
                         '%s run: %s is %s in C++ and %s in Python'
                         % (what, k, b[k], a[k]))
                return res
    return res

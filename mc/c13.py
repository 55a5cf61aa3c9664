# -*- coding: utf-8 -*-
"""
C13 - netlists.

Every history of edits of two netlists sharing a file system (add, delete, set,
write, read, clear, concatenate in every order) is replayed on the real objects
and compared after every step with plain lists of lines; every value of a
catalogue of node names and parameter values goes through a file, alone and
with every other one; every combination of the freedoms of the file syntax is
read; and the cores built of original, re-read and concatenated netlists are
compared.
"""
from __future__ import absolute_import, division, print_function

import collections
import copy
import itertools
import os

from pyphs import Netlist, Graph
from mc import c05
from mc.lib import Result, describe, scratch_dir

PROPERTY = 'C13'
BOUNDS = {
    'quick': '2 netlists, 18 operations, all histories of 4 operations; all '
             'pairs of 42 parameter values and of 14 node names; 2^7 '
             'combinations of syntax freedoms; cores of 10 netlists through '
             'every split in two parts and every file round trip',
    'thorough': 'all histories of 5 operations; triples of values',
}
RULE = 'lines of the netlist = lines of the plain list'
ASSUMPTIONS = ['labels and names contain no colon, semicolon, equal sign '
               '(separators of the file format)',
               'the numerical values are finite']


def line(d, c, l, n, a):
    return {'dictionary': d, 'component': c, 'label': l, 'nodes': n,
            'arguments': a}


LINES = [line('electronics', 'resistor', 'R1', ('A', '#'), {'R': ('r', 1e3)}),
         line('electronics', 'source', 'IN', ('#', 1),
              {'type': 'voltage', 'const': 0.5}),
         line('mechanics', 'mass', '3', ('M',), {})]
BASE = [LINES[1], line('thermics', 'capacitor', 'T', ('T1',),
                       {'C': ('C 1', -2.5e-7), 'file': '/a/b c.txt'})]

OPS = ['add 0', 'add 1', 'add 2', 'del 0', 'del -1', 'set 0 1', 'set -1 2',
       'write', 'writeto', 'read', 'readfrom', 'clear', 'A=A+B', 'B=A+A',
       'B=B+A', 'A+B', 'delB 0', 'writeB']


class World(object):
    """two netlists, their files, and what they must be"""

    def __init__(self, folder):
        self.path = {k: os.path.join(folder, k + '.net') for k in 'ABC'}
        for p in self.path.values():
            if os.path.exists(p):
                os.remove(p)
        self.real = {'A': Netlist(self.path['A'], clear=True),
                     'B': Netlist(self.path['B'], clear=True)}
        for l in BASE:
            self.real['B'].add_line(copy.deepcopy(l))
        self.model = {'A': [], 'B': copy.deepcopy(BASE)}
        self.disk = {'A': [], 'B': []}
        # path of the netlist object in A and B
        self.of = {'A': 'A', 'B': 'B'}

    def enabled(self, op):
        a, b = self.model['A'], self.model['B']
        if op.startswith(('del ', 'set ')):
            return bool(a)
        if op == 'delB 0':
            return bool(b)
        if op == 'readfrom':
            return 'C' in self.disk
        return True

    def apply(self, op):
        real, model = self.real, self.model
        w = op.split()
        if w[0] == 'add':
            real['A'].add_line(copy.deepcopy(LINES[int(w[1])]))
            model['A'] = model['A'] + [LINES[int(w[1])]]
        elif w[0] in ('del', 'delB'):
            k = 'A' if w[0] == 'del' else 'B'
            real[k].delline(int(w[1]))
            model[k] = list(model[k])
            model[k].pop(int(w[1]))
        elif w[0] == 'set':
            real['A'].setline(int(w[1]), copy.deepcopy(LINES[int(w[2])]))
            model['A'] = list(model['A'])
            model['A'][int(w[1])] = LINES[int(w[2])]
        elif w[0] in ('write', 'writeB'):
            k = 'A' if w[0] == 'write' else 'B'
            real[k].write()
            self.disk[self.of[k]] = model[k]
        elif w[0] == 'writeto':
            real['A'].write(self.path['C'])
            self.disk['C'] = model['A']
        elif w[0] == 'read':
            real['A'] = Netlist(self.path['A'])
            model['A'], self.of['A'] = self.disk['A'], 'A'
        elif w[0] == 'readfrom':
            real['A'] = Netlist(self.path['C'])
            model['A'], self.of['A'] = self.disk['C'], 'C'
        elif w[0] == 'clear':
            real['A'] = Netlist(self.path['A'], clear=True)
            model['A'], self.of['A'], self.disk['A'] = [], 'A', []
        elif op == 'A+B':
            got = real['A'] + real['B']
            return check(got, model['A'] + model['B'], 'A+B')
        else:
            k = op[0]
            l, r = op[2], op[4]
            new = real[l] + real[r]
            model[k] = model[l] + model[r]
            self.of[k] = self.of[l]
            real[k] = new
        return None


def norm(l):
    l = dict(l)
    l['arguments'] = collections.OrderedDict(l['arguments'] or {})
    return l


def typed(v):
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [typed(e) for e in v])
    if isinstance(v, dict):
        return [(k, typed(e)) for k, e in v.items()]
    return (type(v).__name__, v)


def check(net, model, name):
    if net.nlines() != len(model):
        return '%s: %i lines instead of %i' % (name, net.nlines(), len(model))
    items = list(net)
    for i, want in enumerate(model):
        for got in (net[i], items[i]):
            a, b = typed(norm(got)), typed(norm(want))
            if sorted(a) != sorted(b):
                return '%s, line %i: %r instead of %r' % (name, i, got, want)
        if net.line(i).strip() not in net.netlist().splitlines():
            return '%s: line %i is not in netlist()' % (name, i)
    if len(items) != len(model):
        return '%s: %i items' % (name, len(items))
    return None


def key_of(world):
    return (repr(world.model), repr(world.disk), repr(world.of))


# ------------------------------------------------------------------- values

VALUES = [1, -3, 0, 10**20, 1.5, -2.5e-7, 1e-300, 0.1 + 0.2, 1e22, True,
          False, None, 'R1', 'voltage', '_a1', 'a b', ' lead', 'x-y', 'x.y',
          '1', '1e3', '-2', 'None', 'True', '', '/tmp/x y/z.wav', 'C:\\x\\y',
          "it's", 'a"b', 'a,b', "('R', 1)", '(', '[1, 2]', '#',
          ('R', 5.9), ('R', 1), ('my lab', -2e-3), ('C,x', 2), (-5, 10),
          [1, 2.5], ['a', 'b c'], ('R', 'S')]
NODES = ['A', '#', 'n1', 'N 1', 'a-b', '1', 1, 0, -2, "it's", 'a,b', 'a(b',
         'a.b', '']
LABELS = ['R', 'r1', '1', 'a_b', 'R.1', "'R'", 'None', 'R-1']


# ------------------------------------------------------------------- syntax

FREEDOMS = ['comment', 'blank', 'spaces line', 'tabs', 'tight', 'nolast',
            'crlf']
TEXT = [("electronics.resistor", "R1", "('A', '#')",
         [("R", "('r0', 2.5*1e-3)")],
         line('electronics', 'resistor', 'R1', ('A', '#'),
              {'R': ('r0', 2.5*1e-3)})),
        ("mechanics_dual.Mass", "M", "('#', 'n1',)",
         [("M", "0.5"), ("file", "'/a b/c.txt'"), ("ctrl", "e"),
          ("integ", "True")],
         line('mechanics_dual', 'Mass', 'M', ('#', 'n1'),
              {'M': 0.5, 'file': '/a b/c.txt', 'ctrl': 'e', 'integ': True})),
        ("thermics.capacitor", "T1", "('T1', )", [("C", "('C 1', 10.)"),
                                                  ("r", "(-5,10)")],
         line('thermics', 'capacitor', 'T1', ('T1',),
              {'C': ('C 1', 10.), 'r': (-5, 10)})),
        ("electronics.source", "IN", "(1, 2)", [("type", "voltage")],
         line('electronics', 'source', 'IN', (1, 2), {'type': 'voltage'})),
        ("mechanics.source", "F", "('N1',)", [],
         line('mechanics', 'source', 'F', ('N1',), {}))]


def text(free):
    sp = '\t ' if 'tabs' in free else ' '
    tight = 'tight' in free
    rows = []
    for comp, label, nodes, pars, _ in TEXT:
        if tight:
            nodes = nodes.replace(', ', ',')
        row = comp + sp + label + sp + nodes + (':' if tight else sp + ':')
        row += ''.join(('' if tight else sp) + k +
                       ('=' if tight else ' = ') + v + ';' for k, v in pars)
        if 'nolast' in free and pars:
            row = row[:-1]
        rows.append(row)
        if 'comment' in free:
            rows.append("# electronics.resistor R ('A', 'B'): R=1;")
        if 'blank' in free:
            rows.append('')
        if 'spaces line' in free:
            rows.append('   \t')
    end = '\r\n' if 'crlf' in free else '\n'
    return end.join(rows) + ('' if 'nolast' in free else end)


# -------------------------------------------------------------------- cores

def E(c, l, n, **a):
    return line('electronics', c, l, n, a)


CIRCUITS = [
    [E('source', 'in', ('#', 'A'), type='voltage'),
     E('resistor', 'R', ('A', 'B'), R=('R1', 1e3)),
     E('capacitor', 'C', ('B', '#'), C=('C', 2e-6))],
    [E('source', 'in', ('#', 1), type='voltage'),
     E('resistor', 'R', (1, 2), R=1e3),
     E('inductor', 'L', (2, '#'), L=0.05)],
    [E('source', 'in', ('#', 'A'), type='voltage'),
     E('resistor', 'R', ('A', '#'), R='Rfree')],
    [E('source', 'in', ('#', 'A B'), type='voltage', const=9.),
     E('diode', 'D', ('A B', 'n-1'), Is=('Is', 2e-9), R=0.5),
     E('capacitor', 'C', ('n-1', '#'), C=2e-6)],
    [E('source', 'in', ('#', 'A'), type='voltage'),
     E('resistor', 'R', ('A', 'B'), R=('R', 5)),
     E('inductor', 'L', ('B', 'C'), L=('L', 0.05)),
     line('connectors', 'gyrator', 'G', ('C', '#', 'D', '#'),
          {'alpha': ('Bl', 50)}),
     line('mechanics_dual', 'mass', 'M', ('D', 'E'), {'M': ('M', 0.1)}),
     line('mechanics_dual', 'springcubic', 'K', ('E', 'F'),
          {'K0': ('K0', 5e3), 'K2': ('K2', 1e20)}),
     line('mechanics_dual', 'damper', 'A', ('F', '#'), {'A': ('A', 1)})],
    [line('mechanics', 'source', 'F', ('#', 'N'), {'type': 'force'}),
     line('mechanics', 'mass', 'M', ('N',), {'M': ('M', 0.1)}),
     line('mechanics', 'stiffness', 'K', ('N', '#'), {'K': 1e4})],
    [line('thermics', 'source', 'TA', ('TA',), {'type': 'temperature'}),
     line('thermics', 'transfer', 'R2', ('T1', 'TA'), {'R': 2.}),
     line('thermics', 'capacitor', 'T1', ('T1',), {'C': ('C', 100.)})],
    [E('source', 'in', ('#', 'A'), type='voltage'),
     E('potentiometer', 'P', ('A', 'B', '#'), R=('PR', 220e3), alpha='pot',
       expo=('e', 1)),
     E('capacitor', 'C', ('B', '#'), C=('C', 1e-9))],
    [E('source', 'in', ('#', 'A'), type='voltage'),
     E('resistor', 'R1', ('A', 'B'), R=('R1', 5)),
     E('resistor', 'R2', ('A', 'B'), R=('R2', 6)),
     E('capacitor', 'C', ('B', '#'), C=('C', 1e-9)),
     E('capacitor', 'D', ('B', '#'), C=('D', 2e-9))],
    # nodes labelled by numbers, merges inside merges
    [E('source', 'in', ('#', 1), type='voltage'),
     E('resistor', 'R1', (1, 2), R=('R1', 5)),
     E('resistor', 'R2', (3, 2), R=('R2', 6)),
     E('diode', 'D', (1, 3), Is=('Is', 2e-9)),
     E('capacitor', 'C', (3, 4), C=('C', 1e-9)),
     E('capacitor', 'D', (5, 4), C=('D', 2e-9)),
     E('resistor', 'R3', (5, '#'), R=('R3', 7))],
]


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    for d in range(1, depth):
        yield ('history', d, [])
    for head in itertools.product(OPS, repeat=2):
        yield ('history', depth, list(head))
    for i in range(len(VALUES)):
        yield ('values', i, 2 if tier == 'quick' else 3)
    for i in range(len(NODES)):
        yield ('nodes', i)
    yield ('labels',)
    for n in range(len(FREEDOMS) + 1):
        yield ('syntax', n)
    for i in range(len(CIRCUITS)):
        yield ('core', i)
    yield ('none',)


def run_case(item):
    res = Result()
    with scratch_dir() as d:
        globals()['run_' + item[0]](res, d, *item[1:])
    return res


def trace(res, folder, ops, seen):
    try:
        world = World(folder)
        for i, op in enumerate(ops):
            if not world.enabled(op):
                return False
            bad = world.apply(op)
            res.transitions += 1
            for k in 'AB':
                bad = bad or check(world.real[k], world.model[k], k)
            seen.add(key_of(world))
            if bad:
                res.fail('history ' + op, '%s, after %s' % (bad, ops[:i+1]),
                         ops=ops[:i+1])
                return False
    except Exception as e:
        res.fail('history error ' + op, describe(e) + ' after %s' % (ops,),
                 ops=ops)
        return False
    return True


def run_history(res, folder, depth, head):
    seen = set()
    for tail in itertools.product(OPS, repeat=depth-len(head)):
        ops = head + list(tail)
        if trace(res, folder, ops, seen):
            res.traces += 1
            res.sample = ops
        if len(res.violations) > 5:
            break
    res.states = len(seen)
    for s in seen:
        res.seen(s)


def roundtrip(res, folder, lines, key):
    path = os.path.join(folder, 'x.net')
    try:
        net = Netlist(path, clear=True)
        for l in lines:
            net.add_line(copy.deepcopy(l))
        bad = check(net, lines, 'added lines')
        net.write()
        back = Netlist(path)
        bad = bad or check(back, lines, 're-read lines')
        # and once more from what was read
        path2 = os.path.join(folder, 'y.net')
        back.write(path2)
        bad = bad or check(Netlist(path2), lines, 'lines read twice')
    except Exception as e:
        bad = 'error: ' + describe(e)
    res.transitions += 1
    res.traces += 1
    res.states += 1
    res.seen(lines)
    if bad:
        res.fail(key, bad, lines=repr(lines))


def run_values(res, folder, i, n):
    v = VALUES[i]
    for more in itertools.chain.from_iterable(
            itertools.product(VALUES, repeat=k) for k in range(n)):
        args = collections.OrderedDict(
            ('p%i' % j, e) for j, e in enumerate((v,) + more))
        roundtrip(res, folder,
                  [line('dic', 'comp', 'lab', ('A', '#'), args), LINES[0]],
                  'value')
        if len(res.violations) > 5:
            return


def run_nodes(res, folder, i):
    v = NODES[i]
    for nodes in itertools.chain(
            [(v,)], ((v, w) for w in NODES), ([v, w] for w in NODES),
            ((w, '#', v, 'B') for w in NODES)):
        roundtrip(res, folder,
                  [line('dic', 'comp', 'lab', nodes, {'R': 1.}), LINES[0]],
                  'nodes')


def run_labels(res, folder):
    for l, d, c in itertools.product(LABELS, ['electronics', 'connectors'],
                                     ['resistor', 'Pickup']):
        roundtrip(res, folder, [line(d, c, l, ('A', 'B'), {'R': 1.})], 'label')
        net = Netlist(os.path.join(folder, 'z.net'), clear=True)
        new = line(d, c, l, ('A', 'B'), {'R': 1.})
        if l.startswith("'"):
            continue
        net.add_line(copy.deepcopy(LINES[0]))
        net.setline(0, copy.deepcopy(new))
        bad = check(net, [new], 'line set')
        if bad:
            res.fail('setline', bad, label=l)


def run_syntax(res, folder, n):
    want = [t[-1] for t in TEXT]
    path = os.path.join(folder, 's.net')
    for free in itertools.combinations(FREEDOMS, n):
        with open(path, 'wb') as f:
            f.write(text(free).encode())
        res.traces += 1
        res.states += 1
        res.transitions += 1
        try:
            bad = check(Netlist(path), want, 'file')
        except Exception as e:
            bad = describe(e)
        res.seen(free, bad)
        if bad:
            res.fail('syntax', '%s with %s' % (bad, free), text=text(free))


def run_none(res, folder):
    lines = [l if l['arguments'] else line(l['dictionary'], l['component'],
                                           l['label'], l['nodes'], None)
             for l in LINES]
    roundtrip(res, folder, lines, 'no arguments')
    lines = [E('source', 'in', ('#', 'A'), type='voltage'),
             line('electronics', 'diode', 'D', ('A', '#'), None)]
    compare(res, folder, lines, [(0,), (1,)])


def reading(core):
    return c05.reading(core)


def compare(res, folder, lines, parts):
    """core of the lines against cores obtained through other ways"""
    def fresh(name, ls):
        net = Netlist(os.path.join(folder, name + '.net'), clear=True)
        for l in ls:
            net.add_line(copy.deepcopy(l))
        return net
    try:
        whole = fresh('whole', lines)
        ref = reading(whole.to_core(label='c'))
        ways = {}
        whole.write()
        ways['file'] = lambda: Netlist(whole.path).to_core(label='c')
        ways['path'] = lambda: Graph(whole.path).to_core(label='c')
        ways['graph'] = lambda: Graph(netlist=whole).to_core(label='c')
        ways['again'] = lambda: whole.to_core(label='c')

        def summed():
            nets = [fresh('p%i' % i, [lines[k] for k in p])
                    for i, p in enumerate(parts)]
            out = nets[0]
            for n in nets[1:]:
                out = out + n
            return nets, out

        def graphs():
            nets, _ = summed()
            gs = [Graph(netlist=n) for n in nets]
            was = [state(g) for g in gs]
            out = gs[0]
            for g in gs[1:]:
                out = out + g
            if [state(g) for g in gs] != was:
                raise ValueError('the sum changed one of the graphs')
            if [n.nlines() for n in nets] != [len(p) for p in parts]:
                raise ValueError('the sum changed one of the netlists')
            if out.netlist.nlines() != len(lines):
                raise ValueError('netlist of the sum')
            return out.to_core(label='c')
        ways['sum of netlists'] = lambda: summed()[1].to_core(label='c')
        ways['sum of graphs'] = graphs
        for k in ways:
            res.transitions += 1
            res.states += 1
            res.traces += 1
            got = reading(ways[k]())
            bad = c05.differ(ref, got)
            res.seen(k, bad)
            if bad:
                res.fail('core ' + k, bad, lines=repr(lines),
                         parts=repr(parts))
    except Exception as e:
        res.fail('core error', describe(e), lines=repr(lines),
                 parts=repr(parts))


def state(graph):
    return (sorted(map(str, graph.nodes())),
            sorted((str(a), str(b), str(c['label']), str(c['type']))
                   for a, b, c in graph.edges(data=True)),
            repr(reading(graph.core)), graph.netlist.netlist())


def run_core(res, folder, i):
    lines = CIRCUITS[i]
    n = len(lines)
    for k in range(1, n):
        compare(res, folder, lines, [tuple(range(k)), tuple(range(k, n))])
    if n > 2:
        compare(res, folder, lines, [(0,), (1,), tuple(range(2, n))])

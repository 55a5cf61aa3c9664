# -*- coding: utf-8 -*-
"""
C01  A netlist becomes a core that obeys Kirchhoff and the component laws.

All small netlists (multisets of components on a few nodes with every
orientation, every order of lines) are translated by the real code; the core is
compared exactly with the solution of the tableau of Kirchhoff's and
constitutive laws.  Netlists whose storages are independent must be built.
"""
from __future__ import absolute_import, division, print_function

import itertools
import os
import warnings

from mc import circuits as ci
from mc.lib import Result, describe, quiet, time_limit, Timeout, scratch_dir

PROPERTY = 'C01'
BOUNDS = {
    'quick': 'all netlists of 2-3 components (1-2 sources) on {#,A,B} with all '
             'orientations; all netlists of 4 components (1 source) on {#,A,B} '
             'up to orientation; all line orders of the netlists of 3 '
             'components up to orientation; all netlists of 4 components '
             '(1 source) on {#,A,B,D} with 2 or more components on each node '
             'up to orientation; one transformer or gyrator (6 wirings) with '
             'all pairs of components',
    'thorough': 'quick, plus 4 components on {#,A,B} with all orientations, 5 '
                'components on {#,A,B} up to orientation, all netlists of 4 '
                'components on 4 nodes, 5 components on 4 nodes with 2 or more '
                'components on each node, transformers and gyrators with all '
                'triples of components, and chains of two of them'}
RULE = ('a netlist is translated twice from the same graph (and once without '
        'connection of the connectors); each core is solved exactly for '
        'exponential inputs at 3 rates and compared with the tableau')
ASSUMPTIONS = ['component values are distinct small integers; responses are '
               'compared at three rates s, which determines the rational '
               'functions involved together with the per-component variables']
TIME = 30
CHUNK = 40


def elements(nodes, kinds, oriented):
    pairs = [(a, b) for a in nodes for b in nodes
             if (a != b if oriented else nodes.index(a) < nodes.index(b))]
    return [[k, a, b] for k in kinds for a, b in pairs]


def sources(c):
    return sum(x[0] in 'VI' for x in c)


def degrees_ok(c):
    deg = {}
    for x in c:
        for n in x[1:]:
            deg[n] = deg.get(n, 0) + 1
    return all(v > 1 for v in deg.values())


def family(n, nodes, oriented, nsrc, dense=False):
    for c in itertools.combinations_with_replacement(
            elements(nodes, 'VIRCL', oriented), n):
        c = [list(x) for x in c]
        used = set(m for x in c for m in x[1:])
        if (sources(c) in nsrc and '#' in used and ci.connected(c) and
                len(used) == len(nodes) and
                (not dense or degrees_ok(c))):
            yield c


def connectors(n, pairs, wirings):
    el = [[k, a, b] for k in 'VIRCL' for a, b in pairs]
    for w in wirings:
        for kind in 'TG':
            for r in itertools.combinations_with_replacement(el, n):
                for pos in (0, n):
                    c = [list(x) for x in r]
                    c.insert(pos, [kind] + list(w))
                    if sources(c) == 1:
                        yield c


SEPARATE = [('A', '#', 'B', '#'), ('#', 'A', 'B', '#'), ('A', '#', '#', 'B'),
            ('#', 'A', '#', 'B')]
SHARED = [('A', '#', 'A', 'B'), ('A', 'B', '#', 'B')]


def chains():
    """source - connector - connector - load"""
    for k1, k2 in itertools.product('TG', repeat=2):
        for w1 in SEPARATE:
            for w2 in (('B', '#', 'D', '#'), ('#', 'D', 'B', '#')):
                for s in 'VI':
                    for mid in (None, 'R', 'C', 'L'):
                        for load in 'RCL':
                            c = [[s, 'A', '#'], [k1] + list(w1), [k2] + list(w2)]
                            if mid:
                                c.append([mid, 'B', '#'])
                            c.append([load, 'D', '#'])
                            yield c


def space(tier):
    for nodes in (['#', 'A'], ['#', 'A', 'B']):
        for n in (2, 3):
            for c in family(n, nodes, True, (1, 2)):
                yield c, None
        for c in family(3, nodes, False, (1, 2)):
            for order in itertools.permutations(range(3)):
                if order != (0, 1, 2):
                    yield c, list(order)
        for c in family(4, nodes, False, (1,)):
            yield c, None
    n4 = ['#', 'A', 'B', 'D']
    for c in family(4, n4, False, (1,), True):
        yield c, None
    two = [('A', '#'), ('B', '#')]
    for c in connectors(2, two + [('A', 'B')], SEPARATE + SHARED):
        yield c, None
    if tier == 'thorough':
        for c in family(4, ['#', 'A', 'B'], True, (1,)):
            yield c, None
        for c in family(5, ['#', 'A', 'B'], False, (1,)):
            yield c, None
        for c in family(4, n4, False, (1,)):
            yield c, None
        for c in family(5, n4, False, (1,), True):
            yield c, None
        for c in connectors(3, two, SEPARATE + SHARED):
            yield c, None
        for c in chains():
            yield c, None


def cases(tier):
    chunk = []
    for item in space(tier):
        chunk.append(item)
        if len(chunk) == CHUNK:
            yield chunk
            chunk = []
    if chunk:
        yield chunk


def must_build(c):
    """
    Independent storages, unique solution; a connector separates its two
    sides (every other component is on one side).
    """
    if ci.solution(c, None) is None:
        return False
    conn = [x for x in c if len(x) == 5]
    if not conn:
        return True
    for x in conn:
        if not all('#' in p for p in (x[1:3], x[3:5])):
            return False
    return all('#' in x[1:] for x in c)


def check(res, c, order, merge=False):
    """translate one circuit and judge the outcome"""
    key = ci.text(c) + ('' if order is None else ' order %s' % order)
    res.states += 1
    path = os.path.join(os.getcwd(), 'n.net')
    cores = []
    try:
        with quiet(), time_limit(TIME), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            graph = ci.netlist(c, path, order).to_graph()
            for kw in ({}, {}, {'connect': False}):
                core = graph.to_core(merge_all=merge, **kw)
                if kw:
                    core.connect()
                res.transitions += 1
                cores.append(core)
    except Timeout:
        res.fail(key, 'the construction does not end (%i s)' % TIME,
                 circuit=c, order=order)
        return None
    except Exception as e:
        res.seen('error', type(e).__name__)
        return e
    for core in cores:
        res.traces += 1
    return cores


def run_case(item):
    res = Result()
    with scratch_dir():
        for c, order in item:
            key = ci.text(c) + ('' if order is None else ' order %s' % order)
            out = check(res, c, order)
            if out is None:
                continue
            if isinstance(out, Exception):
                if must_build(c):
                    res.fail(key, 'refused although its storages are '
                             'independent: ' + describe(out), circuit=c,
                             order=order)
                continue
            # without dependent storages every component keeps its variable
            merged = ci.solution(c, None) is None
            done = []
            for n, core in enumerate(out):
                text = repr((core.x, core.w, core.y, core.u, core.H, core.z,
                             core.M, sorted(core.subs.items(), key=str)))
                if text in done:
                    continue
                done.append(text)
                bad = ci.compare(c, core, merged=merged)
                res.evaluations += 1
                if bad:
                    res.fail(key, 'core %i: %s' % (n, bad[0]), circuit=c,
                             order=order)
                    break
            res.seen('built', len(done), [str(s) for s in out[0].M])
            res.sample = dict(circuit=key, M=str(out[0].M))
    return res

# -*- coding: utf-8 -*-
"""
C02  Merging serial and parallel components keeps the circuit behaviour.

Every group of same-kind components (series, parallel and one nesting of them,
every orientation and line order) placed in every host circuit, and all small
netlists, are translated with and without merge_all; ports, energy, dissipated
power and the variables of the components left alone are compared exactly with
the tableau of the original circuit.
"""
from __future__ import absolute_import, division, print_function

from fractions import Fraction as F
import itertools
import warnings

from mc import circuits as ci
from mc.c01 import check, family, CHUNK, TIME
from mc.lib import (Result, Timeout, describe, quiet, scratch_dir, time_limit)

PROPERTY = 'C02'
BOUNDS = {
    'quick': 'groups of 2 (all orientations) and 3 (up to orientation of the '
             'first) resistors, capacitors or inductors, in series, in '
             'parallel or nested, in 6 host circuits, group lines before '
             'and after the host (groups of 3: one of them), merge_all off '
             'and on; groups of 2 or 3 components with laws that are not odd '
             '(biased, curved), every orientation, series and parallel, both '
             'controls, in the hosts, merge_all off and on; all netlists of 3 '
             'components (two of the same kind at least) with all '
             'orientations on {#,A,B}, and of 4 components up to orientation '
             'on {#,A}, with merge_all',
    'thorough': 'quick, plus groups of 3 with all orientations, groups of 4 '
                'up to orientation, mixed groups, and all netlists of 4 '
                'components on {#,A,B} with all orientations and on 4 nodes '
                'with 2 or more components on each node, with merge_all'}
RULE = ('a circuit is translated three times from the same graph with a given '
        'merge_all and compared with the tableau of the circuit before merge')

# '@' stands for the group between P and Q
HOSTS = ['I(#,P) R(P,#) @(P,#)',
         'V(#,A) R(A,P) @(P,#)',
         'V(#,A) R(A,P) C(P,#) @(P,#)',
         'V(#,A) R(A,P) R(P,#) L(P,Q) R(Q,#) @(P,Q)',
         'I(#,A) C(A,#) R(A,P) @(P,Q) R(Q,#) I(Q,#)',
         'V(#,P) @(P,Q) R(Q,#) L(Q,#)']


def parse(text):
    return [[t[0]] + t[2:-1].split(',') for t in text.split()]


def groups(kinds, flips):
    """
    (name, components between P and Q); flips: one bool per component
    """
    n = len(kinds)
    mid = ['M%i' % i for i in range(n - 1)]
    ser = ['P'] + mid + ['Q']
    shapes = {'series': [(ser[i], ser[i+1]) for i in range(n)],
              'parallel': [('P', 'Q')]*n}
    if n == 3:
        shapes['series-parallel'] = [('P', 'M0'), ('M0', 'Q'), ('M0', 'Q')]
        shapes['parallel-series'] = [('P', 'Q'), ('P', 'M0'), ('M0', 'Q')]
    for name in sorted(shapes):
        out = []
        for k, (a, b), f in zip(kinds, shapes[name], flips):
            out.append([k, b, a] if f else [k, a, b])
        yield name, out


def place(host, group, after):
    slot = [c for c in host if c[0] == '@'][0]
    ren = {'P': slot[1], 'Q': slot[2]}
    g = [[c[0]] + [ren.get(n, n) for n in c[1:]] for c in group]
    rest = [c for c in host if c[0] != '@']
    return rest + g if after else g + rest


def grouped(tier):
    kinds = []
    for k in 'RCL':
        kinds.append((k*2, True))
        kinds.append((k*3, tier == 'thorough'))
    if tier == 'thorough':
        kinds += [(k*4, False) for k in 'RCL']
        kinds += [(a + b + c, False) for a in 'RCL' for b in 'RCL'
                  for c in 'RCL' if len(set(a + b + c)) == 2]
    for ks, full in kinds:
        n = len(ks)
        flips = (itertools.product((False, True), repeat=n) if full else
                 [tuple(j == i for j in range(n)) for i in range(-1, n)])
        for fl in flips:
            for name, g in groups(ks, fl):
                for i, h in enumerate(HOSTS):
                    for after in (True, False):
                        # the lines of the other side for half of the groups
                        if tier == 'quick' and n == 3 and after != (
                                (i + sum(fl)) % 2 == 0):
                            continue
                        yield place(parse(h), g, after)


def mergeable(c):
    """two components of the same kind at least"""
    kinds = [x[0] for x in c if x[0] not in 'VI']
    return len(set(kinds)) < len(kinds)


def space(tier):
    for c in grouped(tier):
        for merge in (False, True):
            yield c, merge
    for nodes in (['#', 'A'], ['#', 'A', 'B']):
        for c in family(3, nodes, True, (1,)):
            if tier == 'thorough' or mergeable(c):
                yield c, True
        for c in family(4, nodes, False, (1,)):
            if tier == 'thorough' or (len(nodes) < 3 and mergeable(c)):
                yield c, True
        if tier == 'thorough':
            for c in family(4, nodes, True, (1,)):
                yield c, True
    if tier == 'thorough':
        for c in family(4, ['#', 'A', 'B', 'D'], False, (1,), True):
            yield c, True


# --------------------------------------------------------------------------
# groups of components whose laws are not odd: the orientation of each matters

# law of a component: p*v + q + r*v**2
LAWS = [(2, 1, 0), (3, -5, 0), (7, 2, 0)]
CURVED = [(2, 1, 1), (3, -5, 2), (7, 2, 3)]


def lawful(tier):
    turn = 0
    for kind, ctrl in (('d', 'e'), ('d', 'f'), ('d', '?'), ('x', 'e'),
                       ('x', 'f')):
        # not merged with a storage of the host
        hosts = [h for h in HOSTS if kind == 'd' or
                 {'e': 'L', 'f': 'C'}[ctrl] not in h]
        for n in ((2, 3) if tier == 'quick' else (2, 3, 4)):
            for shape in ('series', 'parallel'):
                # the components share their argument, or need inverse laws
                direct = (shape == 'parallel') == (ctrl == 'e')
                for curved in ((False, True) if direct and kind == 'x'
                               else (False,)):
                    for flips in itertools.product((False, True), repeat=n):
                        every = [(h, after) for h in hosts
                                 for after in (True, False)]
                        if tier == 'quick':
                            turn += 1
                            every = every[turn % 2::2 if n == 2 else 5]
                        for h, after in every:
                            yield {'kind': kind, 'ctrl': ctrl,
                                   'shape': shape, 'curved': curved,
                                   'flips': list(flips), 'host': h,
                                   'after': after}


def law_graph(item, circuit, nrest):
    """graph of a circuit; the components of the group are ['@i', n1, n2]"""
    with quiet():
        from pyphs import Core, Graph
        from pyphs.dictionary import electronics as el
        from pyphs.dictionary.edges import (DissipativeNonLinear,
                                            StorageNonLinear)
    laws = (CURVED if item['curved'] else LAWS)
    laws = laws + [(5, 4, 0)]
    g = Graph(label='g')
    order = list(range(len(circuit)))
    if not item['after']:
        order = order[nrest:] + order[:nrest]
    for k in order:
        c = circuit[k]
        ends = tuple(c[1:])
        lb = ci.label(circuit, k)
        if c[0] in 'VI':
            g += el.Source(lb, ends, type=ci.KINDS[c[0]][2]['type'])
        elif c[0] in 'RCL':
            cls = {'R': el.Resistor, 'C': el.Capacitor, 'L': el.Inductor}[c[0]]
            g += cls(lb, ends, **{c[0]: (lb, float(ci.value(circuit, k)))})
        else:
            i = int(c[0][1:])
            p, q, r = laws[i]
            v = Core.symbols('%s%s%i' % ('w' if item['kind'] == 'd' else 'x',
                                         'grp', i))
            data = {'label': v, 'ctrl': item['ctrl'], 'link': None}
            if item['kind'] == 'd':
                law = p*v + q + r*v**2
                if item['ctrl'] == '?':
                    zs = {'e_ctrl': law, 'f_ctrl': (v - q)/p}
                else:
                    zs = {'e_ctrl': law, 'f_ctrl': law}
                data.update(type='dissipative', z=zs)
                g += DissipativeNonLinear('grp%i' % i, [ends + (data,)], [v],
                                          [law])
            else:
                data.update(type='storage')
                g += StorageNonLinear('grp%i' % i, [ends + (data,)], [v],
                                      p*v**2/2 + q*v + r*v**3/3)
    return g, laws


def group_law(item, laws, state):
    """
    (a, b, c): a*effort + b*flux = c for the whole group, in its direction,
    for a given value of its common state
    """
    n = len(item['flips'])
    t = [-1 if f else 1 for f in item['flips']]
    direct = (item['shape'] == 'parallel') == (item['ctrl'] == 'e')
    if item['kind'] == 'd':
        # flux = law(effort) for 'e' and '?', effort = law(flux) for 'f'
        inner = item['ctrl'] != 'f'
        a, b = F(0), F(0)               # dependent = a*common + b
        if (item['shape'] == 'parallel') == inner:
            for s, (p, q, r) in zip(t, laws):
                a, b = a + p, b + s*q
        else:
            for s, (p, q, r) in zip(t, laws):
                a, b = a + F(1, p), b - F(s*q, p)
        return (-a, F(1), b) if item['shape'] == 'parallel' else (F(1), -a, b)
    if direct:
        val = sum(s*(p*s*state + q + r*state**2)
                  for s, (p, q, r) in zip(t, laws[:n]))
    else:
        val = (state + sum(F(s*q, p) for s, (p, q, r) in zip(t, laws))) \
            / sum(F(1, p) for s, (p, q, r) in zip(t, laws[:n]))
    # the flux of 'e' storages is known, the effort of 'f' storages
    return (F(0), F(1), F(val)) if item['ctrl'] == 'e' else \
        (F(1), F(0), F(val))


def law_reference(item, host, laws, states, state, u):
    """{label: (effort, flux)} of the host and of the group '@'"""
    nodes = sorted(set(n for c in host for n in c[1:]) - set('#'))
    nu = len(nodes) + len(host)         # potentials then fluxes
    rows = []
    for n in nodes:
        rows.append([F(0)]*len(nodes) +
                    [F((c[1] == n) - (c[2] == n)) for c in host] + [F(0)])
    for k, c in enumerate(host):
        if c[0] == '@':
            a, b, v = group_law(item, laws, state)
        elif c[0] == 'R':
            a, b, v = 1, -ci.value(host, k), 0
        else:
            # the effort of V and C, the flux of I and L are known
            a, b = (1, 0) if c[0] in 'VC' else (0, 1)
            v = u[k] if c[0] in 'VI' else states[k]
        row = [F(0)]*nu + [F(v)]
        for n, sg in ((c[1], 1), (c[2], -1)):
            if n != '#':
                row[nodes.index(n)] += sg*a
        row[len(nodes) + k] += b
        rows.append(row)
    sol = ci.solve(rows, 1)
    if sol is None:
        return None
    pot = dict(zip(nodes, [v[0] for v in sol]))
    return {k: (pot.get(c[1], F(0)) - pot.get(c[2], F(0)),
                sol[len(nodes) + k][0]) for k, c in enumerate(host)}


def law_core(core, xs, us):
    """exact {name: value} of the outputs and of the derivatives of states"""
    import sympy

    def exact(e):
        return sympy.nsimplify(sympy.sympify(e), rational=True)
    subs = dict((a, exact(b)) for a, b in core.subs.items())
    nx, nw = len(core.x), len(core.w)
    vals = dict(subs)
    vals.update(xs)
    M = sympy.Matrix(core.M).applyfunc(lambda e: exact(e).subs(subs))
    H = exact(core.H)
    dxh = [sympy.diff(H, x).subs(vals) for x in core.x]
    z = [sympy.expand(exact(e).subs(subs)) for e in core.z]
    a = sympy.Matrix(dxh + z + [us[str(n)] for n in core.u])
    b = M*a
    eqs = [w - e for w, e in zip(core.w, b[nx:nx + nw])]
    sol = sympy.solve(eqs, list(core.w), dict=True) if nw else [{}]
    if len(sol) != 1:
        return None
    b = b.subs(sol[0])
    out = dict(zip(map(str, core.x), b[:nx]))
    out.update(zip(map(str, core.y), b[nx + nw:]))
    return {k: F(int(v.p), int(v.q)) for k, v in out.items()}


def case_law(res, item):
    import sympy
    host = parse(item['host'])
    slot = [c for c in host if c[0] == '@'][0]
    n = len(item['flips'])
    mid = ['M%i' % i for i in range(n - 1)]
    pts = [slot[1]] + mid + [slot[2]]
    group = [(slot[1], slot[2])]*n if item['shape'] == 'parallel' else \
        [(pts[i], pts[i+1]) for i in range(n)]
    group = [['@%i' % i] + list(e[::-1] if f else e)
             for i, (e, f) in enumerate(zip(group, item['flips']))]
    rest = [c for c in host if c[0] != '@']
    host = rest + [slot]
    circuit = rest + group
    key = '%s %s of %s%s, flipped %s, in %s%s' % (
        item['shape'], 'curved' if item['curved'] else '', item['kind'],
        item['ctrl'], item['flips'], item['host'],
        '' if item['after'] else ' (group first)')
    for merge in (True, False):
        res.states += 1
        try:
            with quiet(), time_limit(TIME), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                graph, laws = law_graph(item, circuit, len(rest))
                core = graph.to_core(merge_all=merge)
            res.transitions += 1
        except Timeout:
            res.fail(key, 'the construction does not end (%i s)' % TIME)
            return
        except Exception as e:
            res.seen('error', type(e).__name__)
            continue
        stor = [k for k, c in enumerate(rest) if c[0] in 'CL']
        mine = [x for x in core.x
                if str(x) not in ['x' + ci.label(rest, k) for k in stor]]
        if item['kind'] == 'x' and len(mine) != 1:
            res.seen('left alone', len(mine))
            continue
        signs = (1, -1) if mine else (1,)
        bad = None
        for sg in signs:
            bad = None
            points = [(0, 0, -1), (1, 0, -1), (0, 1, -1), (1, 1, 2)]
            if item['curved']:
                points += [(0, 0, 1), (-2, 1, 0)]
            for u0, st, q in points:
                q = F(q)
                u = {k: F(u0 + i) for i, k in enumerate(
                    [k for k, c in enumerate(rest) if c[0] in 'VI'])}
                xs, states = {}, {}
                for j, k in enumerate(stor):
                    v = F(j + 1)*st
                    states[k] = v/ci.value(rest, k)
                    xs[core.symbols('x' + ci.label(rest, k))] = \
                        sympy.Rational(v.numerator, v.denominator)
                for x in mine:
                    xs[x] = sympy.Rational(int(sg*q))
                ref = law_reference(item, host, laws, states, q, u)
                got = law_core(core, xs, {
                    'u' + ci.label(rest, k): sympy.Rational(int(v))
                    for k, v in u.items()})
                res.evaluations += 1
                if ref is None:
                    if got is not None:
                        continue
                    break
                if got is None:
                    bad = 'no unique response to u=%s' % u0
                    break
                want = {}
                for k, c in enumerate(rest):
                    e, f = ref[k]
                    if c[0] in 'VI':
                        want['y' + ci.label(rest, k)] = f if c[0] == 'V' else e
                    elif c[0] in 'CL':
                        want['x' + ci.label(rest, k)] = f if c[0] == 'C' else e
                e, f = ref[len(rest)]
                for x in mine:
                    want[str(x)] = sg*(e if item['ctrl'] == 'e' else f)
                if got != want:
                    bad = 'merge_all=%s: %s instead of %s for u=%s, states '\
                        '%s, group %s' % (merge, {a: str(v) for a, v in
                                                  got.items()},
                                          {a: str(v) for a, v in want.items()},
                                          u0, st, q)
                    break
            res.traces += 1
            if not bad:
                break
        res.seen('law', merge, len(core.w), len(core.x), str(core.z),
                 str(core.H))
        if bad:
            res.fail(key, bad, item=item)
            return


def cases(tier):
    chunk = []
    for item in lawful(tier):
        chunk.append(item)
        if len(chunk) == CHUNK:
            yield {'laws': chunk}
            chunk = []
    if chunk:
        yield {'laws': chunk}
    chunk, n = [], (CHUNK if tier == 'thorough' else CHUNK // 2)
    for item in space(tier):
        chunk.append(item)
        if len(chunk) == n:
            yield chunk
            chunk = []
    if chunk:
        yield chunk


def bridgeless(c):
    return all(ci.connected(c[:i] + c[i+1:]) and
               set(n for x in c[:i] + c[i+1:] for n in x[1:]) ==
               set(n for x in c for n in x[1:]) for i in range(len(c)))


def run_case(item):
    res = Result()
    if isinstance(item, dict):
        for one in item['laws']:
            case_law(res, one)
        return res
    with scratch_dir():
        for c, merge in item:
            key = '%s merge_all=%s' % (ci.text(c), merge)
            out = check(res, c, None, merge)
            if out is None:
                continue
            if isinstance(out, Exception):
                if ci.solution(c, None) is not None and bridgeless(c):
                    res.fail(key, 'refused although its storages are '
                             'independent: ' + describe(out), circuit=c,
                             merge=merge)
                continue
            done = []
            for n, core in enumerate(out):
                text = repr((core.x, core.w, core.y, core.u, core.H, core.z,
                             core.M, sorted(core.subs.items(), key=str)))
                if text in done:
                    continue
                done.append(text)
                bad = ci.compare(c, core, merged=True)
                res.evaluations += 1
                if bad:
                    res.fail(key, 'core %i: %s' % (n, bad[0]), circuit=c,
                             merge=merge)
                    break
            res.seen('built', len(done), len(out[0].x), len(out[0].w),
                     [str(s) for s in out[0].M])
            res.sample = dict(circuit=key, x=str(out[0].x), H=str(out[0].H))
    return res

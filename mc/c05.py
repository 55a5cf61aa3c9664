# -*- coding: utf-8 -*-
"""
C05  Copies, saved files and sums of cores are faithful and independent.

Histories of the form  (derive, modify one side)^k  over a catalogue of
derivations (copy, copy of copy, save/load in a fresh or used core, sums) and
of modifications of every attribute.  After each step every live object is read
completely (an immutable snapshot) and compared with what it must be.
"""
from __future__ import absolute_import, division, print_function

import collections
import copy
import os

import sympy
from sympy import Integer, Rational

from pyphs import Core
from mc import cores
from mc.cores import sym
from mc.lib import Result, describe, scratch_dir

PROPERTY = 'C05'

SPECS = collections.OrderedDict([
    ('full', dict(label='full', x=['xa', 'xb'], H='xa**2/(2*C)+xb**4/4',
                  w=['wa', 'wb'], z=['R*wa', 'wb**3+ob*0'], y=4, p=['pa'],
                  par={'C': 2.5, 'R': '3*C', 'L': 4}, obs={'ob': 'xa*pa'},
                  conn=[(1, 3, 'alpha')], free=['alpha'], force=['wa'],
                  M='thin', tag='f')),
    ('plain', dict(label='plain', x=['xc'], H='xc**2/2', w=['wc'],
                   z=['wc**3'], y=1, tag='p')),
    ('empty', dict(label='empty')),
    ('storages', dict(label='storages', x=['xe', 'xf', 'xg'], M='skew',
                      H='xe**2+xf**4+xe*xg')),
    ('diss', dict(label='diss', w=['wd', 'we'], z=['2*wd', 'we**3'], y=2,
                  M='skewdiss', par={'R': 7.5}, tag='d')),
])
BOUNDS = {
    'quick': '5 cores, 2 preparations; all (derivation, modification, side) '
             'steps, all sequences of 2 steps on the full core; all ordered '
             'pairs of cores summed, in 3 preparations, and sums of sums',
    'thorough': 'all sequences of 2 steps on every core and of 3 steps for '
                'the copies of the full core'}
RULE = ('a trace is a history of derivations and modifications; every live '
        'object is snapshotted after every step')


# ---------------------------------------------------------------- reading

def reading(core):
    """everything a user can read, as immutable data"""
    def seq(v):
        return tuple(str(e) for e in v)

    def mat(m):
        m = sympy.Matrix(m)
        return (m.shape, tuple(str(e) for e in m))
    out = collections.OrderedDict()
    out['label'] = core.label
    for n in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'z'):
        out[n] = seq(getattr(core, n))
    out['H'] = str(core.H)
    out['M'] = mat(core.M)
    out['Q'] = mat(core.Q)
    out['Zl'] = mat(core.Zl)
    out['bl'] = seq(core.bl)
    out['dims'] = (core.dims.xl(), core.dims.xnl(), core.dims.wl(),
                   core.dims.wnl(), core.dims.xnl_mono(), core.dims.y(),
                   core.dims.cy(), core.dims.p(), core.dims.tot())
    out['subs'] = tuple(sorted((str(k), str(v)) for k, v in core.subs.items()))
    out['observers'] = tuple((str(k), str(v))
                             for k, v in core.observers.items())
    out['connectors'] = tuple((seq(c['u']), seq(c['y']), str(c['alpha']))
                              for c in core.connectors)
    out['force_wnl'] = tuple(sorted(str(s) for s in core.force_wnl))
    out['dxH'] = seq(core.dxH())
    out['o'] = seq(core.o())
    out['names'] = (tuple(sorted(core.symbs_names)),
                    tuple(sorted(core.exprs_names)))
    for n in sorted(core.exprs_names | core.symbs_names):
        out['attr ' + n] = str(getattr(core, n))
    # symbols must stay the library's real symbols
    bad = [str(s) for s in core.allsymbs() if not s.is_real]
    out['assumptions'] = tuple(sorted(bad))
    return out


def differ(a, b, but=()):
    for k in list(a) + [k for k in b if k not in a]:
        if k not in but and a.get(k) != b.get(k):
            return '%s: %s != %s' % (k, a.get(k), b.get(k))
    return None


# ------------------------------------------------------------ modifications

def _m(f):
    return f


def mod_append(core, name, symb):
    getattr(core, name).append(sym(symb))


def mod_M(core):
    if core.M.shape[0]:
        core.M[0, 0] = core.M[0, 0] + 17
    else:
        core.M = sympy.SparseMatrix([[1]])


def mod_setJ(core):
    n = len(core.x)
    if n:
        core.set_Rxx(sympy.eye(n)*19)
    else:
        core.add_storages(sym('new'), sym('new')**2)


def mod_conn(core):
    if core.connectors:
        core.connectors[0]['alpha'] = sympy.Integer(23)
    else:
        core.connectors.append({'u': [], 'y': [], 'alpha': 1})


def mod_conn_symbols(core):
    if core.connectors:
        core.connectors[0]['y'][0] = sym('other')
        core.connectors[0]['u'].reverse()
    else:
        core.connectors.append({'u': [sym('v')], 'y': [], 'alpha': 1})


def mod_add_connector(core):
    while len(core.y) < 2:
        core.add_ports(sym('nu%i' % len(core.y)), sym('ny%i' % len(core.y)))
        core.init_M()
    core.add_connector((0, 1), alpha=sympy.Integer(29))


def mod_z(core):
    if core.z:
        core.z[0] = core.z[0] + 1
    else:
        core.add_dissipations(sym('nw'), sym('nw'))


def mod_connect(core):
    if core.connectors:
        core.connect()
    else:
        core.H = core.H + 31


def mod_setexpr(core):
    core.setexpr('extra', sym('xa')*sym('C') + 1)


def mod_setsymb(core):
    core.setsymb('more', [sym('ma'), sym('mb')])


def mod_move(core):
    if len(core.x) > 1:
        core.move_storage(0, len(core.x) - 1)
    elif len(core.w) > 1:
        core.move_dissipative(0, 1)
    elif len(core.y) > 1:
        core.move_port(0, 1)
    else:
        core.label = core.label + 'm'


MODS = collections.OrderedDict([
    ('storages', lambda c: c.add_storages(sym('nx'), sym('nx')**2)),
    ('dissipations', lambda c: c.add_dissipations([sym('nv')],
                                                  [3*sym('nv')])),
    ('ports', lambda c: c.add_ports(sym('nu'), sym('ny'))),
    ('parameters', lambda c: c.add_parameters([sym('np'), sym('C')])),
    ('observer', lambda c: c.add_observer({sym('no'): sym('xa')})),
    ('observer value', lambda c: c.observers.update({sym('ob'): Integer(3)})),
    ('subs', lambda c: c.subs.update({sym('C'): 99., sym('N'): 1})),
    ('subs clear', lambda c: c.subs.clear()),
    ('force', lambda c: c.force_wnl.append(sym('wb'))),
    ('M entry', mod_M), ('M block', mod_setJ), ('init_M', lambda c: c.init_M()),
    ('z entry', mod_z),
    ('H', lambda c: setattr(c, 'H', c.H*2 + 1)),
    ('connector gain', mod_conn), ('connector symbols', mod_conn_symbols),
    ('add_connector', mod_add_connector), ('connect', mod_connect),
    ('append x', lambda c: mod_append(c, 'x', 'ax')),
    ('append w', lambda c: (mod_append(c, 'w', 'aw'), c.z.append(Integer(0)))),
    ('append u', lambda c: (mod_append(c, 'u', 'au'), mod_append(c, 'y', 'ay'))),
    ('append cu', lambda c: (mod_append(c, 'cu', 'acu'),
                             mod_append(c, 'cy', 'acy'))),
    ('append p', lambda c: mod_append(c, 'p', 'ap')),
    ('split', lambda c: c.linear_nonlinear()),
    ('reduce', lambda c: c.reduce_z()),
    ('move', mod_move),
    ('substitute', lambda c: c.substitute(subs={sym('C'): Rational(7, 3),
                                                sym('alpha'): Integer(37)})),
    ('substitute all', lambda c: c.substitute(selfall=True)),
    ('simplify', lambda c: c.simplify()),
    ('subsinverse', lambda c: c.subsinverse()),
    ('label', lambda c: setattr(c, 'label', 'renamed')),
    ('dxH', lambda c: setattr(c, '_dxH', [Integer(5) for _ in c.x])),
    ('setexpr', mod_setexpr), ('setsymb', mod_setsymb),
])


# -------------------------------------------------------------- derivations

def d_copy(core, tag):
    return copy.copy(core), ()


def d_copycopy(core, tag):
    return copy.copy(copy.copy(core)), ()


def d_dunder(core, tag):
    return core.__copy__(), ()


def d_file(core, tag):
    core.save(folder=os.getcwd())
    new = Core(label=core.label)
    new.load(folder=os.getcwd())
    return new, ()


def d_file_label(core, tag):
    name = 'saved_%s' % tag
    core.save(folder=os.getcwd(), label=name)
    new = Core(label=name)
    new.load()
    return new, ('label',)


def d_file_used(core, tag):
    """load over a core that already holds something else"""
    core.save(folder=os.getcwd(), label='used_%s' % tag)
    new = cores.build(SPECS['plain'])
    new.add_observer({sym('old'): Integer(1)})
    new.subs[sym('old_par')] = 3
    new.force_wnl.append(sym('wc'))
    new.linear_nonlinear()
    new.load(folder=os.getcwd(), label='used_%s' % tag)
    return new, ('label',)


DERIVE = collections.OrderedDict([
    ('copy', d_copy), ('copy of copy', d_copycopy), ('__copy__', d_dunder),
    ('file', d_file), ('file with label', d_file_label),
    ('file in used core', d_file_used)])


def prepared(name, prep):
    core = cores.build(SPECS[name])
    if prep == 'split':
        core.linear_nonlinear()
        core.monovar_multivar()
    elif prep == 'dxH':
        core._dxH = list(core.dxH())
    elif prep == 'extra':
        core.setexpr('extra0', sym('xa') + 1)
        core.setsymb('more0', [sym('m0')])
    return core


# -------------------------------------------------------------------- sums

def check_sum(c1, c2, s, r1, r2):
    """the sum against the composition of the two readings"""
    for n in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'z'):
        # a parameter can be shared
        want = r1[n] + tuple(e for e in r2[n] if n != 'p' or e not in r1[n])
        if tuple(str(e) for e in getattr(s, n)) != want:
            return '%s is %s, expected %s' % (n, getattr(s, n), want)
    if sympy.expand(s.H - c1.H - c2.H) != 0:
        return 'H is %s' % s.H
    t1, t2, t = cores.table(c1), cores.table(c2), cores.table(s)
    for k, v in t.items():
        want = t1.get(k, t2.get(k, 0))
        if sympy.sympify(v - want) != 0:
            return 'entry %s is %s, expected %s' % (k, v, want)
    want = dict(r1['subs'])
    want.update(dict(r2['subs']))
    if dict((str(k), str(v)) for k, v in s.subs.items()) != want:
        return 'subs are %s' % s.subs
    want = collections.OrderedDict(r1['observers'])
    want.update(collections.OrderedDict(r2['observers']))
    if [(str(k), str(v)) for k, v in s.observers.items()] != list(want.items()):
        return 'observers are %s' % s.observers
    got = reading(s)
    if got['connectors'] != r1['connectors'] + r2['connectors']:
        return 'connectors are %s' % (got['connectors'],)
    if got['force_wnl'] != tuple(sorted(r1['force_wnl'] + r2['force_wnl'])):
        return 'force_wnl is %s' % (got['force_wnl'],)
    if got['dxH'] != r1['dxH'] + r2['dxH']:
        return 'gradient is %s' % (got['dxH'],)
    return None


def uninitialised(name, prep):
    """a core whose structure was never initialised reads as zero structure"""
    core = prepared(name, prep)
    return core


# ------------------------------------------------------------------- items

def cases(tier):
    items = []
    for name in SPECS:
        for prep in ('none', 'split', 'dxH', 'extra'):
            for d in DERIVE:
                items.append({'kind': 'one', 'core': name, 'prep': prep,
                              'derive': d})
    seconds = ['copy', 'file in used core']
    for name in SPECS:
        if tier == 'quick' and name != 'full':
            continue
        for d in (['copy', 'file'] if tier == 'quick' else list(DERIVE)):
            for m in MODS:
                items.append({'kind': 'two', 'core': name, 'derive': d,
                              'mod': m, 'second': seconds if tier == 'quick'
                              else list(DERIVE)})
    for a in SPECS:
        for b in SPECS:
            for prep in ('none', 'split', 'copied'):
                items.append({'kind': 'sum', 'a': a, 'b': b, 'prep': prep})
    return items


def step(res, objs, source, d, m, side, hist, tag):
    """
    objs: list of [core, reading]; derive from objs[source], modify one side;
    returns False on a violation
    """
    core, before = objs[source]
    new, but = DERIVE[d](core, tag)
    res.transitions += 1
    err = differ(reading(core), before)
    if err:
        res.fail('derivation changes source: %s' % d, err, history=hist)
        return False
    got = reading(new)
    err = differ(got, before, but)
    if err:
        res.fail('unfaithful: %s' % d, '%s (history %s)' % (err, hist),
                 history=hist)
        return False
    objs.append([new, got])
    return modify(res, objs, source if side == 'source' else len(objs) - 1, m,
                  hist)


def modify(res, objs, which, m, hist):
    MODS[m](objs[which][0])
    res.transitions += 1
    objs[which][1] = reading(objs[which][0])
    for k, (c, r) in enumerate(objs):
        if k != which:
            err = differ(reading(c), r)
            if err:
                res.fail('not independent: %s' % m, '%s (history %s)'
                         % (err, hist), history=hist)
                return False
    res.states += 1
    return True


def run_case(item):
    res = Result()
    with scratch_dir():
        if item['kind'] == 'one':
            for m in MODS:
                for side in ('source', 'result'):
                    core = prepared(item['core'], item['prep'])
                    objs = [[core, reading(core)]]
                    hist = [item['derive'], m, side]
                    if not applicable(core, m):
                        continue
                    if not step(res, objs, 0, item['derive'], m, side, hist,
                                '0'):
                        return res
                    res.traces += 1
                    res.seen(sorted(map(str, objs[-1][1].items())))
                    res.sample = hist
        elif item['kind'] == 'two':
            for side in ('source', 'result'):
                for d2 in item['second']:
                    for m2 in MODS:
                        core = prepared(item['core'], 'none')
                        objs = [[core, reading(core)]]
                        hist = [item['derive'], item['mod'], side, d2, m2]
                        if not step(res, objs, 0, item['derive'], item['mod'],
                                    side, hist, '0'):
                            return res
                        which = 0 if side == 'source' else 1
                        if not consistent(objs[which][0], m2):
                            continue
                        if not step(res, objs, which, d2, m2, 'result', hist,
                                    '1'):
                            return res
                        res.traces += 1
                        res.seen(sorted(map(str, objs[-1][1].items())))
                        res.sample = hist
        else:
            run_sum(item, res)
    return res


def applicable(core, m):
    return True


def consistent(core, m):
    """operations on the structure need it to match the declared equations"""
    ok = core.M.shape[0] == core.dims.tot() and len(core.z) == len(core.w)
    heavy = m in ('reduce', 'connect', 'split', 'M block', 'add_connector',
                  'move', 'M entry')
    listed = {str(s) for s in core.cy}
    for c in core.connectors:
        if not {str(s) for s in c['y']} <= listed:
            ok = False
    if len(listed) != 2*len(core.connectors):
        ok = False
    return ok or not heavy


def run_sum(item, res):
    for m in MODS:
        for which in (0, 1, 2):
            if item['prep'] == 'split':
                a, b = prepared(item['a'], 'split'), prepared(item['b'], 'split')
            elif item['prep'] == 'copied':
                a = copy.copy(cores.build(SPECS[item['a']]))
                b = copy.copy(cores.build(SPECS[item['b']]))
            else:
                a = cores.build(SPECS[item['a']])
                b = cores.build(SPECS[item['b']])
            if item['a'] == item['b']:
                rename(b)
            ra, rb = reading(a), reading(b)
            s = a + b
            res.transitions += 1
            hist = [item['a'], '+', item['b'], m, which]
            err = (differ(reading(a), ra) or differ(reading(b), rb))
            if err:
                res.fail('sum changes operand', '%s %s' % (err, hist))
                return
            err = check_sum(a, b, s, ra, rb)
            if err:
                res.fail('sum', '%s (history %s)' % (err, hist))
                return
            objs = [[a, ra], [b, rb], [s, reading(s)]]
            if not modify(res, objs, which, m, hist):
                return
            res.traces += 1
            if which == 2 and m == 'label':
                # sums of sums, in both groupings
                c = cores.build(dict(label='third', x=['xq'], H='xq**2', y=1, tag='q',
                                     w=['wq'], z=['wq']))
                t1, t2 = (a + b) + c, a + (b + c)
                for n in ('x', 'w', 'y', 'cy', 'z'):
                    if getattr(t1, n) != getattr(t2, n):
                        res.fail('sum of sums', n)
                        return
                k1, k2 = cores.table(t1), cores.table(t2)
                if any(k1[k] != k2[k] for k in k1):
                    res.fail('sum of sums', 'structure')
                    return
                err = check_sum(s, c, s + c, reading(s), reading(c))
                if err:
                    res.fail('sum of sums', err)
                    return
            res.seen(sorted(map(str, objs[2][1].items())))
            res.sample = hist


def rename(core):
    """give fresh names to every variable, so that labels stay unique"""
    subs = {s: sym('r' + str(s)) for n in ('x', 'w', 'u', 'y', 'cu', 'cy')
            for s in getattr(core, n)}
    core.H = core.H.xreplace(subs)
    core.z = [z.xreplace(subs) for z in core.z]
    core.M = core.M.xreplace(subs)
    core.observers = collections.OrderedDict(
        (sym('r' + str(k)), sympy.sympify(v).xreplace(subs))
        for k, v in core.observers.items())
    core.force_wnl = [subs[s] for s in core.force_wnl]
    for c in core.connectors:
        c['u'] = [subs[s] for s in c['u']]
        c['y'] = [subs[s] for s in c['y']]
    for n in ('x', 'w', 'u', 'y', 'cu', 'cy'):
        setattr(core, n, [subs[s] for s in getattr(core, n)])

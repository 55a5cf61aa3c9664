# -*- coding: utf-8 -*-
"""
C16 - synthesised signals, sound files and signal tools keep the samples.

Every combination of kind of signal and settings is synthesised and each sample
is compared with the value, at its time, of the documented signal.  Every short
sequence of sample values, and every quantisation level, goes through a sound
file.  Data of simulations are exported and read back.  The filter and the
transfer function are compared with their definition on every combination of
short signals.
"""
from __future__ import absolute_import, division, print_function

import itertools
import math
import os

import numpy

from mc import cores
from mc.lib import Result, describe, quiet, scratch_dir

PROPERTY = 'C16'
BOUNDS = {
    'quick': 'synthesis: 7 kinds x 2 rates x 3 repetitions x 2 silences before '
             'x 2 after x 3 duty ratios x 3 attacks x 3 decays x ramp x 2 '
             'offsets x second tone / 4 sweeps; files: every sequence of up to '
             '4 samples among 7, all 65535 levels, 5 containers, 4 scalings, '
             '3 fades, 5x5 pairs of rates x 4 lengths; every signal of a '
             'simulation; filter: 4 cutoffs x 3 widths x lengths 1..7 and long',
    'thorough': 'also 4 repetitions, 4 duty ratios, sequences of 5 samples, '
                '8x8 pairs of rates x 8 lengths'}
RULE = ('a state is a synthesised or exported sequence; each of its samples is '
        'one evaluation against the defining formula')
ASSUMPTIONS = ['durations are whole numbers of sample periods',
               'sample values written to a file are within -1 and 1 after the '
               'requested scaling']

KINDS = ['zero', 'const', 'sin', 'cos', 'noise', 'step', 'sweep']
LEVELS = [-1., -0.5, -1/32767., 0., 2e-5, 0.25, 1.]


def cases(tier):
    deep = tier != 'quick'
    items = []
    cycles = [1, 2, 3] + ([4] if deep else [])
    ratios = [1., 0.5, 0.25] + ([0.75] if deep else [])
    for which in KINDS:
        for n in cycles:
            for r in ratios:
                items.append({'kind': 'synthesis', 'which': which,
                              'ncycles': n, 'cycle_ratio': r})
    depth = 5 if deep else 4
    for first in LEVELS:
        items.append({'kind': 'file', 'first': first, 'depth': depth})
    items.append({'kind': 'levels'})
    rates = [8000, 11025, 22050, 44100, 48000]
    lengths = [40, 147, 441, 1001]
    if deep:
        rates += [1000, 96000, 16000]
        lengths += [320, 882, 49, 2205]
    for a in rates:
        items.append({'kind': 'rates', 'rate': a, 'rates': rates,
                      'lengths': lengths})
    for lang in range(2):
        items.append({'kind': 'simulation', 'config': lang})
    for fc in (0.05, 0.1, 0.2, 0.4):
        items.append({'kind': 'filter', 'fc': fc})
    items.append({'kind': 'transfer'})
    return items


def run_case(item):
    res = Result()
    with scratch_dir():
        globals()['case_' + item['kind']](item, res)
    return res


# --------------------------------------------------------------------------

def chirp_phase(t, T, f0, f1, method):
    if method == 'linear':
        return 2*math.pi*(f0*t + (f1 - f0)*t*t/(2*T))
    if method == 'quadratic':
        return 2*math.pi*(f0*t + (f1 - f0)*t**3/(3*T**2))
    if method == 'logarithmic':
        k = math.log(f1/f0)
        return 2*math.pi*f0*T/k*(math.exp(k*t/T) - 1)
    s = -f1*T/(f0 - f1)
    return 2*math.pi*(-s*f0)*math.log(abs(1 - t/s))


def sample(p, i):
    """value of the signal, without envelope, i samples after its start"""
    t = i/float(p['fs'])
    w = p['which']
    if w in ('const', 'step'):
        return p['A']
    if w == 'sin':
        return p['A']*math.sin(2*math.pi*p['f0']*t) + \
            p['A1']*math.sin(2*math.pi*p['f1']*t)
    if w == 'cos':
        return p['A']*math.cos(2*math.pi*p['f0']*t)
    if w == 'sweep':
        n = int(p['nsig']*p['cycle_ratio'])
        T = (n - 1)/float(p['fs'])
        return p['A']*math.cos(
            chirp_phase(t, T, p['f0'], p['f1'], p['method']) +
            p['phi']*math.pi/180)
    return 0.


def expected(p):
    """list of (value, bound of the random part)"""
    nsig = p['nsig']
    non = int(nsig*p['cycle_ratio'])
    na, nd = int(p['attack_ratio']*non), int(p['decay_ratio']*non)
    back = p['bkgrd_noise']
    out = [(0., back)]*p['ndeb']
    for c in range(p['ncycles']):
        for i in range(nsig):
            if i >= non:
                out.append((p['offset'], back))
                continue
            g = 1.
            if na:
                g *= min(1., i/float(na))
            if nd:
                g *= min(1., (non - i)/float(nd))
            if p['ramp_on']:
                g *= (i + c*nsig)/float(p['ncycles']*nsig - 1)
            out.append((g*sample(p, i) + p['offset'], back +
                        (abs(g*p['A']) if p['which'] == 'noise' else 0.)))
    return out + [(0., back)]*p['nend']


def case_synthesis(item, res):
    with quiet():
        from pyphs import signalgenerator
    settings = [('fs', [1000, 48000]), ('ndeb', [0, 3]), ('nend', [0, 2]),
                ('attack_ratio', [0., 0.25, 1.]),
                ('decay_ratio', [0., 0.25, 1.]), ('ramp_on', [False, True]),
                ('offset', [0., -0.75])]
    which = item['which']
    if which == 'sin':
        tones = [dict(A1=0., f1=100.), dict(A1=0.5, f1=300.)]
    elif which == 'sweep':
        tones = [dict(method=m, phi=phi, f0=20., f1=200.)
                 for m, phi in (('linear', -90), ('quadratic', -90),
                                ('logarithmic', 0), ('hyperbolic', 30))]
    else:
        tones = [{}]
    names = [k for k, _ in settings]
    for values in itertools.product(*[v for _, v in settings]):
        for tone in tones:
            p = dict(A=1.5, A1=0., f0=25., f1=100., bkgrd_noise=0., nsig=24,
                     method='linear', phi=-90)
            p.update(item)
            p.pop('kind')
            p.update(zip(names, values))
            p.update(tone)
            if p['ndeb'] and p['nend']:
                p['bkgrd_noise'] = 0.125
            fs = p['fs']
            kw = {k: v for k, v in p.items()
                  if k not in ('nsig', 'ndeb', 'nend')}
            # half a period of margin: whole numbers of samples
            kw.update(tsig=(p['nsig'] + 0.5)/fs, tdeb=(p['ndeb'] + 0.5)/fs,
                      tend=(p['nend'] + 0.5)/fs)
            if p['bkgrd_noise'] == 0.:
                for k in ('offset', 'ramp_on', 'attack_ratio', 'decay_ratio',
                          'bkgrd_noise'):
                    if not kw[k]:
                        kw.pop(k)         # the default value
            res.transitions += 1
            try:
                with quiet():
                    got = list(signalgenerator(**kw))
            except Exception as e:
                res.fail('synthesis:error', '%s: %s' % (kw, describe(e)))
                return
            exp = expected(p)
            res.states += 1
            res.traces += 1
            if len(got) != len(exp):
                res.fail('synthesis:length', '%i samples instead of %i for %s'
                         % (len(got), len(exp), kw))
                return
            for i, (a, (b, r)) in enumerate(zip(got, exp)):
                res.evaluations += 1
                if not abs(a - b) <= r + 1e-9:
                    res.fail('synthesis:value',
                             'sample %i is %.12g instead of %.12g (random part '
                             '%g) for %s' % (i, a, b, r, kw))
                    return
            big = [(a - b)/r for a, (b, r) in zip(got, exp) if r > 1e-3]
            if len(big) > 20:
                res.evaluations += 1
                if max(big) - min(big) < 0.5:
                    res.fail('synthesis:random', 'the random part of %s is '
                             'within %g and %g of its amplitude'
                             % (kw, min(big), max(big)))
                    return
            res.seen('signal', (len(got), round(sum(map(abs, got)), 6)))


# --------------------------------------------------------------------------

QUANTUM = 1.001/32767


def containers(values, k):
    """the kinds of signals that can be written"""
    return [list(values), numpy.array(values), (v for v in list(values)),
            [numpy.float64(v) for v in values],
            numpy.array([0.] + list(values))[1:]][k % 5]


def check_file(res, sig, values, fs, path, what, quantum=QUANTUM, **kw):
    """write, read and compare: values are expected"""
    with quiet():
        from pyphs.misc.signals.waves import wavread, wavwrite
    res.transitions += 2
    try:
        with quiet():
            wavwrite(sig, fs, path, **kw)
            name = path if path.endswith('.wav') else path + '.wav'
            rate, got = wavread(name)
    except Exception as e:
        res.fail('file:error', '%s: %s' % (what, describe(e)))
        return False
    os.remove(name)
    res.states += 1
    res.evaluations += 2
    want = kw.get('fs_out') or fs
    if rate != want:
        res.fail('file:rate', 'rate %s instead of %s: %s' % (rate, want, what))
        return False
    got = list(got)
    if len(got) != len(values):
        res.fail('file:length', '%i samples instead of %i: %s'
                 % (len(got), len(values), what))
        return False
    for i, (a, b) in enumerate(zip(got, values)):
        res.evaluations += 1
        if not abs(a - b) <= quantum:
            res.fail('file:value', 'sample %i is %.9g instead of %.9g: %s'
                     % (i, a, b, what))
            return False
    return True


def case_file(item, res):
    k = 0
    for n in range(item['depth']):
        for rest in itertools.product(LEVELS, repeat=n):
            k += 1
            res.traces += 1
            values = [item['first']] + list(rest)
            mode = ('none', 'peak', 'scale', 'off')[k % 4]
            top = max(map(abs, values))
            kw, scale = {}, 1.
            if mode == 'peak':
                kw, scale = dict(normalize=True), top or 1.
            elif mode == 'scale':
                kw, scale = dict(normalize=2.), 2.
            elif mode == 'off':
                kw = dict(normalize=False)
            # the peak of the louder signals is brought back by the scaling
            gain = 3. if mode == 'peak' else 2. if mode == 'scale' else 1.
            loud = [gain*v for v in values]
            if mode == 'peak':
                scale *= gain
            # the fade is applied before
            fade = (0., 1./8000, 2./8000)[k // 4 % 3]
            nf = int(round(fade*8000))
            faded = list(loud)
            if nf and len(values) >= 2*nf:
                faded = [v*min(1., i/float(nf),
                               (len(values) - 1 - i)/float(nf))
                         for i, v in enumerate(loud)]
                if mode == 'peak':
                    scale = max(map(abs, faded)) or 1.
            if not check_file(res, containers(loud, k), [v/scale for v in faded],
                              8000, 'sound' + ('.wav' if k % 2 else ''),
                              '%s written with %s, fades %g'
                              % (loud, kw, fade), timefades=fade, **kw):
                return
            res.seen('file', (tuple(values), mode))


def case_levels(item, res):
    """every level of the file is kept, in order"""
    values = [k/32767. for k in range(-32767, 32768)]
    res.traces += 1
    check_file(res, values, values, 44100, 'levels', 'every level')
    res.seen('levels', 'values')
    res.traces += 1
    back = [v + 0.4/32767 for v in values[::-1] if v + 0.4/32767 <= 1]
    check_file(res, numpy.array(back), back, 48000, 'levels.wav',
               'values between the levels')
    res.seen('levels', 'between')


def case_rates(item, res):
    fs = item['rate']
    for out in item['rates']:
        for n in item['lengths']:
            res.traces += 1
            m = n if out == fs else n*out//fs
            check_file(res, [0.5]*n, [0.5]*m, fs, 'c',
                       'constant, %i samples from %i to %i Hz' % (n, fs, out),
                       fs_out=out)
            res.seen('rates', (out, n))
            if n*out % fs or n < 40:
                continue
            # periodic signals within both bands
            for periods in (1, 3):
                def tone(k):
                    return [0.8*math.sin(2*math.pi*periods*i/k + 0.3)
                            for i in range(k)]
                check_file(res, tone(n), tone(m), fs, 'p',
                           '%i periods, %i samples from %i to %i Hz'
                           % (periods, n, fs, out), fs_out=out)
            if res.violations:
                return


# --------------------------------------------------------------------------

def case_simulation(item, res):
    """the signals of a simulation are exported as they are"""
    from mc import steps
    spec = steps.specs()['mixed']
    core = cores.build(spec)
    fs = (1000., 8000.)[item['config']]
    config = dict(pbar=False, timer=False, path=os.getcwd(), fs=fs,
                  split=bool(item['config']))
    with quiet():
        sim = core.to_simulation(config=config, inits={
            'x': [0.1*(i + 1) for i in range(len(core.x))]})
    nt = 24
    u = [[0.3*math.cos(0.9*n + i) for i in range(len(core.u))]
         for n in range(nt)]
    p = [[0.1]*len(core.p)]*nt
    with quiet():
        sim.init(nt=nt, u=u, p=p if len(core.p) else None)
        sim.process()
    d = sim.data
    d.h5open()
    stored = {k: numpy.array(d[k]) for k in ('u', 'x', 'dx', 'dxH', 'w', 'z',
                                             'y')}
    d.h5close()
    for k, a in sorted(stored.items()):
        for i in range(a.shape[1]):
            top = max(abs(a[:, i])) or 1.
            for gain, norm in ((1., True), (0.25/top, False), (3., True)):
                res.traces += 1
                res.transitions += 1
                with quiet():
                    from pyphs.misc.signals.waves import wavread
                try:
                    with quiet():
                        d.wavwrite(k, i, gain=gain, normalize=norm,
                                   path=None if norm else 'other')
                    name = 'other.wav' if not norm else '%s%i.wav' % (k, i)
                    with quiet():
                        rate, got = wavread(name)
                except Exception as e:
                    res.fail('export:error', '%s of %s: %s'
                             % (i, k, describe(e)))
                    return
                os.remove(name)
                want = [gain*v/(gain*top if norm else 1.) for v in a[:, i]]
                res.states += 1
                res.evaluations += len(want) + 1
                res.seen(k, tuple(round(v, 6) for v in want))
                if rate != fs or len(got) != len(want) or \
                        max(abs(x - y) for x, y in zip(got, want)) > QUANTUM:
                    res.fail('export:%s' % k, '%s[%i] with gain %g, normalize '
                             '%s is read as %s at %s Hz instead of %s at %s'
                             % (k, i, gain, norm, list(got), rate, want, fs))
                    return


# --------------------------------------------------------------------------

def case_filter(item, res):
    with quiet():
        from pyphs.misc.signals.processing import lowpass
    fc = item['fc']
    for tbw in (0.05, 0.25, 0.5):
        # the definition: windowed sinc with a unit sum
        b = tbw*fc
        n = int(math.ceil(4/b))
        n += 1 - n % 2
        h = []
        for k in range(n):
            x = 2*(fc - b)*(k - (n - 1)/2.)
            v = 1. if x == 0 else math.sin(math.pi*x)/(math.pi*x)
            h.append(v*(0.42 - 0.5*math.cos(2*math.pi*k/(n - 1)) +
                        0.08*math.cos(4*math.pi*k/(n - 1))))
        tot = sum(h)
        h = [v/tot for v in h]

        def define(s):
            c = (n - 1)//2
            return [sum(s[j]*h[i - j + c] for j in range(len(s))
                        if 0 <= i - j + c < n) for i in range(len(s))]
        for length in list(range(1, 8)) + [n - 1, n, n + 1, 2*n]:
            if length <= 7:
                signals = [[1. if i == j else 0. for i in range(length)]
                           for j in range(length)]
            else:
                signals = [[1. if i == j else 0. for i in range(length)]
                           for j in (0, 1, length//2, length - 1)]
                if length <= 400:
                    signals += [[1.]*length, [(-1.)**i for i in range(length)]]
            for q, s in enumerate(signals):
                sig = containers(s, q + length)
                res.traces += 1
                res.transitions += 1
                try:
                    with quiet():
                        got = list(lowpass(sig, fc, tbw))
                except Exception as e:
                    res.fail('filter:error', '%s of %i samples, fc=%g, tbw=%g:'
                             ' %s' % (type(sig).__name__, length, fc, tbw,
                                      describe(e)))
                    return
                res.states += 1
                res.evaluations += length + 1
                if len(got) != length:
                    res.fail('filter:length', '%i samples instead of %i, '
                             'fc=%g, tbw=%g' % (len(got), length, fc, tbw))
                    return
                nz = [j for j in range(length) if s[j]]
                if len(nz) == 1:
                    c = (n - 1)//2
                    want = [h[i - nz[0] + c] if 0 <= i - nz[0] + c < n else 0.
                            for i in range(length)]
                else:
                    want = define(s)
                e = max(abs(x - y) for x, y in zip(got, want))
                res.seen('filter', (length, round(sum(got), 6)))
                if not e < 1e-9:
                    res.fail('filter:value', 'error %g for %s, fc=%g, tbw=%g'
                             % (e, s[:10], fc, tbw))
                    return


def case_transfer(item, res):
    with quiet():
        from pyphs.misc.signals.analysis import transferFunction
    fs = 100.
    rich = [math.sin(0.7*i*i) + 0.3*math.cos(i) for i in range(256)]
    for gain, nfft, limits, overlap, filt in itertools.product(
            (0.5, -2., 1.), (32, 64), (None, (0., 50.), (10., 30.), (12.5, 60.),
                                       (0., 3.), (3., 49.)),
            (None, 0, 8), (None, 0.4)):
        res.traces += 1
        res.transitions += 1
        try:
            with quiet():
                f, tf = transferFunction(
                    numpy.array(rich), numpy.array([gain*v for v in rich]), fs,
                    nfft=nfft, filtering=filt, limits=limits, noverlap=overlap)
        except Exception as e:
            res.fail('transfer:error', '%s %s %s: %s'
                     % (gain, nfft, limits, describe(e)))
            return
        lo, hi = limits or (0., fs/2)
        want = [k*fs/nfft for k in range(nfft//2 + 1)
                if lo - 1e-9 <= k*fs/nfft <= hi + 1e-9]
        res.states += 1
        res.evaluations += len(want) + 1
        res.seen('transfer', (gain, nfft, limits))
        if len(f) != len(want) or max(abs(a - b)
                                      for a, b in zip(f, want)) > 1e-9:
            res.fail('transfer:frequencies', 'limits %s with %i points: %s '
                     'instead of %s' % (limits, nfft, list(f), want))
            return
        if len(tf) != len(f) or max(abs(v - abs(gain)) for v in tf) > 1e-6:
            res.fail('transfer:gain', 'gain %g is found as %s'
                     % (gain, list(tf)))
            return

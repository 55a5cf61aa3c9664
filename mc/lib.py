# -*- coding: utf-8 -*-
"""
Shared machinery of the checks: environment, worker pool, violation records,
replay artefacts, known findings and evidence files.

A check module (mc/cNN.py) provides

    PROPERTY   id of the property
    cases(tier)      iterable of JSON-able *work items*, simplest first; the
                     list is finite and fully determined by the tier
    run_case(item)   explores the item completely on the real code and returns
                     a Result

The union of the items is the bounded space; the runner visits every one of
them (never a sample) and reports what it visited.
"""
from __future__ import absolute_import, division, print_function

import contextlib
import hashlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
NPROC = int(os.environ.get('VERIF_NPROC', '8'))
# generous: the slowest item takes a small fraction of this
CASE_TIMEOUT = int(os.environ.get('VERIF_CASE_TIMEOUT', '600'))


class Result(object):
    """What exploring one work item covered and found."""

    def __init__(self):
        self.states = 0          # distinct states of the explored system
        self.transitions = 0     # calls into the real code that were checked
        self.traces = 0          # complete histories replayed on the real code
        self.evaluations = 0
        self.outcomes = set()    # digests of the distinct observed outcomes
        self.violations = []     # (key, message, replay)
        self.sample = None

    def fail(self, key, message, **replay):
        self.violations.append((key, str(message)[:4000], replay))

    def seen(self, *what):
        h = hashlib.md5(repr(what).encode()).hexdigest()[:12]
        self.outcomes.add(h)
        return h

    def pack(self):
        return dict(states=self.states, transitions=self.transitions,
                    traces=self.traces, evaluations=self.evaluations,
                    outcomes=sorted(self.outcomes), violations=self.violations,
                    sample=self.sample)


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout('exploration of the item did not end within %i s'
                  % CASE_TIMEOUT)


@contextlib.contextmanager
def time_limit(seconds):
    """Raise Timeout in the block after `seconds` (nests in the item alarm)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    left = signal.alarm(int(seconds))
    t0 = time.time()
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.alarm(max(1, int(left - (time.time() - t0))))


@contextlib.contextmanager
def quiet():
    """Swallow what the library prints (it is verbose)."""
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        yield


@contextlib.contextmanager
def scratch_dir():
    """A private directory, removed afterwards; the cwd inside the block."""
    here = os.getcwd()
    path = tempfile.mkdtemp(prefix='verif_', dir=os.environ['VERIF_SCRATCH'])
    os.chdir(path)
    try:
        yield path
    finally:
        os.chdir(here)
        shutil.rmtree(path, ignore_errors=True)


def where(exc):
    """Last frame of the library in a traceback, for messages."""
    tb = traceback.extract_tb(exc.__traceback__)
    own = [f for f in tb if '/pyphs/' in f.filename] or tb
    f = own[-1] if own else None
    return '' if f is None else ' at %s:%s' % (os.path.basename(f.filename),
                                               f.lineno)


def describe(exc):
    return '%s: %s%s' % (type(exc).__name__, str(exc)[:300], where(exc))


# --------------------------------------------------------------------------

def read_known():
    """[(property, key, text)] of the findings that are listed, not fixed."""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known:'):
                    continue
                words = line[len('known:'):].split(None, 2)
                prop = words[0].split('=', 1)[1]
                key = words[1].split('=', 1)[1]
                out.append((prop, key, words[2] if len(words) > 2 else ''))
    return out


_MODULE = None


def _work(item):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    t0 = time.time()
    try:
        with quiet():
            res = _MODULE.run_case(item)
    except BaseException as e:           # noqa: the code under test may do anything
        if isinstance(e, KeyboardInterrupt):
            raise
        res = Result()
        kind = 'timeout' if isinstance(e, Timeout) else 'exception'
        res.fail('%s:%s' % (kind, type(e).__name__),
                 describe(e) + '\n' + traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
    out = res.pack()
    out['wall'] = time.time() - t0
    return out


def run(module, argv):
    global _MODULE
    _MODULE = module
    prop = module.PROPERTY
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    limit = None
    it = iter(argv)
    for a in it:
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = next(it)
        elif a == '--limit':
            limit = int(next(it))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()

    if replay:
        with open(replay) as f:
            items = [json.load(f)['item']]
    else:
        items = list(module.cases(tier))
        if limit:
            items = items[:limit]
    # the order of exploration is the only thing the seed decides
    order = list(range(len(items)))
    if seed > 1:
        import random
        random.Random(seed).shuffle(order)

    if hasattr(module, 'prepare'):
        with quiet():
            module.prepare(tier)

    packs = [None] * len(items)
    if NPROC > 1 and len(items) > 1:
        import multiprocessing as mp
        ctx = mp.get_context('fork')
        chunk = max(1, min(64, len(items) // (NPROC * 8)))
        keep = getattr(module, 'MAXTASKS', None)
        if keep:
            chunk = 1
        with ctx.Pool(NPROC, maxtasksperchild=keep) as pool:
            results = pool.imap(_work, [items[i] for i in order],
                                chunksize=chunk)
            for i, p in zip(order, results):
                packs[i] = p
    else:
        for i in order:
            packs[i] = _work(items[i])

    tot = dict(states=0, transitions=0, traces=0, evaluations=0)
    outcomes = set()
    violations = []
    for item, p in zip(items, packs):
        for k in tot:
            tot[k] += p[k]
        outcomes.update(p['outcomes'])
        for v in p['violations']:
            violations.append((item, v))

    known = [(k, t) for (q, k, t) in read_known() if q == prop]
    hit, fresh = {}, []
    for item, v in violations:
        full = v[0]
        match = [k for k, _ in known if k == full]
        if match:
            hit.setdefault(match[0], []).append((item, v))
        else:
            fresh.append((item, v))

    samples = []
    nsample = 3
    withs = [(i, p) for i, p in zip(items, packs) if p['sample'] is not None]
    if withs:
        for j in sorted(set([0, len(withs) // 2, len(withs) - 1]))[:nsample]:
            samples.append({'item': withs[j][0], 'trace': withs[j][1]['sample']})
    else:
        samples = [{'item': i} for i in items[:nsample]]

    coverage = {
        'states': tot['states'],
        'transitions': tot['transitions'],
        'traces_validated_against_impl': tot['traces'],
        'evaluations': tot['evaluations'],
        'distinct_outcomes': len(outcomes),
        'work_items': len(items),
        'known_findings_met': sum(len(h) for h in hit.values()),
        'exhaustive': limit is None and replay is None,
        'bounds': module.BOUNDS[tier] if hasattr(module, 'BOUNDS') else '',
        'rule': getattr(module, 'RULE', ''),
        'samples': samples,
    }
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'model_checking', 'coverage': coverage,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    if not replay and not limit:
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True, default=str)
        os.replace(path + '.tmp', path)

    print('%s tier=%s items=%i states=%i transitions=%i traces=%i '
          'evaluations=%i outcomes=%i wall=%.1fs'
          % (prop, tier, len(items), tot['states'], tot['transitions'],
             tot['traces'], tot['evaluations'], len(outcomes),
             time.time() - t0))
    if os.environ.get('VERIF_SLOW'):
        slow = sorted(zip([p['wall'] for p in packs], items),
                      key=lambda c: -c[0])[:10]
        for w, i in slow:
            print('   %.2fs %s' % (w, json.dumps(i, default=str)[:200]))
    for key, text in known:
        if key in hit:
            print('KNOWN-FINDING: property=%s %s (key %s, met %i times)'
                  % (prop, text, key, len(hit[key])))
    if fresh:
        os.makedirs(REPLAYS, exist_ok=True)
        shown = {}
        for item, (key, message, extra) in fresh:
            shown.setdefault(key, [0, item, message, extra])
            shown[key][0] += 1
        for n, key in enumerate(sorted(shown, key=lambda k: -shown[k][0])):
            count, item, message, extra = shown[key]
            name = '%s-%s.json' % (prop, hashlib.md5(
                (key + json.dumps(item, default=str)).encode()).hexdigest()[:10])
            path = os.path.join(REPLAYS, name)
            with open(path, 'w') as f:
                json.dump({'property': prop, 'key': key, 'item': item,
                           'message': message, 'detail': extra,
                           'how': 'bash /verif/check.sh %s --replay %s'
                                  % (prop, path)},
                          f, indent=1, default=str)
            if n < 12:
                print('violated (%i x) [%s]: %s\n    item: %s'
                      % (count, key, message[:700],
                         json.dumps(item, default=str)[:500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.stdout.flush()
        return 1
    print('%s: held on everything explored' % prop)
    return 0

"""Regenerates /verif/MANIFEST.json from the list of claimed checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'explicit enumeration of all small circuits on the real translator, compared with an exact tableau solution',
 'C02': 'explicit enumeration of all small mergeable circuits on the real translator, compared with an exact tableau solution',
 'C03': 'breadth-first explicit-state search over reorganisation sequences of the real core, against a reference keyed by symbols',
 'C04': 'exhaustive exploration of block-assignment sequences on the real core, against a table model',
 'C05': 'exhaustive exploration of derive/modify histories on real cores with full snapshots',
 'C06': 'exhaustive enumeration of connector declarations and feed-throughs on the real core, against exactly solved constraints',
 'C07': 'exhaustive exploration of substitution sequences over all small definition tables, against an independent evaluator',
 'C08': 'exhaustive exploration of input/state histories of the real simulation, power balance checked on every step',
 'C09': 'exhaustive exploration of cores x configurations x input histories, every step replayed by an independent solver',
 'C10': 'exhaustive exploration of run/window/read histories of the real data files, against a list model',
 'C11': 'exhaustive exploration of interleavings of operations on several simulations, against fresh runs',
 'C12': 'exhaustive enumeration of cores x configurations x input histories, generated C++ compared step by step with the Python run',
 'C13': 'breadth-first search over netlist edit histories and file round trips, against a list model',
 'C14': 'exhaustive enumeration of components x parameter forms x grid of operating points, against documented laws',
 'C15': 'exhaustive enumeration of cores x names x argument grids, against exact symbolic evaluation',
 'C16': 'exhaustive enumeration of signal settings and sample files, against a direct sample-by-sample model',
}
NOTE = {}
DEFAULT_NOTE = ('Bounded exhaustive: every element of the stated finite space is executed on the code of /repo; '
                'nothing is claimed outside the bounds written in the evidence file. Trusts the reference model of the check, sympy/numpy arithmetic and the interpreter.')
claimed = [p for p in sorted(TECH) if os.path.exists(os.path.join(HERE, 'mc', p.lower() + '.py'))]
na = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
for p in props:
    if p not in claimed and p not in [n['property'] for n in na]:
        na.append({'property': p, 'reason': 'no check built yet'})
m = {'version': 1,
     'setup_cmd': 'bash setup.sh',
     'checks': [{'property': p, 'quick_cmd': 'bash check.sh %s quick' % p,
                 'thorough_cmd': 'bash check.sh %s thorough' % p,
                 'technique': 'model checking: ' + TECH[p], 'level': 'model_checking',
                 'level_note': NOTE.get(p, DEFAULT_NOTE)} for p in claimed],
     'not_applicable': [n for n in na if n['property'] in props]}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(claimed)

#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
ENGINE_NOTE = ('Seeded random exploration of op histories (and table layouts, times, options) against an exact reference model, '
  'under ASan/UBSan with the allocator ledgered; says nothing beyond the histories generated. Trusts the model in engine/pbt.cpp.')
SERVER_NOTE = ('Seeded random exploration against the real server (all of src/ built with ASan/UBSan, libc calls interposed for the clock, '
  'faults and memory reading) over sockets, with a reference model per protocol; says nothing beyond the histories generated. Trusts the models in server/.')
CLAIM = {}
for c in range(1, 13):
    CLAIM['C%02d' % c] = dict(cmd='python3 checks/engine.py C%02d' % c, note=ENGINE_NOTE,
        technique='stateful model-based property testing with ddmin shrinking', level='exploration')
CLAIM['C08'].update(level='fault_enumeration', technique='model-based property testing with every allocation of each history failed in turn',
   note=ENGINE_NOTE + ' Per generated history every allocation position is failed.')
CLAIM['C11'].update(technique='model-based property testing through batches plus generated two-thread scenarios under TSan')
CLAIM['C12'].update(technique='random concurrent scenarios with a per-key linearizability oracle, TSan and ASan',
   note='Random schedules (perturbed at allocation, callback and contention points) of generated multi-threaded scenarios; not an exhaustive exploration of interleavings. Trusts the sanitizers and the linearizability checker in engine/conc.cpp.')
SERVER = os.path.join(HERE, 'server', 'claims.json')
if os.path.exists(SERVER):
    for k, v in json.load(open(SERVER)).items():
        CLAIM[k] = dict(dict(cmd='python3 checks/server.py ' + k, note=SERVER_NOTE, level='exploration',
                             technique='stateful model-based property testing over the wire'), **v)
NA = {}
checks, na = [], []
for i in ids:
    if i in CLAIM:
        c = CLAIM[i]
        checks.append({'property': i, 'quick_cmd': c['cmd'], 'thorough_cmd': c['cmd'], 'evidence_file': 'evidence/%s.json' % i,
                       'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'the check for this property is not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the engine harness includes src/pogocache.c and the server harness interposes libc calls at link time.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')

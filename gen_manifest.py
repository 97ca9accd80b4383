#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and info.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__)); info = json.load(open(H + '/info.json'))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {'C30': 'Pure functions of their input: no schedule, clock, I/O, allocation or shared state for a simulator to decide. Their use by concurrent readers, on streams and in records is covered by C12, C14, C18 and C23.',
 'C31': 'A pure function of a byte string and an option mask; nothing for a scheduler or fault injector to vary. Parsing of damaged and fragmented records (refusals, consumption, memory) is covered by C18.',
 'C32': 'Decided at compile time; there is no execution, schedule or fault to simulate.'}
note = 'Seeded search, a sample and not a proof: %s Judged against small reference models in every run; each violation is replayed twice in fresh processes before it is reported. Trusts the simulator, its models and the compilers. See DESIGN.md.'
what = {'C13': 'tasks are switched at single memory accesses in the instrumented builds, at call-outs in the AddressSanitizer builds.', 'C14': 'tasks are switched at single memory accesses in the instrumented builds, at call-outs in the AddressSanitizer builds.',
 'C07': 'contents of up to INT_MAX bytes live in sparse memory, of which only the ends are compared.', 'C15': 'against an independent AES-256-CBC written for this purpose.', 'C21': 'in the four build configurations of the default allocator.', 'C08': 'in builds with five different grow steps.'}
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': [],
 'notes': 'No hooks in /repo: the seams are the allocator, fetch and descriptor interfaces, symbol redirection on the compiled objects, and compiler instrumentation. Replay a violation with: python3 check.py --replay FILE'}
for p in props:
    i = p['id']
    if i in NA: m['not_applicable'].append({'property': i, 'reason': NA[i]}); continue
    m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i + ' quick', 'thorough_cmd': 'python3 check.py ' + i + ' thorough',
        'technique': 'deterministic simulation with fault injection: seeded search over histories, schedules and faults against a reference model', 'level': 'exploration',
        'level_note': note % what.get(i, 'histories, environments and faults are drawn from one seed per run.')})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from plan import PLAN
TECH = {
    'D01': 'AddressSanitizer + UBSan + memcheck on exact-size inputs, libFuzzer workload',
    'D02': 'online monitor of every allocation request during decoding',
    'D03': 'online oracle: acceptance compared with an independent scanner, enumerated and mutated inputs',
    'E15': 'AddressSanitizer + UBSan + memcheck while running accepted programs, libFuzzer workload',
    'E05': 'online oracle over real evaluations, UBSan stage',
    'E12': 'online oracle over real evaluations, ASan + UBSan stage',
    'E16': 'differential monitor: twin runner whose code stays, results re-read after each step; AddressSanitizer stage',
    'E17': 'differential monitor: each copy compared with a runner never copied after each step; ledger of allocations, AddressSanitizer stage',
    'E18': 'monitor of everything thrown: compared across runners, threads and surrounding memory, and read again later; AddressSanitizer stage',
    'M01': 'ledger of live memory judged along repetitions of the same work',
    'M02': 'monitor of the stack pages each call touches, compared across sizes and along histories',
    'R08': 'differential monitor: rows and errors call by call compared with the stages one by one on fresh runners; AddressSanitizer stage',
    'F01': 'fault injection at every allocation request, ledger of allocations, outcomes compared with fault-free runs',
    'N01': 'differential monitor: the same calls in worlds that differ in locale, errno, floating point flags and stale memory; process state compared',
    'R06': 'ledger of every allocation and row (exactly-once release monitor)',
    'S01': 'ThreadSanitizer and result monitor under multi-threaded stress with recorded interleavings',
    'T01': 'online oracle over equality, hashing and hash containers',
    'T02': 'online oracle over typed access and adaptors',
    'W01': 'counters of executed edges (coverage instrumentation), bytes requested and moved, compared across sizes and along histories',
    'T03': 'online oracle over the helpers, AddressSanitizer + UBSan stage',
}
NOTE = {
    'M02': 'Exact to a page of 4 KiB; allowed are 128 KiB for any call and 32 KiB more at 16 times the size.',
    'D01': 'Any out-of-bounds access, undefined behaviour, crash or endless loop in an executed decode is reported; inputs are sampled beyond two bytes.',
    'D02': 'Each executed decode is bounded exactly; trusts that memory is requested through operator new.',
    'D03': 'Exhaustive for inputs of up to two bytes and all first bytes in all positions; sampled beyond. Trusts the independent scanner.',
    'W01': 'The counts are exact and repeatable, no clock is involved; growth is judged between two sizes sixteen-fold apart, with 2.5 times proportional allowed. Work inside the C library is not counted, except bytes moved and requested.',
    'N01': 'Each call is made in the world as a process starts and in a changed one; the locales are those localedef makes here and facets of our own.',
    'S01': 'Races among executed accesses are reported whatever the schedule; wrong results only on schedules that occurred.',
}
checks = []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p not in PLAN:
        continue
    rel = p.startswith('R')
    checks.append({
        'property': p, 'quick_cmd': 'python3 tools/check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': TECH.get(p, 'online monitor: every ' + ('row in and out of the real pipeline' if rel else 'execution of the real code') + ' compared with an independent reference model'),
        'level': 'exploration',
        'level_note': NOTE.get(p, 'Holds on every execution observed (counts in the evidence); inputs are generated towards the boundaries, not exhausted. Trusts the reference model.')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/check.py --build-all', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks: the monitors observe the public interface, the allocator and the sanitizers. VERIF_SEED selects the cases, VERIF_TIER quick or thorough. python3 tools/check.py --replay <file> repeats a violation.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and sim/info.py."""
import json, os, sys
R = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(R, 'sim'))
import info
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl')) if l.strip()]
checks = []
for p in props:
    i = p['id']
    checks.append({
        'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation with fault injection: seeded search over schedules, team grants and faults',
        'level': info.LEVEL.get(i, 'exploration'),
        'level_note': 'Samples, not a proof: ' + info.RULES[i] + ' Trusts the simulated OpenMP runtime and allocator and gcc -O1 code with sequentially consistent accesses; lengths up to 2^24.'})
m = {'version': 1, 'setup_cmd': 'python3 sim/build.py -v', 'hooks': {'guard': 'OTFFT_SIMULATION', 'enable': 'compile src/otfft.cpp with -DOTFFT_SIMULATION to have the CPU described by otfft_sim_cpuid and otfft_sim_xgetbv (used by demonstrations); the shipped build never defines it, and the simulated image runs the real CPUID and XGETBV instructions under breakpoints',
     'source_commits': [info.HOOK_COMMIT]}, 'checks': checks, 'not_applicable': []}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)

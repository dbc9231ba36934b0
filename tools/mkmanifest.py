#!/usr/bin/env python3
"""Writes MANIFEST.json. BUILT lists the properties with a scenario; the rest are not claimed."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]

BUILT = "C01 C02 C03 C04 C05 C06 H01 H02 H03 H04 H05 K01 K02 R01 R02 R03 R04 S01 S02 S03 S04 E01 E02 E03 E04 E05 E06".split()

TECH = "deterministic simulation with fault injection: "
technique = {
    'S04': TECH + "seeded search over histories and thread interleavings of copying, overwriting, clearing, changing and reloading values, against a deep-cloned model of every object",
    'S': TECH + "seeded search over object shapes, read/write chunkings and stream faults in simulated storage, against the fault-free encoding",
    'K': TECH + "seeded search over worker schedules and CPU counts under a simulated scheduler, every key component judged by an independent decryption oracle and every simulated execution by the race detector's happens-before analysis",
    'C': TECH + "seeded search over thread interleavings at statement granularity, compared with sequential re-execution and an independent decryption oracle, every simulated execution also judged by the race detector's happens-before analysis",
    'H': TECH + "seeded search over operation histories, reused and aliased buffers and aborted operations, compared with fresh objects and an independent decryption oracle",
    'R': TECH + "seeded search over histories, interleavings and entropy-source failures, with a simulated entropy source and a global record of masks, noise and secrets",
    'E': TECH + "seeded search over whole simulated deployments (clients, servers, network, disks, crashes), judged against a plaintext reference model",
}
note = {
    'S': "Sampled shapes, chunkings and fault points on the real encoders and decoders; trusts the instrumenter, the simulated stream and deep structural equality.",
    'K': "Sampled schedules of the real generators at statement granularity (sequential consistency; torn read-modify-writes are split, other weak-memory effects are not modelled); small parameters.",
    'C': "Sampled schedules of the real objects at statement granularity (sequential consistency; torn read-modify-writes are split, other weak-memory effects are not modelled); small parameters; vector assembly runs as one step.",
    'H': "Sampled histories of the real objects on small parameters, assembly and portable builds; trusts the harness's copy of the decryption formula and deep comparison.",
    'R': "Sampled histories and failure points of the real samplers and encryptors over a simulated entropy source.",
    'E': "Sampled deployments: library code is real; network, disks, clocks, processes and scheduler are simulated; small parameters.",
}
notapp = {
    'N01': "Pure function of its arguments: no schedule, clock, I/O, randomness or history for a simulator to control; an input-space question for proof or numerical analysis.",
    'N02': "Pure function of its arguments; deciding it means comparing two implementations over inputs, not exploring schedules or faults. (Both builds are nevertheless used as simulated systems.)",
    'N03': "A statement about attack cost and failure probability of constants; nothing to schedule or fail.",
    'N04': "Pure functions of their arguments without any schedule, fault or history.",
    'N06': "Pure function from literal to parameters or panic; no schedule, fault or history.",
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in BUILT:
        checks.append({
            'property': i, 'quick_cmd': f'bin/check {i} -tier quick', 'thorough_cmd': f'bin/check {i} -tier thorough',
            'evidence_file': f'evidence/{i}.json', 'technique': technique.get(i, technique[i[0]]), 'level': 'exploration', 'level_note': note[i[0]]})
    else:
        na.append({'property': i, 'reason': notapp.get(i, 'Scenario not built yet.')})
m = {'version': 1,
     'setup_cmd': 'bin/setup',
     'hooks': {'guard': 'none in /repo', 'enable': "bin/check instruments a scratch copy of /repo's working tree (driver/instrument.go): preemption points, simulated scheduler, entropy, CPU count; the copy is deleted afterwards", 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'bin/check --replay FILE re-executes a stored violation. VERIF_SEED selects the seed. See DESIGN.md.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

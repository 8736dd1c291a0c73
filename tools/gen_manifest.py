#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
BROKER = ("Seeded search, not exhaustive: thousands of complete simulated executions of the real broker per quick run, each exactly "
          "repeatable from its seed and replay file. Trusted: the simulator (simulated TCP, clock, run queue), the independent codec, "
          "Noise peer and reference models in harness/src. Interleavings are explored at await points of a one-thread executor (plus injected "
          "preemptions before each poll of a tokio primitive), not inside synchronous code.")
CODEC = ("Seeded search, not exhaustive: tens of thousands of simulated byte streams per quick run against an independent codec and classifier "
         "written from the MQTT 5 specification (harness/src/codec.rs, strict.rs), which are trusted.")
API = ("Seeded search, not exhaustive: hundreds of thousands of call histories per quick run, judged after every call by a model written from "
       "MQTT 5 and the API's documentation and, for what is encoded, by the independent codec and classifier (harness/src/buildsim.rs, codec.rs, "
       "strict.rs), which are trusted. No schedule is involved.")
BENCH = ("Seeded search, not exhaustive: thousands of complete simulated runs of the benchmark client's real main function, from the command "
         "line to the printed report, against the real broker on a simulated network, clock and scheduler. Trusted: the simulator, the independent codec "
         "and the oracle that recomputes the report from the bytes on the wire (harness/src/bmsim.rs). The runtime is one-threaded.")
PROGRAM = BROKER.replace("the real broker per quick run", "the server program's real main function, and with it the broker, per quick run")
assert PROGRAM != BROKER
checks = []
for p in props:
    i = p['id']
    codec = i.startswith('C')
    checks.append({
        'property': i,
        'quick_cmd': f'bash check.sh {i} quick',
        'thorough_cmd': f'bash check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': ('deterministic simulation of a caller of the real packet API: seeded call histories with injected refusals, stateful reference model, independent decoder' if i == 'C03' else 'deterministic simulation of a byte stream between the real encoder and decoder, with fragmentation and corruption faults, seeded search'
                      if codec else
                      'deterministic simulation of the whole benchmark client and broker (scheduler, clock, network, entropy under a seed) with fault injection; report and wire history judged by an independent recomputation'
                      if i.startswith('D') else
                      'deterministic simulation of the whole server program (scheduler, clock, network, entropy under a seed) over simulated days with fault injection; reference-model oracles over the recorded history'
                      if i.startswith('S') else
                      'deterministic simulation of the whole broker (scheduler, clock, network, entropy under a seed) with fault injection; reference-model oracles over the recorded history'),
        'level': 'exploration',
        'level_note': PROGRAM if i.startswith('S') else BENCH if i.startswith('D') else API if i == 'C03' else CODEC if codec else BROKER,
    })
m = {
    'version': 1,
    'setup_cmd': 'bash build.sh',
    'checks': checks,
    'not_applicable': [],
    'notes': 'No hooks in /repo: the seams are the tokio and getrandom crates, replaced in the harness workspace by patched copies (vendor/). '
             'See DESIGN.md; replay a violation with: bash replay.sh <file>.',
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')

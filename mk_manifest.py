#!/usr/bin/env python3
# regenerates MANIFEST.json from properties.jsonl
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
NA = {
 'X21': "The field operations are pure functions of their operands: no scheduling, time, I/O, randomness or shared state for a fault or schedule to act on; simulation would only sample inputs. They run as real code inside every simulated run, over primes up to 4294967291, and errors show up in the claimed properties.",
 'X22': "Hashing and deterministic generation are pure functions of their inputs; nothing for a scheduler or fault injector to decide. (The digest of every simulated input stream is compared with an independent SHA-256 under I12, for arbitrary chunking of the stream.)",
 'X23': "Sequential, deterministic, free of I/O: a function of the sparsity pattern only. (The dm program, which uses it, is checked end to end under F20.)",
 'X24': "Sequential, deterministic, free of I/O: a function of the sparsity pattern only. (The dm program, which prints it, is checked end to end under F20.)",
 'X25': "Sequential, deterministic, free of I/O: pure functions of the matrix. (transpose, stack and vertical_swap are checked end to end under F20.)",
 'X26': "Sequential, deterministic, free of I/O: pure functions of their inputs; exercised as parts of the simulated pipelines (P03, S04-V08).",
}
NOTE = {
 'default': "Seeded search over schedules, random streams, memory contents, inputs and faults; a clean run is evidence on the executions explored, not a proof. Trusts the simulator's OpenMP runtime and the reference model (dense arithmetic modulo p, independent of the code under test); assumes sequentially consistent memory.",
}
TECH = {
 'I12': 'deterministic simulation of the input streams (chunking, buffering), seeded; reference reader as oracle',
 'I13': 'deterministic simulation with injected read errors, truncations and corruptions; reference reader as oracle',
 'I14': 'deterministic simulation of save/load histories over simulated streams; round-trip oracle',
 'D11': 'deterministic simulation with crashes, torn/lost writes, disk corruption and read errors between two simulated processes',
 'O15': 'deterministic simulation with injected write failures; completeness oracle on the simulated disk',
 'W29': 'deterministic simulation of chained programs with crashes, write failures and cut or failing streams between them; end-to-end reference model',
 'A16': 'deterministic simulation with injected allocation failures, seeded schedules; fail-stop-or-correct oracle',
 'M17': 'deterministic simulation with poisoned, always-moving simulated heap; every instrumented access checked',
 'L19': 'deterministic simulation with stalls, clock jumps and degenerate random streams; step bound and deadlock detection',
 'T18': 'deterministic simulation of concurrent callers, seeded schedules at memory-access granularity; reference model',
 'N27': 'deterministic simulation of repeated operations in one process, seeded schedules; conservation of the simulated heap as oracle',
 'H28': 'deterministic simulation of histories of operations in one process, address and thread reuse, seeded schedules; reference model',
 'F20': 'deterministic simulation of whole programs as processes; end-to-end reference model',
}
LEVELNOTE = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    checks.append({'property': i, 'quick_cmd': f'bash check.sh {i} quick', 'thorough_cmd': f'bash check.sh {i} thorough',
      'technique': TECH.get(i, 'deterministic simulation: seeded schedules of the OpenMP threads at memory-access granularity with fault injection, reference model as oracle'),
      'level': 'exploration', 'level_note': LEVELNOTE.get(i, NOTE['default'])})
m = {'version': 1, 'setup_cmd': 'bash build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the seams are made at link time (compiler instrumentation, symbol redirection of the object files). See DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')

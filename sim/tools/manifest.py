#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..')
T = 'deterministic simulation with fault injection: '
base = ('Seeded search, no proof: a clean run says that none of the executions tried violates the property. '
        'The real library runs on a simulated disk, clock, random source, map order and scheduler; yaml.v3, antlr and the ordered map are real and run without preemption inside. ')
tech = {
 'C01': ('seeded map orders, random numbers, clocks and process histories; model and answers compared', ''),
 'C02': ('seeded map orders and process histories; error texts compared byte for byte', ''),
 'C03': ('I/O faults at every operation of a load', 'Every I/O operation of the loads tried fails at least once (sampled when a load has very many).'),
 'C04': ('short reads at seeded split points', ''),
 'C05': ('close failures and I/O faults; ledger of file handles', ''),
 'C06': ('concurrent changes of the disk after each open; count of opens and object identity', ''),
 'C07': ('damaged disks and hostile contents under a step limit', 'The bound of work is a step limit far above anything a legitimate project of that size needs; one known finding (exponential expansion) is listed.'),
 'C08': ('hooks failing at sampled calls of every hook point reached', ''),
 'C09': ('seeded histories of registry operations against an executable reference, and concurrent tasks', ''),
 'C10': ('seeded preemption of tasks sharing one model, race detector, answers compared with those alone', 'Preemption points are the statements of go-raml and operations on locks; the race detector additionally reports conflicting accesses that the schedule left unordered.'),
 'C11': ('seeded preemption of tasks that load, with I/O faults and race detector', 'Preemption points are the statements of go-raml and operations on locks; the race detector additionally reports conflicting accesses that the schedule left unordered.'),
 'C12': ('I/O faults, damage and failing hooks in one load, then a load without them into the same model', ''),
 'C13': ('hooks aborting validation at sampled calls, map orders; complete prints of the model compared', ''),
 'C14': ('seeded histories of operations on copies and originals; complete prints of the other side compared', ''),
 'C15': ('the real command on a simulated disk with I/O faults; status and reports against loads alone', ''),
 'C16': ('names of the entry, working directories changing at seeded instants', ''),
 'C17': ('the same seeded environment and failing hooks for both ways of loading', ''),
 'C18': ('seeded preemption of converting tasks, map orders and edits, race detector; documents compared', ''),
 'C19': ('seeded histories and orders of operations on the types of one model, map orders; unfoldings compared with those of types unwrapped alone', ''),
 'C21': ('seeded histories of loads into one model in any order and way, with I/O faults, torn files, failing hooks and use of the types in between; every fragment compared with what it is alone', ''),
 'C22': ('seeded histories of loads into one model with I/O faults, torn files, failing hooks and use of the types in between; all ways of looking things up compared after every operation', ''),
 'C23': ('seeded map orders, split reads, random numbers, process histories, loads nested in hooks, failing hooks and I/O faults; recorded calls of hooks compared', ''),
 'C24': ('seeded histories of loads and uses with I/O faults and failing hooks, then garbage collection; weak references to everything that was seen, memory in use after batches of loads', 'The garbage collector of the Go runtime is real.'),
 'C20': ('seeded disks with unrelated neighbours, I/O faults at every operation, loads repeated in one model, use of the model after the disk is wiped; ledger of operations, writes, prints and tasks', ''),
}
na = {
 'N01': 'A pure function of the two declarations: no schedule, clock, I/O, fault or interleaving is involved, so simulation has nothing to decide.',
 'N02': 'A pure function of type and value: no schedule, clock, I/O, fault or interleaving is involved.',
 'N03': 'A pure function of the type: the equivalence of the schema and the type depends on no schedule, clock, I/O or fault.',
 'N04': 'A pure function of the text of the type expression: no schedule, clock, I/O or fault is involved.',
 'N05': 'A pure function of the model: which examples and facets are rejected depends on no schedule, clock, I/O or fault (that the verdict is the same under all of those is C01, C02, C13 and C17).',
}
m = {'version': 1, 'setup_cmd': 'bash sim/bin/setup',
     'checks': [{'property': p, 'quick_cmd': 'bash sim/bin/check %s quick' % p, 'thorough_cmd': 'bash sim/bin/check %s thorough' % p,
                 'evidence_file': 'evidence/%s.json' % p, 'technique': T + t, 'level': 'exploration', 'level_note': base + n}
                for p, (t, n) in sorted(tech.items())],
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(na.items())],
     'notes': 'No hooks are committed in /repo: every check makes an instrumented copy of the working tree (sim/instr) and builds the simulator from it. '
              'bash sim/bin/replay FILE runs a replay file; known findings and repaired defects are in known-findings.txt.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
SEQ = 'explicit-state enumeration of {} on the real services, compared with a reference model'
T = {
'C01': (SEQ.format('all expressions, relationship sets and queries in the bounds'), 'Exhaustive within the bounds: every answer of the real Check is compared with an independent evaluator of the expression semantics. Trusts the evaluator (a direct fixpoint computation) and the small-scope bounds.'),
'C02': (SEQ.format('all cyclic relationship graphs and recursive expressions in the bounds'), 'Exhaustive within the bounds: termination (process watched) and least-fixpoint verdicts. A call that makes no progress for 40 s and again 150 s when run alone is taken as non-terminating.'),
'C03': (SEQ.format('all expressions, relationship sets, queries and formats in the bounds'), 'Exhaustive within the bounds: verdict, format and parsed tree (DOT, JSON; SPEW by its named values) compared with Check and the model.'),
'C04': (SEQ.format('all expressions, relationship sets, roots and formats in the bounds'), 'Exhaustive within the bounds: the set of nodes named by the tree equals the set reachable in the model.'),
'C05': (SEQ.format('all relationship sets in the bounds'), 'Exhaustive within the bounds: the DOT text is parsed by an independent parser and its edges compared with the stored relationships.'),
'C06': (SEQ.format('all operation sequences over all pairs of an adversarial universe of relationships'), 'Exhaustive within the bounds, on an in-memory store and on the bundled stores.'),
'C07': (SEQ.format('all pairs of adversarial policy ids and all interleaved operation sequences'), 'Exhaustive within the bounds.'),
'C08': (SEQ.format('all relationship sets times all selector combinations'), 'Exhaustive within the bounds.'),
'C09': (SEQ.format('all restrictions times all relationships in the bounds'), 'Exhaustive within the bounds.'),
'C10': (SEQ.format('all policies of a defect-generated family'), 'Exhaustive within the bounds; acceptance must equal an independent well-formedness definition.'),
'C11': (SEQ.format('all request histories up to the depth bound'), 'Exhaustive within the bounds.'),
'C12': ('exhaustive enumeration of token strings, character strings and expression trees up to the bounds against a reference recursive-descent parser and evaluator', 'Exhaustive within the bounds: acceptance, meaning (through Check on all membership vectors) and print/parse round trips.'),
'C13': ('exhaustive enumeration of policies, key orders and styles; YAML and structured form executed in lock step', 'Exhaustive within the bounds.'),
'C14': ('stateless model checking of the real code under a controlled scheduler (preemption bounded), linearizability against the reference model', 'All schedules up to the preemption bound of every program in the bounds; storage operations, locks and, in the instrumented build, all statements are scheduling points. Trusts the scheduler and that single storage operations are atomic.'),
'C15': ('stateless model checking of the real code under a controlled scheduler (preemption bounded), snapshot oracle', 'All schedules up to the preemption bound of every program in the bounds; storage operations, locks and, in the instrumented build, all statements are scheduling points.'),
'C16': ('exhaustive crash-point enumeration (every prefix of the storage writes, nested) with recovery checked against the reference model', 'Every crash point of every request in every base state and history of the bounds. Assumes single storage writes are atomic and ordered.'),
'C17': ('exhaustive storage-fault enumeration (every operation, every pair) checked against the reference model', 'Every fault point of every request in every base state of the bounds. Assumes a failing operation returns an error rather than wrong data.'),
'C18': ('exhaustive enumeration of request mutations (all single and all pairs) on the real services', 'Every absent/empty/out-of-range field combination up to pairs; panics and process ends are caught in worker processes.'),
'C19': ('exhaustive enumeration of histories with a restart at every point; old and new instance in lock step', 'Exhaustive within the bounds on the in-memory store; memory and LevelDB stores and the real daemon at smaller depth.'),
'C20': ('exhaustive enumeration of request sequences; gRPC server and embedded library in lock step', 'Exhaustive within the bounds over a loopback connection, and against the built daemon.'),
'C21': ('exhaustive enumeration of operation sequences against a reference graph', 'Exhaustive within the bounds; DOT parsed by an independent parser.'),
'C22': ('exhaustive enumeration of requests times store sizes, and of schedules of overlapping clients, each required to end', 'Exhaustive within the bounds. In the sequential part a call that does not return for 20 s and waits is taken as blocked; in the schedule part blocking is decided from the state of all threads.'),
'C23': ('exhaustive enumeration of option lists and of request sequences over two instances, each compared with its own reference model', 'Exhaustive within the bounds.'),
'C24': ('exhaustive enumeration of builder call sequences, names and expression trees against messages written out independently', 'Exhaustive within the bounds.'),
}
checks = [dict(property=i, quick_cmd=f'./check.sh {i}', thorough_cmd=f'VERIF_TIER=thorough ./check.sh {i}', technique=t, level='model_checking', level_note=n) for i, (t, n) in T.items()]
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
    notes='No hooks in /repo: the harness and, for C14, C15 and C22, the instrumented copies of the sources are laid over the working tree with go build -overlay. Known findings: known_findings.txt (only repaired defects).')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))

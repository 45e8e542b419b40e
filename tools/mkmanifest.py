#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'abstract interpretation of the driver with a lock-step specification automaton (all paths, loops by fixpoint)',
 'C02': 'abstract interpretation of every comparison step; typestate of the exit count',
 'C03': 'abstract interpretation of the baseline matching; list-segment domain',
 'C04': 'abstract interpretation of equality for every pair of measurement classes and of the comparison step to its end; entailment from branch facts',
 'C05': 'abstract interpretation with normal forms of floating point comparisons and operation types; entailment of the documented formula',
 'C06': 'abstract interpretation of every recording function and macro against a summary of one comparison/printing',
'C13': 'ownership analysis by path-partitioned abstract interpretation of every acquiring helper and of every member that owns a buffer',
 'C14': 'definite-initialisation dataflow over every function, constructor and visitor hand-over',
 'C27': 'abstract interpretation of the name generator and the start of a run; bit-dependency domain for the hash',
 'C17': 'abstract interpretation of the option loop over a symbolic array; moving loops by an inductive shift rule',
 'C23': 'abstract interpretation of the image comparison over a model of the toolkit pipeline (readers, extraction, geometry); entailment from branch facts',
 'C24': 'abstract interpretation of the threaded image filter over a model of image iterators; inductive rule for the neighbourhood minimum; effect analysis of the threaded phase',
 'C18': 'abstract interpretation of the search loop and its users (fixpoint over a list of arbitrary length)',
 'C15': 'abstract interpretation of the encoder; bit-provenance domain, counter relations, finite line-length walk',
 'C16': 'abstract interpretation of the decoder in product with a reference automaton; bit-provenance domain',
 'C07': 'inductive translation summaries of the escaping functions; an XML automaton over the abstract output of every printing path',
 'C08': 'abstract interpretation of writer and reader; constant propagation of the written element forms through the reader callbacks',
 'C22': 'provenance analysis of every stream that results are printed to; abstract interpretation of the getters, the comparison and the driver',
 'C25': 'abstract interpretation of every instance of the composite templates in a witness translation unit',
 'C26': 'path-partitioned abstract interpretation of the tool against the contract of the process interface',
 'C28': 'abstract interpretation with a string-segment domain; loops by inductive prefix/suffix invariants',
 'C29': 'abstract interpretation of the steps of the difference against contracts; inductive facts of the loops, list terms, iterator typestate',
 'C33': 'abstract interpretation of the argument loop over a symbolic argument vector; one iteration against the head of the loop',
 'C32': 'abstract interpretation over nondeterministic system calls; result/permission-mask agreement per path',
 'C19': 'abstract interpretation with failing file operations and system calls; stream state versions against flush and check, definite initialisation of buffers',
 'C20': 'abstract interpretation of every copy constructor and assignment; members found by a read-set analysis of the getters',
 'C21': 'abstract interpretation with a class invariant for the cached decoded form; reading loop by fixpoint',
 'C11': 'abstract interpretation of the double dispatch for every pair of measurement and visitor class, with probes',
 'C12': 'ownership analysis by path-partitioned abstract interpretation of driver, reader, callbacks and comparison',
 'C09': 'abstract interpretation of the parser callbacks and the reading loop: null and bounds facts on every path',
 'C10': 'typestate of read/parse events in the reading loop; dataflow through the parser callbacks',
}
NOTE = ('Static: every path of the current source is over-approximated, loops are solved as fixpoints; library calls are replaced by written '
        'contracts (see DESIGN.md). A path the analysis had to approximate is reported as undecided in the evidence, never as a violation.')
NA = {
 'C30': 'minimality and correctness of the edit script rest on values computed by a recursive search over both texts; no static argument in reach bounds them',
 'C31': 'a statement about the values printf-style conversion and strtod produce at run time; deciding it needs numeric evaluation of library code, not source analysis',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in TECH:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': TECH[i], 'level': 'other', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'the check for this property is still being built')})
m = {'version': 1, 'setup_cmd': "python3 -c 'from sa import export; export.build_exporter()'", 'checks': checks, 'not_applicable': na,
     'notes': 'Findings: known-findings.json. No hooks in /repo: the checks read the source as it is.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))

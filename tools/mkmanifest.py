#!/usr/bin/env python3
import json
T = 'TLA+ specification (TLC): spec-generated behaviours replayed into the real code, recorded runs validated as behaviours of the specification'
CLAIMED = {
 'T01': 'Seeded scripts with colliding names, lets, quantifiers, define-fun and uninterpreted functions, both modes, library and command line; the output must be the specification transducer\'s renaming.',
 'T02': 'Same scripts as T01; the output must align with the specified layout and terms except for names and literals.',
 'T03': 'Seeded literal pools and all sets of up to 2-3 short literals x 10 function patterns; replacements and string_map judged by the specification.',
 'T04': 'Seeded scripts over ranges, digits and odd characters; char_map, its inverse and every replacement judged by the specification.',
 'T05': 'Seeded overlapping literal pools and all sets of up to 3 short literals x 10 patterns; relations demanded by the specification\'s contexts are compared before and after.',
 'T06': 'An explicit-state decision procedure in TLA+ for four string fragments (equalities, affixes, lengths, digits and conversions) decides input and output script.',
 'T07': 'Seeded histories of 2-5 scripts with shared, contained and range literals, run on the library and through the command line; each run must be a Convert step of the specified global-map machine from the recorded map.',
 'T08': 'Seeded scripts with str.< / str.<= near and far from literals, library and command line.',
 'T11': 'Seeded scripts with lets, quantifiers, shadowing, repeated sub-terms and uninterpreted functions; library and command line listings must be the listing of the specification.',
 'T09': 'All histories of up to 4-5 file actions over two mappings, seeded mappings with unusual characters and all property combinations, mappings written by conversions, cut-off files, conversions in between.',
 'T12': 'All graphs of up to 3 nodes (any edges) and acyclic graphs of 4 nodes x node kinds, seeded graphs of up to 11 nodes over all functions in three orders of the same actions; every node set and partition compared with the specification.',
 'T10': 'Seeded scripts with a planted model; up to six solver answers each (image of the model, other models with unusual characters, partial models, no model); the check script must be an outcome of the specified reconstruction machine and, judged by a string/regex evaluator in TLA+, satisfied when the model satisfied the transformed script.',
 'T13': 'The same scripts and answers; both scripts are evaluated by the string/regex evaluator in the specification and must agree.',
 'T14': 'All histories of two operations from a few directories (a sample replayed, all checked by TLC for untouched inputs, traceless failures, separation of bases), seeded histories of six; run with the command line and both experiment scripts; after every operation exit status and the content of every file compared with the specification.',
 'T15': 'Seeded states of the files of a query (results, times cut at any line, foreign entries, damaged mappings), part of them written by the real experiment script and transformer; what the functions return compared with the specification (pandas and matplotlib replaced by stand-ins that hold the values).',
 'P01': 'Seeded lists of scripts over all 35 operations, nested, shared and repeated sub-terms, binders, terms outside assertions; every row compared with the occurrence counts of the specification.',
 'P02': 'The same lists with unreadable, damaged and repeated entries, all datasets and unknown ones, left-over output; exit status, header and rows compared with the extraction machine.',
 'P03': 'Behaviours of the script pipeline (runs over two overlapping lists, changed outputs, both options) enumerated by TLC, a seeded sample replayed through the scripts with stand-in solvers; seeded predictor configurations with a stand-in endpoint; every table and feature vector compared with the specification.',
 'P04': 'Seeded results and parameter files; problems generated by EagerGen run through the real encoder and the scripts; solver races on a virtual clock; every row, vector and label compared with the specification, bounds with big integers.',
 'P05': 'Seeded competition results around the time limits, solver races on a virtual clock and benchmark lists for the real updater, compared with the specification.',
 'U01': 'Exhaustive over all literals up to length 4-8 of three escape alphabets plus seeded long literals in nested positions; trusts the dependency parser/printer.',
 'U02': 'All short command sequences and seeded nested scripts; each output must be the specification transducer\'s output.',
 'U03': 'Exhaustive over all command-kind sequences up to length 4 (5 thorough) plus seeded scripts.',
 'U04': 'Two-step behaviours (update, update again) and directory histories (both extensions, inputs ending in _upt, unreadable scripts) enumerated by TLC and replayed through the binary.',

 'A01': 'Seeded sessions (planted witness, exhaustive-domain, chains, big literals, UFs, bit-vectors); every returned model is evaluated by the specification on every asserted term.',
 'A02': 'Satisfiable-by-construction sessions that stress the bounds (chains, separation constraints, partitions, wide literals, all pairs of small atoms) plus small scripts decided by exhaustive search of a finite domain in the specification.',
 'A03': 'Signature, uniqueness, closedness and sort of each definition of each returned model checked by the specification.',
 'A04': 'Command histories on the assertion-stack machine, scripts outside the fragment, and a seeded sweep of the supported fragment.',
 'A05': 'Each session through five front ends; DIMACS files checked for well-formedness and decided with kissat, models and assignments re-checked in the specification; all short behaviours of the specified solver and simplifier protocols played by stand-ins.',
}
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', hooks=dict(guard='none', enable='no hooks: the checks use public APIs and the command line tools', source_commits=[]),
         checks=[dict(property=p, quick_cmd='python3-vt check.py %s quick' % p, thorough_cmd='python3-vt check.py %s thorough' % p,
                      technique=T, level='model_checking', level_note=CLAIMED[p]) for p in props if p in CLAIMED],
         not_applicable=[dict(property=p, reason='check under construction') for p in props if p not in CLAIMED])
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)

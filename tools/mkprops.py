#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids and anchors stay consistent)."""
import json
E='amzn-smt-eager-arithmetic/src/'; U='amzn-smt-string-fct-updater/src/'; T='amzn-smt-string-transformer/src/'; P='amzn-smt-prediction/'
def p(id,title,statement,over,qt,why,files,mech,observe=''):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=[observe]
    return d
L=[
p('A01','Eager solver: every sat answer comes with a model of the script',
 'When amzn-smt-eager-arithmetic answers sat, evaluating every asserted term of the script under the returned model (constants, and uninterpreted functions at every argument, with any value for symbols the model leaves out) yields true under SMT-LIB semantics. This holds for Bool, Int (linear) and BitVec constants, let, ite, chained and n-ary operators, and applications of uninterpreted functions.',
 ['inputs','programs'],'every script in the supported fragment, every satisfying assignment the SAT solver may return',
 'the bundled tests look at a few benchmark verdicts only; the model depends on the encoding, the SAT solver and the function reconstruction, over unboundedly many scripts',
 [E+'lib.rs',E+'encoding.rs',E+'canonicalize.rs'],[('solve_internal',E+'lib.rs'),('Encoder / decode',E+'encoding.rs'),('Canonicalizer',E+'canonicalize.rs')],'return value of solve / solve_with_varisat'),
p('A02','Eager solver: unsat is answered only for unsatisfiable scripts',
 'When amzn-smt-eager-arithmetic answers unsat, no interpretation of the declared symbols satisfies all assertions: the per-partition bounds on the integers that it searches are large enough for every satisfiable script, whatever the coefficients, chain lengths, partitions and nesting.',
 ['inputs','programs'],'every satisfiable script in the supported fragment, including those whose smallest solution is large',
 'a bound that is too small only shows on scripts whose smallest solution lies outside it; tests sample a handful of benchmarks',
 [E+'stats.rs',E+'encoding.rs',E+'canonicalize.rs',E+'lib.rs'],[('StatsVisitor bounds',E+'stats.rs'),('Encoder',E+'encoding.rs'),('Canonicalizer',E+'canonicalize.rs')],'return value of solve / solve_with_varisat'),
p('A03','Eager solver: models define declared symbols once, at their declared sorts',
 'Every definition in a returned model is for a symbol the script declares (or a solver-internal constant starting with @), no symbol is defined twice, the number and sorts of its arguments and its result sort are those of the declaration, and the defining term is a closed term of that sort.',
 ['inputs','programs'],'every script in the supported fragment answered sat',
 'tests never inspect model definitions; the shape of the model depends on which symbols survive canonicalisation, Ackermannisation and CNF conversion',
 [E+'lib.rs',E+'encoding.rs'],[('model construction',E+'encoding.rs'),('UF reconstruction',E+'lib.rs')],'Model returned by solve'),
p('A04','Eager solver: supported scripts are answered, unsupported ones refused',
 'A script in the supported fragment (Bool and Int constants, sums, products of a numeral and an Int constant, comparisons, ite, let and Boolean connectives, uninterpreted functions over them, bvule over bit-vector constants and binary or hexadecimal literals) is always answered sat or unsat, with no error and no panic. A history of commands that the tool does not implement (push, pop, reset, reset-assertions, check-sat-assuming) or a term outside the fragment is never given a verdict that differs from the SMT-LIB verdict.',
 ['inputs','histories'],'every script of the fragment, every command history mixing assertion-stack commands and assertions',
 'the tests contain neither refused commands nor systematically generated supported scripts',
 [E+'lib.rs',E+'encoding.rs',E+'canonicalize.rs'],[('prepare / solve_internal',E+'lib.rs'),('Encoder',E+'encoding.rs')],'return value of solve'),
p('A05','Eager solver: every front end gives the same verdict',
 'For one script, solve with the built-in SAT solver, solve through an external DIMACS solver process, the CNF that encode writes (well formed, satisfiable exactly if the script is), and the command line solve and encode sub-commands all agree, and agree with the meaning of the script. A SAT solver or simplifier process that is missing, fails, is killed or stops before a complete answer leads to an error, never to a verdict, a model or a CNF that the script does not have.',
 ['inputs','configurations','fault_sequences'],'every supported script, every front end and SAT solver, every way in which the solver process can fail',
 'the tests exercise one front end per benchmark and never compare them',
 [E+'lib.rs',E+'main.rs'],[('encode, solve, solve_with_varisat',E+'lib.rs'),('CLI',E+'main.rs')],'verdicts, DIMACS text, process output'),
p('U01','String updater: rewritten escapes denote the same string',
 'Every string literal in a term of the updated script, read with SMT-LIB 2.6 escapes, denotes exactly the characters that the original literal denotes with the legacy escapes \\\\xHH, \\\\a, \\\\b, \\\\f, \\\\n, \\\\r, \\\\t, \\\\v (scanned left to right; any other backslash pair is kept as it is). Incomplete escapes and SMT-LIB escapes already present are left unchanged, wherever in a script the literal occurs.',
 ['inputs'],'every string over the escape alphabet, at every position in a script',
 'the conversion is a state machine over characters; unit tests cover a few literals, not the interplay of adjacent and truncated escapes',
 [U+'transpiler.rs'],[('convert_z3escapes',U+'transpiler.rs'),('fold_const',U+'transpiler.rs')],'printed output commands'),
p('U02','String updater: legacy operators become modern ones, nothing else changes',
 'At every depth and in every kind of command, str.to.re, str.in.re, str.to.int, int.to.str, three-argument re.loop and re.nostr are replaced by str.to_re, str.in_re, str.to_int, str.from_int, the indexed re.loop and re.none with the same arguments in the same order; every other symbol, literal, index, binder and sort and the number and order of commands stays as it was.',
 ['inputs','programs'],'every well-formed script, every nesting of legacy and modern operators',
 'tests compare a few fixed files; a rewrite that mixes up arguments or misses a position needs a particular nesting to show',
 [U+'transpiler.rs'],[('fold_uninterpreted_func, fold_var',U+'transpiler.rs'),('modernize_string_fcts',U+'transpiler.rs')],'printed output commands'),
p('U03','String updater: exactly the right set-logic command',
 'If the input has a set-logic command the output has the same one in the same place and no other. Otherwise a non-empty output has exactly one, directly after the leading set-option commands: QF_SLIA if the script applies an arithmetic operator or comparison anywhere and QF_S if it does not; no other command is added, moved or lost.',
 ['inputs','histories'],'every sequence of commands, with or without set-logic, set-option, set-info at any position',
 'tests contain two or three command orders',
 [U+'transpiler.rs'],[('modernize_string_fcts, has_arith',U+'transpiler.rs')],'printed output commands'),
p('U04','String updater: updating is idempotent and the file contract holds',
 'Updating an already updated script changes nothing. The command line tool, given a path without extension, reads the .smtlib file if there is one and otherwise the .smt2 file, writes exactly the updated commands to <path>_upt with that same extension, and leaves its input and every other file untouched.',
 ['inputs','histories'],'every script, every combination of existing input and output files',
 'tests never run the tool twice and never run the binary with both extensions present',
 [U+'transpiler.rs',U+'main.rs'],[('modernize_string_fcts',U+'transpiler.rs'),('main',U+'main.rs')],'files on disk'),
p('T01','Transformer: variables are renamed by one bijection everywhere',
 'Every declared constant and function is renamed to a0, a1, ... in order of declaration, all its occurrences (declarations, assertions, other commands, applications) are renamed the same way, no two symbols share a new name even if the input already uses such names, sorts are unchanged, and the alpha_renaming_map of the mapping file lists exactly this renaming.',
 ['inputs','programs'],'every script over declared symbols, including inputs whose own names look like generated ones',
 'tests compare a few benchmarks whose names cannot collide',
 [T+'transpiler_visitors.rs',T+'transpiler.rs',T+'mapping_tools.rs'],[('fold_declare_const, fold_declare_fun, fold_var',T+'transpiler_visitors.rs')],'transformed commands and mapping JSON'),
p('T02','Transformer: only names and string literals change',
 'Apart from the renaming and the replacement of string literals, the transformed script has the same commands and terms as the input: same operators, arguments, indices, numerals and sorts, in the same order, with declarations moved up behind set-logic, set-info and set-option; no helper variable or helper assertion of the tool remains.',
 ['inputs','programs'],'every script, both mapping modes',
 'the helper variables are introduced and removed again by two separate passes; tests compare a few benchmark outputs',
 [T+'transpiler_visitors.rs',T+'transpiler.rs',T+'subformula_parser.rs'],[('process_string_fct',T+'transpiler_visitors.rs'),('reconstruct_orig_query_shape',T+'subformula_parser.rs')],'transformed commands'),
p('T03','Transformer: one injective literal mapping, as reported in the mapping file',
 'All occurrences of one string literal are replaced by one and the same new literal, different literals used together are replaced by different literals (the ends of re.range apart), the empty string stays empty, and the string_map of the mapping file lists every replacement that was made and nothing but pieces of literals and range ends of the script.',
 ['inputs','programs'],'every script, both mapping modes',
 'collisions need particular sets of literals (shared prefixes, digits, ranges, many literals); tests have a few sets',
 [T+'string_mappings.rs',T+'transpiler.rs',T+'mapping_tools.rs'],[('gen_string_keep_substrings, fix_repeated_string, gen_string_freeforall',T+'string_mappings.rs'),('compute_replacement_strings',T+'transpiler.rs')],'transformed commands and mapping JSON'),
p('T04','Transformer: char-to-char mapping is an invertible character substitution',
 'With the char-to-char mapping every replaced literal is the image of the original under one injective character map that is the one in the mapping file, characters of a re.range are mapped into the image of that range and other characters outside it, and digits that the script converts to or from integers keep their value; un-mapping a transformed literal gives the original.',
 ['inputs','programs'],'every script, every combination of ranges, digits and literals',
 'interplay of ranges, illegal characters and digits needs particular inputs; tests have a few',
 [T+'string_mappings.rs',T+'transpiler.rs'],[('map_string_char_to_char',T+'string_mappings.rs'),('initialize_charmap_with_ranges',T+'transpiler.rs')],'transformed commands and mapping JSON'),
p('T05','Transformer: no-reconstruct mapping preserves the required string relations',
 'With the no-reconstruct mapping, between any two literals used in the same context (linked by variables and functions, directly or through a chain of others) the relations the functions of that context depend on are the same after the mapping as before: which literal contains, starts with or ends with which, literal lengths, digits, and membership in ranges.',
 ['inputs','programs'],'every script, every set of related literals',
 'a relation is lost only for particular overlaps between literals or particular chains of variables',
 [T+'string_fcts.rs',T+'callgraph.rs',T+'string_mappings.rs',T+'transpiler.rs'],[('get_required_props',T+'string_fcts.rs'),('propagate_all',T+'callgraph.rs'),('gen_string_keep_substrings',T+'string_mappings.rs')],'transformed commands'),
p('T06','Transformer: the transformed script is equisatisfiable',
 'The transformed script is satisfiable exactly if the original is, for both mapping modes, for scripts that combine (dis)equality, contains, prefixof and suffixof, or (dis)equality and length comparisons, or (dis)equality, str.is_digit and conversions between strings and integers, of constants and plain literals (no escapes) with Boolean connectives.',
 ['inputs','programs'],'every script of that fragment',
 'the tests check that transformed benchmarks parse and have a fixed text, not their satisfiability over generated scripts',
 [T+'transpiler.rs',T+'string_mappings.rs',T+'callgraph.rs'],[('transform_ast',T+'transpiler.rs')],'transformed commands'),
p('T07','Transformer: a shared global map stays consistent across files',
 'Over any sequence of files transformed with the global map, a literal whose earlier mapping satisfies what the new file requires is mapped as before; every file on its own still satisfies the single-file guarantees whatever was transformed earlier; global_mapping.json after a run holds the mappings used by that run, and the entries of earlier files for other strings are kept unless a string they contain was mapped anew.',
 ['histories','inputs'],'every sequence of transformed files, including files whose literals contain each other',
 'needs a multi-file history; no test runs two files with the global map',
 [T+'main.rs',T+'transpiler.rs',T+'mapping_tools.rs',T+'string_mappings.rs'],[('persist_string_map',T+'transpiler.rs'),('prune_persist_string_map',T+'transpiler.rs')],'global_mapping.json, transformed commands'),
p('T08','Transformer: unsupported functions are reported, never silently transformed',
 'If a string literal is used together with a lexicographic comparison (str.<, str.<=), directly or through other variables, the tool changes no literal of that context, lists the failed variables in the mapping and prints the bail-out message; if it is not, and every re.range is between two different one-character literals, the script is transformed without that message.',
 ['inputs','programs'],'every script, every place an unsupported function can be linked to a literal',
 'needs an unsupported function at a distance from the literal; the tests do not contain one',
 [T+'string_fcts.rs',T+'transpiler.rs',T+'main.rs'],[('MaintainEverythingStringProps',T+'string_mappings.rs'),('failed_mod_constraint_vars',T+'transpiler.rs')],'mapping JSON, process output'),
p('T09','Transformer: the mapping file round-trips',
 'Reading back a mapping file and converting its entries to the internal form and back loses nothing: character map, string map, renaming, persistent map with all its properties, and the inverse maps derived from it are exact inverses. A missing or cut-off file is refused, and a conversion with the global map keeps the entries of unrelated strings exactly as they are.',
 ['inputs','histories'],'every mapping the transformer can write',
 'the maps contain arbitrary characters and nested properties; tests round-trip none',
 [T+'mapping_tools.rs'],[('Mapping, MappedStringMetaObjJson',T+'mapping_tools.rs')],'mapping JSON'),
p('T10','Transformer: reconstruction asserts the un-mapped model or reports unsat',
 'Given a solver answer for a char-to-char transformed script, reconstruct produces a check script that is the original plus one equality, with the un-mapped name and value, per modelled constant that a string function of the script is applied to, placed before check-sat. The check script is satisfiable if the model satisfied the transformed script, and an unsat or unknown answer is reported as such.',
 ['inputs','programs'],'every script and every model a solver can return for the transformed script',
 'the tests reconstruct no generated model',
 [T+'reconstruct_tools.rs',T+'mapping_tools.rs'],[('reconstruct_and_add_assertions',T+'reconstruct_tools.rs')],'_recon_check file'),
p('T11','Transformer: the sub-formula listing is complete and exact',
 'The sub-formula listing of a script has exactly one entry per occurrence of a function application (core, theory or uninterpreted, at any depth) in the terms its commands assert, define or query, arguments before the application and in script order. Each entry is the text of that application with its variables renamed v0, v1, ... by first occurrence, and listing a script again gives the same list.',
 ['inputs','programs'],'every script, every nesting of string functions',
 'tests list a few fixed formulas',
 [T+'subformula_parser.rs'],[('find_string_subforumlas',T+'subformula_parser.rs')],'list of sub-formulas'),
p('T12','Transformer: call graph propagation is exact and order independent',
 'After propagation, what a node is built from and used to build is exactly what is reachable through its children and parents (stopping at functions that return Booleans), variables that are connected through shared functions are in one and the same partition with all their literals and functions, unconnected ones are not, a node that reaches itself is reported as an error, and the result does not depend on insertion order or repetition.',
 ['histories','schedules'],'every sequence of graph operations and every order in which nodes are processed',
 'the result depends on the iteration order of hash maps, which unit tests cannot control, and on graph shape',
 [T+'callgraph.rs',T+'forest.rs'],[('propagate_all, propagate_used_with',T+'callgraph.rs')],'CallGraph accessors'),
p('T13','Transformer: char-to-char mapping carries models over in both directions',
 'With the char-to-char mapping an assignment of the string constants satisfies the original script exactly if the assignment with every character mapped by the character map (and other characters by its inverse where that is determined) satisfies the transformed script, for scripts over all string and regular-expression operations except lexicographic order and code points, without escapes in literals; numbers and Booleans keep their values.',
 ['inputs','programs'],'every script, every model of it and of the transformed script',
 'needs scripts whose ranges, digits and literals interact, together with models; the tests evaluate none',
 [T+'string_mappings.rs',T+'mapping_tools.rs'],[('map_string_char_to_char',T+'string_mappings.rs'),('get_re_map',T+'mapping_tools.rs')],'transformed commands and mapping JSON'),
p('T14','Transformer: every run reads and writes exactly its own files',
 'Converting X.ext writes X_transformed.ext and X_mapping.json next to it (or global_mapping.json in the working directory, with the global map), reconstructing reads X.ext, X_mapping.json and X_transformed.out and writes X_recon_check.ext exactly if the answer is sat with a model, listing sub-formulas writes <name of X>_recon.json in the working directory; a run whose input is missing or no script fails. The experiment script leaves the answers of the solver for the original and for its conversion in X.out and X_transformed.out, with the options asked for, and three times in X_times.out, for every listed script; pairwise_diff_count.sh lists under every transformed script of a directory the ones equal to it, with their number. No run changes a script or any other file, a failed run changes nothing, and what is found under a name comes from the script of that name, whatever was run before, in every order, also with dots and directories in the path.',
 ['histories','inputs'],'every sequence of conversions, reconstructions, listings and experiments over a directory, every path with an extension',
 'the tests call library functions; no test runs the command line, and the experiment script had stopped working',
 [T+'main.rs',T+'reconstruct_tools.rs','amzn-smt-string-transformer/test_and_transform.sh','amzn-smt-string-transformer/parallel_test_transform_list.sh','amzn-smt-string-transformer/pairwise_diff_count.sh'],
 [('convert, reconstruct, find_subformulae',T+'main.rs'),('reconstruct_and_add_assertions',T+'reconstruct_tools.rs'),('test_and_transform','amzn-smt-string-transformer/test_and_transform.sh')],'files next to the input and in the working directory'),
p('T15','Transformer: the experiment analysis reads back what the experiment wrote',
 'For every query q of a directory, after any runs of the experiment script, the per-query functions of data_processing.py yield the lower-cased first lines of q.out, q_transformed.out and q_recon_check.out (error for a line starting with "(error", gnu_timeout for the line of two quotes, no_check_sat for an empty file, not_run for a missing one), the user times in seconds of the three entries of q_times.out in their order (none from the first entry on that is missing, cut off or of another command), the sizes of q.smtlib, q_transformed.smtlib and q_mapping.json (none for a missing file) and the number of literals q_mapping.json lists as mapped character by character (0 without a readable mapping).',
 ['inputs','histories'],'every query and every state of its files, complete, cut off or missing',
 'there are no tests of the scripts; the analysis depends on the file formats of three other programs',
 ['amzn-smt-string-transformer/data_processing.py','amzn-smt-string-transformer/test_and_transform.sh',T+'mapping_tools.rs'],
 [('get_SAT_results, get_result_from_file','amzn-smt-string-transformer/data_processing.py'),('get_timings, get_timing_for_mode, get_seconds','amzn-smt-string-transformer/data_processing.py'),('get_filesizes, get_map_info','amzn-smt-string-transformer/data_processing.py')],'values returned by the per-query functions'),
p('P01','Feature extraction: counts are occurrence counts over the asserted formulas',
 'For every benchmark, each feature column holds the number of occurrences of that string operation in the terms asserted by the script, counting every occurrence however deeply nested or repeated, and nothing outside the assertions.',
 ['inputs','programs'],'every parseable benchmark',
 'the crate has no tests; sharing of equal terms in memory makes occurrence counting easy to get wrong',
 [P+'src/main.rs'],[('visitor counting StringOp',P+'src/main.rs')],'off_features_<name>.csv'),
p('P02','Feature extraction: one aligned row per listed benchmark',
 'The feature file has a header and exactly one row per listed benchmark, in list order, whose columns are the counts of the operations named by the header, in that order. An unknown dataset name is refused and yields no row, and a listed file that cannot be read or parsed never yields a row of another file.',
 ['inputs','configurations'],'every list file, every dataset kind',
 'the crate has no tests',
 [P+'src/main.rs'],[('main',P+'src/main.rs')],'off_features_<name>.csv'),
p('P03','Online features: each line of solver output counted in its own bucket',
 'After get_solver_output, get_word_counts and get_word_count_features have been run over a list of benchmarks (in this order for the list, possibly interleaved with runs over other lists, repeated, with changed solver output, after timeouts), the feature table has a header naming the buckets and one row per listed benchmark, in list order: the number of lines of the solver output stored for that benchmark (run with or without --strings-fmf as asked) whose word count lies in each bucket, every line in exactly one bucket. generate_predictions computes the same counts, over the configured buckets if there are any, sends the occurrence counts of the problem followed by these counts (normalized with the configured means and deviations) to the runtime endpoint and, with the option, the counts alone to the other one, and prints the most probable class with its probability.',
 ['inputs','histories','configurations'],'every benchmark list and path without shell metacharacters, every solver output, every order of runs, every bucket configuration',
 'the scripts have no tests; a wrong file name, bucket boundary or stale file shows only for particular paths, counts and histories',
 [P+'scripts/get_solver_output.py',P+'scripts/get_word_counts.py',P+'scripts/get_word_count_features.py',P+'scripts/generate_predictions.py'],
 [('get_cvc4_output, get_z3_output',P+'scripts/get_solver_output.py'),('write_word_counts',P+'scripts/get_word_counts.py'),('get_features, get_bucket_labels',P+'scripts/get_word_count_features.py'),('do_runtime_prediction',P+'scripts/generate_predictions.py')],'on_features_*.csv; features sent to the endpoint'),
p('P04','Eager-or-lazy features: the encoder statistics of that very problem',
 'clean_eager_lazy_data writes, for every benchmark of the results file in its order, the fastest solver (the first one listed if several are equally fast) and the features of that benchmark in the order named by the header: the reported parameters if the benchmark has one parameter set, otherwise sums of vars, constraints and k, maxima of a_max, b_max and w and the bound in bits that follows from them (up to one bit), wherever the benchmark stands in the parameter file. generate_predictions and run_eager_v_lazy obtain the same features from what amzn-smt-eager-arithmetic prints for the problem; generate_predictions sends them to the configured endpoint and prints the most probable approach with its probability, run_eager_v_lazy writes one label (the fastest of the solvers, earlier ones winning ties) and one feature row per listed benchmark.',
 ['inputs','configurations'],'every results and parameter file, every problem with an integer constraint and any number of partitions, every combination of run times',
 'the scripts have no tests and depend on the textual output of another crate of the repository',
 [P+'scripts/clean_eager_lazy_data.py',P+'scripts/generate_predictions.py',P+'scripts/run_eager_v_lazy.py','amzn-smt-eager-arithmetic/src/stats.rs'],
 [('compute_bound, get_naive_big_encoding',P+'scripts/clean_eager_lazy_data.py'),('parse_eager_encoding_output, do_eager_lazy',P+'scripts/generate_predictions.py'),('run_eager_arithmetic',P+'scripts/run_eager_v_lazy.py'),('Debug for Stats','amzn-smt-eager-arithmetic/src/stats.rs')],'features_*.csv, best_solver_*.csv, features sent to the endpoint'),
p('P05','Benchmark selection: data sets cut by time, rows aligned, none lost',
 'clean_smt_comp_results puts a result of CVC4-sq-final on a benchmark of the selected QF_SLIA families that is in neither exclusion list into the first data set if it took at least 30 and less than 300 seconds, and into the second one, with 300 seconds subtracted, if it took at least 330 seconds (a wallclock timeout counts as 1200 seconds); benchmark and time files stay aligned and in the order of the results. find_faster_fmf writes every listed benchmark to exactly one of its two lists, to the faster one exactly if it ran faster with --strings-fmf, in the form in which it was listed. modernize_benchmarks runs the updater on every listed name_upt benchmark and touches nothing else.',
 ['inputs'],'every results file, exclusion list, benchmark list and combination of run times',
 'the scripts have no tests; boundary times and unusual paths are not in the data that was used',
 [P+'scripts/clean_smt_comp_results.py',P+'scripts/find_faster_fmf.py',P+'scripts/modernize_benchmarks.py'],
 [('main',P+'scripts/clean_smt_comp_results.py'),('main',P+'scripts/find_faster_fmf.py'),('main',P+'scripts/modernize_benchmarks.py')],'files written by the scripts'),
]
ids=[d['id'] for d in L]; assert len(set(ids))==len(ids)
for d in L: assert len(d['title'])<=80,(d['id'],len(d['title']))
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(d) for d in L)+'\n')

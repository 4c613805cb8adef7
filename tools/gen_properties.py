#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid and readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ randomised tests
prop("R01", "A fixed random state makes randomised tests bit-for-bit reproducible",
 "Running the bootstrap test or the randomised Tukey HSD test on the same samples with the same random state and the same number of repetitions returns bit-identical p-values and the same reported settings, always. "
 "No other thing may influence the result: not the OS entropy, the clock, the thread or process that runs it, what ran before or runs at the same time (on the same tester or another, successful, failed or panicked; also from the caller's own code within the call, such as its iterator), nor memory addresses.",
 ["schedules", "histories", "inputs", "configurations"],
 "every sample matrix, repetition count and random state; every interleaving of caller threads and every earlier history in the process; every OS entropy stream, clock and CPU count",
 "The unit tests run each tester a few times with one fixed state in one quiet thread; they never vary entropy, history, thread or schedule, so a result leaking from any of those passes.",
 ["src/statistical_tests/bootstrap_test.rs", "src/statistical_tests/randomized_tukey_hsd_test.rs"],
 [("seeded generator", "BootstrapTester::test, RandomizedTukeyHsdTester::test")],
 observe="p-values, random_state(), n_resamples()/n_iters()")
prop("R02", "Unseeded randomised tests draw a fresh state and report one that replays",
 "When no random state is given, each run of a randomised test draws a fresh 64-bit state from the system's entropy, so that two runs that see different entropy, and two runs in a process (successive or concurrent), do not share it. "
 "The state reported by the result, given explicitly, reproduces that very result bit for bit, and a state given explicitly is the one reported.",
 ["schedules", "histories", "inputs", "fault_sequences"],
 "every entropy stream the system may deliver (including short or interrupted reads and an unavailable system call), every interleaving of unseeded callers, every sample matrix",
 "The tests cannot control the entropy source, so they can check neither that a drawn state depends on it nor that what is reported is what was used; a constant, truncated or stale state passes all of them.",
 ["src/statistical_tests/bootstrap_test.rs", "src/statistical_tests/randomized_tukey_hsd_test.rs"],
 [("state selection", "random_state.unwrap_or_else(...) in both testers")],
 observe="random_state() and p-values of results")
prop("R03", "Randomised Tukey HSD p-values converge to the exact permutation tail",
 "Over random states, each reported p-value of the randomised Tukey HSD test is an unbiased estimate of the exact probability that, when the scores of every topic are permuted uniformly and independently among the systems, the largest difference of system means is at least as large as the observed difference of that pair (differences that are equal but for floating-point rounding may count either way); its spread is that of the stated number of independent iterations. "
 "The matrix of p-values is always symmetric with ones on the diagonal, every value lies in [0,1] and is a multiple of one over the number of iterations, and a larger observed difference never has the larger p-value. "
 "For two systems this is Fisher's randomisation test.",
 ["inputs", "histories", "configurations"],
 "every sample matrix (2 or more systems), every number of iterations, every stream of random states the entropy source delivers",
 "The tests assert one or two p-values on one matrix with a fixed state; a biased permutation, a strict instead of a weak comparison or a wrong denominator for other sizes is invisible at that sample.",
 ["src/statistical_tests/randomized_tukey_hsd_test.rs"],
 [("within-topic shuffle and max-min statistic", "RandomizedTukeyHsdTester::test")],
 observe="p_values()")
prop("R04", "Bootstrap p-values converge to the exact bootstrap tail",
 "Over random states, the reported p-value of the bootstrap test is an unbiased estimate of the exact probability that the absolute t-statistic of a sample drawn with replacement from the mean-centred differences is at least the observed absolute t-statistic, counted over the stated number of independent resamples; a resample without variance counts with a t-statistic of zero. "
 "It always lies in [0,1] and is a multiple of one over the number of resamples.",
 ["inputs", "histories", "configurations"],
 "every vector of paired differences with non-zero variance, every number of resamples, every stream of random states the entropy source delivers",
 "The tests check one p-value for one state on one sample; a biased index draw, a missing centring, a one-sided comparison or a wrong count is only visible as a deviation over many random states and sample sizes.",
 ["src/statistical_tests/bootstrap_test.rs", "src/statistical_tests/student_t_test.rs"],
 [("resampling of centred differences", "BootstrapTester::test")],
 observe="p_value()")
# ------------------------------------------------------------------ library under threads/history
prop("T01", "Concurrent use of shared stores gives every caller the sequential result",
 "Any number of threads may evaluate metrics on and look up the same relevance stores at the same time, in any interleaving, and every call returns exactly (bit for bit) what it returns alone in a fresh process with the same stores. "
 "The same holds for calls after earlier ones failed, panicked in the middle (a caller's key type may panic), or used other stores, other metrics or other cut-offs, and for calls that the caller's own code makes within another call (from a key's comparison, say); no call changes a store.",
 ["schedules", "histories", "inputs"],
 "every interleaving of caller threads at every allocation, key comparison, clone and lock; every history of earlier calls, errors and panics in the process; every store content and metric",
 "The tests are single-threaded, each calls one metric on a fresh store; nothing in them runs two calls that could share hidden state, nor a call after a panic.",
 ["src/lib.rs", "src/metrics.rs", "src/metrics", "src/relevance.rs"],
 [("evaluation over shared references", "evaluate in src/lib.rs"), ("lookups", "RelevanceStore::{get_score,get_map,get_sorted,records,query_ids}")],
 observe="scores, mean, variance, lookups")
prop("T02", "Deterministic statistics do not depend on schedule, history or earlier errors",
 "Student's t-test, the two-way ANOVA, the Tukey HSD effect sizes, the pairing of score maps, and parsing and printing of metric names return bit for bit the same result or the same error for the same arguments, whichever thread calls them, whatever runs concurrently, whatever was called (or failed, or panicked in a caller's iterator) before, and also when the call is made from the caller's own code within another one (its iterator, its keys, or the writer a name is printed into).",
 ["schedules", "histories", "inputs"],
 "every interleaving of caller threads, every history of calls, errors and panics in the process, every argument",
 "The tests call each routine once or twice in a quiet process; hidden shared state, caches or lazily initialised globals that go wrong under another history are out of their reach.",
 ["src/statistical_tests/student_t_test.rs", "src/statistical_tests/two_way_anova_without_replication.rs", "src/statistical_tests/tukey_hsd_test.rs", "src/statistical_tests.rs", "src/metrics.rs"],
 [("statistics", "StudentTTest, TwoWayAnovaWithoutReplication, TukeyHsdTest"), ("alignment", "pairs_from_maps, tuples_from_maps"), ("names", "Metric::from_str, Display")],
 observe="all accessors of the results")
prop("S01", "A store built from racing, repeating producers holds each judgement once",
 "However records reach a store builder - in any order, from any interleaving of producers sharing it, with any record delivered more than once - the built store is the same function of the set of distinct first deliveries: every pair exactly once with the score that arrived first, ranked by descending score and then ascending document. "
 "Every repeated pair is rejected with a duplicate error, and a rejected or panicking insertion leaves everything else in the builder as it was.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "every arrival order, interleaving, duplication and mid-insertion panic of a producer; every set of records and ties",
 "The tests insert a handful of records in one order with one duplicate at the end and stop there; they never continue after a rejection or compare arrival orders.",
 ["src/relevance.rs"],
 [("insertion", "RelevanceStoreBuilder::add_record"), ("ordering", "RelevanceStoreBuilder::build"), ("bulk", "RelevanceStore::from_records")],
 state=[("builder map", "pairs accepted so far with their first score")],
 observe="add_record results; get_sorted, get_map, get_score, n_queries, n_docs, records")
prop("S02", "Damaged input is read exactly as written or rejected, never skipped over",
 "When an input file in TREC or JSON-lines form is torn, truncated, bit-flipped, duplicated or has lines lost or joined at any place, reading it either fails with an error or yields exactly one judgement for each line that is there, with the identifiers and the score written on that line. "
 "No line is silently dropped, merged, repaired or replaced by a default (a negative true relevance is read as zero, by definition), and a pair that occurs twice is rejected.",
 ["fault_sequences", "crash_points", "inputs"],
 "every byte-level damage to a well-formed file - cut anywhere, flipped, inserted or deleted bytes, blocks of zeroes, lost, repeated, joined lines - for both kinds of judgement and both formats",
 "The tests try a couple of hand-written malformed lines per parser; they do not reach the space of damages at arbitrary byte positions, e.g. one after which a line still parses but to something else.",
 ["src/trec.rs", "elinor-cli/src/lib.rs", "elinor-cli/src/bin/convert.rs", "elinor-cli/src/bin/evaluate.rs", "src/relevance.rs"],
 [("TREC parsing", "trec::parse_true_rels_in_trec, trec::parse_pred_rels_in_trec"), ("line reading", "elinor_cli::load_lines"), ("JSONL reading", "serde_json::from_str in evaluate")],
 observe="records read, exit status and output of the tools")
# ------------------------------------------------------------------ tools
prop("C01", "Convert reports success only if the whole converted file was written",
 "If the convert tool exits successfully, the output file holds exactly one well-formed JSON line per judgement of the input, with the same query, document and score, ordered by query, then descending score, then document. "
 "This holds whatever reads and writes are short, interrupted or failing on the way (including the last one, and a full disk); when the tool cannot do this it exits with a failure. On well-formed input, without failing operations, it succeeds.",
 ["fault_sequences", "inputs", "configurations"],
 "every sequence of short, interrupted and failing opens, reads and writes and every disk-full point; every input file of either kind",
 "The tests convert two files on a healthy disk and look at the exit status only; a write error, in particular a late one, never happens there.",
 ["elinor-cli/src/bin/convert.rs", "elinor-cli/src/lib.rs", "src/trec.rs", "src/relevance.rs"],
 [("write loop and flush", "main in convert.rs"), ("reading", "elinor_cli::load_lines")],
 observe="exit status and output file")
prop("C02", "Evaluate reports success only with a complete and correct report",
 "If the evaluate tool exits successfully, its standard output and its CSV file are complete and correct: the right counts, one mean per requested metric, and for every query of the predictions each metric's value according to its published definition, at the requested cut-off and relevance level. "
 "This holds whatever reads and writes are short, interrupted or failing on the way; when the tool cannot do this it exits with a failure. On well-formed input, without failing operations, it succeeds.",
 ["fault_sequences", "inputs", "configurations"],
 "every sequence of short, interrupted and failing opens, reads and writes and every disk-full point; every pair of well-formed input files, metric list and separator",
 "The tests run one pair of files on a healthy system and compare rounded means of some metrics; per-query values in the CSV, unusual queries and every fault path are unreached.",
 ["elinor-cli/src/bin/evaluate.rs", "elinor-cli/src/lib.rs", "src/lib.rs", "src/metrics.rs", "src/metrics"],
 [("report", "main in evaluate.rs"), ("metrics", "evaluate and the compute_* functions")],
 observe="exit status, standard output, CSV file")
prop("C03", "Compare reports success only with a complete and correct report",
 "If the compare tool exits successfully, its report is complete and correct for the input files: basic statistics and means; for two systems the paired t-test with its effect size, p-value and margin of error; for more systems the system means with margin of error, the two-way ANOVA table and the pairwise effect sizes; and randomised p-values consistent with the exact distribution. "
 "This holds whatever reads and writes are short, interrupted or failing on the way; when the tool cannot do this it exits with a failure. On well-formed tables over the same topics on which all the tests are defined, without failing operations, it succeeds.",
 ["fault_sequences", "inputs", "configurations"],
 "every sequence of short, interrupted and failing opens, mappings, reads and writes; every set of score tables over the same topics; both print modes, both separators",
 "The tests only check that the tool exits successfully on three fixed files; none of the numbers it prints is looked at and no fault occurs.",
 ["elinor-cli/src/bin/compare.rs", "src/statistical_tests/student_t_test.rs", "src/statistical_tests/two_way_anova_without_replication.rs", "src/statistical_tests/tukey_hsd_test.rs"],
 [("report", "compare_two_systems, compare_multiple_systems, print_dataframe in compare.rs"), ("statistics", "src/statistical_tests/*")],
 observe="exit status and standard output")
prop("C04", "Interrupted pipelines can simply be rerun: stale output never survives",
 "After any crash, kill or failure of the convert or evaluate tool at any point, running the same commands again without faults produces byte for byte the outputs of a run that was never interrupted, whatever partial, longer or unrelated files the interruption left behind at the output paths. "
 "The rerun needs nothing that the interrupted run left behind, and the input files are unharmed.",
 ["crash_points", "fault_sequences", "histories"],
 "every crash point at a system-call boundary or inside a torn write, repeated crashes of several steps, every earlier content of the output paths",
 "The tests run each step once, to completion, into an empty directory; no crash and no pre-existing output ever occurs.",
 ["elinor-cli/src/bin/convert.rs", "elinor-cli/src/bin/evaluate.rs"],
 [("output creation", "File::create in convert.rs and evaluate.rs")],
 observe="bytes of output files and standard output after the rerun")
prop("C05", "Reports do not depend on thread scheduling, CPU count, hash seeds or clock",
 "For the same inputs, all output of the three tools apart from the randomised p-values is byte for byte the same under every interleaving of their worker threads, every number of CPUs, every OS entropy stream, every clock and every way the system splits or interrupts reads and writes.",
 ["schedules", "configurations", "fault_sequences"],
 "every schedule of the worker threads, number of CPUs, entropy stream (hash seeds), clock jump, spurious wake-up, and benign I/O splitting; every input",
 "A test run observes one schedule, one CPU count and one hash seed; a row order or a summation order that depends on them shows up as an unreproducible difference at best.",
 ["elinor-cli/src/bin/compare.rs", "elinor-cli/src/bin/evaluate.rs", "elinor-cli/src/bin/convert.rs"],
 [("parallel data frames", "CsvReadOptions, lazy joins and means in compare.rs")],
 observe="standard output and output files")
prop("C06", "The tools modify nothing but the named output file",
 "Whatever the input and whatever faults occur, the convert and evaluate tools create or modify no file but the output they were told to write, the compare tool creates or modifies none at all, and no tool deletes, renames or truncates an input.",
 ["fault_sequences", "inputs", "crash_points"],
 "every fault sequence and crash point, every input including malformed ones, every set of files around the inputs and outputs",
 "The tests never look at the file system beyond the output and never provoke an error path in which a temporary or input file could be left or damaged.",
 ["elinor-cli/src/bin/convert.rs", "elinor-cli/src/bin/evaluate.rs", "elinor-cli/src/bin/compare.rs"],
 [("file access", "File::open/File::create in the tools")],
 observe="the file system and every path-changing system call")
prop("C07", "Compare pairs scores by topic, in any row order, and refuses other topics",
 "The comparison pairs the scores of the same topic, however the rows (and the metric columns) of each file are ordered and however the join is scheduled: reordering the rows of any file changes no test result beyond rounding. "
 "Files whose sets of topics differ, or in which a topic occurs twice, are refused with a failure instead of being compared in part; metrics that not all files have are left out.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "every order of rows and columns in each file, every lost, extra or duplicated topic row, every schedule of the join's worker threads",
 "The tests compare files with identical row order and identical topics, and look at the exit status only; pairing by position or dropping topics would pass.",
 ["elinor-cli/src/bin/compare.rs"],
 [("topic check and left joins on the topic column", "main, compare_two_systems, compare_multiple_systems")],
 observe="exit status and standard output")
prop("C08", "The files one tool writes are read back exactly by the next tool",
 "Everything that one step of the pipeline writes, the next step reads back with the same identifiers and the same values, whatever characters the identifiers hold, whichever separator is used and however reads and writes are split: evaluating converted files gives the scores of evaluating the original judgements directly, and comparing evaluated files uses exactly the per-query scores that were written. ",
 ["inputs", "configurations", "fault_sequences"],
 "every identifier (quotes, backslashes, commas, unicode, digits only), every finite score, both separators; short and interrupted reads and writes and arbitrary worker schedules between the steps",
 "The tests pipe one plain file set through the first two steps and look at exit statuses only; identifiers and scores that need escaping, rounding or quoting are not in them.",
 ["elinor-cli/src/bin/convert.rs", "elinor-cli/src/bin/evaluate.rs", "elinor-cli/src/bin/compare.rs", "src/relevance.rs"],
 [("JSON lines", "serde_json::to_writer in convert.rs, serde_json::from_str in evaluate.rs"), ("CSV", "CsvWriter in evaluate.rs, CsvReadOptions in compare.rs")],
 observe="outputs of the whole pipeline against the library on the original input")

# ------------------------------------------------------------------ pure functions (not applicable)
prop("M01", "Every metric equals its published definition for every ranking",
 "For every query the value of each metric equals its published definition (success, precision, recall, F1, R-precision, average precision, reciprocal rank, Bpref, DCG and nDCG in both gain variants) at the given cut-off and relevance level.",
 ["inputs"], "every judged set, ranking, cut-off and relevance level", "The tests sample a few rankings per metric.",
 ["src/metrics"], [("metrics", "compute_* functions")])
prop("M02", "Normalised metrics stay in [0,1] and are 1 exactly for ideal rankings",
 "Every normalised metric is a number in [0,1] for every ranking, and nDCG, R-precision and average precision reach 1 exactly for ideal rankings.",
 ["inputs"], "every judged set and ranking", "The tests sample a few rankings.",
 ["src/metrics"], [("metrics", "compute_* functions")])
prop("M03", "Cut-off zero means no cut-off, and unjudged documents are not relevant",
 "For every metric with a cut-off, zero means the whole ranking, documents without a judgement count as not relevant, and documents beyond the cut-off have no influence.",
 ["inputs"], "every judged set, ranking and cut-off", "The tests sample a few cut-offs.",
 ["src/metrics"], [("cut-off", "k handling in compute_*")])
prop("M04", "Printed metric names parse back to the same metric",
 "Printing a metric and parsing the name gives the same metric, and names that no metric prints are rejected.",
 ["inputs"], "every metric and every string", "The tests sample a few names.",
 ["src/metrics.rs"], [("names", "Metric::from_str, Display")])
prop("M05", "Evaluation covers exactly the predicted queries and rejects unknown ones",
 "The evaluation holds one score per query of the predictions, its mean and variance are those of the scores, and a predicted query without judgements is an error.",
 ["inputs"], "every pair of stores", "The tests sample a few stores.",
 ["src/lib.rs"], [("evaluation", "evaluate")])
prop("A01", "Student's t-test equals its textbook formulas for every paired sample",
 "Mean, variance, effect size, t statistic, two-sided p-value and margin of error of the paired t-test equal their textbook formulas, swapping the systems flips signs and keeps the p-value, and a sample without variance is an error.",
 ["inputs"], "every paired sample and significance level", "The tests sample a few inputs.",
 ["src/statistical_tests/student_t_test.rs"], [("t-test", "StudentTTest")])
prop("A02", "ANOVA decomposes the variation and matches its textbook formulas",
 "Between-system, between-topic and residual variation are non-negative and sum up to the total, and the F statistics, p-values and margin of error equal their textbook formulas.",
 ["inputs"], "every sample matrix", "The tests sample a few matrices.",
 ["src/statistical_tests/two_way_anova_without_replication.rs"], [("ANOVA", "TwoWayAnovaWithoutReplication")])
prop("A03", "Tukey HSD effect sizes are antisymmetric standardised mean differences",
 "The effect size of each pair of systems is their mean difference divided by the residual standard deviation, antisymmetric with a zero diagonal.",
 ["inputs"], "every sample matrix", "The tests sample a few matrices.",
 ["src/statistical_tests/tukey_hsd_test.rs"], [("effect sizes", "TukeyHsdTest")])
prop("A04", "Pairing of score maps is complete, ordered, and refuses mismatched keys",
 "Pairs or tuples taken from score maps hold exactly one entry per key, in key order, and maps with different keys are an error.",
 ["inputs"], "every list of maps", "The tests sample a few maps.",
 ["src/statistical_tests.rs"], [("alignment", "pairs_from_maps, tuples_from_maps")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

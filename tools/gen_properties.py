"""Writes properties.jsonl (kept as a script so the text stays readable and diffable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))


AGG = "bcause/learning/aggregator/aggregator.py"
EM = "bcause/learning/parameter/expectation_maximization.py"
GD = "bcause/learning/parameter/gradient.py"
PAR = "bcause/learning/parameter/parameter.py"
MULTI = "bcause/inference/causal/multi.py"
CAUS = "bcause/inference/causal/causal.py"
CVE = "bcause/inference/causal/elimination.py"
VE = "bcause/inference/probabilistic/elimination.py"
PROB = "bcause/inference/probabilistic/probabilistic.py"
LAP = "bcause/inference/probabilistic/datainference.py"
PGM = "bcause/models/pgmodel.py"
CM = "bcause/models/cmodel.py"
BN = "bcause/models/bnet.py"
MULT = "bcause/factors/mulitnomial.py"
SIMP = "bcause/models/transform/simplification.py"
COMB = "bcause/models/transform/combination.py"
BW, BR = "bcause/readwrite/bnwrite.py", "bcause/readwrite/bnread.py"
SW, SR = "bcause/readwrite/scmwrite.py", "bcause/readwrite/scmread.py"
PGMPY = "bcause/conversion/pgmpy.py"

prop("C01", "Parallel learning equals sequential learning under every thread schedule",
     "With the same seed, learning several models (EM or gradient) with the parallel option on yields the very models, in the "
     "very order, that learning them sequentially yields, whatever the number of worker threads and however they interleave. "
     "This holds for the learner aggregators and for the EM and gradient causal engines built on them, and parallel learning always terminates.",
     ["schedules", "inputs", "configurations"],
     "every interleaving of the worker threads, every worker count, model, data set, number of runs and seed",
     "the tests run parallel learning at most under the one schedule the OS happens to give and never compare it with the sequential result",
     [AGG, EM, GD, MULTI, CM], [("joblib threading pool, ordered results", AGG), ("random starts drawn per run", CM)],
     [("learned models", "one learned model per run", AGG), ("process-wide numpy generator", "source of the random starts", MULT)],
     ["aggregator.models", "engine.models"])

prop("C02", "Learner records stay aligned with the learned models, across failed runs too",
     "Whenever no run is under way, the aggregator exposes exactly one learner record per learned model, in the same order, the last model of a "
     "record's evolution being that very model and its first one being that run's own random start. Successive runs accumulate exactly the number "
     "of models asked for, and a run that fails or is interrupted adds no model and no record; the gradient engine's per-model evolution follows the same alignment.",
     ["schedules", "fault_sequences", "histories"],
     "every sequence of runs, every schedule of the workers and every worker failure or interruption point",
     "no test reads the learner records at all, and failing workers or completion orders cannot be provoked from a test",
     [AGG, PAR, MULTI], [("record kept per generated model", AGG), ("evolution recorded at every update", PAR)],
     [("learner records", "the learner object of each run", AGG)], ["aggregator.learn_objects", "aggregator.models", "GDCC.get_model_evolution"])

prop("C03", "Every learning iteration keeps a valid model and EM never loses likelihood",
     "In every model a learner exposes (EM: after each iteration; gradient: its result), the learned distributions of the exogenous variables are proper (no negative or undefined entry, sum one), "
     "and the structural equations, the domains, the graph and the variables not being learned are those of the prior. For fully observed endogenous data compatible with the equations, each EM iteration is exactly the expected-frequency update, "
     "so it never has less data likelihood than the one before; a gradient result is never less likely than its start, and a run never exceeds the iteration limit it was given.",
     ["inputs", "schedules", "histories"],
     "every model, data set, random start, iteration limit, subset of trainable variables, and interleaving of learners that share the data",
     "tests check the final numbers of two fixed seeds; ascent and validity are claims about each iteration from each start",
     [EM, PAR, GD, "bcause/util/datadeps.py"], [("expectation and maximisation steps", EM), ("model update", PAR)],
     [("current model and evolution", "model after each iteration", PAR)], ["learner.model", "learner.model_evolution"])

prop("C04", "A learner interrupted at any instant can be inspected, resumed and rerun",
     "If learning is interrupted or fails at any instant, the learner still exposes a complete valid model, namely the last completed "
     "iteration (or the start), and its evolution contains only completed iterations. Further steps continue exactly as if the interruption had not happened, "
     "and running the same learner again gives exactly what a fresh learner with that start gives.",
     ["fault_sequences", "crash_points", "histories"],
     "every interruption point, error kind and sequence of step, run and rerun calls",
     "tests never interrupt or reuse a learner; the interruption point is a quantifier over every instruction of an iteration",
     [EM, PAR, GD], [("model replaced only after a complete update", PAR), ("state initialised at the start of a run", EM)],
     [("converged variables, evolution", "per-run learner state", EM)], ["learner.model", "learner.model_evolution"])

prop("C05", "Operations leave the caller's inputs and process-wide state as they found them",
     "Inference, learning, sampling, model transformation, saving and reading leave the caller's data frames, models, lists and dictionaries unchanged in "
     "content, and leave the process as found: warning filters and hooks, numerical error handling, default storage type, recursion limit, working directory, environment and output streams. "
     "This holds for completed, failed and interrupted calls and for any interleaving of concurrent calls; sequential queries, conversions and learning on fixed starts also consume no randomness.",
     ["schedules", "fault_sequences", "inputs"],
     "every operation, every interleaving of concurrent operations, every interruption point",
     "tests look at results only, never at their inputs or global state afterwards, and run one operation at a time",
     [EM, GD, MULT, MULTI, PGM, CM, SIMP], [("copies instead of in-place updates", EM), ("numerical warnings handled around factor division", MULT)],
     [("warnings module state", "process-wide filters and showwarning", MULT), ("caller's DataFrame", "training data", EM)],
     ["inputs compared before and after", "warnings, numpy errstate, DataStore default"])

prop("C06", "Probabilistic queries are exact whatever was asked, or went wrong, before",
     "Every answer of the probabilistic engines equals the brute-force answer: variable elimination on a network gives P(target | evidence), or P(target | conditioning, evidence), of the joint distribution, for every "
     "storage type and elimination heuristic; the data engine gives the empirical frequencies. The answer does not depend on earlier queries on that engine, including rejected, failed and interrupted ones.",
     ["histories", "inputs", "fault_sequences", "configurations"],
     "every model, target, conditioning set, evidence of positive probability, heuristic and storage type, and every history of earlier calls and faults",
     "tests ask a handful of queries of one network, each on a fresh state; histories, orderings and storage types multiply without bound",
     [PROB, VE, LAP, SIMP, "bcause/inference/ordering.py", "bcause/util/graphutils.py", MULT], [("relevance pruning", SIMP), ("elimination loop and normalisation", VE), ("compile resets the query state", PROB)],
     [("compiled query", "target, evidence, pruned model", PROB)], ["engine.query"])

prop("C07", "Causal and counterfactual queries are exact whatever happened before",
     "Interventional, counterfactual (one or several parallel worlds) and PN, PS, PNS answers of the causal engine equal those obtained by enumerating the exogenous states and solving the "
     "structural equations, for every fully specified model, intervention and factual evidence of positive probability. The answer does not depend on earlier queries on that engine, including rejected, failed and interrupted ones.",
     ["histories", "inputs", "fault_sequences"],
     "every structural causal model (including one that already carries an intervention), query, evidence and history of earlier calls and faults",
     "tests check a few queries on two fixed models; worlds, interventions and histories combine without bound",
     [CAUS, CVE, CM, COMB, "bcause/util/graphutils.py", "bcause/util/domainutils.py"], [("intervention", CM), ("twin network fusion", COMB), ("query compilation", CAUS)],
     [("compiled causal query", "intervened model and inner engine", CAUS)], ["causal_query", "counterfactual_query", "prob_necessity", "prob_sufficiency", "prob_necessity_sufficiency"])

prop("C08", "Concurrent callers over shared models and data get exact answers",
     "Several threads that each use their own engines, samplers, learners or transformations over the same shared model and data obtain the answers they would have obtained alone, whatever the interleaving. "
     "An error or interruption in one thread changes nothing for the others.",
     ["schedules", "fault_sequences", "inputs"],
     "every interleaving of the threads, every mix of operations and every failure in one of them",
     "no test uses two threads, and the OS scheduler cannot be made to visit chosen interleavings",
     [VE, CAUS, MULT, MULTI, PGM, CM, EM, "bcause/util/datadeps.py"], [("engines keep their query state per object", PROB), ("factors and models are not modified by queries", MULT)],
     [("shared model", "factors, graph, domains", PGM)], ["answers per thread"])

prop("C09", "Interval answers are the exact envelope of the current set of models",
     "At every moment the multi-model engine's answer is exactly the cell-wise minimum and maximum (or the list, when intervals are off) of the answers of the models it currently holds, after any sequence of setting, adding, querying and failed or interrupted calls. "
     "Adding models never narrows an interval, setting replaces all of them, and the lists the caller passed stay the caller's own.",
     ["histories", "fault_sequences", "inputs"],
     "every history of set, add, toggle and query calls with failures between them",
     "tests compile once and query; stale compiled state appears only in longer histories",
     [MULTI, "bcause/factors/imprecise.py", CAUS], [("recompilation after the model set changed", MULTI), ("envelope of precise results", "bcause/factors/imprecise.py")],
     [("model set, per-model engines", "current and compiled models", MULTI)], ["query", "causal_query", "counterfactual_query", "prob_necessity..."])

prop("C10", "Learning engines: compile, retry and incremental compile keep their promises",
     "An EM or gradient causal engine answers from exactly the requested number of learned models, learned once: after a successful compile later queries do not learn again. Each incremental step adds exactly step-size models to the ones before, never alters or drops earlier ones, "
     "and after finitely many steps reaches the requested number; a failed or interrupted compile leaves the earlier models and their evolution in force, and a retry succeeds.",
     ["histories", "fault_sequences", "schedules"],
     "every sequence of compile, incremental compile and query calls, every failure or interruption point, every worker schedule",
     "tests compile once per engine and never fail one; the promises are about histories",
     [MULTI, AGG, EM, GD], [("compile replaces the model set", MULTI), ("incremental compile loop", MULTI)],
     [("aggregator and model set", "outcome of learning", MULTI)], ["engine.models", "compile_incremental", "query", "get_model_evolution"])

prop("C11", "A save is all or nothing: no crash or I/O error damages an existing file",
     "Whenever a save is cut short, by a crash of the process or of the machine, a full disk, an I/O error, a failing output stream or an interruption at any instant, the target path holds either exactly its previous content (or is absent if it was absent) or the complete new model, never anything else. "
     "A save that could not store the model raises an error, and when several savers race for one path the file is always one of their complete models.",
     ["crash_points", "fault_sequences", "schedules"],
     "every crash point and fault of every file operation of a save, in each format, and every interleaving of concurrent savers",
     "tests save to a healthy disk once and never crash, fail or interrupt a save",
     [BW, SW, PGM], [("serialisation and file replacement", BW)],
     [("target file", "previous or new model", BW)], ["bytes at the target path after the fault"])

prop("C12", "An acknowledged save reads back as the same model",
     "When saving reports success, reading the file back, also after a restart of the process, gives the same model: same graph, same domains (for formats that carry names and states; by position otherwise), and the same probabilities and equations up to the precision written. "
     "This holds for every model, parent count and order, probability magnitude and format (UAI, BIF, XMLBIF; Bayesian and structural causal), for any sequence of saves and reads over the same paths.",
     ["inputs", "histories", "crash_points"],
     "every model expressible in the format, every history of saves over the same and other paths, restart after any acknowledged save",
     "tests round-trip one network with friendly numbers; corner cases are combinatorial (parents, orders, exponents, isolated nodes)",
     [BW, BR, SW, SR, PGMPY, PGM], [("writers", BW), ("readers", BR), ("conversion to and from pgmpy", PGMPY)],
     [("file content", "the saved model", BW)], ["save, read"])

prop("C13", "Reading a damaged file or a failing disk raises an error, never another model",
     "Reading a UAI or BIF-family file whose content was cut off before its end (at a token boundary; at a line boundary for the BIF family), with or without zeros in place of the lost part, or whose reading hits an I/O error, raises an ordinary error; it never returns a model that differs from the one saved, never hangs, and never ends a caller's iteration silently. "
     "Short reads that deliver all the data eventually change nothing, and a failed read does not affect later reads.",
     ["crash_points", "fault_sequences", "inputs"],
     "every truncation point, every I/O error position and every split of the data into short reads",
     "tests read intact files from a healthy disk",
     [BR, SR, PGMPY, PGM], [("token reader", BR), ("model checks on construction", PGM)],
     [("file content", "possibly truncated model", BR)], ["read"])

prop("C14", "Sampling never produces an impossible record, whatever the random stream",
     "Every sampled record assigns every variable a state of its domain and has positive probability: a state of probability zero is never drawn and in a structural causal model every record satisfies the structural equations. "
     "This holds for every outcome of the random source including its extremes. The data depends only on the model and the stream, exactly n records are returned, and over independent streams records occur independently with the frequencies of the model.",
     ["inputs", "fault_sequences"],
     "every model, sample size and random stream, including adversarial streams that sit on the borders",
     "tests sample once from one seed; a zero-probability state is only drawn for rare draws",
     ["bcause/models/sampling.py", MULT, "bcause/factors/deterministic.py", PGM, CM], [("forward sampling in topological order", "bcause/models/sampling.py"), ("inverse-CDF draw per factor", MULT)],
     [("sampled records", "one per draw", "bcause/models/sampling.py")], ["model.sample", "factor.sample", "sample_conditional"])

prop("C15", "A seed reproduces the run in any process, after any history, at any speed",
     "After the library's seed function is called, the same program (building, sampling, randomising, learning sequentially or in parallel, querying, saving) gives the same results in every process: independent of hash randomisation, of what ran before in the process, of wall-clock time and elapsed time. "
     "Saved bytes of a given model and sampled data are identical, learned and inferred numbers equal up to rounding.",
     ["histories", "configurations", "schedules"],
     "every program of library calls, hash seed, prior history and clock behaviour, including clock jumps",
     "the test suite pins the hash seed and runs each program in one process",
     ["bcause/util/randomUtil.py", CM, BN, AGG, "bcause/models/sampling.py", MULT, "bcause/util/domainutils.py"], [("seed function", "bcause/util/randomUtil.py"), ("draws in a fixed variable order", CM)],
     [("process-wide generators", "numpy and random", "bcause/util/randomUtil.py")], ["results of the whole program"])

prop("C16", "Models change only by complete, accepted updates; derived models are independent",
     "An update a model rejects, or that is interrupted, leaves the model exactly as it was, variable by variable: a variable has its old or its new factor, never something else, and graph and domains stay consistent with the factors. A factor for the wrong variable, with the wrong parents or states, or (for an equation) not deterministic is rejected. "
     "Copies, interventions, randomised, renamed, converted and pruned models are semantically what they should be, and no later change to one of original and derived model shows in the other; randomising keeps equations degenerate and distributions proper.",
     ["histories", "fault_sequences", "inputs"],
     "every history of updates, derivations and rejected or interrupted updates over a family of models",
     "tests derive a model and look at the result, never at the relatives afterwards",
     [PGM, CM, BN, SIMP, COMB, "bcause/models/transform/conversion.py", MULT], [("checks before assignment", PGM), ("new objects on derivation", CM)],
     [("factors, domains, graph", "model state", PGM)], ["model.factors", "model.domains", "model.graph"])

# -------------------------------------------------------------------------------- not decided here
prop("C17", "Factor algebra agrees across storage types",
     "Multiplication, addition, subtraction, division, marginalisation, maximisation and restriction of factors give the same function for every storage type and variable order.",
     ["inputs"], "every pair of factors, storage types and variable orders", "tests use a handful of fixed factors",
     ["bcause/factors/values/operations.py", "bcause/factors/values/numpyops.py", "bcause/factors/values/listops.py", "bcause/factors/values/treedictops.py"],
     [("operation sets", "bcause/factors/values/operations.py")])
prop("C18", "Graph relevance analysis is sound and complete for d-separation",
     "The d-separated, barren and disconnected node sets computed for a query are exactly those the graph implies.",
     ["inputs"], "every DAG and query", "tests check a few graphs", ["bcause/util/graphutils.py", SIMP], [("graph utilities", "bcause/util/graphutils.py")])
prop("C19", "The c-component factorisation reproduces the observational distribution",
     "The product of the Q-factors of a structural causal model equals its distribution over the endogenous variables, and the maximum log-likelihood computed from data is an upper bound of the log-likelihood of every compatible model.",
     ["inputs"], "every structural causal model and data set", "tests check one model", ["bcause/models/info.py", CM], [("Q-factors", "bcause/models/info.py")])
prop("C20", "Learned intervals converge to the true identification bounds",
     "As the number of runs grows, the interval learned from data contains the exact bounds of the query, and for identifiable queries collapses to the identified value.",
     ["inputs", "configurations"], "every model, data set and number of runs", "tests check two seeds with loose tolerances", [MULTI, EM, GD], [("random restarts", AGG)])
prop("C21", "Canonical structural equations cover every response function exactly once",
     "A canonical structural equation enumerates every function from the endogenous parents to the variable exactly once over the exogenous states.",
     ["inputs"], "every domain", "tests check one domain", ["bcause/factors/deterministic.py", "bcause/util/domainutils.py"], [("canonical construction", "bcause/factors/deterministic.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))

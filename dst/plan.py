"""Per check: number of simulated runs per tier, time caps, and what the evidence says about it."""
_SIM = "bcause (all of it), numpy, pandas, networkx, scipy, pgmpy"
_THR = "joblib threading backend, multiprocessing.pool.ThreadPool, threading.Thread"
_STUB_CLOCK = "clocks and sleep (virtual time)"
_STUB_SCHED = "thread scheduler, locks and queues (simulated; real threads parked one at a time)"
_STUB_FS = "file system calls (pass-through to a scratch directory with a shadow journal, faults and crash images)"
_STUB_RNG = "numpy random generator (seeded; adversarial variates in some runs)"

PLAN = {}


def plan(cid, quick, thorough, rule, measure, real, stub, assumptions, level="exploration", cap=(300, 3000), cross=False):
    PLAN[cid] = dict(runs=dict(quick=quick, thorough=thorough), cap=dict(quick=cap[0], thorough=cap[1]), rule=rule, measure=measure,
                     real=real, stub=stub, assumptions=assumptions, level=level, cross=cross)


plan("C06", 4000, 150000,
     "a random network or SCM (storage type, states, axis orders), 1-3 engines over it and a history of 4-10 calls: queries, rejected calls, calls interrupted at a random bcause call, reruns; "
     "non-trivial if the model has an edge",
     "distinct (heuristic, storage, model shape) and (call kind, query shape, storage) classes reached",
     [_SIM], [_STUB_CLOCK, "failures: KeyboardInterrupt/MemoryError raised at bcause call sites"],
     ["evidence has positive probability; conditioning cells of probability zero are not compared",
      "interruptions are not delivered inside cleanup code (finally, except, __exit__)", "answers compared to 1e-8"])

plan("C07", 1800, 60000,
     "a random SCM of up to five endogenous variables (possibly already intervened), 1-2 engines and a history of 3-7 interventional, counterfactual (up to four worlds, up to four intervened variables), PN/PS/PNS queries with given or identified states, rejected calls and interrupted calls; "
     "non-trivial if at least one query was answered",
     "distinct (call kind, query kind and shape, storage) and model-shape classes reached",
     [_SIM], [_STUB_CLOCK, "failures: KeyboardInterrupt/MemoryError raised at bcause call sites"],
     ["factual evidence has positive probability", "variable names do not collide with the suffixes _1, _2 of counterfactual worlds",
      "interruptions are not delivered inside cleanup code", "answers compared to 1e-8"])

plan("C12", 1800, 60000,
     "1-3 random networks/SCMs, 1-3 paths and a history of 3-8 saves, reads, conversions, rejected calls, with legal short transfers; "
     "non-trivial if at least one save was read back",
     "distinct (model kind, format, path type, call, chunk size, storage, shape) classes of saves read back",
     [_SIM], [_STUB_CLOCK, _STUB_FS],
     ["names and states are alphanumeric words, integers or booleans", "UAI carries positions, not names; BIF and XMLBIF carry states as text",
      "a second process (fork of the pristine image) does the reading after a restart"])

plan("C11", 2400, 80000,
     "a model, a format and an existing target (none, model, other bytes, symlink), saved while: the process is killed or power is lost after any file operation, an operation fails "
     "(EIO, ENOSPC, EACCES, ..., full disk, torn write), an interruption or MemoryError hits a bcause call, stdout breaks, or 2-3 savers and readers race under a seeded schedule; "
     "non-trivial if at least one file operation was examined or failed",
     "distinct (mode, format, previous content, sequence of file operations, faults and where they hit, contents observed)",
     [_SIM], [_STUB_CLOCK, _STUB_FS, _STUB_SCHED],
     ["a file system where rename is atomic, name-space operations reach the disk in order, and unsynced file content may be lost, cut or zeroed by a power loss",
      "interruptions are not delivered inside cleanup code", "saves go through Python's open/os functions"])

plan("C13", 1600, 60000,
     "1-2 saved models and a history of 4-9 reads: of the intact file (with short transfers), of the file cut at a token (UAI) or line (BIF, XMLBIF) boundary, possibly zero-filled, "
     "with an I/O error or interruption at a random operation or bcause call; non-trivial if a read was damaged or failed",
     "distinct (kind of disturbance, model kind, format, outcome, position decile, transfer size, operations hit)",
     [_SIM], [_STUB_CLOCK, _STUB_FS],
     ["cuts inside a number are not considered (an UAI file cut inside its last number is a valid file), nor cuts inside a BIF/XMLBIF line",
      "interruptions are not delivered inside cleanup code"])

plan("C03", 1800, 60000,
     "a random SCM, data drawn from it, a random start; EM or gradient learning, alone or through an aggregator (sequential or parallel under a seeded schedule), with a random iteration limit; "
     "non-trivial if at least one iteration is allowed",
     "distinct thread schedules and (learner, model shape, limit, data size) classes",
     [_SIM, _THR], [_STUB_CLOCK, _STUB_SCHED],
     ["data over all endogenous variables, possible under the equations and the start", "learned variables are exogenous; models use the default storage type",
      "EM compared with exact enumeration to 1e-7; a variable that moved by less than 1e-6 may be frozen (converged)",
      "gradient learner: one exogenous parent per endogenous variable, distributions proper to 1e-5"])

plan("C04", 1800, 40000,
     "a learner (EM with a failing engine seam, or gradient) and a history of 2-6 runs on one or two data sets, single steps (also with new data), rejected calls, each possibly cut short by an exception at a random "
     "bcause call or by the engine's failure; every state is compared with the undisturbed evolution; non-trivial if a call was cut short",
     "distinct (learner, call, kind of failure, model size, limit) classes",
     [_SIM], [_STUB_CLOCK, "failures: KeyboardInterrupt/MemoryError raised at bcause call sites (factor, model, utility and conversion layers), engine passed to EM"],
     ["a failure while a run is being set up (before its first iteration) promises only that a rerun works",
      "interruptions are raised by the factor, model and utility code the learners call, not between the learner's own bookkeeping statements",
      "tables compared to 1e-6 (a resumed run does not apply the convergence test)"])

plan("C01", 400, 20000,
     "a random SCM, data, start and seed; an aggregator or learning engine asked for 2-5 models (1-2 runs) with the parallel option under a seeded schedule with 2-6 worker threads, "
     "compared with the same program run sequentially; non-trivial if threads actually ran",
     "distinct thread schedules (hash of the sequence of switches)",
     [_SIM, _THR], [_STUB_CLOCK, _STUB_SCHED],
     ["the number of processors reported to joblib is the simulator's choice", "switches happen at the lines and calls of bcause code and at every blocking operation; numpy calls are atomic",
      "learned tables compared to 1e-9 (gradient 1e-7)"])

plan("C02", 450, 20000,
     "an aggregator or gradient engine and a history of 2-5 runs, resets, rejected calls, runs cut short by an exception in the calling thread, in a worker thread, or while the caller waits for the workers; "
     "non-trivial if a run failed or several models were learned",
     "distinct thread schedules and (learner, call, kind of failure, parallel, workers) classes",
     [_SIM, _THR], [_STUB_CLOCK, _STUB_SCHED, "failures: KeyboardInterrupt in the calling thread, MemoryError in any thread (factor, model, utility layers)"],
     ["records are compared whenever no run is under way", "KeyboardInterrupt is only delivered to the calling (main) thread, as CPython does"])

plan("C09", 2000, 60000,
     "2-6 random models over one graph, a multi-model engine and a history of 5-11 calls: setting, adding, clearing, the caller changing its own list, switching intervals on and off, compiling, queries, "
     "rejected calls, calls cut short by an exception at a random bcause call or by a failing precise engine; non-trivial if a query was answered or failed",
     "distinct (call, argument form, query kind, kind of failure, number of models) classes",
     [_SIM], [_STUB_CLOCK, "failures: KeyboardInterrupt/MemoryError raised at bcause call sites, precise engine passed by the caller"],
     ["evidence has positive probability in every model of the pool", "answers compared to 1e-8"])

plan("C10", 700, 30000,
     "an EM or gradient engine (sequential or parallel under a seeded schedule) and a history of 2-9 calls: compile, incremental compile with a step size, queries, rejected calls, each possibly cut short by an "
     "exception in the calling thread, in a worker or while waiting for workers; non-trivial if models were learned or a call failed",
     "distinct thread schedules and (engine, call, step, kind of failure, requested number, parallel) classes",
     [_SIM, _THR], [_STUB_CLOCK, _STUB_SCHED, "failures: KeyboardInterrupt in the calling thread, MemoryError in any thread (factor, model, utility layers)"],
     ["a failed compile may also leave the complete new set of models (all or nothing)", "queries are judged against brute force on the models the engine exposes"])

plan("C08", 900, 30000,
     "2-4 threads, each making 1-3 calls (queries of all engines, learners, samplers, factor operations, counts, transformations, saves) with objects of its own over one shared model, list of models and data set, under a seeded schedule, "
     "sometimes with an exception injected in one thread; every result is compared with the result of the call alone; non-trivial if at least one preemption happened",
     "distinct thread schedules and (set of operations, number of threads) classes",
     [_SIM, _THR], [_STUB_CLOCK, _STUB_SCHED, "failures: MemoryError/RuntimeError in one thread"],
     ["an engine is used by one thread at a time", "results of operations that draw random numbers are judged for validity only (threads share the global generator)",
      "switches happen at the lines and calls of bcause code and at blocking operations; numpy and pandas calls are atomic"])

plan("C05", 1200, 40000,
     "a world (models, lists, data frames, dictionaries) and 2-6 calls from a catalogue of about 40 operations, one after another (each possibly interrupted or rejected) or in 2-4 threads under a seeded schedule, "
     "with the caller's own warning filters and numpy error settings; everything is fingerprinted before and after; non-trivial if a call ran",
     "distinct thread schedules and (mode, operation, cut short, settings) classes",
     [_SIM, _THR], [_STUB_CLOCK, _STUB_SCHED, "failures: KeyboardInterrupt/MemoryError at bcause call sites"],
     ["fingerprints read the public content of models, data frames and arguments and the process state named in the property",
      "lazily filled caches inside objects are not content", "the state of the random generators is compared for operations that need no randomness"])

plan("C14", 1600, 60000,
     "a random network or SCM (states of probability zero at any place, tiny probabilities, all storage types) and 2-5 sampling calls (model, endogenous part, single factors, conditional) drawing from a scripted stream "
     "(extremes of [0,1), cumulative borders and their neighbours), possibly interrupted and repeated; or thousands of records from a seeded stream compared with the exact distribution; non-trivial if a call was made",
     "distinct (call, size, form, storage, model shape, kind of stream) classes",
     [_SIM], [_STUB_CLOCK, _STUB_RNG, "failures: KeyboardInterrupt/MemoryError raised at bcause call sites"],
     ["the random source is numpy's or Python's process-wide generator", "frequencies are compared at 6.5 standard deviations plus 6 counts",
      "deterministic (function) factors cannot be sampled by design and are cast"])

plan("C15", 120, 3000,
     "a program of 2-6 library calls (sampling, randomising, learning sequentially and in parallel, queries, saves, transformations) after the seed call; every program runs twice in each of 8 processes with different hash seeds, "
     "each time after another random history (calls, interrupted calls, other seeds), thread schedule, number of workers and clock (rate and jumps); non-trivial if the program ran",
     "distinct thread schedules and (call, options, length) classes",
     [_SIM, _THR], [_STUB_CLOCK, _STUB_SCHED, "clock rate and jumps", "failures: KeyboardInterrupt/MemoryError in the earlier calls"],
     ["results that are sets by nature (Markov blankets, components) are compared as sets", "numbers are compared to 1e-6 (EM runs 2e-5, gradient runs 2e-4)",
      "the program itself is single-threaded; parallel learning uses worker threads"], cross=True, cap=(300, 3000))

plan("C16", 5000, 200000,
     "a random network or SCM and a history of 3-9 operations over a growing family: accepted factor updates (any axis order, state order, storage), models filled factor by factor, rejected ones (10 kinds), randomising in place (also with extreme variates), "
     "copies, interventions, renamings, conversions, prunings, each possibly interrupted at a random bcause call; after every operation every model of the family is compared with its reference; non-trivial if all operations ran",
     "distinct (operation, model kind, storage, family size, interrupted, stream) classes",
     [_SIM], [_STUB_CLOCK, _STUB_RNG, "failures: KeyboardInterrupt/MemoryError raised at bcause call sites"],
     ["models are changed through set_factor and the randomising methods (not by editing graph, factor or domain objects they expose)",
      "interruptions are not delivered inside cleanup code", "with zeros allowed, streams of nothing but zeros are excluded"])

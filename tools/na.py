_P = "no schedule, clock, I/O, crash point or history enters it: it is a pure function of its arguments, so a simulator has nothing to schedule and no fault to inject; "
NA = {
    "C17": _P + "an algebraic identity over factors, for a symbolic or property-based method. (Factor operations run inside every simulated run of C06-C09 and C16, for all storage types, where a wrong result shows as a wrong answer.)",
    "C18": _P + "a graph-theoretic equivalence, for enumeration or proof. (Its use for pruning is inside the simulated runs of C06 and C16.)",
    "C19": _P + "a numerical identity and inequality over one model and one data set.",
    "C20": "a limit statement about the number of learning runs: no finite simulation refutes or supports it, and the seed is the only nondeterminism (C01-C03 and C15 cover what the seed and the schedule may do).",
    "C21": _P + "a finite combinatorial fact per domain size.",
}

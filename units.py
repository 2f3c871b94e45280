"""Which harnesses decide which property (used by run.py and tools/gen_manifest.py)."""
PT = ["src/progress_tracker.cc"]
UNITS = {
    # concurrency engine: real code, all interleavings (mc/conc/mcrt.cc)
    "pool": dict(engine="conc", src="pool.cc"),
    "parfor": dict(engine="conc", src="parfor.cc"),
    "progress": dict(engine="conc", src="progress.cc", repo=PT),
    # sequential engine: real code, all operation sequences / inputs / faults (mc/seq/seq.cc)
    "text": dict(engine="seq", src="text.cc"),
    "cmdline": dict(engine="seq", src="cmdline.cc"),
    "progress_seq": dict(engine="seq", src="progress_seq.cc", repo=PT, flags=["--param=asan-use-after-return=0"]),
    "files": dict(engine="seq", src="files.cc", link=["-Wl,--wrap=malloc,--wrap=realloc,--wrap=calloc,--wrap=_Znwm,--wrap=_Znam"]),
    "guards": dict(engine="seq", src="guards.cc"),
    "readers": dict(engine="seq", src="readers.cc"),
    "nums": dict(engine="seq", src="nums.cc"),
    "csv": dict(engine="seq", src="csv.cc"),
    "algos": dict(engine="seq", src="algos.cc"),
    **{f"pipes{i}": dict(engine="seq", src="pipes.cc", flags=["-O0", f"-DPIPES={i}"]) for i in range(7)},
    "values": dict(engine="seq", src="values.cc", flags=["-O0"]),
    "iterators": dict(engine="seq", src="iterators.cc"),
    **{n: dict(engine="seq", src="dispatch.cc", flags=["-O0", f"-DPART={i}"]) for i, n in ((1, "match"), (2, "verify"), (3, "enums"))},
    **{f"bind{i}": dict(engine="seq", src="bind.cc", flags=["-O0", f"-DPART={i}"]) for i in range(5)},
    "logs": dict(engine="seq", src="logs.cc", repo=["src/timer.cc"]),
    "terminals": dict(engine="seq", src="terminals.cc", flags=["-O0"]),
}

CONC_RULE = ("every interleaving (sleep-set and visited-state reduced) of the threads of a configuration, at every atomic, lock, condition variable, "
             "futex, thread and instrumented memory access of the code under test, up to the preemption and spurious wake-up bounds listed per configuration "
             "(-1: unbounded); every complete schedule is an execution of the real code, checked step by step; states are distinct canonical scheduler states")
SEQ_RULE = ("every vector of choices (operations, arguments, texts over the stated alphabet, environment answers) up to the bounds named in the configuration; "
            "each is one execution of the real code compared with a reference model; states are nodes of the choice tree plus its leaves; "
            "non-trivial executions are those reaching the case the property is about, as marked by the harness")
CONC_TECH = "stateless model checking of the real code: exhaustive interleaving exploration under a controlled scheduler with a happens-before race detector"
SEQ_TECH = "bounded exhaustive exploration of the real code: every operation sequence / input up to the bound against a reference model, under AddressSanitizer and UBSan"
CONC_ASSUME = ["sequentially consistent memory for the exploration; unsynchronised accesses are caught by the happens-before race detector, value reorderings of relaxed atomics are not modelled",
               "thread counts, job counts and preemption bounds as listed per configuration",
               "the harness owns all scheduling: pthread, futex, atomics and instrumented memory accesses are the only points of interaction"]
SEQ_ASSUME = ["inputs and histories larger than the bound and bytes outside the alphabet are not explored",
              "g++ 13 with AddressSanitizer, UBSan and libstdc++ assertions"]
CONC_NOTE = "every interleaving of the real code within the listed thread, job and preemption bounds; trusts the scheduler (mc/conc/mcrt.cc) and assumes sequential consistency apart from race detection"
SEQ_NOTE = "every choice vector within the listed bounds is executed on the real code and compared with an independent reference model; trusts the engine (mc/seq/seq.cc), the model and the sanitizers"


def conc(*units):
    return dict(units=list(units), level="model_checking", rule=CONC_RULE, technique=CONC_TECH, assumptions=CONC_ASSUME, note=CONC_NOTE)


def seq(*units, **kw):
    d = dict(units=list(units), level="model_checking", rule=SEQ_RULE, technique=SEQ_TECH, assumptions=SEQ_ASSUME, note=SEQ_NOTE)
    d.update(kw)
    return d


FAULT = dict(level="fault_enumeration",
             technique="exhaustive fault enumeration on the real code: every placement and kind of up to k failing, interrupted, short or truncated system calls in every operation sequence, below the C library",
             rule="every operation sequence and file size of the configuration, and for each every placement and kind (error, interruption, short transfer, premature end or no space) of up to the stated number of faults among the system calls actually made; "
                  "an execution is one run of such a case against the real code and file system; non-trivial executions are those in which an operation reported failure",
             note="every placement and kind of up to the stated number of system call faults is executed on the real code; trusts the interception layer (mc/seq/sysfault.h), the kernel and the sanitizers")

PROPS = {
    "C01": conc("pool"), "C02": conc("pool"), "C03": conc("parfor"), "C04": conc("parfor"), "C05": conc("progress"), "C06": seq("progress_seq"), "C07": conc("progress", "progress_seq"),
    "F01": seq("files", **FAULT), "F02": seq("files", **FAULT), "R01": seq("files"), "R02": seq("guards"), "R03": seq("guards"),
    "T01": seq("text"), "T02": seq("text"), "T03": seq("text"),
    **{f"A0{i}": seq("algos", *(["values"] if i != 7 else [])) for i in range(1, 10)},
    **{f"I0{i}": seq("iterators", *(["values"] if i != 4 else [])) for i in range(1, 5)},
    "P01": seq(*[f"pipes{i}" for i in range(6)], "values", thorough_units=["pipes6"]),
    "P02": seq("terminals", "values"),
    "D01": seq("match"), "D02": seq("verify"), "D03": seq("enums"), "D04": seq(*[f"bind{i}" for i in range(5)]), "D05": seq("logs"),
    "T04": seq("readers"), "T05": seq("nums"), "T06": seq("nums"),
    "T07": seq("csv"), "T08": seq("csv"), "T09": seq("csv"), "T10": seq("cmdline"), "T11": seq("csv"),
}

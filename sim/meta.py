"""What the evidence and the manifest say about each property."""
LATTICE_REAL = ["run_through_dense_slices (stream, dag, wave, edpc schedulers)", "dense patch computation", "DenseSlice", "CustomDPRouter and the djikstra/astar/boost graph searches",
                "layout generators and ASCII layouts", "instruction parser", "S-gate and rotation injection streams", "QASM gate stream and gate-to-instruction translation (part of the runs)"]
LATTICE_STUB = ["route refusals and legal detours (wrapper around the real router)", "instruction source (in-memory stream; real parser and rewriting streams on top)",
                "slice and instruction consumers (recorders)", "heap (arena with poisoning, chosen address order)", "clock (simulated)"]
LATTICE_RULE = ("One seed decides a scenario: layout (ASCII, compact, edpc families, random factories, reserved tiles, Y pools), program (random instruction mix or QASM circuit), pipeline, "
                "router search, and a fault schedule (windows in which the router refuses routes to all or to single pairs, detours, retry budgets). ")
LATTICE_STATES = "distinct hashes of (occupied-cell classes, activities, pending instruction kinds) per slice"
LATTICE_ASSUME = ["programs follow the instruction set's usage rules (no use after measurement, fresh ids, clients declared for corrective instructions)",
                  "sampling, not enumeration: held on the runs executed"]
SEARCH = ("Seeded search over simulated executions of the real code in one process; every run is judged by %s. Held on the runs executed (sampling, not exhaustive); "
          "a violation is confirmed in fresh processes, minimised and replayable. Trusts the reference model in sim/src and the seams listed in the evidence.")


def P(nontrivial, rule=LATTICE_RULE, level="exploration", technique="deterministic simulation: seeded refusal/fault schedules, lockstep reference model", real=LATTICE_REAL, stub=LATTICE_STUB,
      unit="slices", states=LATTICE_STATES, assume=LATTICE_ASSUME, judged="a reference model of the lattice stepped slice by slice"):
    return {"rule": rule + "Non-trivial: " + nontrivial + " Distinct: by hash of the complete event log.", "level": level, "technique": technique, "real": real, "stub": stub,
            "time_unit": unit, "state_measure": states, "assumptions": assume, "note": SEARCH % judged}


LAT = "at least three instructions applied and at least one refused, deferred or multi-slice instruction."
CLI_REAL = ["run_slicer_program (argument handling, input streams, layouts, pipelines, JSON / LLI / DAG / statistics output)", "everything listed for the lattice runs", "libstdc++ file streams"]
CLI_STUB = ["system calls of the output file (open, write, writev, close: short writes, EINTR, ENOSPC, EIO)", "stdin / stdout (simulated stream buffers with chunking and failures)", "clock", "heap"]
FAULT_RULE = ("One seed decides a lattice scenario and one fault: an exception from the instruction source, the router or a consumer, a failing allocation, an exhausted retry budget or an unusable "
              "instruction, at a seed-chosen point of the run, with or without graceful mode, or a whole program run through the command line with the same. The run is compared with the fault-free run of the same scenario. ")
CLI_RULE = ("One seed decides a command line (all formats, layouts, pipelines and output modes), an input, and a schedule of write faults or stalls; the program's output is compared with an independent recording of the same slicing run. ")

PROPS = {
    "C01": P(LAT, judged="an exactly-once ledger of every instruction and its steps"),
    "C02": P(LAT, judged="a reference dependency order over the recorded history"),
    "C03": P(LAT), "C04": P(LAT), "C05": P(LAT),
    "C06": P(LAT, judged="a reference breadth-first search run on the same lattice state at every query"),
    "C07": P(LAT, judged="a reference countdown model of every factory and reserved tile"),
    "C08": P(LAT, judged="a reference model of the catalyst pool"),
    "C09": P(LAT), "C10": P(LAT, judged="a ledger of every local step of every long-range operation"),
    "C11": P(LAT, judged="edge/cell accounting of every wave's routes"),
    "C12": P(LAT, judged="bounded-progress and exact retry-budget checks against the injected refusals"),
    "C13": P("the simulated clock moved and at least two slices were due.", technique="deterministic simulation: simulated clock with stalls, comparison with the untimed run",
             rule="One seed decides a lattice scenario, a timeout, and a clock schedule (stalls in the consumer and the source, jumps, sub-second steps, wall clock jumps). The run is compared with the untimed run. ",
             unit="seconds of simulated time", judged="the simulated clock and the untimed run of the same scenario"),
    "C14": P("the fault fired after the run had begun.", level="fault_enumeration", rule=FAULT_RULE, technique="deterministic simulation: fault injection at every boundary, prefix comparison with the fault-free run",
             judged="the fault-free run of the same scenario"),
    "C15": P("at least four lines and one non-default delivery (chunking, noise, fault).", technique="deterministic simulation: simulated stream buffers (chunking, read errors, truncation), polling schedules",
             rule="One seed decides an instruction or circuit text, its delivery (chunk sizes down to one byte, blank lines, comments, missing final newline), a fault (read error or end of file at a byte, garbled line) and how often the consumer polls. ",
             real=["LSInstructionStreamFromFile", "GateStreamFromFile", "instruction and gate parsers", "run_slicer_program for whole-program runs"], stub=["std::streambuf under the input stream"],
             unit="bytes delivered", states="distinct (line kind, delivery, fault) hashes", assume=["the reference sequence is what the real parser yields for each clean line on its own"],
             judged="the line-by-line reference sequence"),
    "C16": P("at least two slices written, or a write fault fired.", level="fault_enumeration", rule=CLI_RULE, technique="deterministic simulation: simulated file system calls with write faults, independent recording as oracle",
             real=CLI_REAL, stub=CLI_STUB, unit="slices", judged="an independent recording of the same run"),
    "C17": P("at least one earlier run in the process, or another heap order / clock / polling.", technique="deterministic simulation: histories of runs in one process against a fresh process",
             rule="One seed decides a target run and a history of one to four other runs (other layouts, modes, failures, timeouts); the target's result in a fresh process is compared with its result after the history, under another heap address order and clock. ",
             real=CLI_REAL, stub=CLI_STUB, unit="runs", judged="the same run in a fresh process"),
    "C18": P("at least two layers and one row without lattice effect, fault or non-trivial order.", technique="deterministic simulation: simulated PostgreSQL server behind libpq, seeded row orders and call failures",
             rule="One seed decides a stored circuit (layers, kinds, qubits, ineffective rows), the row order of every query, and a failing call. ",
             real=["PandoraPostgresGateStream", "pqpp wrapper", "gate construction"], stub=["libpq and the database server"], unit="database queries", states="distinct (layer composition, fault) hashes",
             assume=["the simulated server implements the SQL subset the code uses; a query it does not understand is an error of the check"], judged="the stored circuit"),
    "C19": P("at least four instructions and one expansion or prioritised instruction.", technique="deterministic simulation: seeded histories of scheduler operations against a reference order",
             rule="One seed decides an instruction sequence and a history of serve / expand / prioritise operations on the dependency DAG. ",
             real=["DependencyDag", "DirectedGraph", "instruction commutation rules", "domain DAGs"], stub=["the scheduler driving the DAG"], unit="operations", states="distinct (heads, proximate, remaining) hashes",
             assume=["operations are issued as the pipelines issue them (only offered instructions are served)"], judged="a reference order computed from the instruction sequence"),
    "C20": P("at least one source item that is expanded, in a run of at least three steps.", technique="deterministic simulation: rewriting stages over simulated sources with failures, polling and interleaving schedules, against an expansion model",
             rule="One seed decides one or two chains of up to three rewriting stages sharing an id generator (or the whole program printing its instructions), the gate or instruction programs, the exposed operators (given, from a layout, from the compact layouts), the source's failures (an item that fails once, twice or for ever, a failing poll, the n-th allocation), and the consumer's polling and switching between chains. ",
             real=["LSInstructionStreamFromGateStream", "DecomposeRotationStream", "LSIinstructionFromGatesGenerator", "BoundaryRotationInjectionStream", "TeleportedSGateInjectionStream", "CatalyticSGateInjectionStream", "determine_exposed_core_operators", "IdGenerator", "run_slicer_program --printlli before (part of the runs)"],
             stub=["the gate or instruction source (in memory, failing on demand)", "the consumer", "operator new (failing on demand)"],
             unit="polls and reads", states="distinct (chain, position, instruction kind) hashes",
             assume=["built without gridsynth: rotations the cached approximator refuses are expected to be refused"], judged="an expansion model written from the documentation of the gadgets, up to renaming of fresh ids"),
}
NOT_APPLICABLE = {
    "N01": "A pure function from circuit to instruction list: no schedule, time, I/O, fault or history for a simulator to control; deciding it needs semantic equivalence checking, another technique.",
    "N02": "Pure parsing and printing of single lines: nothing nondeterministic to simulate (delivery of the text is C15).",
    "N03": "Layout generation is a pure function of sizes and options: no schedule, fault or history to simulate (what runs on layouts is C03-C05 and C07).",
}


def meta(prop):
    return PROPS[prop]

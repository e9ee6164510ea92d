#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that long texts stay readable).
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})
DPC = "src/patches/dense_patch_computation.cpp"; WAVE = "src/scheduler/wave_scheduler.cpp"; DAG = "include/lsqecc/dag/dependency_dag.hpp"
SL = "src/pipelines/slicer.cpp"; DS = "src/patches/dense_slice.cpp"; CGS = "src/layout/graph_search/custom_graph_search.cpp"
IS = "src/ls_instructions/ls_instruction_stream.cpp"

prop("C01", "Every instruction is applied exactly once in every pipeline",
 "Whatever makes instructions wait (no route, no ancilla cell, no magic state yet), a slicing run that ends without error has applied every instruction of its input stream exactly once, in the stream, dag, wave and edpc pipelines alike: none lost, none duplicated, none invented, and multi-slice instructions carried on until complete. At any intermediate point (or after a failed run) no instruction has been started twice. The reported instruction count agrees with that history (stream pipeline: one per instruction read).",
 ["schedules", "programs", "histories", "configurations"],
 "All programs (LLI and gate level), layouts, routers, pipeline modes, and all schedules of routing refusals, clogged cells and magic state arrivals.",
 "The gtest suite exercises parsing, DAG containers and a handful of fixed slices; it never runs a pipeline under contention, where instructions are refused, requeued and completed through follow-ups.",
 [DPC, WAVE, DAG], [("requeue on failure / follow-up instructions", DPC+": run_through_dense_slices_streamed/_dag"), ("waves, proximate heads, dependents", WAVE)],
 ["instruction visitor", "input instruction stream", "DensePatchComputationResult"])

prop("C02", "Instructions sharing a patch are applied in program order",
 "In every pipeline, two instructions that operate on a common patch (or declare each other's patch as a client, where the pipeline honours clients) take effect in input order, and the later one starts only after every step of the earlier one (rotation, long-range Bell sequence, corrective follow-up) has completed. The stream pipeline applies all instructions in input order. Independent instructions may be reordered only by the dag, wave and edpc pipelines.",
 ["schedules", "programs", "histories"],
 "All dependency structures and all schedules of refusals that delay some heads and not others.",
 "Tests compare the dependency DAG of a few fixed programs; the order actually executed depends on which heads were refused in which slice.",
 [WAVE, DPC, DAG, "src/ls_instructions/ls_instructions.cpp"], [("dependency counts", WAVE), ("head/proximate sets", DAG), ("future_instructions queue", DPC)],
 ["instruction visitor order", "slice sequence"])

prop("C03", "Logical patches are conserved, unique and stay where they are",
 "In every emitted slice each live logical id occupies exactly one cell (or sits inside its own in-progress rotation), from its declaration, initialisation or state request until the slice after its measurement, and no id that is not live appears. An initialised patch goes to an ancilla location of the layout, or across the requested boundary of its reference patch; more declared patches than the layout has room for are refused. A live patch keeps its cell for life, and keeps its boundary orientation except that a Hadamard or a completed rotation turns it by 90 degrees.",
 ["schedules", "programs", "histories", "fault_sequences"],
 "Every slice of every run, over programs, layouts, pipelines, refusal schedules and failing runs.",
 "Tests check single operations on a single slice; conservation is an invariant over all slices of arbitrarily interleaved runs.",
 [DPC, DS], [("patch placement and removal", DS+": place_single_cell_sparse_patch / delete"), ("slice advance", DPC+": advance_slice"), ("rotation restore", DPC+": BusyRegion")],
 ["slice visitor"])

prop("C04", "Cells are never double-used and all transient cells are released",
 "Dead tiles, distillation tiles and reserved tiles keep their role in every slice; no operation is ever placed on an occupied cell; every occupied cell of every slice belongs to a fixed structure, a live patch, a waiting resource state, or an operation in progress in that slice. Once an operation completes, all its ancilla cells are free again, so a finished program leaves only live patches and resource states behind.",
 ["schedules", "programs", "histories"],
 "Every slice of every run, over programs, layouts with factories/reserved/dead tiles, pipelines and refusal schedules.",
 "Leaks and overwrites need operations that overlap in time on neighbouring cells; tests run one operation at a time.",
 [DPC, DS], [("double occupation check", DS+": place_single_cell_sparse_patch"), ("advance_slice clearing", DPC), ("clear_routing_region", DPC)],
 ["slice visitor"])

prop("C05", "Joint measurements are realised by legal, disjoint merge paths",
 "Each applied two-patch measurement that is routed through ancilla cells (and each twist-based S gate) appears in its slice as one connected path of previously free ancilla cells that joins the two patches through boundaries of the types matching the measured operators, with every active boundary matched by its neighbour's. Paths of different measurements of the same slice are disjoint, no patch takes part in two of them, path cells carry one operation id unique to that measurement when ids are requested, and the path is gone in the next slice. In local mode a joint measurement joins two touching patches directly, neither of which is otherwise in use in that slice.",
 ["schedules", "programs", "configurations"],
 "All reachable lattice states, operator pairs, routers and search providers, and all sets of measurements that share a slice.",
 "Graph search tests check a few fixed lattices; simultaneous measurements in one slice arise only from pipeline scheduling.",
 [DPC, CGS, "src/layout/router.cpp"], [("merge_patches / stitch_boundaries / mark_routing_region", DPC), ("have_directed_edge", CGS)],
 ["slice visitor", "instruction visitor", "router results"])

prop("C06", "Routers find a route exactly when one exists",
 "On every lattice state that occurs during slicing, a (non-caching) router returns a route between two patches iff some path of free cells connects boundaries of the requested types (for a patch with itself: a cycle); the returned route uses only such cells, is simple and contiguous, and with the default Dijkstra search is as short as possible. The query never changes the lattice, and equal queries on equal states give equal answers.",
 ["histories", "configurations", "inputs"],
 "All lattice states reached by simulated runs (clogged by routing, rotations, magic states), all patch pairs and operators, every search provider.",
 "Unit tests fix a few lattices; false 'no route' answers only show as extra waiting or starvation in long runs.",
 [CGS, "src/layout/graph_search/boost_based_graph_search.cpp", "src/layout/router.cpp"], [("Dijkstra / A* on slice adaptor", CGS)],
 ["Router interface on states taken from the slice visitor"])

prop("C07", "Magic states are produced on schedule and never used twice",
 "Each distillation region delivers one magic state exactly every configured number of slices (stagger included) to a free queue cell of that region and nowhere else, and a delivery that finds no free queue cell is dropped without disturbing anything; each reserved tile re-spawns its state exactly its configured time after the previous one was used up and cleared. Every magic state request binds a distinct, waiting state, nearest to the requesting patch; requests never outnumber deliveries, and a waiting state stays put until bound.",
 ["schedules", "programs", "configurations"],
 "All layouts with any number of factories or reserved tiles, distillation times and stagger, all orders of requests, clogging and refusals.",
 "Existing tests count a few distilled states on one layout; timing across consumption, clogging and multiple factories depends on the schedule.",
 [DPC, DS, "src/layout/ascii_layout_spec.cpp"], [("advance_slice factory countdown and re-spawn", DPC), ("MagicStateRequest binding", DPC)],
 ["slice visitor", "instruction visitor"], [{"name": "time_to_next_magic_state_by_distillation_region", "meaning": "countdown per region/tile", "where": "include/lsqecc/patches/dense_slice.hpp"}])

prop("C08", "Catalyst (Y) states are lent, used and returned without loss",
 "Pre-distilled Y states form a conserved pool: a request binds an idle pool state (the nearest one) to exactly one logical id, the matching second request returns it to the pool at the same cell, and idle plus lent states stay constant, so a run that finishes all its catalytic S gates ends with the whole pool idle. Without a pool, a Y state request prepares a fresh patch on a free cell touching the requesting patch's Z boundary.",
 ["schedules", "programs"],
 "All interleavings of S gates over any pool size, with other patches clogging the lattice, in all pipelines.",
 "No test runs concurrent catalytic S gates; contention for a smaller pool than the number of waiting gates is schedule dependent.",
 [DPC, "src/ls_instructions/catalytic_s_gate_injection_stream.cpp", "src/ls_instructions/teleported_s_gate_injection_stream.cpp"], [("YStateRequest bind/unbind", DPC), ("predistilled_ystates_available", "include/lsqecc/patches/dense_slice.hpp")],
 ["slice visitor", "instruction visitor"])

prop("C09", "A patch rotation holds its region exactly as long as specified",
 "A single-patch rotation occupies exactly the patch's own cell and one adjacent free cell, holds both continuously for the same fixed number of slices in every run of a given pipeline, cannot be entered, measured or routed through meanwhile, and then leaves the patch at its original cell, turned by 90 degrees, with the borrowed cell free. A rotation of a patch without a free neighbour waits without changing the lattice.",
 ["schedules", "programs"],
 "All placements of the patch and its neighbours, and all concurrent traffic and stalls during the rotation.",
 "Tests check the static rotation helper, not the multi-slice life cycle while other instructions compete for the same cells.",
 [DPC, WAVE, DAG], [("single_patch_rotation_a_la_litinski and BusyRegion follow-ups", DPC), ("proximate follow-ups", WAVE)],
 ["slice visitor", "instruction visitor"])

prop("C10", "Long-range Bell operations execute each local step exactly once, in order",
 "A Bell-based CNOT or Bell pair initialisation compiled to local steps executes its whole step list once, in list order, however many slices it is interrupted for; every step acts on edge-adjacent cells of one fixed path from one operand to the other, and pairs up along it without gap or overlap. When it completes, control and target are where they were, a requested Bell pair sits next to its two reference patches, and every other cell of the path is free.",
 ["schedules", "programs"],
 "All path lengths and shapes, operand placements, and all interruptions of the step sequence by active or occupied cells.",
 "Regression cases print a few fixed decompositions; resumption after an interruption depends on the surrounding traffic.",
 [DPC, "src/ls_instructions/local_instructions.cpp"], [("counter_pairs / counter resumption", DPC), ("compile_long_range_Bell", DPC), ("try_apply_local_instruction", DPC)],
 ["instruction visitor (step lists and counters)", "slice visitor"])

prop("C11", "EDPC routes sets of CNOTs edge-disjointly and restores the lattice",
 "In the edpc pipeline the CNOT paths chosen for one wave never share an edge, at most two cross in a cell, and each path's local steps lead over contiguous cells from control to target. No reserved or path label survives the operations that needed it: data patches show their own rough and smooth boundaries again, crossing bookkeeping is empty, and path cells end free.",
 ["schedules", "programs"],
 "All sets of simultaneous CNOTs and T gates on edpc layouts, with refusals and magic state delays deciding which CNOTs share a wave.",
 "Regression cases hold a few fixed circuits; which CNOTs meet in a wave, and whether a wave is cut short, is decided by the schedule.",
 [DPC, DS, WAVE, CGS], [("mark_routing_region EDPC / mark_boundaries_for_crossing_cell", DS), ("deferred rounds", WAVE), ("have_directed_edge_EDPC", CGS)],
 ["slice visitor", "instruction visitor", "router results"])

prop("C12", "Waiting instructions make progress, and retry budgets are exact",
 "Once the resource a ready instruction waits for is available and stays available (free route, free ancilla cell, delivered magic state, inactive patches), the instruction is applied within a bounded number of slices in every pipeline, so a feasible program always finishes. An instruction with a finite wait budget n ends a stream run with an error after exactly n+1 refused slices (wave and edpc: n+1, or n+2 when its refusal falls into a deferred round) and not before; an unlimited one, or one given without a budget, never does, and the dag pipeline, which has its own budget, gives up exactly when its documented number of retries is exceeded.",
 ["schedules", "fault_sequences", "programs"],
 "All refusal schedules that eventually stop, all wait budgets, all pipelines.",
 "Tests have no schedule: nothing in the suite ever makes an instruction wait.",
 [DPC, WAVE], [("wait_at_most_for", DPC+" / "+WAVE), ("MAX_INSTRUCTION_APPLICATION_RETRIES_DAG_PIPELINE", "include/lsqecc/patches/dense_patch_computation.hpp")],
 ["slice visitor", "router seam", "returned error"])

prop("C13", "The timeout stops slicing when, and only when, it has expired",
 "With a timeout of T seconds, a run keeps emitting slices as long as no more than T seconds have passed since slicing began, and the first slice due after that is not emitted: the run ends with a timeout error (or, in graceful mode, returns normally with what it has), for every pipeline and any speed or stall of the machine. Without a timeout, no amount of elapsed time changes the result, and a timeout that never expires changes nothing at all.",
 ["schedules", "fault_sequences"],
 "All clock behaviours (slow, stalled, jumping) and all positions of the expiry relative to the slices.",
 "A test would need to control the clock; the suite has none for this.",
 [DPC, SL, "include/lstk/lstk.hpp"], [("timeout wrapper around the slice visitor", DPC)],
 ["simulated steady clock", "slice visitor", "returned error", "program exit"])

prop("C14", "A failing run emits a prefix of the fault-free run and fails cleanly",
 "If anything fails during slicing (unusable instruction, no budget left, exhausted memory, an exception from the source, router or consumer), everything emitted before is identical to the same run without the failure up to that point, and the error reaches the caller as an exception, never as a crash, hang or silently complete-looking result. In graceful mode the same failure is reported, the call returns normally, and the program still closes its output well-formed.",
 ["fault_sequences", "crash_points", "programs"],
 "Any fault kind at any position of any run, in all pipelines, graceful or not.",
 "Tests inject no faults into running pipelines.",
 [DPC, SL, WAVE], [("graceful try/catch", DPC), ("exceptions through visitors", DPC)],
 ["exceptions", "emitted slices and instructions", "program output and exit code"])

prop("C15", "Input streams are consumed faithfully whatever the delivery",
 "An instruction or gate stream read from a file or pipe yields the same sequence however the bytes are chunked or delayed and however often the consumer polls it; blank lines, extra blanks before operands, comments and a missing final newline change nothing. A read error or a malformed line is reported as an error; it never hangs the program, and a truncated read is never passed off as a complete program.",
 ["fault_sequences", "inputs", "schedules"],
 "All chunkings, read errors at any byte, ends of file at any byte, and polling patterns, for LLI and QASM input.",
 "Tests read complete in-memory strings.",
 [IS, "src/gates/parse_gates.cpp"], [("advance_instruction", IS), ("advance_gate", "src/gates/parse_gates.cpp")],
 ["stream interfaces", "program exit code and error text"])

prop("C16", "Output is complete and correct, or the program says it failed",
 "On success the program's slice output is one well-formed JSON array holding exactly the emitted slices in order, each rendering its lattice cell for cell; sliced-LLI output lists exactly the applied instructions grouped by slice; the printed volume statistics and instruction count equal the totals over those slices; instructions are printed with all their operands; every documented output mode (-f) is accepted and reports what it documents; and a printed dependency graph (--printdag) is a complete graph holding every instruction of the input, or of the processed stream, once with its full text, and orders two of them exactly when the program does (they share a qubit or patch, directly or through others; controlled gates with the same control and different targets do not order each other). If any part of that output could not be written (output not creatable, device full, I/O error, broken stream), the program reports failure instead of success.",
 ["fault_sequences", "configurations", "programs"],
 "All runs and output modes, and write failures or short writes at any byte or call.",
 "Tests render single slices; nothing checks whole outputs or write failures.",
 [SL, "src/patches/slices_to_json.cpp", "src/patches/slice_stats.cpp"], [("slice visitors writing JSON / LLI / stats", SL), ("instruction printing", "src/ls_instructions/ls_instructions.cpp"), ("to_graphviz", "src/dag/directed_graph.cpp")],
 ["output streams", "simulated file writes", "exit code"])

prop("C17", "Equal runs give equal results, whatever ran before in the process",
 "A run's slices, instructions, ids and output depend only on its own input and options: repeating it, or running it after any sequence of other runs in the same process (successful, failed, timed out or with other layouts and modes), gives identical results. Results do not depend on memory layout, clock or polling.",
 ["histories", "schedules", "configurations"],
 "All sequences of runs in one process, as with the web/npm build that serves many compilations from one instance.",
 "Tests compare nothing across consecutive runs; leaks of process-wide state show only for particular histories.",
 [SL, DPC, "include/lsqecc/gates/gates.hpp"], [("run_slicer_program_from_strings", SL), ("process-wide defaults and counters", DPC+" / gates.hpp")],
 ["program output over a history of runs"])

prop("C18", "Database circuits are delivered gate for gate, layer by layer, or fail",
 "Reading a circuit from the Pandora database yields every stored gate exactly once, layer by layer in dependency order, with the right kind and qubits, whatever the row order within a layer and however rows without lattice effect are mixed in. A failed connection, failed query or unreadable row ends in an error; it never silently shortens the circuit.",
 ["fault_sequences", "inputs", "schedules"],
 "All circuits, all row orders within a layer, layers of any composition, and a failure of any database call.",
 "There is no database in the test environment; no test covers this stream.",
 ["src/gates/postgres_gate_stream.cpp", "include/lsqecc/gates/postgres_gate_stream.hpp", "include/pqpp/pq.hpp"], [("get_next_gate layer fetch", "src/gates/postgres_gate_stream.cpp")],
 ["gate stream interface over a simulated libpq"])

prop("C19", "The dependency DAG serves every instruction once in a legal order",
 "For any sequence of scheduler operations on the dependency DAG (serving heads in any order, expanding an instruction into follow-ups, marking follow-ups as urgent), the DAG offers exactly the instructions all of whose predecessors have been completed, offers none of them twice, keeps urgent ones apart until served, and becomes empty exactly when everything was served. An expanded instruction is replaced by its follow-ups in the place it had in the order. Printed, the DAG shows each instruction once with its full text, exactly this order, and which instructions are urgent or must directly follow each other.",
 ["histories", "schedules"],
 "All instruction sequences and all histories of serve/expand/prioritise operations.",
 "Tests replay a few fixed histories on small DAGs.",
 [DAG, "src/dag/directed_graph.cpp", "src/dag/domain_dags.cpp"], [("DependencyDag::pop_head/expand/make_proximate", DAG), ("DirectedGraph", "src/dag/directed_graph.cpp")],
 ["DependencyDag interface"])

prop("C20", "Every stage before the scheduler rewrites its input in order, once, into complete expansions",
 "The stages between the input and the scheduler (gate translation, rotation decomposition, boundary rotation injection, teleported and catalytic S gate injection), alone or in any combination, turn every gate or instruction, in order and exactly once, either into itself (with its wait limit and client patches) or into its complete documented expansion: T and T-dagger into magic state request, joint Z measurement (or Bell-based CNOT in local mode), measurement of the magic state and S; CNOT into its ancilla or Bell-based gadget, with corrections when asked for and the ancilla next to the patch asked for; CZ into H, CNOT, H; S on a declared qubit into a Y state request, joint Z measurement, measurement and Z, or into the catalytic sequence that returns the Y state. State requests and CNOT gadgets wait for the qubits they serve. Every patch id a stage makes up is new: different from all ids the program names and from all others made up, also between stages and streams that share an id generator. A rotation of a declared qubit is injected directly before exactly those joint measurements, Bell-based CNOTs, S gates and placements next to it that need an operator which its layout position and its earlier H gates and rotations (injected or not) leave covered. How often the consumer asks whether more is coming, how reads of several streams interleave and a source failure that goes away change nothing; stages read their source no further than one item ahead, a failing or unsupported item is reported to the consumer after everything before it was delivered, and the end is reported exactly when everything was delivered.",
 ["programs", "stage combinations", "schedules", "faults"],
 "All programs, stage combinations, exposure maps, consumer schedules and source failures.",
 "Tests and regression files print a few programs through fixed stage orders, without failures, own ids or interleaving.",
 ["src/ls_instructions/ls_instruction_stream.cpp", "src/ls_instructions/ls_instructions_from_gates.cpp", "src/ls_instructions/boundary_rotation_injection_stream.cpp", "src/ls_instructions/teleported_s_gate_injection_stream.cpp", "src/ls_instructions/catalytic_s_gate_injection_stream.cpp", "src/gates/decompose_rotation_stream.cpp", "src/layout/dynamic_layouts/determine_exposed_operators.cpp"],
 [("get_next_instruction / has_next_instruction of the stages", "src/ls_instructions"), ("make_cnot_instructions / make_t_gate_instructions", "src/ls_instructions/ls_instructions_from_gates.cpp")],
 ["LSInstructionStream and GateStream interfaces", "--printlli before"])

NA = [
("N01", "Gate-to-instruction translation preserves the circuit's meaning",
 "The lattice surgery instructions generated for a circuit implement that circuit: Clifford gates map to their standard measurement-based realisation, T gates to magic state teleportation, rotations to approximations within the requested precision, and S gates to a teleportation or catalysis gadget.",
 ["inputs", "programs"], "All circuits and precisions.", "Tests compare a few translations literally.",
 ["src/ls_instructions/ls_instructions_from_gates.cpp", "src/gates/gates.cpp", "src/gates/gate_approximator.cpp"], [("make_cnot_instructions / make_t_gate_instructions / decompose", "src/ls_instructions/ls_instructions_from_gates.cpp")], ["generated instructions"]),
("N02", "Instruction and gate text round-trips",
 "Printing any instruction and parsing the text back gives the same instruction, and every QASM statement in the supported subset is parsed to the gate it denotes; unsupported ones are rejected.",
 ["inputs"], "All well-formed and malformed lines.", "Tests parse a sample of lines.",
 ["src/ls_instructions/ls_instructions_parse.cpp", "src/ls_instructions/ls_instructions.cpp", "src/gates/parse_gates.cpp"], [("parsers and printers", "src/ls_instructions/ls_instructions_parse.cpp")], ["parse and print functions"]),
("N03", "Generated layouts are well formed for every size",
 "For every qubit count and option, the layout generators and the ASCII layout parser give a layout with enough patches, in-range coordinates, disjoint roles and non-empty magic state queues.",
 ["inputs", "configurations"], "All sizes, lanes and options.", "Tests print a few sizes.",
 ["src/layout/dynamic_layouts/compact_layout.cpp", "src/layout/dynamic_layouts/edpc_layout.cpp", "src/layout/ascii_layout_spec.cpp"], [("make_compact_layout / make_edpc_layout", "src/layout/dynamic_layouts")], ["Layout interface"]),
]
for a in NA: prop(*a)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")

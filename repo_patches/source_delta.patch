From c05e962d00f671e990d5d42809c02ae3f87eaea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:02 +0000
Subject: [PATCH 01/26] fix: do not start a patch rotation in the slice of a
 joint measurement

A RotateSingleCellPatch following a joint measurement of the same patch
in the same slice replaced the patch by its rotation region while the
merge path still pointed at it, and the stale active boundary came back
with the rotated patch.
---
 src/patches/dense_patch_computation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index da43fae..f3d67e6 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1257,6 +1257,11 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", rotation->target, " not on lattice")), {}};
         const Cell target_cell = *slice.get_cell_by_id(rotation->target);
 
+        // A patch that takes part in a joint measurement in this slice can't start rotating before the next one
+        if (slice.patch_at(target_cell)->boundaries.has_active_boundary())
+            return {std::make_unique<std::runtime_error>(lstk::cat(
+                    instruction,"; Cannot rotate patch ", rotation->target, ": patch is active")), {}};
+
         std::optional<Cell> free_neighbour;
 
         for (auto neighbour_cell: slice.get_neigbours_within_slice(target_cell))
-- 
2.43.0


From bae5f7e8e36c21aabe340e7120fdb9f76c49a1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:30 +0000
Subject: [PATCH 02/26] fix: wave scheduler used a dangling reference to the
 dependents list

Applying a dependent immediately (a rotation, say) can append to records_
and reallocate it while the loop over the old dependents is running.
---
 src/scheduler/wave_scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheduler/wave_scheduler.cpp b/src/scheduler/wave_scheduler.cpp
index 1b2300b..6853881 100644
--- a/src/scheduler/wave_scheduler.cpp
+++ b/src/scheduler/wave_scheduler.cpp
@@ -173,7 +173,8 @@ size_t WaveScheduler::schedule_instructions(const std::vector<InstructionID>& in
 	
 void WaveScheduler::schedule_dependent_instructions(InstructionID instruction_id, const std::vector<LSInstruction>& followup_instructions, DenseSlice& slice, LSInstructionVisitor instruction_visitor, DensePatchComputationResult& res, bool proximate)
 {
-	auto& dependents = records_[instruction_id].dependents;
+	// Copied, because applying a dependent immediately can grow records_ and so invalidate references into it
+	const std::vector<InstructionID> dependents = records_[instruction_id].dependents;
 	
 	if (followup_instructions.empty())
 	{
-- 
2.43.0


From f3f7e0aef9cb546f8cd139bb12a074cf379febd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:36 +0000
Subject: [PATCH 03/26] fix: do not re-spawn a magic state over a state in use

On layouts with reserved tiles, a bound magic state that was rotating (or
being moved) was overwritten with a fresh state in every slice, because
its tile shows a routing patch then. Only distilling tiles re-spawn.
---
 src/patches/dense_patch_computation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index f3d67e6..fb6f904 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -130,8 +130,9 @@ void advance_slice(DenseSlice& slice, const Layout& layout)
 
             if (slice.time_to_next_magic_state_by_distillation_region[reserved_cell_index] == 0)
             {
-                if ((slice.patch_at(cell)->type != PatchType::PreparedState) &&
-                    (slice.patch_at(cell)->type != PatchType::Qubit))
+                // Only a tile that is still distilling gets a new state. A state in use must not be overwritten,
+                // and while it rotates or moves its tile shows neither a PreparedState nor a Qubit.
+                if (slice.patch_at(cell)->type == PatchType::Distillation)
                 {
                     SparsePatch magic_state_patch = LayoutHelpers::basic_square_patch(cell, std::nullopt, "Magic State");
                     magic_state_patch.type = PatchType::PreparedState;
-- 
2.43.0


From b36d1e15486b06f3c3e8a3678c16617148a84a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:55 +0000
Subject: [PATCH 04/26] fix: boost graph search routed through occupied cells
 instead of free ones

Edges were added between free and occupied cells rather than between free
cells, so multi-cell routes were not found, and patches touching with the
wrong boundary types (or via an occupied neighbour) were joined.
---
 .../graph_search/boost_based_graph_search.cpp    | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/layout/graph_search/boost_based_graph_search.cpp b/src/layout/graph_search/boost_based_graph_search.cpp
index d5e2999..1a365bf 100644
--- a/src/layout/graph_search/boost_based_graph_search.cpp
+++ b/src/layout/graph_search/boost_based_graph_search.cpp
@@ -61,7 +61,7 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
         {
             Cell current{row_idx, col_idx};
             vertices.push_back(make_vertex(current));
-            if (!slice.is_cell_free(current))
+            if (slice.is_cell_free(current))
                 for (const Cell& neighbour: current.get_neigbours_within_bounding_box_inclusive({0, 0}, furthest_cell))
                     if (slice.is_cell_free(neighbour))
                         edges.emplace_back(make_vertex(neighbour), make_vertex(current));
@@ -71,15 +71,19 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
 
     // Add source
     const auto source_cell = *slice.get_cell_by_id(source);
+    const auto target_cell = *slice.get_cell_by_id(target);
     for (Cell neighbour: slice.get_neigbours_within_slice(source_cell))
     {
-        if (slice.have_boundary_of_type_with(source_cell, neighbour, source_op))
-            edges.emplace_back(make_vertex(source_cell), make_vertex(neighbour));
+        if (!slice.have_boundary_of_type_with(source_cell, neighbour, source_op))
+            continue;
 
+        // Touching patches are joined directly only if the boundaries of both have the right type
+        if (slice.is_cell_free(neighbour)
+            || (neighbour == target_cell && slice.have_boundary_of_type_with(target_cell, source_cell, target_op)))
+            edges.emplace_back(make_vertex(source_cell), make_vertex(neighbour));
     }
 
     // Add target
-    const auto target_cell = *slice.get_cell_by_id(target);
 
     // This means we are trying to do an S-gate/twist measurement so we artificially add a new source coinciding
     // with the existing one
@@ -88,11 +92,11 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
 
     for (Cell neighbour: slice.get_neigbours_within_slice(target_cell))
     {
-        if (slice.have_boundary_of_type_with(target_cell, neighbour,target_op))
+        if (slice.is_cell_free(neighbour) && slice.have_boundary_of_type_with(target_cell, neighbour,target_op))
             edges.emplace_back(make_vertex(neighbour), target_vertex);
     }
 
-    Graph g{edges.begin(), edges.end(), vertices.size()};
+    Graph g{edges.begin(), edges.end(), std::max<size_t>(vertices.size(), target_vertex+1)};
 
     property_map<Graph, vertex_predecessor_t>::type p
             = get(vertex_predecessor, g);
-- 
2.43.0


From 427e678b4f67b879d66b491bc90b2caa5afc202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:36 +0000
Subject: [PATCH 05/26] fix: choose the CNOT ancilla placement before gates are
 parsed, for every run

The placement was a process-wide static that was overridden only after the gate stream had
parsed its first gate and never restored: a circuit starting with a CNOT hung forever on layouts
without ancilla cells, and later runs in the same process inherited the placement.
---
 src/pipelines/slicer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index ac3cd89..b018c4a 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -379,6 +379,17 @@ namespace lsqecc
         if (parser.exists("notwists"))
             sgate_mode = SGateMode::Catalytic;
 
+        // The ancilla placement must be chosen before any gate is parsed (gate streams read ahead), and it must not
+        // be inherited from an earlier run in the same process
+        gates::ControlledGate::default_ancilla_placement = gates::CNOTAncillaPlacement::USE_DEDICATED_CELL;
+        if (const auto* auto_layout_mode = std::get_if<AutoLayoutMode>(&layout_mode))
+        {
+            if (*auto_layout_mode == AutoLayoutMode::Edpc) // These layouts have no dedicated ancilla cells
+                gates::ControlledGate::default_ancilla_placement = gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET;
+        }
+        else if (std::get<std::unique_ptr<LayoutFromSpec>>(layout_mode)->ancilla_location().empty())
+            gates::ControlledGate::default_ancilla_placement = gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET;
+
         IdGenerator id_generator;
         std::unique_ptr<LSInstructionStream> instruction_stream;
         std::unique_ptr<GateStream> gate_stream;
-- 
2.43.0


From 5cd896d81f1c4e888bd100847589249fdc52ecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:58 +0000
Subject: [PATCH 06/26] fix: operation ids continued from earlier runs in the
 same process

---
 src/patches/dense_patch_computation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index fb6f904..6426544 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1644,6 +1644,9 @@ DensePatchComputationResult run_through_dense_slices(
 
     DensePatchComputationResult res;
 
+    // Operation ids must not depend on earlier runs in the same process
+    multi_body_measurement_op_id_counter = 1;
+
     // TODO move this out of here and into the pipeline, if possible. (might have to also take res out)
     auto start = lstk::now();
     if(timeout.has_value())
-- 
2.43.0


From b6bcb034af0a47a239d60a83ed0c1b1ca7d77538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:58 +0000
Subject: [PATCH 07/26] fix: runs without slices and graceful errors corrupted
 the JSON output

The report of a graceful run went to stdout, in the middle of the slices, and a run that ended
before its first slice printed a lone closing bracket.
---
 src/patches/dense_patch_computation.cpp | 4 ++--
 src/pipelines/slicer.cpp                | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 6426544..eebf2fc 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1730,8 +1730,8 @@ DensePatchComputationResult run_through_dense_slices(
         catch (const std::exception& e)
         {
 
-            std::cout << "Encountered exception: " << e.what() << std::endl;
-            std::cout << "Halting slicing" << std::endl;
+            std::cerr << "Encountered exception: " << e.what() << std::endl;
+            std::cerr << "Halting slicing" << std::endl;
         }
     }
     else
diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index b018c4a..c8d184f 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -695,7 +695,11 @@ namespace lsqecc
         }
         
         if(print_slices)
+        {
+            if(is_first_slice) // No slice was produced
+                bulk_output_stream.get() << "[\n";
             bulk_output_stream.get() << "]" <<std::endl;
+        }
         if (lli_print_mode == LLIPrintMode::Sliced)
             bulk_output_stream.get() << std::endl;
 
-- 
2.43.0


From 6ce4290def3d9eabe3301846c06bcc5c11b2c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:07 +0000
Subject: [PATCH 08/26] fix: generated ids collided with the declared qubits of
 LLI input

std::max compared the two iterators and dereferenced end(); the next free id is the largest
declared one plus one.
---
 src/pipelines/slicer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index c8d184f..dbab0d3 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -397,8 +397,10 @@ namespace lsqecc
         if (input_format == InputFormat::LLI)
         {
             instruction_stream = std::make_unique<LSInstructionStreamFromFile>(input_file_stream.get());
-            id_generator.set_start(*std::max(instruction_stream->core_qubits().begin(),
-                                             instruction_stream->core_qubits().end()));
+            PatchId first_free_id = 0;
+            for (const PatchId core_id : instruction_stream->core_qubits())
+                first_free_id = std::max(first_free_id, core_id + 1);
+            id_generator.set_start(first_free_id);
             if( print_dag_mode == PrintDagMode::Input )
             {
                 auto dag = dag::full_dependency_dag_from_instruction_stream(*instruction_stream);
-- 
2.43.0


From 225c4939e1054bff30d9cc0ede13d8cab40236b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:07 +0000
Subject: [PATCH 09/26] fix: output that could not be written was reported as
 success

---
 src/pipelines/slicer.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index dbab0d3..85393c5 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -291,9 +291,27 @@ namespace lsqecc
         if(parser.exists("o"))
         {
             _ofstream_store = std::make_unique<std::ofstream>(parser.get<std::string>("o"));
+            if(_ofstream_store->fail())
+            {
+                err_stream << "Could not open output file: " << parser.get<std::string>("o") << std::endl;
+                return -1;
+            }
             bulk_output_stream = std::ref(*_ofstream_store);
         }
 
+        // Output that could not be written must not look like success
+        auto finish_output = [&]() -> int
+        {
+            bulk_output_stream.get().flush();
+            out_stream.flush();
+            if(!bulk_output_stream.get() || !out_stream)
+            {
+                err_stream << "Could not write the output" << std::endl;
+                return -1;
+            }
+            return 0;
+        };
+
         auto output_format_mode = (parser.exists("o") || parser.exists("noslices")) ? OutputFormatMode::Progress : OutputFormatMode::NoProgress;
         if(parser.exists("f"))
         {
@@ -405,7 +423,7 @@ namespace lsqecc
             {
                 auto dag = dag::full_dependency_dag_from_instruction_stream(*instruction_stream);
                 dag.to_graphviz(out_stream);
-                return 0;
+                return finish_output();
             }
         }
         else if (input_format == InputFormat::QASM)
@@ -427,7 +445,7 @@ namespace lsqecc
             {
                 auto dag = dag::full_dependency_dag_from_gate_stream(*gate_stream);
                 dag.to_graphviz(out_stream);
-                return 0;
+                return finish_output();
             }
 
             gate_stream = std::make_unique<DecomposeRotationStream>(
@@ -554,12 +572,12 @@ namespace lsqecc
         if(lli_print_mode == LLIPrintMode::BeforeSlicing)
         {
             print_all_ls_instructions_to_string(out_stream, std::move(instruction_stream));
-            return 0;
+            return finish_output();
         } else if (print_dag_mode == PrintDagMode::ProcessedLli)
         {
             auto dag = dag::full_dependency_dag_from_instruction_stream(*instruction_stream);
             dag.to_graphviz(out_stream);
-            return 0;
+            return finish_output();
         }
 
         auto timeout = parser.exists("t") ?
@@ -705,7 +723,7 @@ namespace lsqecc
         if (lli_print_mode == LLIPrintMode::Sliced)
             bulk_output_stream.get() << std::endl;
 
-        return 0;
+        return finish_output();
     }
 
 
-- 
2.43.0


From 8b80dc24e335fd243dc1850ee8cd27319d99e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:34 +0000
Subject: [PATCH 10/26] fix: Pandora circuits ended at the first layer without
 supported gates

A layer whose rows produce no gate (outputs, resets, measurements) was taken for the end of the
circuit, silently dropping the rest; asking for a gate past the end read an empty queue.
---
 include/lsqecc/gates/postgres_gate_stream.hpp |  1 +
 src/gates/postgres_gate_stream.cpp            | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/lsqecc/gates/postgres_gate_stream.hpp b/include/lsqecc/gates/postgres_gate_stream.hpp
index a78448e..bfe16c0 100644
--- a/include/lsqecc/gates/postgres_gate_stream.hpp
+++ b/include/lsqecc/gates/postgres_gate_stream.hpp
@@ -29,6 +29,7 @@ private:
     const Qreg qreg_;
     mutable std::queue<gates::Gate> gates_in_layer_;
     mutable size_t current_layer_ = 0;
+    mutable bool no_more_layers_ = false;
 
     void advance_layer() const;
 };
diff --git a/src/gates/postgres_gate_stream.cpp b/src/gates/postgres_gate_stream.cpp
index dfeab53..aedab8b 100644
--- a/src/gates/postgres_gate_stream.cpp
+++ b/src/gates/postgres_gate_stream.cpp
@@ -116,12 +116,16 @@ void PandoraPostgresGateStream::advance_layer() const {
         }();
         if(gate) gates_in_layer_.push(*gate);
     }
-    ++current_layer_;
+    if (r.empty())
+        no_more_layers_ = true;
+    else
+        ++current_layer_;
 }
 
 gates::Gate PandoraPostgresGateStream::get_next_gate()
 {
-    if (gates_in_layer_.empty()) advance_layer();
+    if (!has_next_gate())
+        throw std::logic_error{"PandoraPostgresGateStream: No more gates"};
 
     auto gate = gates_in_layer_.front();
     gates_in_layer_.pop();
@@ -130,9 +134,10 @@ gates::Gate PandoraPostgresGateStream::get_next_gate()
 
 bool PandoraPostgresGateStream::has_next_gate() const
 {
-    if (gates_in_layer_.empty())
+    // Some layers only have rows that produce no gate, the circuit only ends at the first layer without rows
+    while (gates_in_layer_.empty() && !no_more_layers_)
         advance_layer();
-    
+
     return !gates_in_layer_.empty();
 
 }
-- 
2.43.0


From 77304043fe001027dba0a9f4dbfe983f77f3b171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:34 +0000
Subject: [PATCH 11/26] fix: reading from a broken input stream never ended

A stream that fails without reaching its end (I/O error, directory given as input) was polled
forever, and the part of a line read before an error was used as if it were complete.
---
 src/gates/parse_gates.cpp                     | 7 +++++--
 src/ls_instructions/ls_instruction_stream.cpp | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 268e548..366cf98 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -260,7 +260,7 @@ ParseGateResult parse_gate(std::string_view str_line)
     str_line = std::string_view { sline };
 
     // check for comment at beginning of line
-    if (str_line[0]=='/' && str_line[1] == '/')
+    if (str_line.starts_with("//"))
     {
         return IgnoredInstruction{};
     }
@@ -285,12 +285,15 @@ void GateStreamFromFile::advance_gate()
     while(!std::holds_alternative<gates::Gate>(maybe_gate))
     {
         std::string line;
-        while(!gate_file_.eof() && line.size() ==0)
+        while(gate_file_.good() && line.size() ==0)
         {
             std::getline(gate_file_, line);
             line_number_++;
         }
 
+        if(gate_file_.bad())
+            throw std::runtime_error{lstk::cat("Could not read gates, error after line ", line_number_-1)};
+
         if(line.size()==0)
         {
             next_gate_ = std::nullopt;
diff --git a/src/ls_instructions/ls_instruction_stream.cpp b/src/ls_instructions/ls_instruction_stream.cpp
index a72b382..c00205f 100644
--- a/src/ls_instructions/ls_instruction_stream.cpp
+++ b/src/ls_instructions/ls_instruction_stream.cpp
@@ -12,12 +12,15 @@ using namespace std::string_literals;
 void LSInstructionStreamFromFile::advance_instruction()
 {
     std::string line;
-    while(!instructions_file_.eof() && line.size() ==0)
+    while(instructions_file_.good() && line.size() ==0)
     {
         std::getline(instructions_file_, line);
         line_number_++;
     }
 
+    if(instructions_file_.bad())
+        throw std::runtime_error{lstk::cat("Could not read instructions, error after line ", line_number_-1)};
+
     if(line.size()==0)
     {
         next_instruction_ = std::nullopt;
-- 
2.43.0


From 86bfb4047dd240823bb131c46d8c4917ab55c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:51 +0000
Subject: [PATCH 12/26] fix: DAG changed sets while iterating over them

Expanding an instruction with more than one proximate dependency read erased elements and
recorded wrong pairs.
---
 include/lsqecc/dag/dependency_dag.hpp | 16 ++++++++--------
 src/dag/directed_graph.cpp            |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/lsqecc/dag/dependency_dag.hpp b/include/lsqecc/dag/dependency_dag.hpp
index b9f44d5..18bf340 100644
--- a/include/lsqecc/dag/dependency_dag.hpp
+++ b/include/lsqecc/dag/dependency_dag.hpp
@@ -118,18 +118,18 @@ struct DependencyDag
         
 
         // Now do the proximity bookkeeping for the extremes of the replacement
-        for (auto&[from, to]: proximate_dependencies_)
+        std::vector<std::pair<label_t, label_t>> target_dependencies;
+        for (const auto& dependency: proximate_dependencies_)
+            if (dependency.first == target || dependency.second == target)
+                target_dependencies.push_back(dependency);
+
+        for (const auto& [from, to]: target_dependencies)
         {
+            proximate_dependencies_.erase({from, to});
             if (from == target)
-            {
-                proximate_dependencies_.erase({from, to});
                 proximate_dependencies_.insert({new_lables.back(), to});
-            }
-            if (to == target)
-            {
-                proximate_dependencies_.erase({from, to});
+            else
                 proximate_dependencies_.insert({from, new_lables.front()});
-            }
         }
 
         if (proximate_heads_.contains(target))
diff --git a/src/dag/directed_graph.cpp b/src/dag/directed_graph.cpp
index 2b4155c..e067377 100644
--- a/src/dag/directed_graph.cpp
+++ b/src/dag/directed_graph.cpp
@@ -39,10 +39,10 @@ void DirectedGraph::remove_node(label_t target)
     if(!edges_.count(target))
         throw std::runtime_error("Cannot remove non-existing node: " + std::to_string(target));
 
-    for(const auto& to : edges_.at(target))
+    for(const auto& to : successors(target))
         remove_edge(target, to);
 
-    for(const auto& from : back_edges_.at(target))
+    for(const auto& from : predecessors(target))
         remove_edge(from, target);
 
     edges_.erase(target);
-- 
2.43.0


From c127670f814c6a605f17e6ed4af105c3af7754bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 13/26] fix: followers of a served DAG instruction were never
 marked proximate

---
 include/lsqecc/dag/dependency_dag.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/lsqecc/dag/dependency_dag.hpp b/include/lsqecc/dag/dependency_dag.hpp
index 18bf340..9c78111 100644
--- a/include/lsqecc/dag/dependency_dag.hpp
+++ b/include/lsqecc/dag/dependency_dag.hpp
@@ -89,6 +89,14 @@ struct DependencyDag
                 proximate_dependencies_.erase({predecessor, label});
             }
         }
+        for(label_t successor: graph_.successors(label))
+        {
+            if(proximate_dependencies_.contains({label, successor}))
+            {
+                proximate_heads_.insert(successor);
+                proximate_dependencies_.erase({label, successor});
+            }
+        }
         graph_.remove_node(label);
 
         if(proximate_heads_.contains(label))
-- 
2.43.0


From e1a77911ccf42a0397a941381646e9af494b770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:41 +0000
Subject: [PATCH 14/26] fix: Y state requests read empty cells of the pool

A lent Y state that is measured leaves its pool cell free; the next request dereferenced it.
---
 src/patches/dense_patch_computation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index eebf2fc..4f54574 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1346,7 +1346,7 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
                 double dist;
                 for (const Cell& cell : layout.predistilled_y_states())
                 {
-                    if (!slice.patch_at(cell)->id.has_value() && !slice.patch_at(cell)->is_active())
+                    if (slice.patch_at(cell).has_value() && !slice.patch_at(cell)->id.has_value() && !slice.patch_at(cell)->is_active())
                     {
                         dist = abs(cell.col - slice.get_cell_by_id(yr->near_patch).value().col) + abs(cell.row - slice.get_cell_by_id(yr->near_patch).value().row);
                         if (dist < min_dist)
-- 
2.43.0


From 4c25930809b0f4dca484a7e50b9b8428aa4a7af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:57 +0000
Subject: [PATCH 15/26] fix: write errors reported when the output file is
 closed went unnoticed

---
 src/pipelines/slicer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 85393c5..aa155f2 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -287,7 +287,7 @@ namespace lsqecc
         }
 
         std::reference_wrapper<std::ostream> bulk_output_stream = std::ref(out_stream);
-        std::unique_ptr<std::ostream> _ofstream_store;
+        std::unique_ptr<std::ofstream> _ofstream_store;
         if(parser.exists("o"))
         {
             _ofstream_store = std::make_unique<std::ofstream>(parser.get<std::string>("o"));
@@ -304,6 +304,8 @@ namespace lsqecc
         {
             bulk_output_stream.get().flush();
             out_stream.flush();
+            if(_ofstream_store)
+                _ofstream_store->close(); // Some file systems report write errors only here
             if(!bulk_output_stream.get() || !out_stream)
             {
                 err_stream << "Could not write the output" << std::endl;
-- 
2.43.0


From d3285fa0ecb89c3055a3976d7914e7ba3f6802a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:50 +0000
Subject: [PATCH 16/26] fix: malformed lines were read past their arguments

---
 src/gates/parse_gates.cpp                     | 6 +++---
 src/ls_instructions/ls_instructions_parse.cpp | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 366cf98..fc9e549 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -198,7 +198,7 @@ gates::Gate parse_qasm_gate(const Line& line)
         }
 
         return gates::RZ{
-            get_index_arg(line.args[0]),
+            get_index_arg(line.args.at(0)),
             fraction
             };
     }
@@ -207,8 +207,8 @@ gates::Gate parse_qasm_gate(const Line& line)
         if(line.instruction.substr(3,4) == "(pi/")
         {
             return gates::CRZ(
-                get_index_arg(line.args[1]),
-                get_index_arg(line.args[0]),
+                get_index_arg(line.args.at(1)),
+                get_index_arg(line.args.at(0)),
                 parse_angle(get_arg_in_brackets(line.instruction)),
                 determine_cnot_type(line.annotations),
                 determine_cnot_ancilla_placement(line.annotations));
diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 27f2e77..14e18b4 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -127,6 +127,8 @@ LSInstruction parse_ls_instruction(std::string_view line)
             locs.push_back(PlaceNexTo{parse_patch_id(assoc[0]), PauliOperator_from_string(assoc[1])});
             counter++;
         }
+        if (locs.size() != 2)
+            throw InstructionParseException{std::string{"BellPairInit needs two locations, got: "}+std::string{patches_dict}};
         return {BellPairInit{side1, side2, locs[0], locs[1]}};
     }      
     else if(instruction == "RequestYState" || instruction == "9")
-- 
2.43.0


From c828b29e7639f6bf55226d4bccff50ee9fbff496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:25 +0000
Subject: [PATCH 17/26] fix: EDPC CNOTs lost their last step when the first
 layer of phase 2 was empty

---
 src/patches/dense_patch_computation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 4f54574..7b05e0d 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1166,7 +1166,8 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
 
                     // If this is the final phase, the instruction has been fully applied 
                     if ((phase == bell_cnot->local_instruction_sets.value().size() - 1) ||
-                        ((phase == 1) && (bell_cnot->local_instruction_sets.value()[2].size() == 0)))
+                        ((phase == 1) && (bell_cnot->local_instruction_sets.value()[2].size() == 0)
+                                      && (bell_cnot->local_instruction_sets.value()[3].size() == 0)))
                     {
                         return {nullptr, {}};
                     }
-- 
2.43.0


From 512252ea339e9e1546bad1e3112f39ec805d0fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 18/26] fix: keep generated patch ids clear of the ids an LLI
 program names itself

---
 src/pipelines/slicer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index aa155f2..54dafd7 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -417,7 +417,9 @@ namespace lsqecc
         if (input_format == InputFormat::LLI)
         {
             instruction_stream = std::make_unique<LSInstructionStreamFromFile>(input_file_stream.get());
-            PatchId first_free_id = 0;
+            // Instructions further down may name patches of their own (e.g. Init), which can't be known upfront.
+            // So generated ids come from the upper half of the id space.
+            PatchId first_free_id = std::numeric_limits<PatchId>::max()/2 + 1;
             for (const PatchId core_id : instruction_stream->core_qubits())
                 first_free_id = std::max(first_free_id, core_id + 1);
             id_generator.set_start(first_free_id);
-- 
2.43.0


From 565360691e001a2fe36dbec85859c2fa9ac2f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:14 +0000
Subject: [PATCH 19/26] fix: rotating a patch exchanges its exposed operators

---
 src/layout/dynamic_layouts/determine_exposed_operators.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/layout/dynamic_layouts/determine_exposed_operators.cpp b/src/layout/dynamic_layouts/determine_exposed_operators.cpp
index efc6ddd..48ddc2a 100644
--- a/src/layout/dynamic_layouts/determine_exposed_operators.cpp
+++ b/src/layout/dynamic_layouts/determine_exposed_operators.cpp
@@ -1,6 +1,8 @@
 #include <lsqecc/layout/dynamic_layouts/determine_exposed_operators.hpp>
 #include <lsqecc/patches/dense_slice.hpp>
 
+#include <utility>
+
 namespace lsqecc
 {
 
@@ -13,8 +15,7 @@ bool RotatableSingleQubitPatchExposedOperators::is_exposed(const PauliOperator o
 
 void RotatableSingleQubitPatchExposedOperators::rotate()
 {
-    x_exposed = !x_exposed;
-    z_exposed = !z_exposed;
+    std::swap(x_exposed, z_exposed);
 }
 
 tsl::ordered_map<PatchId, RotatableSingleQubitPatchExposedOperators> determine_exposed_core_operators(
-- 
2.43.0


From d96aec02e464456a480383560b9a09236ec4251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:20 +0000
Subject: [PATCH 20/26] fix: track explicit patch rotations when injecting
 boundary rotations

---
 src/ls_instructions/boundary_rotation_injection_stream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ls_instructions/boundary_rotation_injection_stream.cpp b/src/ls_instructions/boundary_rotation_injection_stream.cpp
index 4fb3a31..42fd58c 100644
--- a/src/ls_instructions/boundary_rotation_injection_stream.cpp
+++ b/src/ls_instructions/boundary_rotation_injection_stream.cpp
@@ -79,6 +79,11 @@ LSInstruction BoundaryRotationInjectionStream::get_next_instruction()
         } 
 
     }
+    else if (const auto* rotation = std::get_if<RotateSingleCellPatch>(&new_instruction.operation))
+    {
+        if (exposed_operators_.contains(rotation->target))
+            exposed_operators_.at(rotation->target).rotate();
+    }
     
     next_instructions_.push(new_instruction);
 
-- 
2.43.0


From 75f9182abdfd6e6d7b7d54f2b7aa844288a674c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:21 +0000
Subject: [PATCH 21/26] fix: keep the sign of a pi/2 rotation

---
 src/ls_instructions/ls_instruction_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ls_instructions/ls_instruction_stream.cpp b/src/ls_instructions/ls_instruction_stream.cpp
index c00205f..eaebcee 100644
--- a/src/ls_instructions/ls_instruction_stream.cpp
+++ b/src/ls_instructions/ls_instruction_stream.cpp
@@ -104,7 +104,7 @@ LSInstruction LSInstructionStreamFromGateStream::get_next_instruction()
             if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 1)
                 next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::Z}}});
             else if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 2)
-                next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::S}}});
+                next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::S, rz_gate->pi_fraction.is_negative}}});
             else if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 4)
             {
                 auto instructions = instruction_generator_.make_t_gate_instructions(rz_gate->target_qubit);
-- 
2.43.0


From ab23d20ccf518cb5c7ea693a77d1b13947bf2092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:30 +0000
Subject: [PATCH 22/26] fix: expose the boundary a new patch is placed next to

---
 .../boundary_rotation_injection_stream.cpp          | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ls_instructions/boundary_rotation_injection_stream.cpp b/src/ls_instructions/boundary_rotation_injection_stream.cpp
index 42fd58c..bbead2d 100644
--- a/src/ls_instructions/boundary_rotation_injection_stream.cpp
+++ b/src/ls_instructions/boundary_rotation_injection_stream.cpp
@@ -79,6 +79,19 @@ LSInstruction BoundaryRotationInjectionStream::get_next_instruction()
         } 
 
     }
+    else if (const auto* init = std::get_if<PatchInit>(&new_instruction.operation))
+    {
+        // The new patch goes next to the given boundary, so that has to be reachable
+        if (init->place_next_to)
+        {
+            const auto& [neighbour, op] = *init->place_next_to;
+            if (exposed_operators_.contains(neighbour) && !exposed_operators_.at(neighbour).is_exposed(op))
+            {
+                next_instructions_.push({RotateSingleCellPatch{neighbour}});
+                exposed_operators_.at(neighbour).rotate();
+            }
+        }
+    }
     else if (const auto* rotation = std::get_if<RotateSingleCellPatch>(&new_instruction.operation))
     {
         if (exposed_operators_.contains(rotation->target))
-- 
2.43.0


From bc49112a5c1dc59530a8f117d191a2028ec6d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:10 +0000
Subject: [PATCH 23/26] fix: let the dependency DAG of a circuit hold reset
 gates

---
 src/gates/gates.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index f22577f..a549bf0 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -169,6 +169,9 @@ tsl::ordered_set<QubitNum> get_operating_qubits(const Gate& gate)
                 }
             }, g.target_gate);
         },
+        [&](const Reset& reset){
+            res.insert(reset.target_qubit);
+        },
         [&](const auto&){
             LSTK_UNREACHABLE;
         }
-- 
2.43.0


From 58faa9a10fd1c095e4b584fc840200ea96515883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:54 +0000
Subject: [PATCH 24/26] fix: print rotations with their sign, and resets, as
 they are read

---
 src/gates/gates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index a549bf0..d54b76a 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -223,7 +223,7 @@ std::ostream& operator<<(std::ostream& os, const gates::Gate& gate)
             }() << " q[" << gate.target_qubit << "];";
         },
         [&](const RZ& rz){
-            os << "rz("<<rz.pi_fraction.num<<"pi/"<<rz.pi_fraction.den<<") q["<<rz.target_qubit<<"];";
+            os << "rz("<<(rz.pi_fraction.is_negative ? "-" : "")<<rz.pi_fraction.num<<"*pi/"<<rz.pi_fraction.den<<") q["<<rz.target_qubit<<"];";
         },
         [&](const ControlledGate& ctrld){
             return std::visit(lstk::overloaded{
@@ -252,7 +252,7 @@ std::ostream& operator<<(std::ostream& os, const gates::Gate& gate)
             }, ctrld.target_gate);
         },
         [&](const Reset& reset){
-            os << "reset" << "q[" << reset.target_qubit << "]";
+            os << "reset q[" << reset.target_qubit << "];";
         }
     }, gate);
 
-- 
2.43.0


From f1f04bf3667c69d55120803578bb066b7a1b0f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:47 +0000
Subject: [PATCH 25/26] fix: keep the rest of a text after the last replaced
 character

---
 include/lstk/lstk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 23f27c3..6bda164 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -216,6 +216,7 @@ static inline std::string str_replace(std::string_view s, char target, std::stri
         out << s.substr(0,s.find(target)) << replace_with;
         s = s.substr(s.find(target)+1,s.length());
     }
+    out << s;
     return out.str();
 }
 
-- 
2.43.0


From d7c4fb557c12d3beed2ec18ace5ecf76899659e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:30 +0000
Subject: [PATCH 26/26] fix: accept the documented spelling of -f noprogress

---
 src/pipelines/slicer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 54dafd7..87ed29b 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -320,7 +320,7 @@ namespace lsqecc
             auto mode_arg = parser.get<std::string>("f");
             if (mode_arg=="progress")
                 output_format_mode = OutputFormatMode::Progress;
-            else if (mode_arg=="noprogres")
+            else if (mode_arg=="noprogress" || mode_arg=="noprogres") // The second spelling was accepted first
                 output_format_mode = OutputFormatMode::NoProgress;
             else if (mode_arg=="machine")
                 output_format_mode = OutputFormatMode::Machine;
-- 
2.43.0


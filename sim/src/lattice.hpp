// Simulated slicing run: the real pipelines, lattice, routers and instruction streams of the
// repository, driven inside one process through their interfaces; every event is logged.
#pragma once
#include "common.hpp"

#include <lsqecc/layout/layout.hpp>
#include <lsqecc/ls_instructions/ls_instruction_stream.hpp>
#include <lsqecc/patches/dense_patch_computation.hpp>
#include <lsqecc/patches/dense_slice.hpp>

#include <functional>
#include <memory>
#include <optional>

namespace sim {

using lsqecc::Cell;
using lsqecc::LSInstruction;
using lsqecc::PatchId;

// what the code under test shows for one cell
struct CellSnap {
    bool present = false;
    uint8_t type = 0, act = 0;
    int64_t id = -1, op = -1;
    uint8_t bt[4] = {0, 0, 0, 0};   // top bottom left right (BoundaryType)
    bool ba[4] = {false, false, false, false};
    bool operator==(const CellSnap&) const = default;
    bool active() const { return act != 0 || ba[0] || ba[1] || ba[2] || ba[3]; }
};
string to_text(const CellSnap& c);

struct SliceSnap {
    int rows = 0, cols = 0;
    vector<CellSnap> cells;
    vector<uint32_t> timers;
    uint32_t ypool = 0;
    std::set<int> magic;
    size_t edpc_cross = 0, edpc_marked = 0;
    uint64_t hash() const;
    const CellSnap& at(int i) const { return cells[i]; }
};
SliceSnap snap(const lsqecc::DenseSlice& s);

struct LayoutInfo {
    int rows = 0, cols = 0;
    vector<int> core;                 // cells in order
    vector<CellSnap> core_patch;      // as the layout describes them
    vector<int> dead, reserved, ypool, ancilla;
    vector<vector<int>> regions, queues;
    vector<vector<CellSnap>> region_patch;
    vector<uint32_t> times;
    bool magic_reserved = false;
    int idx(const Cell& c) const { return c.row * cols + c.col; }
    Cell cell(int i) const { return Cell{i / cols, i % cols}; }
};
LayoutInfo describe(const lsqecc::Layout& l);

struct QueryEv {
    int slice;
    PatchId s, t;
    int sop, top;
    bool edpc, found, refused, detour;
    vector<int> cells;
};

enum class EvKind { Pull, Visit, Query, Slice };
struct Ev {
    EvKind kind;
    int index;   // into the respective vector
    int slice;   // number of slices emitted before this event
};

struct Log {
    LayoutInfo lay;
    vector<PatchId> core_ids;
    vector<LSInstruction> pulls;
    vector<LSInstruction> visits;
    vector<QueryEv> queries;
    vector<SliceSnap> slices;
    vector<Ev> events;
    vector<string> limited;          // see ProgramSource
    int64_t source_total = -1;       // instructions the source holds, when known
    bool stream_exhausted = false;   // the consumer saw the end of the instruction stream
    bool finished = false;           // run_through_dense_slices returned
    bool threw = false;
    bool setup_failed = false;       // layout or input rejected before slicing began
    string error;                    // message of the exception
    string error_type;
    bool stopped_idle = false, stopped_cap = false;
    bool fault_fired = false;
    string graceful_text;            // what a graceful run reported
    size_t count_instr = 0, count_slices = 0;
    std::map<string, uint64_t> counters;
    uint64_t hash() const;
};

struct Refusal { int from, to; int permille; uint64_t salt; int a = -1, b = -1; };
struct FaultPlan {
    vector<Refusal> refusals;
    int source_throw_at = -1;        // pull number
    int router_throw_at = -1;        // query number
    int slice_throw_at = -1;         // slice number (before it is accepted)
    int visit_throw_at = -1;
    int64_t alloc_fail_at = -1;      // nth allocation inside the run
    int detour_permille = 0;
    uint64_t detour_salt = 0;
    int last_refusal_slice() const
    {
        int r = -1;
        for (auto& x : refusals) r = std::max(r, x.to);
        return r;
    }
};
FaultPlan parse_faults(const Scenario& sc);
bool refused_at(const FaultPlan& f, int slice, PatchId a, PatchId b);

struct RunOptions {
    lsqecc::PipelineMode mode = lsqecc::PipelineMode::Stream;
    bool local = false, twists = true, op_ids = false, graceful = false;
    string search = "djikstra";
    std::optional<int64_t> timeout;
    int idle_limit = 40, cap = 3000;
};

// an instruction source: owns whatever the chain of streams needs
struct ProgramSource {
    std::unique_ptr<lsqecc::LSInstructionStream> stream;
    vector<std::shared_ptr<void>> keep;
    vector<string> limited;      // instructions read without a wait budget that came with one
};

struct RunHooks {
    std::function<void(const lsqecc::DenseSlice&)> on_slice;     // in addition to logging
    std::function<void()> before_pull;
    std::function<void(const LSInstruction&)> on_visit;
};

std::unique_ptr<lsqecc::Layout> make_layout(const Scenario& sc, size_t n_core);
// builds the stream chain and layout the way the slicer program does
void build(const Scenario& sc, std::unique_ptr<lsqecc::Layout>& layout, ProgramSource& src);
RunOptions run_options(const Scenario& sc);

// runs and logs; violations found while the run proceeds (router reference) go to out
void run_lattice(const Scenario& sc, Log& log, Outcome& out, const RunHooks& hooks = {});
void check_log(const Scenario& sc, const Log& log, Outcome& out);
void log_failure_text(const Log& log, std::ostream& o);

// reference search
struct RefRoute { bool found = false; int length = 0; vector<int> path; };
RefRoute reference_route(const SliceSnap& s, const LayoutInfo& l, int src, int sop, int tgt, int top, bool edpc);
bool route_is_valid(const SliceSnap& s, const LayoutInfo& l, int src, int sop, int tgt, int top, bool edpc,
                    const vector<int>& cells, string& why);

string print_text(const LSInstruction& i, bool local = true);   // as the program prints it, rendered from the data
string ins_text(const LSInstruction& i);      // operands only, without executed local steps
}  // namespace sim

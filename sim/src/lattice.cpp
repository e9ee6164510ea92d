#include "lattice.hpp"
#include "seams.hpp"

#include <lsqecc/gates/decompose_rotation_stream.hpp>
#include <lsqecc/gates/parse_gates.hpp>
#include <lsqecc/layout/ascii_layout_spec.hpp>
#include <lsqecc/layout/dynamic_layouts/compact_layout.hpp>
#include <lsqecc/layout/dynamic_layouts/edpc_layout.hpp>
#include <lsqecc/layout/router.hpp>
#include <lsqecc/ls_instructions/boundary_rotation_injection_stream.hpp>
#include <lsqecc/ls_instructions/catalytic_s_gate_injection_stream.hpp>
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
#include <lsqecc/ls_instructions/teleported_s_gate_injection_stream.hpp>

#include <cxxabi.h>
#include <deque>
#include <iostream>
#include <typeinfo>

namespace sim {
using namespace lsqecc;

namespace {
struct StopRun {};   // deliberately not a std::exception

string demangled(const std::exception& e)
{
    int st = 0;
    char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    string r = n ? n : typeid(e).name();
    std::free(n);
    return r;
}
uint8_t U(BoundaryType t) { return static_cast<uint8_t>(t); }

CellSnap snap_patch(const Patch& p, const CellBoundaries& b)
{
    CellSnap c;
    c.present = true;
    c.type = static_cast<uint8_t>(p.type);
    c.act = static_cast<uint8_t>(p.activity);
    c.id = p.id ? int64_t(*p.id) : -1;
    c.op = p.operation_id ? int64_t(*p.operation_id) : -1;
    const Boundary* bs[4] = {&b.top, &b.bottom, &b.left, &b.right};
    for (int i = 0; i < 4; i++) { c.bt[i] = U(bs[i]->boundary_type); c.ba[i] = bs[i]->is_active; }
    return c;
}
}  // namespace

string to_text(const CellSnap& c)
{
    if (!c.present) return "free";
    static const char* T[] = {"Distillation", "PreparedState", "Qubit", "Routing", "Dead"};
    static const char* A[] = {"None", "Measurement", "Unitary", "Distillation", "Dead", "MultiPatchMeasurement",
                              "Rotation", "EDPC", "Reserved"};
    static const char B[] = "-CRS12";
    string r = cat(c.type < 5 ? T[c.type] : "?", "/", c.act < 9 ? A[c.act] : "?");
    if (c.id >= 0) r += cat(" id", c.id);
    if (c.op >= 0) r += cat(" op", c.op);
    r += " tblr=";
    for (int i = 0; i < 4; i++) { r += c.bt[i] < 6 ? B[c.bt[i]] : '?'; if (c.ba[i]) r += '*'; }
    return r;
}

uint64_t SliceSnap::hash() const
{
    Hasher h;
    h.u(rows * 1000 + cols);
    for (auto& c : cells) {
        if (!c.present) { h.u(7); continue; }
        uint64_t x = c.type * 16 + c.act;
        for (int i = 0; i < 4; i++) x = x * 16 + c.bt[i] * 2 + c.ba[i];
        h.u(x);
        h.u(uint64_t(c.id));
        h.u(uint64_t(c.op));
    }
    for (auto t : timers) h.u(t);
    h.u(ypool);
    for (auto m : magic) h.u(m);
    h.u(edpc_cross);
    return h.h;
}

// bookkeeping fields are read where they exist (they are no part of any property's statement by name)
template<class S> static void snap_bookkeeping(const S& s, SliceSnap& r)
{
    if constexpr (requires { s.time_to_next_magic_state_by_distillation_region; })
        for (auto t : s.time_to_next_magic_state_by_distillation_region) r.timers.push_back(uint32_t(t));
    if constexpr (requires { s.predistilled_ystates_available; }) r.ypool = uint32_t(s.predistilled_ystates_available);
    if constexpr (requires { s.magic_states; })
        for (auto& c : s.magic_states) r.magic.insert(c.row * r.cols + c.col);
    if constexpr (requires { s.EDPC_crossing_vertices; }) r.edpc_cross = s.EDPC_crossing_vertices.size();
    if constexpr (requires { s.marked_rough_boundaries_EDPC; s.marked_smooth_boundaries_EDPC; })
        r.edpc_marked = s.marked_rough_boundaries_EDPC.size() + s.marked_smooth_boundaries_EDPC.size();
}

SliceSnap snap(const DenseSlice& s)
{
    SliceSnap r;
    r.rows = int(s.cells.size());
    r.cols = r.rows ? int(s.cells[0].size()) : 0;
    r.cells.reserve(size_t(r.rows) * r.cols);
    for (auto& row : s.cells)
        for (auto& c : row) {
            if (!c) r.cells.emplace_back();
            else r.cells.push_back(snap_patch(*c, c->boundaries));
        }
    snap_bookkeeping(s, r);
    return r;
}

LayoutInfo describe(const Layout& l)
{
    LayoutInfo r;
    auto f = l.furthest_cell();
    r.rows = f.row + 1;
    r.cols = f.col + 1;
    for (auto& p : l.core_patches()) {
        r.core.push_back(r.idx(p.get_a_cell()));
        r.core_patch.push_back(snap_patch(p, std::get<SingleCellOccupiedByPatch>(p.cells)));
    }
    for (auto& c : l.dead_location()) r.dead.push_back(r.idx(c));
    for (auto& c : l.reserved_for_magic_states()) r.reserved.push_back(r.idx(c));
    for (auto& c : l.predistilled_y_states()) r.ypool.push_back(r.idx(c));
    for (auto& c : l.ancilla_location()) r.ancilla.push_back(r.idx(c));
    size_t k = 0;
    for (auto& reg : l.distillation_regions()) {
        r.regions.emplace_back();
        r.region_patch.emplace_back();
        for (auto& c : reg.sub_cells) {
            r.regions.back().push_back(r.idx(c.cell));
            r.region_patch.back().push_back(snap_patch(Patch{PatchType::Distillation, PatchActivity::Distillation, std::nullopt, std::nullopt, std::nullopt}, c));
        }
        r.queues.emplace_back();
        for (auto& c : l.distilled_state_locations(k)) r.queues.back().push_back(r.idx(c));
        k++;
    }
    for (auto t : l.distillation_times()) r.times.push_back(t);
    r.magic_reserved = l.magic_states_reserved();
    return r;
}

uint64_t Log::hash() const
{
    Hasher h;
    for (auto& e : events) {
        h.u(uint64_t(e.kind) * 1000003 + e.slice);
        if (e.kind == EvKind::Pull) { std::ostringstream o; o << pulls[e.index]; h.str(o.str()); }
        else if (e.kind == EvKind::Visit) { std::ostringstream o; o << visits[e.index]; h.str(o.str()); }
        else if (e.kind == EvKind::Query) {
            auto& q = queries[e.index];
            h.u(q.s); h.u(q.t); h.u(q.sop * 16 + q.top); h.u(q.found * 2 + q.refused);
            for (int c : q.cells) h.u(c);
        }
        else h.u(slices[e.index].hash());
    }
    h.u(finished * 8 + threw * 4 + stopped_idle * 2 + stopped_cap);
    h.str(error);
    h.str(graceful_text);
    h.u(count_instr);
    return h.h;
}

FaultPlan parse_faults(const Scenario& sc)
{
    FaultPlan f;
    for (auto& l : sc.faults) {
        auto w = words(l);
        if (w.empty()) continue;
        auto I = [&](size_t i) { return i < w.size() ? std::stoll(w[i]) : 0; };
        if (w[0] == "refuse") f.refusals.push_back({int(I(1)), int(I(2)), int(I(3)), uint64_t(I(4))});
        else if (w[0] == "refuse_pair") f.refusals.push_back({int(I(3)), int(I(4)), 1000, 0, int(I(1)), int(I(2))});
        else if (w[0] == "detour") { f.detour_permille = int(I(1)); f.detour_salt = uint64_t(I(2)); }
        else if (w[0] == "source_throw") f.source_throw_at = int(I(1));
        else if (w[0] == "router_throw") f.router_throw_at = int(I(1));
        else if (w[0] == "slice_throw") f.slice_throw_at = int(I(1));
        else if (w[0] == "visit_throw") f.visit_throw_at = int(I(1));
        else if (w[0] == "alloc_fail") f.alloc_fail_at = I(1);
    }
    return f;
}

bool refused_at(const FaultPlan& f, int slice, PatchId a, PatchId b)
{
    for (auto& r : f.refusals) {
        if (slice < r.from || slice > r.to) continue;
        if (r.a >= 0) {
            if ((PatchId(r.a) == a && PatchId(r.b) == b) || (PatchId(r.a) == b && PatchId(r.b) == a)) return true;
            continue;
        }
        uint64_t lo = std::min(a, b), hi = std::max(a, b);
        if (mix(mix(r.salt, slice), lo * 1000003 + hi) % 1000 < uint64_t(r.permille)) return true;
    }
    return false;
}

// ---------------------------------------------------------------- reference search
static const int DR[4] = {-1, 1, 0, 0}, DC[4] = {0, 0, -1, 1};   // top bottom left right
static const int OPP[4] = {1, 0, 3, 2};
static int neighbour(const SliceSnap& s, int i, int side)
{
    int r = i / s.cols + DR[side], c = i % s.cols + DC[side];
    if (r < 0 || c < 0 || r >= s.rows || c >= s.cols) return -1;
    return r * s.cols + c;
}
static int side_between(const SliceSnap& s, int a, int b)
{
    for (int k = 0; k < 4; k++) if (neighbour(s, a, k) == b) return k;
    return -1;
}
static uint8_t type_for(int op) { return op == int(PauliOperator::X) ? U(BoundaryType::Rough) : op == int(PauliOperator::Z) ? U(BoundaryType::Smooth) : 255; }
static bool usable(const SliceSnap& s, int c, bool edpc)
{
    auto& x = s.at(c);
    return !x.present || (edpc && x.act == uint8_t(PatchActivity::EDPC));
}
static bool edge_free(const SliceSnap& s, int a, int b, bool edpc)
{
    if (!usable(s, a, edpc) || !usable(s, b, edpc)) return false;
    if (!edpc) return true;
    int k = side_between(s, a, b);
    auto res = [](uint8_t t) { return t == U(BoundaryType::Reserved_Label1) || t == U(BoundaryType::Reserved_Label2); };
    if (s.at(a).present && res(s.at(a).bt[k])) return false;
    if (s.at(b).present && res(s.at(b).bt[OPP[k]])) return false;
    return true;
}

RefRoute reference_route(const SliceSnap& s, const LayoutInfo&, int src, int sop, int tgt, int top, bool edpc)
{
    RefRoute r;
    uint8_t st = type_for(sop), tt = type_for(top);
    if (src != tgt) {
        int k = side_between(s, src, tgt);
        if (k >= 0 && s.at(src).bt[k] == st && s.at(tgt).bt[OPP[k]] == tt) { r.found = true; return r; }
    }
    vector<int> pred(s.cells.size(), -2);
    std::deque<int> q;
    for (int k = 0; k < 4; k++) {
        int n = neighbour(s, src, k);
        if (n >= 0 && s.at(src).bt[k] == st && usable(s, n, edpc)) { pred[n] = -1; q.push_back(n); }
    }
    while (!q.empty()) {
        int c = q.front();
        q.pop_front();
        for (int k = 0; k < 4; k++) {
            int n = neighbour(s, c, k);
            if (n == tgt && s.at(tgt).bt[OPP[k]] == tt) {
                r.found = true;
                for (int x = c; x >= 0; x = pred[x]) r.path.push_back(x);
                r.length = int(r.path.size());
                return r;   // front is next to the target, back next to the source
            }
        }
        for (int k = 0; k < 4; k++) {
            int n = neighbour(s, c, k);
            if (n >= 0 && pred[n] == -2 && edge_free(s, c, n, edpc)) { pred[n] = c; q.push_back(n); }
        }
    }
    return r;
}

bool route_is_valid(const SliceSnap& s, const LayoutInfo&, int src, int sop, int tgt, int top, bool edpc,
                    const vector<int>& cells, string& why)
{
    uint8_t st = type_for(sop), tt = type_for(top);
    if (cells.empty()) {
        int k = side_between(s, src, tgt);
        if (k < 0) { why = "empty route between patches that do not touch"; return false; }
        if (s.at(src).bt[k] != st || s.at(tgt).bt[OPP[k]] != tt) { why = "empty route across boundaries of the wrong type"; return false; }
        return true;
    }
    std::set<int> seen;
    for (int c : cells) {
        if (c < 0 || c >= int(s.cells.size())) { why = "route leaves the lattice"; return false; }
        if (!usable(s, c, edpc)) { why = cat("route uses occupied cell ", c / s.cols, ",", c % s.cols, " (", to_text(s.at(c)), ")"); return false; }
        if (!seen.insert(c).second) { why = "route visits a cell twice"; return false; }
    }
    for (size_t i = 0; i + 1 < cells.size(); i++) {
        if (side_between(s, cells[i], cells[i + 1]) < 0) { why = "route is not contiguous"; return false; }
        if (!edge_free(s, cells[i], cells[i + 1], edpc)) { why = "route uses a reserved edge"; return false; }
    }
    int kt = side_between(s, tgt, cells.front()), ks = side_between(s, src, cells.back());
    if (kt < 0 || ks < 0) { why = "route does not start and end next to the patches"; return false; }
    if (s.at(src).bt[ks] != st) { why = "route leaves the source through a boundary of the wrong type"; return false; }
    if (s.at(tgt).bt[kt] != tt) { why = "route enters the target through a boundary of the wrong type"; return false; }
    return true;
}

// ---------------------------------------------------------------- instruction text (operands only)
namespace {
string pauli_letter(PauliOperator p) { return p == PauliOperator::I ? "I" : p == PauliOperator::X ? "X" : p == PauliOperator::Y ? "Y" : p == PauliOperator::Z ? "Z" : "?"; }
string cell_pos(const Cell& c) { return cat("(", c.row, ",", c.col, ")"); }
string next_to(const PlaceNexTo& p) { return cat(p.target, ":", pauli_letter(p.op)); }
string local_text(const LocalInstruction::LocalLSInstruction& l)
{
    namespace L = LocalInstruction;
    return std::visit([](const auto& x) -> string {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, L::PrepareY>) return "PrepareY " + cell_pos(x.target_cell);
        else if constexpr (std::is_same_v<T, L::BellPrepare>) return cat("BellPrepare ", cell_pos(x.cell1), ",", cell_pos(x.cell2));
        else if constexpr (std::is_same_v<T, L::BellMeasure>) return cat("BellMeasure ", cell_pos(x.cell1), ",", cell_pos(x.cell2));
        else if constexpr (std::is_same_v<T, L::TwoPatchMeasure>) return cat("TwoPatchMeasure ", cell_pos(x.cell1), ",", cell_pos(x.cell2));
        else if constexpr (std::is_same_v<T, L::ExtendSplit>) return cat("ExtendSplit ", cell_pos(x.target_cell), ",", cell_pos(x.extension_cell));
        else if constexpr (std::is_same_v<T, L::MergeContract>) return cat("MergeContract ", cell_pos(x.preserved_cell), ",", cell_pos(x.measured_cell));
        else if constexpr (std::is_same_v<T, L::Move>) return cat("Move ", cell_pos(x.source_cell), ",", cell_pos(x.target_cell));
        else return "?";
    }, l.operation);
}
}  // namespace

// what a user reads for an instruction, rendered from the data
string print_text(const LSInstruction& i, bool local)
{
    return std::visit([&](const auto& x) -> string {
        using T = std::decay_t<decltype(x)>;
        auto steps = [&](const auto& v, size_t from, size_t to) {
            string s;
            for (size_t k = from; k < to; k++) s += (k > from ? ";" : "") + (k < v.size() ? local_text(v[k]) : string("?"));
            return s;
        };
        if constexpr (std::is_same_v<T, DeclareLogicalQubitPatches>) {
            string s;
            for (auto p : x.patch_ids) s += cat(s.empty() ? "" : ",", p);
            return "DeclareLogicalQubitPatches " + s;
        }
        else if constexpr (std::is_same_v<T, SinglePatchMeasurement>) return cat("MeasureSinglePatch ", x.target, " ", x.is_negative ? "-" : "", pauli_letter(x.observable));
        else if constexpr (std::is_same_v<T, MultiPatchMeasurement>) {
            string s;
            for (auto& [p, o] : x.observable) s += cat(s.empty() ? "" : ",", p, ":", pauli_letter(o));
            return cat("MultiBodyMeasure ", x.is_negative ? "-" : "", s, local && x.local_instruction ? " [" + local_text(*x.local_instruction) + "]" : string());
        }
        else if constexpr (std::is_same_v<T, PatchInit>)
            return cat("Init ", x.target, x.state == PatchInit::InitializeableStates::Zero ? " |0>" : " |+>", x.place_next_to ? " " + next_to(*x.place_next_to) : string());
        else if constexpr (std::is_same_v<T, BellPairInit>) {
            string s = cat("BellPairInit ", x.side1, " ", x.side2, " ", next_to(x.loc1), ",", next_to(x.loc2));
            if (local && x.counter && x.local_instructions) s += " [" + steps(*x.local_instructions, x.counter->first, x.counter->second) + "]";
            return s;
        }
        else if constexpr (std::is_same_v<T, MagicStateRequest>) return cat("RequestMagicState ", x.target, " ", x.near_patch);
        else if constexpr (std::is_same_v<T, YStateRequest>)
            return cat("RequestYState ", x.target, " ", x.near_patch, local && x.local_instruction ? " [" + local_text(*x.local_instruction) + "]" : string());
        else if constexpr (std::is_same_v<T, SingleQubitOp>) {
            using Op = SingleQubitOp::Operator;
            return cat(x.op == Op::X ? "X" : x.op == Op::Y ? "Y" : x.op == Op::Z ? "Z" : x.op == Op::H ? "H" : x.op == Op::S ? "S" : "?", "Gate ", x.target);
        }
        else if constexpr (std::is_same_v<T, RotateSingleCellPatch>) return cat("RotateSingleCellPatch ", x.target);
        else if constexpr (std::is_same_v<T, BellBasedCNOT>) {
            string s = cat("BellBasedCNOT ", x.control, " ", x.target, " ", x.side1, " ", x.side2);
            if (local && x.counter_pairs && x.local_instruction_sets) {
                s += " [";
                for (size_t k = 0; k < x.local_instruction_sets->size() && k < x.counter_pairs->size(); k++)
                    s += steps((*x.local_instruction_sets)[k], (*x.counter_pairs)[k].first, (*x.counter_pairs)[k].second);
                s += "]";
            }
            return s;
        }
        else if constexpr (std::is_same_v<T, PatchReset>) return cat("Reset ", x.target);
        else if constexpr (std::is_same_v<T, BusyRegion>) {
            string s = "BusyRegion ";
            for (auto& c : x.region.cells) s += cell_pos(c.cell) + ",";
            return cat(s, "StepsToClear(", x.steps_to_clear, ")");
        }
        else {
            std::ostringstream o;
            o << x;
            return o.str();
        }
    }, i.operation);
}
string ins_text(const LSInstruction& i) { return print_text(i, false); }

// ---------------------------------------------------------------- building a run
namespace {
struct VectorStream : LSInstructionStream {
    vector<LSInstruction> v;
    size_t p = 0;
    tsl::ordered_set<PatchId> core;
    LSInstruction get_next_instruction() override
    {
        if (p >= v.size()) throw std::logic_error("simulated source: read past the end");
        return v[p++];
    }
    bool has_next_instruction() const override { return p < v.size(); }
    const tsl::ordered_set<PatchId>& core_qubits() const override { return core; }
};

struct TapStream : LSInstructionStream {
    LSInstructionStream& in;
    Log& log;
    const FaultPlan& f;
    const RunHooks& hooks;
    TapStream(LSInstructionStream& i, Log& l, const FaultPlan& fp, const RunHooks& h) : in(i), log(l), f(fp), hooks(h) {}
    LSInstruction get_next_instruction() override
    {
        seam::Pause pause;
        if (hooks.before_pull) hooks.before_pull();
        if (f.source_throw_at == int(log.pulls.size())) {
            log.fault_fired = true;
            log.counters["fault_source_throw"]++;
            throw std::runtime_error("injected: source failed");
        }
        seam::alloc_pause(-1);
        struct Again { ~Again() { seam::alloc_pause(1); } };
        LSInstruction i = [&] { Again again; return in.get_next_instruction(); }();
        log.events.push_back({EvKind::Pull, int(log.pulls.size()), int(log.slices.size())});
        log.pulls.push_back(i);
        return i;
    }
    bool has_next_instruction() const override
    {
        bool b = in.has_next_instruction();
        if (!b) log.stream_exhausted = true;
        return b;
    }
    const tsl::ordered_set<PatchId>& core_qubits() const override { return in.core_qubits(); }
};

// Wraps the real router: checks every answer against the reference search, then may inject a
// refusal, a legal detour or an exception.
struct SimRouter : Router {
    std::unique_ptr<Router> real;
    Log& log;
    Outcome& out;
    const FaultPlan& f;
    bool exact_length;
    SimRouter(std::unique_ptr<Router> r, Log& l, Outcome& o, const FaultPlan& fp, bool exact)
        : real(std::move(r)), log(l), out(o), f(fp), exact_length(exact) {}

    std::optional<RoutingRegion> find_routing_ancilla(const Slice& slice, PatchId source, PauliOperator source_op,
                                                      PatchId target, PauliOperator target_op) const override
    {
        seam::Pause pause;
        int k = int(log.slices.size());
        if (f.router_throw_at == int(log.queries.size())) {
            log.fault_fired = true;
            log.counters["fault_router_throw"]++;
            throw std::runtime_error("injected: router failed");
        }
        bool edpc = real->get_EDPC();
        const auto* ds = dynamic_cast<const DenseSlice*>(&slice);
        SliceSnap before;
        if (ds) before = snap(*ds);
        auto ans = [&] {
            seam::alloc_pause(-1);
            struct Again { ~Again() { seam::alloc_pause(1); } } again;
            return real->find_routing_ancilla(slice, source, source_op, target, target_op);
        }();
        QueryEv q{k, source, target, int(source_op), int(target_op), edpc, ans.has_value(), false, false, {}};
        if (ans) for (auto& c : ans->cells) q.cells.push_back(log.lay.idx(c.cell));
        if (ds) check(*ds, before, q, ans);
        if (ans && refused_at(f, k, source, target)) {
            q.refused = true;
            log.counters["fault_route_refused"]++;
            ans.reset();
        }
        else if (ans && ds && !edpc && f.detour_permille &&
                 mix(mix(f.detour_salt, k), source * 1000003 + target) % 1000 < uint64_t(f.detour_permille)) {
            if (detour(before, q, *ans)) log.counters["fault_route_detour"]++;
        }
        log.events.push_back({EvKind::Query, int(log.queries.size()), k});
        log.queries.push_back(q);
        return ans;
    }
    void set_graph_search_provider(GraphSearchProvider p) override { real->set_graph_search_provider(p); }
    void set_EDPC() override { real->set_EDPC(); }
    bool get_EDPC() override { return real->get_EDPC(); }

    void check(const DenseSlice& ds, const SliceSnap& before, const QueryEv& q, const std::optional<RoutingRegion>& ans) const
    {
        auto where = [&] { return cat("slice ", q.slice, ", query ", q.s, " op", q.sop, " -> ", q.t, " op", q.top, ": "); };
        log.counters["router_queries"]++;
        int src = -1, tgt = -1;
        for (int i = 0; i < int(before.cells.size()); i++) {
            if (before.at(i).id == int64_t(q.s)) src = i;
            if (before.at(i).id == int64_t(q.t)) tgt = i;
        }
        if (!(before.hash() == snap(ds).hash())) out.v("C06", "mutates", where() + "the query changed the lattice");
        if (src < 0 || tgt < 0) return;
        auto ref = reference_route(before, log.lay, src, q.sop, tgt, q.top, q.edpc);
        if (ref.found) log.counters["router_found"]++;
        else log.counters["router_none"]++;
        if (ref.found != q.found) {
            out.v("C06", q.found ? "phantom" : "missed",
                  where() + (q.found ? "route returned although none exists" : cat("no route returned although one of length ", ref.length, " exists")));
            if (!q.found) return;
        }
        if (q.found) {
            string why;
            if (!route_is_valid(before, log.lay, src, q.sop, tgt, q.top, q.edpc, q.cells, why)) out.v("C06", "illegal", where() + why);
            else if (ref.found && exact_length && int(q.cells.size()) != ref.length)
                out.v("C06", "longer", where() + cat("route has ", q.cells.size(), " cells, shortest has ", ref.length));
            if (ref.length > 4) log.counters["router_long_routes"]++;
        }
        auto again = real->find_routing_ancilla(ds, q.s, PauliOperator(q.sop), q.t, PauliOperator(q.top));
        bool same = again.has_value() == ans.has_value() && (!again || *again == *ans);
        if (!same) out.v("C06", "unrepeatable", where() + "the same query on the same state gave another answer");
    }
    // replace the route by another legal one (random walk over free cells)
    bool detour(const SliceSnap& s, QueryEv& q, RoutingRegion& ans) const
    {
        int src = -1, tgt = -1;
        for (int i = 0; i < int(s.cells.size()); i++) {
            if (s.at(i).id == int64_t(q.s)) src = i;
            if (s.at(i).id == int64_t(q.t)) tgt = i;
        }
        if (src < 0 || tgt < 0) return false;
        Rng r(mix(f.detour_salt, q.slice * 7919 + q.s * 31 + q.t));
        uint8_t st = type_for(q.sop), tt = type_for(q.top);
        for (int attempt = 0; attempt < 6; attempt++) {
            vector<int> path, starts;
            for (int k = 0; k < 4; k++) {
                int n = neighbour(s, src, k);
                if (n >= 0 && s.at(src).bt[k] == st && !s.at(n).present) starts.push_back(n);
            }
            if (starts.empty()) return false;
            std::set<int> seen;
            int cur = r.pick(starts);
            path.push_back(cur);
            seen.insert(cur);
            for (int step = 0; step < 40; step++) {
                bool done = false;
                for (int k = 0; k < 4; k++) {
                    int n = neighbour(s, cur, k);
                    if (n == tgt && s.at(tgt).bt[OPP[k]] == tt && (src != tgt || path.size() > 2)) done = true;
                }
                if (done && (r.chance(0.7) || step > 12)) {
                    std::reverse(path.begin(), path.end());   // front next to target
                    RoutingRegion reg;
                    string why;
                    if (!route_is_valid(s, log.lay, src, q.sop, tgt, q.top, false, path, why)) break;
                    for (size_t i = 0; i < path.size(); i++) {
                        SingleCellOccupiedByPatch c{{{BoundaryType::None, false}, {BoundaryType::None, false}, {BoundaryType::None, false}, {BoundaryType::None, false}}, log.lay.cell(path[i])};
                        Boundary* bs[4] = {&c.top, &c.bottom, &c.left, &c.right};
                        // the cell before / after on the path, the patches at the ends
                        for (int k = 0; k < 4; k++) {
                            int n = neighbour(s, path[i], k);
                            if (n < 0) continue;
                            bool link = (i > 0 && n == path[i - 1]) || (i + 1 < path.size() && n == path[i + 1]);
                            if (i == 0 && n == tgt && s.at(tgt).bt[OPP[k]] == tt) link = true;
                            if (i + 1 == path.size() && n == src && s.at(src).bt[OPP[k]] == st) link = true;
                            if (link) *bs[k] = {BoundaryType::Connected, true};
                        }
                        reg.cells.push_back(c);
                    }
                    // ambiguous links (an end cell touching the same patch twice) are not produced on a grid
                    ans = reg;
                    q.detour = true;
                    q.cells = path;
                    return true;
                }
                vector<int> nx;
                for (int k = 0; k < 4; k++) {
                    int n = neighbour(s, cur, k);
                    if (n >= 0 && !s.at(n).present && !seen.count(n)) nx.push_back(n);
                }
                if (nx.empty()) break;
                cur = r.pick(nx);
                seen.insert(cur);
                path.push_back(cur);
            }
        }
        return false;
    }
};
}  // namespace

std::unique_ptr<Layout> make_layout(const Scenario& sc, size_t n_core)
{
    DistillationOptions d;
    d.distillation_time = size_t(sc.geti("disttime", 10));
    d.staggered = sc.geti("stagger", 1);
    string kind = sc.get("layout", "ascii");
    if (kind == "compact") return make_compact_layout(n_core, d, false);
    if (kind == "noclog") return make_compact_layout(n_core, d, true);
    if (kind == "edpc")
        return make_edpc_layout(n_core, size_t(sc.geti("lanes", 1)), sc.geti("condensed", 0), sc.geti("factories", 0), sc.geti("predistilled", 0), d);
    string t;
    for (auto& l : sc.layout) t += l + "\n";
    return std::make_unique<LayoutFromSpec>(std::string_view(t), d);
}

void build(const Scenario& sc, std::unique_ptr<Layout>& layout, ProgramSource& src)
{
    vector<PatchId> core;
    for (auto& w : split(sc.get("core"), ',')) if (!w.empty()) core.push_back(PatchId(std::stoul(w)));
    bool local = sc.geti("local", 0);
    layout = make_layout(sc, core.size());
    auto idgen = std::make_shared<IdGenerator>();
    src.keep.push_back(idgen);
    // what the slicer program does when the layout has no ancilla tiles
    gates::ControlledGate::default_ancilla_placement = layout->ancilla_location().empty()
            ? gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET : gates::CNOTAncillaPlacement::USE_DEDICATED_CELL;
    if (sc.geti("qasm", 0)) {
        string t;
        for (auto& l : sc.prog) t += l + "\n";
        auto is = std::make_shared<std::istringstream>(t);
        src.keep.push_back(is);
        std::unique_ptr<GateStream> gs = std::make_unique<GateStreamFromFile>(*is);
        auto dec = std::shared_ptr<GateStream>(std::make_unique<DecomposeRotationStream>(std::move(gs), 10));
        src.keep.push_back(dec);
        idgen->set_start(PatchId(dec->get_qreg().size));
        src.stream = std::make_unique<LSInstructionStreamFromGateStream>(
                *dec, sc.geti("corrections", 0) ? CNOTCorrectionMode::ALWAYS : CNOTCorrectionMode::NEVER, *idgen, local);
    }
    else if (sc.geti("lazy", 0)) {   // as the program reads it: line by line while slicing goes on
        string t = "DeclareLogicalQubitPatches " + sc.get("core") + "\n";
        for (auto& l : sc.prog) t += l + "\n";
        auto is = std::make_shared<std::istringstream>(t);
        src.keep.push_back(is);
        src.stream = std::make_unique<LSInstructionStreamFromFile>(*is);
        idgen->set_start(PatchId(sc.geti("idstart", 100000)));
    }
    else {
        auto vs = std::make_unique<VectorStream>();
        for (auto c : core) vs->core.insert(c);
        for (auto& l : sc.prog) {
            auto w = words(l);
            if (w.size() < 3) continue;
            size_t pos = l.find(' ', l.find(' ') + 1);
            LSInstruction i = parse_ls_instruction(l.substr(pos + 1));
            size_t unlimited = std::holds_alternative<MagicStateRequest>(i.operation) ? MagicStateRequest::DEFAULT_WAIT
                             : std::holds_alternative<YStateRequest>(i.operation) ? YStateRequest::DEFAULT_WAIT : LSInstruction::DEFAULT_MAX_WAIT;
            if (i.wait_at_most_for != unlimited) src.limited.push_back(l.substr(pos + 1));
            if (w[0] != "-") i.wait_at_most_for = std::stoull(w[0]);
            if (w[1] != "-") for (auto& c : split(w[1], ',')) i.clients.insert(PatchId(std::stoul(c)));
            vs->v.push_back(std::move(i));
        }
        src.stream = std::move(vs);
        idgen->set_start(PatchId(sc.geti("idstart", 100000)));
    }
    string wrap = sc.get("wrap", "none");
    if (wrap == "compact") {
        src.stream = std::make_unique<BoundaryRotationInjectionStream>(std::move(src.stream), *layout);
        src.stream = std::make_unique<TeleportedSGateInjectionStream>(std::move(src.stream), *idgen, false);
    }
    else if (wrap == "edpc_tel") src.stream = std::make_unique<TeleportedSGateInjectionStream>(std::move(src.stream), *idgen, true);
    else if (wrap == "edpc_cat") src.stream = std::make_unique<CatalyticSGateInjectionStream>(std::move(src.stream), *idgen, local, true);
}

RunOptions run_options(const Scenario& sc)
{
    RunOptions o;
    string m = sc.get("mode", "stream");
    o.mode = m == "dag" ? PipelineMode::Dag : m == "wave" ? PipelineMode::Wave : m == "edpc" ? PipelineMode::EDPC : PipelineMode::Stream;
    o.local = sc.geti("local", 0);
    o.twists = sc.geti("twists", 1);
    o.op_ids = sc.geti("opids", 0);
    o.graceful = sc.geti("graceful", 0);
    o.search = sc.get("search", "djikstra");
    if (sc.opt.count("timeout")) o.timeout = sc.geti("timeout", 0);
    o.cap = int(sc.geti("cap", 3000));
    o.idle_limit = int(sc.geti("idle", 40));
    return o;
}

void run_lattice(const Scenario& sc, Log& log, Outcome& out, const RunHooks& hooks)
{
    RunOptions o = run_options(sc);
    FaultPlan f = parse_faults(sc);
    std::unique_ptr<Layout> layout;
    ProgramSource src;
    std::ostringstream cap;
    struct Redirect {
        std::ostream& o; std::streambuf* b;
        ~Redirect() { o.rdbuf(b); o.clear(); }
    } restore_out{std::cout, std::cout.rdbuf(cap.rdbuf())}, restore_err{std::cerr, std::cerr.rdbuf(cap.rdbuf())};
    try {
        build(sc, layout, src);
        log.lay = describe(*layout);
        log.limited = src.limited;
        for (auto c : src.stream->core_qubits()) log.core_ids.push_back(c);
        if (auto* vs = dynamic_cast<VectorStream*>(src.stream.get())) log.source_total = int64_t(vs->v.size());
    }
    catch (const std::exception& e) {
        log.setup_failed = true;
        log.threw = true;
        log.error = e.what();
        log.error_type = demangled(e);
        return;
    }
    uint32_t maxt = 0;
    for (auto t : log.lay.times) maxt = std::max(maxt, t);
    int idle_limit = o.idle_limit + int(maxt);
    int last_refusal = f.last_refusal_slice();

    std::unique_ptr<Router> real;
    bool cached = sc.get("router") == "cached";
    if (cached) real = std::make_unique<CachedRouter>();
    else real = std::make_unique<CustomDPRouter>();
    real->set_graph_search_provider(o.search == "astar" ? GraphSearchProvider::AStar
                                    : o.search == "boost" ? GraphSearchProvider::Boost : GraphSearchProvider::Djikstra);
    std::unique_ptr<Router> router;
    if (cached) router = std::move(real);
    else router = std::make_unique<SimRouter>(std::move(real), log, out, f, o.search == "djikstra");

    int last_progress = 0;
    auto on_slice = [&](const DenseSlice& s) {
        seam::Pause pause;
        int k = int(log.slices.size());
        if (f.slice_throw_at == k) {
            log.fault_fired = true;
            log.counters["fault_consumer_throw"]++;
            throw std::runtime_error("injected: slice consumer failed");
        }
        if (hooks.on_slice) hooks.on_slice(s);
        log.events.push_back({EvKind::Slice, k, k});
        log.slices.push_back(snap(s));
        if (k + 1 >= o.cap) { log.stopped_cap = true; throw StopRun{}; }
        if (k - std::max(last_progress, last_refusal) > idle_limit) { log.stopped_idle = true; throw StopRun{}; }
    };
    auto on_visit = [&](const LSInstruction& i) {
        seam::Pause pause;
        if (f.visit_throw_at == int(log.visits.size())) {
            log.fault_fired = true;
            log.counters["fault_consumer_throw"]++;
            throw std::runtime_error("injected: instruction consumer failed");
        }
        if (hooks.on_visit) hooks.on_visit(i);
        last_progress = int(log.slices.size());
        log.events.push_back({EvKind::Visit, int(log.visits.size()), int(log.slices.size())});
        log.visits.push_back(i);
        if (log.visits.size() > 60000) { log.stopped_cap = true; throw StopRun{}; }
    };
    TapStream tap(*src.stream, log, f, hooks);
    seam::alloc_reset();
    if (f.alloc_fail_at >= 0) seam::alloc_arm(f.alloc_fail_at);
    try {
        std::optional<std::chrono::seconds> to;
        if (o.timeout) to = std::chrono::seconds(*o.timeout);
        auto res = run_through_dense_slices(std::move(tap), o.mode, o.local, o.twists, *layout, std::move(router), to,
                                            on_slice, on_visit, o.graceful, o.op_ids);
        log.finished = !(log.stopped_cap || log.stopped_idle);
        log.count_instr = res.ls_instructions_count();
        log.count_slices = res.slice_count();
    }
    catch (const StopRun&) {
    }
    catch (const std::exception& e) {
        if (f.alloc_fail_at >= 0 && seam::alloc_fired()) log.fault_fired = true;
        seam::alloc_arm(-1);
        log.threw = true;
        log.error = e.what();
        log.error_type = demangled(e);
    }
    if (f.alloc_fail_at >= 0 && seam::alloc_fired()) log.fault_fired = true;
    seam::alloc_arm(-1);
    if (f.alloc_fail_at >= 0 && log.fault_fired) log.counters["fault_alloc"]++;
    log.graceful_text = cap.str();
}
}  // namespace sim

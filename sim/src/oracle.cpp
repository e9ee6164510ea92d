// Reference model of the lattice: replays the applied instructions of a recorded run on an
// independent model and compares it with every emitted slice.
#include "lattice.hpp"

#include <algorithm>
#include <functional>

namespace sim {
using namespace lsqecc;

namespace {

enum class Role : uint8_t { Free, Dead, Dist, Live, YIdle, Magic, Anon, Path, Rot, Mark };

constexpr uint8_t B_NONE = 0, B_CONN = 1, B_ROUGH = 2, B_SMOOTH = 3;
constexpr uint8_t T_DIST = 0, T_PREP = 1, T_QUBIT = 2, T_ROUT = 3, T_DEAD = 4;
constexpr uint8_t A_NONE = 0, A_MEAS = 1, A_UNIT = 2, A_MPM = 5, A_ROT = 6, A_EDPC = 7, A_RES = 8, A_DIST = 3, A_DEAD = 4;
static const int DR[4] = {-1, 1, 0, 0}, DC[4] = {0, 0, -1, 1};   // top bottom left right
static const int OPP[4] = {1, 0, 3, 2};

struct MC {
    CellSnap s;
    Role role = Role::Free;
    int owner = -1;
};

enum class Kind { SPM, Pauli, H, S, MPM, Init, BellInit, Magic, Y, Rotate, CNOT, Reset, Other };
enum class St { New, Started, Done };

struct Step { int kind; int a, b; int64_t id1, id2; };   // see local_step()
enum { LS_PREPY, LS_BELLPREP, LS_BELLMEAS, LS_TWO, LS_EXT, LS_MERGE, LS_MOVE };

struct Inst {
    LSInstruction ins;
    string text;
    Kind kind = Kind::Other;
    vector<PatchId> own, deps;
    vector<int> preds;
    St st = St::New;
    int pulled_slice = 0, start = -1, done = -1;
    int streak = 0;
    bool stalled_reported = false;
    // rotation
    int rot_cell = -1, rot_nb = -1;
    CellSnap rot_result;
    // Bell operations
    vector<vector<Step>> sets;
    vector<Step> flat;
    vector<size_t> set_begin;
    size_t pos = 0;
    int trailing = 0;
    vector<int> path;
    int home_c = -1, home_t = -1;
};

CellSnap square(int64_t id)
{
    CellSnap c;
    c.present = true;
    c.type = T_QUBIT;
    c.id = id;
    c.bt[0] = c.bt[1] = B_SMOOTH;
    c.bt[2] = c.bt[3] = B_ROUGH;
    return c;
}
CellSnap dist_tile()
{
    CellSnap c;
    c.present = true;
    c.type = T_DIST;
    c.act = A_DIST;
    for (auto& b : c.bt) b = B_CONN;
    return c;
}
void turn(CellSnap& c)
{
    // clockwise quarter turn: right<-top, top<-left, left<-bottom, bottom<-right
    uint8_t t[4] = {c.bt[2], c.bt[3], c.bt[1], c.bt[0]};
    bool a[4] = {c.ba[2], c.ba[3], c.ba[1], c.ba[0]};
    for (int i = 0; i < 4; i++) { c.bt[i] = t[i]; c.ba[i] = a[i]; }
}
uint8_t btype(PauliOperator o) { return o == PauliOperator::X ? B_ROUGH : o == PauliOperator::Z ? B_SMOOTH : 255; }

struct Checker {
    const Scenario& sc;
    const Log& log;
    Outcome& out;
    RunOptions opt;
    FaultPlan faults;
    const LayoutInfo& lay;
    bool edpc, stream, dag, wave;
    vector<MC> M;
    vector<Inst> insts;
    std::map<string, vector<int>> by_text;
    vector<uint32_t> timer;
    std::set<int64_t> used_ops;
    vector<vector<int>> visits_of_slice;   // visit indexes
    std::set<int> reserved;
    int k = 0;                             // slice under check
    const SliceSnap* S = nullptr;
    vector<int> live_dirty;
    size_t deliveries = 0, binds = 0;
    std::map<int, int> op_of_path;         // cell -> observed op id to expect

    Checker(const Scenario& s, const Log& l, Outcome& o)
        : sc(s), log(l), out(o), opt(run_options(s)), faults(parse_faults(s)), lay(l.lay)
    {
        edpc = opt.mode == PipelineMode::EDPC;
        stream = opt.mode == PipelineMode::Stream;
        dag = opt.mode == PipelineMode::Dag;
        wave = !stream && !dag;
    }

    int N() const { return lay.rows * lay.cols; }
    int nb(int i, int side) const
    {
        int r = i / lay.cols + DR[side], c = i % lay.cols + DC[side];
        return r < 0 || c < 0 || r >= lay.rows || c >= lay.cols ? -1 : r * lay.cols + c;
    }
    int side_of(int a, int b) const
    {
        for (int s = 0; s < 4; s++) if (nb(a, s) == b) return s;
        return -1;
    }
    string pos(int c) const { return cat("(", c / lay.cols, ",", c % lay.cols, ")"); }
    int dist(int a, int b) const { return std::abs(a / lay.cols - b / lay.cols) + std::abs(a % lay.cols - b % lay.cols); }
    void fail(const string& prop, const string& cls, const string& msg) { out.v(prop, cls, cat("slice ", k, ": ", msg)); }
    void fails(std::initializer_list<const char*> props, const string& cls, const string& msg)
    {
        for (auto p : props) fail(p, cls, msg);
    }
    bool valid(int c) const { return c >= 0 && c < N(); }
    int find(int64_t id) const
    {
        for (int i = 0; i < N(); i++) if (M[i].s.present && M[i].s.id == id) return i;
        return -1;
    }
    bool is_free(int c) const { return !M[c].s.present; }
    bool free_or_mark(int c) const { return is_free(c) || (edpc && M[c].role == Role::Mark); }
    int cell_of(const Cell& c) const { return c.row < 0 || c.col < 0 || c.row >= lay.rows || c.col >= lay.cols ? -1 : lay.idx(c); }

    // -------------------------------------------------------------- programme
    void classify(Inst& i)
    {
        auto& op = i.ins.operation;
        auto add = [&](PatchId p) { i.own.push_back(p); };
        if (auto* a = std::get_if<SinglePatchMeasurement>(&op)) { i.kind = Kind::SPM; add(a->target); }
        else if (auto* a = std::get_if<MultiPatchMeasurement>(&op)) { i.kind = Kind::MPM; for (auto& [p, o] : a->observable) { (void)o; add(p); } }
        else if (auto* a = std::get_if<PatchInit>(&op)) { i.kind = Kind::Init; add(a->target); }
        else if (auto* a = std::get_if<BellPairInit>(&op)) { i.kind = Kind::BellInit; add(a->side1); add(a->side2); add(a->loc1.target); add(a->loc2.target); }
        else if (auto* a = std::get_if<MagicStateRequest>(&op)) { i.kind = Kind::Magic; add(a->target); }
        else if (auto* a = std::get_if<YStateRequest>(&op)) { i.kind = Kind::Y; add(a->target); }
        else if (auto* a = std::get_if<SingleQubitOp>(&op)) {
            i.kind = a->op == SingleQubitOp::Operator::H ? Kind::H : a->op == SingleQubitOp::Operator::S ? Kind::S : Kind::Pauli;
            add(a->target);
        }
        else if (auto* a = std::get_if<RotateSingleCellPatch>(&op)) { i.kind = Kind::Rotate; add(a->target); }
        else if (auto* a = std::get_if<BellBasedCNOT>(&op)) { i.kind = Kind::CNOT; add(a->control); add(a->target); add(a->side1); add(a->side2); }
        else if (auto* a = std::get_if<PatchReset>(&op)) { i.kind = Kind::Reset; add(a->target); }
        i.deps = i.own;
        for (auto c : i.ins.clients)
            if (std::find(i.deps.begin(), i.deps.end(), c) == i.deps.end()) i.deps.push_back(c);
    }

    void load()
    {
        std::map<PatchId, int> last;
        int pull = 0;
        for (auto& e : log.events) {
            if (e.kind != EvKind::Pull) continue;
            Inst i;
            i.ins = log.pulls[e.index];
            i.text = ins_text(i.ins);
            i.pulled_slice = e.slice;
            classify(i);
            for (auto d : i.deps) {
                auto it = last.find(d);
                if (it != last.end() && std::find(i.preds.begin(), i.preds.end(), it->second) == i.preds.end()) i.preds.push_back(it->second);
                last[d] = pull;
            }
            by_text[i.text].push_back(pull);
            insts.push_back(std::move(i));
            pull++;
        }
        visits_of_slice.resize(log.slices.size() + 1);
        for (auto& e : log.events)
            if (e.kind == EvKind::Visit) visits_of_slice[std::min(size_t(e.slice), log.slices.size())].push_back(e.index);
    }

    void initial()
    {
        M.assign(N(), {});
        for (size_t i = 0; i < log.core_ids.size() && i < lay.core.size(); i++) {
            auto& m = M[lay.core[i]];
            m.s = lay.core_patch[i];
            m.s.id = log.core_ids[i];
            m.role = Role::Live;
        }
        for (int c : lay.ypool) { M[c].s = square(-1); M[c].role = Role::YIdle; }
        for (size_t r = 0; r < lay.regions.size(); r++)
            for (size_t j = 0; j < lay.regions[r].size(); j++) {
                M[lay.regions[r][j]].s = lay.region_patch[r][j];
                M[lay.regions[r][j]].role = Role::Dist;
            }
        for (int c : lay.reserved) { M[c].s = dist_tile(); M[c].role = Role::Dist; reserved.insert(c); }
        for (int c : lay.dead) {
            M[c].s = dist_tile();
            M[c].s.type = T_DEAD;
            M[c].s.act = A_DEAD;
            M[c].role = Role::Dead;
        }
        timer = lay.times;
        uint32_t base = uint32_t(sc.geti("disttime", 10));
        bool stag = sc.geti("stagger", 1);
        size_t want = lay.reserved.empty() ? lay.regions.size() : lay.reserved.size();
        if (timer.size() != want) out.v("C07", "schedule", cat("layout has ", want, " magic state sources but ", timer.size(), " distillation times"));
        for (size_t i = 0; i < timer.size(); i++) {
            uint32_t w = base + (lay.reserved.empty() && stag ? uint32_t(i) : 0);
            if (timer[i] != w) { out.v("C07", "schedule", cat("source ", i, " is configured to deliver every ", timer[i], " slices, expected ", w)); timer[i] = w; }
        }
        expected_times = timer;
    }
    vector<uint32_t> expected_times;

    // where a patch that received its id in slice k sits (it may have started to rotate in the same slice)
    int locate(int64_t id) const
    {
        for (int c = 0; c < N(); c++) if (S->at(c).present && S->at(c).id == id) return c;
        for (int j = k; j < int(visits_of_slice.size()) && j <= k + 4; j++)
            for (int v : visits_of_slice[j])
                if (auto* b = std::get_if<BusyRegion>(&log.visits[v].operation))
                    for (auto& p : b->state_after_clearing)
                        if (p.id && int64_t(*p.id) == id) return cell_of(p.get_a_cell());
        return -1;
    }

    // -------------------------------------------------------------- matching visits to instructions
    void on_visit(int v)
    {
        const LSInstruction& ins = log.visits[v];
        if (auto* b = std::get_if<BusyRegion>(&ins.operation)) {
            int64_t id = b->state_after_clearing.empty() || !b->state_after_clearing[0].id ? -1 : int64_t(*b->state_after_clearing[0].id);
            for (auto& i : insts)
                if (i.kind == Kind::Rotate && i.st == St::Started && int64_t(i.own[0]) == id) { busy(i, *b); return; }
            fails({"C01", "C09"}, "stray-rotation-step", cat("a rotation step of patch ", id, " was applied although no rotation of it is in progress"));
            return;
        }
        if (auto* q = std::get_if<SingleQubitOp>(&ins.operation); q && q->op == SingleQubitOp::Operator::Z)
            for (auto& i : insts)
                if (i.kind == Kind::S && i.st == St::Started && i.own[0] == q->target) {
                    need_inactive(q->target, ins);
                    finish(i);
                    return;
                }
        string t = ins_text(ins);
        auto it = by_text.find(t);
        Inst* hit = nullptr;
        if (it != by_text.end()) {
            for (int j : it->second) if (insts[j].st == St::Started && is_bell(insts[j])) { hit = &insts[j]; break; }
            if (!hit) for (int j : it->second) if (insts[j].st == St::New) { hit = &insts[j]; break; }
            if (!hit)
                for (int j : it->second)
                    if (insts[j].kind == Kind::CNOT && edpc && insts[j].pos == insts[j].flat.size() && insts[j].trailing < 4) {
                        insts[j].trailing++;
                        bell_visit(insts[j], ins, true);
                        return;
                    }
        }
        if (!hit) {
            fail("C01", it == by_text.end() ? "invented" : "duplicated",
                 cat("'", t, "' was applied ", it == by_text.end() ? "but is not in the program" : "more often than it is in the program"));
            return;
        }
        Inst& i = *hit;
        if (i.st == St::New) {
            begin(i);
            if (auto w = ins.wait_at_most_for; i.ins.wait_at_most_for != LSInstruction::DEFAULT_MAX_WAIT && w > i.ins.wait_at_most_for)
                fail("C12", "budget", cat("'", t, "' carries a larger budget than it was given"));
        }
        apply(i, ins);
    }
    bool is_bell(const Inst& i) const { return i.kind == Kind::CNOT || i.kind == Kind::BellInit; }

    void begin(Inst& i)
    {
        i.start = k;
        i.st = St::Started;
        int self = int(&i - insts.data());
        for (int p : i.preds)
            if (insts[p].st != St::Done)
                fail("C02", "order", cat("'", i.text, "' started although the earlier '", insts[p].text, "' on the same patch ",
                                         insts[p].st == St::New ? "has not started" : "is not complete"));
        if (stream)
            for (int j = 0; j < self; j++)
                if (insts[j].st != St::Done) {
                    fail("C02", "order", cat("stream pipeline: '", i.text, "' applied before the earlier '", insts[j].text, "' completed"));
                    break;
                }
        check_budget_at_start(i);
        if (i.start > ready_slice(i) + 1) out.count("waited");
        out.count(cat("applied_", kind_name(i.kind)));
    }
    static const char* kind_name(Kind k)
    {
        static const char* n[] = {"measure", "pauli", "h", "s", "merge", "init", "bellpair", "magic", "ystate", "rotate", "bellcnot", "reset", "other"};
        return n[int(k)];
    }
    void finish(Inst& i)
    {
        i.st = St::Done;
        i.done = k;
    }
    // last slice in which a predecessor completed (-1: ready from the start)
    int ready_slice(const Inst& i) const
    {
        int r = -1;
        for (int p : i.preds) r = std::max(r, insts[p].done);
        return r;
    }

    bool need_inactive(PatchId p, const LSInstruction& ins)
    {
        int c = find(p);
        if (c < 0) { fail("C03", "absent", cat("'", ins_text(ins), "' was applied although patch ", p, " is not on the lattice")); return false; }
        if (M[c].s.active()) {
            fails({"C05", "C02"}, "active-patch", cat("'", ins_text(ins), "' was applied to patch ", p, " while it is in use (", to_text(M[c].s), ")"));
            return false;
        }
        return true;
    }

    // -------------------------------------------------------------- effects
    void apply(Inst& i, const LSInstruction& ins)
    {
        auto& op = i.ins.operation;
        switch (i.kind) {
        case Kind::SPM: {
            int c = find(i.own[0]);
            if (c < 0) fail("C03", "absent", cat("'", i.text, "' was applied although the patch is not on the lattice"));
            else { M[c].s.act = A_MEAS; }
            finish(i);
            return;
        }
        case Kind::Pauli: need_inactive(i.own[0], ins); finish(i); return;
        case Kind::Reset: finish(i); return;
        case Kind::H: {
            need_inactive(i.own[0], ins);
            int c = find(i.own[0]);
            if (c >= 0) { M[c].s.act = A_UNIT; turn(M[c].s); }
            finish(i);
            return;
        }
        case Kind::S: {
            need_inactive(i.own[0], ins);
            int c = find(i.own[0]);
            if (c >= 0) merge_path(i, c, B_ROUGH, c, B_SMOOTH);
            out.count("s_gates");
            return;   // completes with the corrective Z
        }
        case Kind::MPM: {
            auto& m = std::get<MultiPatchMeasurement>(op);
            if (m.observable.size() == 2) {
                auto a = *m.observable.begin(), b = *std::next(m.observable.begin());
                need_inactive(a.first, ins);
                need_inactive(b.first, ins);
                int ca = find(a.first), cb = find(b.first);
                if (ca >= 0 && cb >= 0) {
                    if (opt.local) {
                        int s = side_of(ca, cb);
                        if (s < 0) fail("C05", "not-adjacent", cat("'", i.text, "' was applied locally although the patches do not touch"));
                        else { M[ca].s.ba[s] = true; M[cb].s.ba[OPP[s]] = true; }
                    }
                    else merge_path(i, ca, btype(a.second), cb, btype(b.second));
                }
            }
            finish(i);
            return;
        }
        case Kind::Init: init(i, std::get<PatchInit>(op)); finish(i); return;
        case Kind::Magic: magic(i, std::get<MagicStateRequest>(op)); finish(i); return;
        case Kind::Y: ystate(i, std::get<YStateRequest>(op)); finish(i); return;
        case Kind::Rotate: rotate(i); return;
        case Kind::CNOT:
        case Kind::BellInit: bell_visit(i, ins, false); return;
        default: finish(i); return;
        }
    }

    // Walks the observed merge from one patch side to the other
    void merge_path(Inst& i, int ca, uint8_t ta, int cb, uint8_t tb)
    {
        out.count("merges");
        auto side_err = [&](const string& m) { fail("C05", "path", cat("'", i.text, "': ", m)); };
        int s0 = -1;
        for (int s = 0; s < 4; s++)
            if (S->at(ca).present && S->at(ca).ba[s] && S->at(ca).bt[s] == ta && (ca == cb || s0 < 0)) {
                if (s0 < 0) s0 = s;
            }
        if (s0 < 0) {
            side_err(cat("no active boundary of the measured type on the patch at ", pos(ca), " (", to_text(S->at(ca)), ")"));
            return;
        }
        if (M[ca].s.bt[s0] != ta) side_err("the merge leaves through a boundary of the wrong type");
        int prev = ca, cur = nb(ca, s0), in = OPP[s0];
        vector<int> path;
        M[ca].s.ba[s0] = true;
        int64_t op = -2;
        while (true) {
            if (cur < 0) { side_err("the path leaves the lattice"); return; }
            if (cur == cb && (ca != cb || !path.empty())) {
                if (M[cb].s.bt[in] != tb) side_err(cat("the merge enters the patch at ", pos(cb), " through a boundary of the wrong type"));
                M[cb].s.ba[in] = true;
                break;
            }
            auto& o = S->at(cur);
            if (!o.present || o.type != T_ROUT || o.act != A_MPM) {
                side_err(cat("the path stops at ", pos(cur), " (", to_text(o), ")"));
                return;
            }
            if (!is_free(cur)) {
                fails({"C05", "C04"}, "path-occupied", cat("'", i.text, "': path cell ", pos(cur), " was not free (", to_text(M[cur].s), ")"));
                return;
            }
            if (op == -2) op = o.op;
            else if (op != o.op) side_err(cat("path cells carry different operation ids (", op, ", ", o.op, ")"));
            int next = -1;
            for (int s = 0; s < 4; s++)
                if (s != in && o.ba[s] && o.bt[s] == B_CONN) {
                    if (next >= 0) { side_err(cat("path cell ", pos(cur), " branches")); return; }
                    next = s;
                }
            if (next < 0 || !o.ba[in] || o.bt[in] != B_CONN) { side_err(cat("path cell ", pos(cur), " is not linked on both sides (", to_text(o), ")")); return; }
            MC m;
            m.s.present = true;
            m.s.type = T_ROUT;
            m.s.act = A_MPM;
            m.s.bt[in] = m.s.bt[next] = B_CONN;
            m.s.ba[in] = m.s.ba[next] = true;
            m.s.op = o.op;
            m.role = Role::Path;
            m.owner = int(&i - insts.data());
            M[cur] = m;
            path.push_back(cur);
            if (int(path.size()) > N()) { side_err("the path does not end"); return; }
            prev = cur;
            in = OPP[next];
            cur = nb(cur, next);
        }
        (void)prev;
        if (path.empty()) out.count("direct_merges");
        if (!path.empty()) {
            if (opt.op_ids) {
                if (op < 0) side_err("no operation id although ids were requested");
                else if (!used_ops.insert(op).second) side_err(cat("operation id ", op, " was used before"));
            }
            else if (op >= 0) side_err("operation id although none were requested");
        }
        if (path.size() > 8) out.count("long_merges");
    }

    void init(Inst& i, const PatchInit& in)
    {
        int c = locate(in.target);
        if (c < 0) { fail("C03", "lost", cat("'", i.text, "' was applied but the patch is nowhere on the lattice")); return; }
        if (find(in.target) >= 0) fail("C03", "duplicate", cat("'", i.text, "' initialised an id that is already live"));
        if (!is_free(c)) {
            fails({"C04"}, "occupied", cat("'", i.text, "' placed its patch on the occupied cell ", pos(c), " (", to_text(M[c].s), ")"));
        }
        if (in.place_next_to) {
            int t = find(in.place_next_to->target);
            int s = t < 0 ? -1 : side_of(t, c);
            if (t < 0) fail("C03", "absent", cat("'", i.text, "' was applied although its reference patch is absent"));
            else if (s < 0 || M[t].s.bt[s] != btype(in.place_next_to->op))
                fail("C03", "placement", cat("'", i.text, "' placed the patch at ", pos(c), ", not across the requested boundary of the patch at ", pos(t)));
        }
        else if (std::find(lay.ancilla.begin(), lay.ancilla.end(), c) == lay.ancilla.end())
            fail("C03", "placement", cat("'", i.text, "' placed the patch at ", pos(c), ", which is not an ancilla location"));
        M[c] = MC{square(in.target), Role::Live, -1};
    }

    void magic(Inst& i, const MagicStateRequest& r)
    {
        int c = locate(r.target);
        if (c < 0) { fails({"C03", "C07"}, "lost", cat("'", i.text, "' was applied but no cell carries the new id")); return; }
        binds++;
        if (M[c].role != Role::Magic) {
            fail("C07", "not-a-magic-state", cat("'", i.text, "' bound cell ", pos(c), ", which holds no waiting magic state (", to_text(M[c].s), ")"));
            return;
        }
        int near = find(r.near_patch);
        if (near >= 0) {
            int best = 1 << 30;
            for (int j = 0; j < N(); j++) if (M[j].role == Role::Magic) best = std::min(best, dist(j, near));
            if (dist(c, near) != best)
                fail("C07", "not-nearest", cat("'", i.text, "' bound the state at ", pos(c), " although a nearer one was waiting"));
        }
        M[c].role = Role::Live;
        M[c].s.type = T_QUBIT;
        M[c].s.act = A_NONE;
        M[c].s.id = r.target;
    }

    void ystate(Inst& i, const YStateRequest& r)
    {
        int live = find(r.target);
        if (live >= 0) {
            M[live].s.id = -1;
            M[live].role = Role::YIdle;
            if (std::find(lay.ypool.begin(), lay.ypool.end(), live) == lay.ypool.end())
                out.count("y_unbind_outside_pool");
            out.count("y_returned");
            return;
        }
        int near = find(r.near_patch);
        bool pool_ok = !(opt.local && opt.twists);
        vector<int> idle;
        for (int c : lay.ypool) if (M[c].role == Role::YIdle && !M[c].s.active()) idle.push_back(c);
        int c = locate(r.target);
        if (pool_ok && !idle.empty()) {
            int best = 1 << 30;
            for (int x : idle) if (near >= 0) best = std::min(best, dist(x, near));
            if (c < 0) {   // returned again within the slice
                for (int x : idle) if (near >= 0 && dist(x, near) == best) { c = x; break; }
                if (c < 0) return;
            }
            if (std::find(idle.begin(), idle.end(), c) == idle.end()) {
                fail("C08", "not-idle", cat("'", i.text, "' bound ", pos(c), ", which is no idle pool state (", to_text(M[c].s), ")"));
                return;
            }
            if (near >= 0 && dist(c, near) != best) fail("C08", "not-nearest", cat("'", i.text, "' bound the pool state at ", pos(c), " although a nearer one was idle"));
            M[c].role = Role::Live;
            M[c].s.id = r.target;
            out.count("y_lent");
            return;
        }
        if (c < 0) { fails({"C03", "C08"}, "lost", cat("'", i.text, "' was applied but no cell carries the new id")); return; }
        if (!is_free(c)) { fails({"C08", "C04"}, "occupied", cat("'", i.text, "' prepared its state on the occupied cell ", pos(c), " (", to_text(M[c].s), ")")); }
        int s = near < 0 ? -1 : side_of(near, c);
        if (near >= 0 && (s < 0 || M[near].s.bt[s] != B_SMOOTH))
            fail("C08", "placement", cat("'", i.text, "' prepared its state at ", pos(c), ", not at a Z boundary of the patch at ", pos(near)));
        M[c] = MC{square(r.target), Role::Live, -1};
        M[c].s.act = A_UNIT;
        out.count("y_prepared");
    }

    void rotate(Inst& i)
    {
        int c = find(i.own[0]);
        out.count("rotations");
        if (c < 0) { fail("C09", "absent", cat("'", i.text, "' was applied although the patch is not on the lattice")); return; }
        auto& s = M[c].s;
        if (s.ba[0] || s.ba[1] || s.ba[2] || s.ba[3] || s.act == A_MEAS)
            fails({"C09", "C05"}, "active-patch", cat("'", i.text, "' was applied to a patch that takes part in another operation (", to_text(s), ")"));
        int n = -1;
        auto& o = S->at(c);
        if (o.present && o.type == T_ROUT && o.act == A_ROT)
            for (int d = 0; d < 4; d++) if (o.ba[d] && o.bt[d] == B_CONN) n = nb(c, d);
        if (n < 0) {
            fail("C09", "region", cat("'", i.text, "' was applied but its cell ", pos(c), " shows ", to_text(o)));
            return;
        }
        if (!is_free(n)) fails({"C09", "C04"}, "occupied", cat("'", i.text, "' borrowed the occupied cell ", pos(n), " (", to_text(M[n].s), ")"));
        i.rot_cell = c;
        i.rot_nb = n;
        i.rot_result = s;
        i.rot_result.act = A_NONE;
        turn(i.rot_result);
        for (auto& b : i.rot_result.ba) b = false;
        for (int x : {c, n}) {
            MC m;
            m.s.present = true;
            m.s.type = T_ROUT;
            m.s.act = A_ROT;
            int d = side_of(x, x == c ? n : c);
            m.s.bt[d] = B_CONN;
            m.s.ba[d] = true;
            m.role = Role::Rot;
            m.owner = int(&i - insts.data());
            M[x] = m;
        }
    }

    // the number of slices a rotation is visible in
    int rotation_slices() const { return dag ? 2 : 3; }
    void busy(Inst& i, const BusyRegion& b)
    {
        if (b.steps_to_clear > 0) return;
        if (k - i.start != rotation_slices())
            fail("C09", "duration", cat("the rotation of patch ", i.own[0], " begun in slice ", i.start, " was over in slice ", k, ", expected ", i.start + rotation_slices()));
        if (i.rot_cell >= 0) {
            M[i.rot_nb] = {};
            M[i.rot_cell] = MC{i.rot_result, Role::Live, -1};
        }
        finish(i);
        out.count("rotations_done");
    }

    // -------------------------------------------------------------- Bell operations
    Step conv(const LocalInstruction::LocalLSInstruction& l) const
    {
        auto I = [](const std::optional<PatchId>& p) { return p ? int64_t(*p) : -1; };
        return std::visit(lstk::overloaded{
            [&](const LocalInstruction::PrepareY& o) { return Step{LS_PREPY, cell_of(o.target_cell), -1, I(o.target_id), -1}; },
            [&](const LocalInstruction::BellPrepare& o) { return Step{LS_BELLPREP, cell_of(o.cell1), cell_of(o.cell2), I(o.side1), I(o.side2)}; },
            [&](const LocalInstruction::BellMeasure& o) { return Step{LS_BELLMEAS, cell_of(o.cell1), cell_of(o.cell2), -1, -1}; },
            [&](const LocalInstruction::TwoPatchMeasure& o) { return Step{LS_TWO, cell_of(o.cell1), cell_of(o.cell2), -1, -1}; },
            [&](const LocalInstruction::ExtendSplit& o) { return Step{LS_EXT, cell_of(o.target_cell), cell_of(o.extension_cell), I(o.extension_id), -1}; },
            [&](const LocalInstruction::MergeContract& o) { return Step{LS_MERGE, cell_of(o.preserved_cell), cell_of(o.measured_cell), -1, -1}; },
            [&](const LocalInstruction::Move& o) { return Step{LS_MOVE, cell_of(o.source_cell), cell_of(o.target_cell), I(o.new_id_for_target), -1}; }}, l.operation);
    }
    static bool same(const Step& a, const Step& b) { return a.kind == b.kind && a.a == b.a && a.b == b.b && a.id1 == b.id1 && a.id2 == b.id2; }

    // the steps alone, in order, on a lattice on which nothing else happens: each must be possible, and the path be free afterwards
    void rehearse(const Inst& i, int A, int B)
    {
        std::set<int> used{A, B};
        string problem;
        for (size_t n = 0; n < i.flat.size() && problem.empty(); n++) {
            auto& s = i.flat[n];
            auto need = [&](int c, bool occupied) {
                if (bool(used.count(c)) != occupied && problem.empty()) problem = cat("its step ", n, " can never be executed: ", pos(c), occupied ? " holds nothing by then" : " is taken by the operation itself or its operands");
            };
            switch (s.kind) {
            case LS_BELLPREP: need(s.a, false); need(s.b, false); used.insert(s.a); used.insert(s.b); break;
            case LS_BELLMEAS: need(s.a, true); need(s.b, true); used.erase(s.a); used.erase(s.b); break;
            case LS_TWO: need(s.a, true); need(s.b, true); break;
            case LS_MERGE: need(s.a, true); need(s.b, true); used.erase(s.b); break;
            case LS_EXT: need(s.a, true); need(s.b, false); used.insert(s.b); break;
            case LS_MOVE: need(s.a, true); need(s.b, false); used.erase(s.a); used.insert(s.b); break;
            default: break;
            }
        }
        if (problem.empty()) {
            if (!used.erase(A) || (A != B && !used.erase(B))) problem = "its steps consume an operand";
            else if (used.size() != (i.kind == Kind::CNOT ? 0u : 2u)) problem = cat("its steps leave ", used.size(), " patches on the path");
        }
        if (problem.empty()) return;
        fails({"C10", "C12"}, "impossible-steps", cat("'", i.text, "': ", problem));
        if (edpc) fail("C11", "impossible-steps", cat("'", i.text, "': ", problem));
    }

    void first_visit(Inst& i, const vector<vector<Step>>& sets, const vector<int>& route)
    {
        i.sets = sets;
        for (auto& s : sets) {
            i.set_begin.push_back(i.flat.size());
            for (auto& x : s) i.flat.push_back(x);
        }
        i.set_begin.push_back(i.flat.size());
        bool cnot = i.kind == Kind::CNOT;
        int A, B;   // the two reference patches: source (control / loc1) and target (target / loc2)
        if (cnot) { A = find(i.own[0]); B = find(i.own[1]); }
        else { A = find(i.own[2]); B = find(i.own[3]); }
        i.home_c = A;
        i.home_t = B;
        // the steps must pair up along one simple path, covering every edge once
        std::map<int, std::set<int>> adj;
        std::set<std::pair<int, int>> edges;
        for (auto& s : i.flat) {
            if (!valid(s.a) || !valid(s.b) || side_of(s.a, s.b) < 0) {
                fail("C10", "not-adjacent", cat("'", i.text, "': a step acts on cells that are not neighbours"));
                return;
            }
            auto e = std::minmax(s.a, s.b);
            if (!edges.insert({e.first, e.second}).second)
                fails({"C10", "C11"}, "overlap", cat("'", i.text, "': two steps act on the same pair of cells ", pos(s.a), pos(s.b)));
            adj[s.a].insert(s.b);
            adj[s.b].insert(s.a);
        }
        if (A >= 0 && B >= 0) rehearse(i, A, B);
        vector<int> ends;
        bool ok = true;
        for (auto& [c, n] : adj) {
            if (n.size() == 1) ends.push_back(c);
            else if (n.size() > 2) ok = false;
        }
        if (ok && ends.size() == 2 && edges.size() + 1 == adj.size()) {
            int prev = -1, cur = ends[0];
            while (cur >= 0) {
                i.path.push_back(cur);
                int nx = -1;
                for (int x : adj[cur]) if (x != prev) nx = x;
                prev = cur;
                cur = nx;
            }
            if (i.path.size() != adj.size()) ok = false;
        }
        else ok = false;
        if (!ok) {
            std::ostringstream o;
            for (auto& s : i.flat) o << " " << s.kind << pos(s.a) << pos(s.b);
            fails({"C10", "C11"}, "gap", cat("'", i.text, "': the steps do not form one path:", o.str()));
            i.path.clear();
            for (auto& [c, n] : adj) { (void)n; i.path.push_back(c); }
            return;
        }
        if (cnot) {
            std::set<int> e(ends.begin(), ends.end()), w{A, B};
            if (e != w) fail("C10", "ends", cat("'", i.text, "': the steps do not reach from control to target"));
            if (!route.empty()) {
                std::set<std::pair<int, int>> re;
                for (size_t j = 0; j + 1 < route.size(); j++) { auto p = std::minmax(route[j], route[j + 1]); re.insert({p.first, p.second}); }
                if (re != edges) fails({"C10", "C11"}, "route", cat("'", i.text, "': the steps do not cover the chosen route exactly"));
            }
        }
        else if (A >= 0 && B >= 0) {
            bool fits = (side_of(A, ends[0]) >= 0 && side_of(B, ends[1]) >= 0) || (side_of(A, ends[1]) >= 0 && side_of(B, ends[0]) >= 0);
            if (!fits) fail("C10", "ends", cat("'", i.text, "': the steps do not reach from one reference patch to the other"));
        }
    }

    void mark_wave_routes()
    {
        // all CNOTs whose first step is taken in this slice had their routes reserved before
        struct R { Inst* i; vector<int> cells; };
        vector<R> rs;
        for (int v : visits_of_slice[k]) {
            auto* b = std::get_if<BellBasedCNOT>(&log.visits[v].operation);
            if (!b || !b->route) continue;
            auto it = by_text.find(ins_text(log.visits[v]));
            if (it == by_text.end()) continue;
            Inst& i = insts[it->second[0]];
            if (i.st != St::New) continue;
            R r{&i, {}};
            for (auto& c : b->route->cells) r.cells.push_back(cell_of(c.cell));
            bool dup = false;
            for (auto& x : rs) if (x.i == &i) dup = true;
            if (!dup) rs.push_back(r);
        }
        std::map<std::pair<int, int>, Inst*> edge_user;
        std::map<int, vector<Inst*>> cell_users;
        for (auto& r : rs) {
            for (size_t j = 0; j + 1 < r.cells.size(); j++) {
                auto e = std::minmax(r.cells[j], r.cells[j + 1]);
                auto p = edge_user.insert({{e.first, e.second}, r.i});
                if (!p.second) fail("C11", "shared-edge", cat("'", r.i->text, "' and '", p.first->second->text, "' were routed through the same edge ", pos(e.first), pos(e.second), " in one wave"));
            }
            for (size_t j = 1; j + 1 < r.cells.size(); j++) {
                int c = r.cells[j];
                if (!valid(c)) { fail("C11", "route", "route leaves the lattice"); continue; }
                cell_users[c].push_back(r.i);
                if (!free_or_mark(c)) {
                    fails({"C11", "C04"}, "route-occupied", cat("'", r.i->text, "' was routed through the occupied cell ", pos(c), " (", to_text(M[c].s), ")"));
                    continue;
                }
                M[c] = {};
                M[c].s.present = true;
                M[c].s.type = T_ROUT;
                M[c].s.act = A_EDPC;
                M[c].role = Role::Mark;
                M[c].owner = int(r.i - insts.data());
                mark_users[c].insert(M[c].owner);
            }
        }
        for (auto& [c, u] : cell_users) {
            if (u.size() > 2) fail("C11", "crossing", cat(u.size(), " routes of one wave meet in cell ", pos(c)));
            if (u.size() == 2) out.count("edpc_crossings");
        }
        if (rs.size() > 1) out.count("edpc_waves_with_several_routes");
    }
    std::map<int, std::set<int>> mark_users;
    bool marked_this_slice = false;

    void bell_visit(Inst& i, const LSInstruction& ins, bool trailing)
    {
        vector<vector<Step>> sets;
        vector<std::pair<unsigned, unsigned>> counters;
        vector<int> route;
        if (auto* b = std::get_if<BellPairInit>(&ins.operation)) {
            if (!b->local_instructions || !b->counter) { fail("C10", "no-steps", cat("'", i.text, "' was applied without local steps")); return; }
            sets.emplace_back();
            for (auto& l : *b->local_instructions) sets.back().push_back(conv(l));
            counters.push_back(*b->counter);
        }
        else if (auto* c = std::get_if<BellBasedCNOT>(&ins.operation)) {
            if (!c->local_instruction_sets || !c->counter_pairs) { fail("C10", "no-steps", cat("'", i.text, "' was applied without local steps")); return; }
            for (auto& s : *c->local_instruction_sets) {
                sets.emplace_back();
                for (auto& l : s) sets.back().push_back(conv(l));
            }
            counters = *c->counter_pairs;
            if (c->route) for (auto& r : c->route->cells) route.push_back(cell_of(r.cell));
        }
        if (i.flat.empty() && i.sets.empty()) {
            first_visit(i, sets, route);
            out.count("bell_ops");
        }
        else {
            bool eq = sets.size() == i.sets.size();
            for (size_t a = 0; eq && a < sets.size(); a++) {
                eq = sets[a].size() == i.sets[a].size();
                for (size_t b = 0; eq && b < sets[a].size(); b++) eq = same(sets[a][b], i.sets[a][b]);
            }
            if (!eq) fail("C10", "list-changed", cat("'", i.text, "': the step list changed while the operation was in progress"));
            out.count("bell_resumed");
        }
        size_t executed = 0;
        for (size_t s = 0; s < counters.size() && s < i.sets.size(); s++) {
            auto [f, t] = counters[s];
            if (t <= f) continue;
            if (t > i.sets[s].size()) { fail("C10", "overrun", cat("'", i.text, "': more steps executed than listed")); break; }
            if (i.set_begin[s] + f != i.pos)
                fails({"C10"}, "sequence", cat("'", i.text, "': step ", i.set_begin[s] + f, " executed, expected step ", i.pos));
            for (unsigned x = f; x < t; x++) step(i, i.sets[s][x]);
            i.pos = i.set_begin[s] + t;
            executed += t - f;
        }
        if (trailing) {
            if (executed) fails({"C10", "C01"}, "repeated", cat("'", i.text, "': steps executed after completion"));
            return;
        }
        if (i.pos == i.flat.size()) {
            finish(i);
            complete_bell(i);
        }
        else if (executed == 0) out.count("bell_blocked");
    }

    void complete_bell(Inst& i)
    {
        int self = int(&i - insts.data());
        bool cnot = i.kind == Kind::CNOT;
        if (cnot) {
            if (find(i.own[0]) != i.home_c || find(i.own[1]) != i.home_t)
                fails({"C10", "C03"}, "moved", cat("'", i.text, "': control or target is not where it was"));
        }
        for (int c = 0; c < N(); c++) {
            if (M[c].owner != self) continue;
            if (M[c].role == Role::Mark) {
                mark_users[c].erase(self);
                if (mark_users[c].empty())
                    fails({"C10", "C11", "C04"}, "leftover-mark", cat("'", i.text, "' completed but left its reservation on ", pos(c)));
                else M[c].owner = *mark_users[c].begin();
                continue;
            }
            if (M[c].role != Role::Anon) continue;
            if (!cnot && (M[c].s.id == int64_t(i.own[0]) || M[c].s.id == int64_t(i.own[1]))) {
                bool first = M[c].s.id == int64_t(i.own[0]);
                auto& b = std::get<BellPairInit>(i.ins.operation);
                auto& loc = first ? b.loc1 : b.loc2;
                int ref = find(loc.target);
                int s = ref < 0 ? -1 : side_of(ref, c);
                if (ref >= 0 && (s < 0 || M[ref].s.bt[s] != btype(loc.op)))
                    fail("C10", "placement", cat("'", i.text, "': patch ", M[c].s.id, " ended at ", pos(c), ", not at the requested boundary of patch ", loc.target));
                M[c].role = Role::Live;
                M[c].owner = -1;
                continue;
            }
            if (M[c].s.act != A_MEAS)
                fails({"C10", "C04"}, "leftover", cat("'", i.text, "' completed but left a patch on ", pos(c), " (", to_text(M[c].s), ")"));
        }
        if (!cnot)
            for (int j = 0; j < 2; j++)
                if (find(i.own[j]) < 0) fails({"C10", "C03"}, "missing-side", cat("'", i.text, "' completed but patch ", i.own[j], " does not exist"));
        out.count(cnot ? "bell_cnots_done" : "bell_pairs_done");
    }

    string step_error(const Step& s) const
    {
        if (!valid(s.a) || (s.kind != LS_PREPY && !valid(s.b))) return "outside the lattice";
        auto occupied = [&](int c) { return !free_or_mark(c); };
        auto patch = [&](int c) { return M[c].s.present && M[c].s.type == T_QUBIT; };
        switch (s.kind) {
        case LS_BELLPREP:
            if (occupied(s.a)) return cat(pos(s.a), " is not free (", to_text(M[s.a].s), ")");
            if (occupied(s.b)) return cat(pos(s.b), " is not free (", to_text(M[s.b].s), ")");
            return "";
        case LS_BELLMEAS: case LS_TWO: case LS_MERGE:
            for (int c : {s.a, s.b}) {
                if (!patch(c)) return cat("no patch at ", pos(c));
                if (M[c].s.active()) return cat("the patch at ", pos(c), " is in use");
            }
            return "";
        case LS_MOVE: case LS_EXT:
            if (!patch(s.a)) return cat("no patch at ", pos(s.a));
            if (M[s.a].s.active()) return cat("the patch at ", pos(s.a), " is in use");
            if (occupied(s.b)) return cat(pos(s.b), " is not free (", to_text(M[s.b].s), ")");
            return "";
        }
        return "unexpected kind of step";
    }

    void step(Inst& i, const Step& s)
    {
        string e = step_error(s);
        if (!e.empty()) {
            fails({s.kind == LS_TWO ? "C05" : "C10", "C10", "C04"}, "step", cat("'", i.text, "': step ", s.kind, " executed although ", e));
            if (!valid(s.a) || !valid(s.b)) return;
        }
        int self = int(&i - insts.data());
        auto place = [&](int c, int64_t id) {
            mark_users[c].erase(self);
            M[c] = MC{square(id), Role::Anon, self};
        };
        auto link = [&] {
            int d = side_of(s.a, s.b);
            if (d < 0) return;
            M[s.a].s.ba[d] = true;
            M[s.b].s.ba[OPP[d]] = true;
        };
        out.count("bell_steps");
        switch (s.kind) {
        case LS_BELLPREP: place(s.a, s.id1); place(s.b, s.id2); link(); break;
        case LS_BELLMEAS: link(); M[s.a].s.act = A_MEAS; M[s.b].s.act = A_MEAS; break;
        case LS_TWO: link(); break;
        case LS_MERGE: link(); M[s.b].s.act = A_MEAS; break;
        case LS_EXT: place(s.b, s.id1); link(); break;
        case LS_MOVE:
            place(s.b, s.id1 >= 0 ? s.id1 : M[s.a].s.id);
            link();
            M[s.a].s.act = A_MEAS;
            M[s.a].s.id = -1;
            break;
        }
    }

    // -------------------------------------------------------------- comparison
    vector<string> tags(int c, const MC& p, const CellSnap& o) const
    {
        std::set<string> t;
        bool pm = p.s.present, om = o.present;
        auto by_role = [&] {
            switch (p.role) {
            case Role::Dead: t.insert("C04"); break;
            case Role::Dist: t.insert(reserved.count(c) ? "C07" : "C04"); t.insert("C04"); break;
            case Role::Live: t.insert("C03"); break;
            case Role::YIdle: t.insert("C08"); break;
            case Role::Magic: t.insert("C07"); break;
            case Role::Anon: t.insert("C10"); if (edpc) t.insert("C11"); break;
            case Role::Path: t.insert("C05"); break;
            case Role::Rot: t.insert("C09"); break;
            case Role::Mark: t.insert("C11"); break;
            case Role::Free: break;
            }
        };
        auto by_obs = [&] {
            if (!om) return;
            if (o.type == T_DIST || o.type == T_DEAD) t.insert("C04");
            if (o.type == T_DIST && reserved.count(c)) t.insert("C07");
            if (o.type == T_PREP) t.insert("C07");
            if (o.type == T_ROUT) {
                t.insert("C04");
                if (o.act == A_MPM) t.insert("C05");
                if (o.act == A_ROT) t.insert("C09");
                if (o.act == A_EDPC || o.act == A_RES) t.insert("C11");
            }
            if (o.type == T_QUBIT) {
                if (o.id >= 0) t.insert("C03");
                else if (opt.local) { t.insert("C10"); if (edpc) t.insert("C11"); }
                else t.insert("C08");
                t.insert("C04");
            }
        };
        if (pm != om || p.s.type != o.type) {
            by_role();
            by_obs();
            if (!pm || !om) t.insert("C04");
        }
        else if (p.s.id != o.id) {
            by_role();
            t.insert("C03");
            if (std::find(lay.ypool.begin(), lay.ypool.end(), c) != lay.ypool.end()) t.insert("C08");
        }
        else {
            bool bt = false, act = p.s.act != o.act;
            for (int i = 0; i < 4; i++) {
                if (p.s.bt[i] != o.bt[i]) bt = true;
                if (p.s.ba[i] != o.ba[i]) act = true;
            }
            if (bt) {
                by_role();
                if (p.role == Role::Live) { t.insert("C03"); if (turned.count(c)) t.insert("C09"); }
                for (int i = 0; i < 4; i++) if (o.bt[i] >= 4 || edpc) t.insert("C11");
            }
            if (act) {
                if (p.role != Role::Live) by_role();
                if (!opt.local) t.insert("C05");
                else { t.insert("C10"); t.insert("C05"); }
                if (p.s.act == A_MEAS || o.act == A_MEAS) t.insert("C03");
                if (turned.count(c)) t.insert("C09");
                if (edpc) t.insert("C11");
            }
        }
        if (t.empty()) t.insert("C04");
        return {t.begin(), t.end()};
    }
    std::set<int> turned;   // cells whose patch was ever rotated

    void compare()
    {
        for (int c = 0; c < N(); c++) {
            auto& o = S->at(c);
            auto& p = M[c];
            bool ok;
            if (p.role == Role::Mark) ok = o.present && o.type == T_ROUT && (o.act == A_EDPC || o.act == A_RES);
            else {
                CellSnap x = p.s, y = o;
                if (!x.present && !y.present) continue;
                ok = x == y;
                if (p.role == Role::Dist || p.role == Role::Dead) {
                    // fixed structures: their drawing is not part of the contract
                    ok = o.present && o.type == p.s.type && o.act == p.s.act && o.id < 0;
                }
            }
            if (ok) continue;
            for (auto& t : tags(c, p, o))
                fail(t, "cell", cat("cell ", pos(c), " shows ", to_text(o), ", expected ", to_text(p.s)));
            // continue from what the code shows
            MC m;
            m.s = o;
            if (!o.present) m.role = Role::Free;
            else if (o.type == T_DEAD) m.role = Role::Dead;
            else if (o.type == T_DIST) m.role = Role::Dist;
            else if (o.type == T_PREP) m.role = Role::Magic;
            else if (o.type == T_ROUT) { m.role = o.act == A_MPM ? Role::Path : o.act == A_ROT ? Role::Rot : Role::Mark; m.owner = p.owner; }
            else if (o.id >= 0) m.role = p.role == Role::Anon ? Role::Anon : Role::Live;
            else m.role = std::find(lay.ypool.begin(), lay.ypool.end(), c) != lay.ypool.end() ? Role::YIdle : Role::Anon;
            if (m.role == Role::Anon) m.owner = p.owner;
            M[c] = m;
        }
        // stated directly, independent of the model
        std::map<int64_t, int> seen;
        for (int c = 0; c < N(); c++) {
            auto& o = S->at(c);
            if (!o.present) continue;
            if (o.id >= 0) {
                auto p = seen.insert({o.id, c});
                if (!p.second) fail("C03", "twice", cat("id ", o.id, " occupies both ", pos(p.first->second), " and ", pos(c)));
            }
            if (o.act == A_EDPC || o.act == A_RES) continue;
            for (int s = 0; s < 4; s++) {
                if (!o.ba[s]) continue;
                int n = nb(c, s);
                bool matched = n >= 0 && S->at(n).present && (S->at(n).ba[OPP[s]] || S->at(n).act == A_EDPC || S->at(n).act == A_RES);
                if (!matched)
                    fails({"C05"}, "unmatched", cat("the active boundary of ", pos(c), " (", to_text(o), ") has no active counterpart"));
            }
        }
        // every reservation belongs to a Bell CNOT in progress
        if (edpc)
            for (int c = 0; c < N(); c++)
                if (M[c].role == Role::Mark && (M[c].owner < 0 || insts[M[c].owner].st == St::Done))
                    fails({"C11", "C04"}, "orphan-mark", cat("cell ", pos(c), " is reserved by no operation in progress"));
    }

    // -------------------------------------------------------------- time step
    void deliver(int cell)
    {
        M[cell] = MC{square(-1), Role::Magic, -1};
        M[cell].s.type = T_PREP;
        deliveries++;
        out.count("magic_delivered");
    }

    void advance()
    {
        for (auto& m : M) {
            if (!m.s.present) continue;
            if (m.s.act == A_UNIT) m.s.act = A_NONE;
            if (m.s.act == A_EDPC) m.s.act = A_RES;
            if (m.s.act != A_ROT && m.s.act != A_RES) for (auto& b : m.s.ba) b = false;
            if (m.s.act == A_MPM || m.s.act == A_MEAS) m = {};
        }
        if (!lay.reserved.empty()) {
            for (size_t r = 0; r < lay.reserved.size(); r++) {
                int c = lay.reserved[r];
                if (is_free(c)) {
                    M[c] = MC{dist_tile(), Role::Dist, -1};
                    timer[r] = expected_times[r];
                    out.count("magic_respawns");
                }
                else if (M[c].role == Role::Dist) timer[r]--;
                if (timer[r] == 0 && M[c].role == Role::Dist) deliver(c);
            }
            return;
        }
        // Regions can share queue cells: the deliveries of one slice are assigned together, region by
        // region, so that they explain the new states of the next slice (any free queue cell is legal).
        vector<size_t> due;
        for (size_t r = 0; r < lay.regions.size(); r++)
            if (!--timer[r]) { timer[r] = expected_times[r]; due.push_back(r); }
        if (due.empty()) return;
        std::map<int, bool> evident;
        auto has_evidence = [&](int c) {
            auto it = evident.find(c);
            if (it != evident.end()) return it->second;
            bool e = false;
            if (k + 1 < int(log.slices.size())) {
                auto& n = log.slices[k + 1].at(c);
                e = n.present && (n.type == T_PREP || (n.id >= 0 && n.type == T_QUBIT && is_magic_id(n.id)) || n.act == A_ROT);
            }
            return evident[c] = e;
        };
        std::map<int, bool> open;
        for (size_t r : due) for (int c : lay.queues[r]) open[c] = is_free(c);
        vector<int> best, cur(due.size(), -1);
        int best_cost = 1 << 30, tries = 0;
        std::function<void(size_t, int)> assign = [&](size_t x, int cost) {
            if (cost >= best_cost || ++tries > 20000) return;
            if (x == due.size()) {
                for (auto& [c, o] : open) if (o && log.slices.size() > size_t(k + 1) && log.slices[k + 1].at(c).present && log.slices[k + 1].at(c).type == T_PREP) cost++;
                if (cost < best_cost) { best_cost = cost; best = cur; }
                return;
            }
            vector<int> cand;
            for (int c : lay.queues[due[x]])
                if (open[c] && std::find(cand.begin(), cand.end(), c) == cand.end()) cand.push_back(c);
            cur[x] = -1;
            if (cand.empty()) return assign(x + 1, cost);
            for (int pass = 0; pass < 2; pass++)
                for (int c : cand) {
                    if (has_evidence(c) != (pass == 0)) continue;
                    open[c] = false;
                    cur[x] = c;
                    assign(x + 1, cost + (pass == 0 ? 0 : 2));
                    open[c] = true;
                }
        };
        assign(0, 0);
        for (size_t x = 0; x < due.size(); x++) {
            if (best[x] < 0) out.count("magic_dropped");
            else deliver(best[x]);
        }
    }
    bool is_magic_id(int64_t id) const
    {
        for (auto& i : insts) if (i.kind == Kind::Magic && int64_t(i.own[0]) == id) return true;
        return false;
    }

    // -------------------------------------------------------------- progress
    // lattice whose free cells were free before and after the slice's operations
    SliceSnap both(const vector<MC>& before) const
    {
        SliceSnap x = *S;
        for (int c = 0; c < N(); c++) {
            if (!x.cells[c].present && before[c].s.present) x.cells[c] = before[c].s;
        }
        return x;
    }
    bool applicable(const Inst& i, const SliceSnap& x, const vector<MC>& before) const
    {
        auto at = [&](int64_t id) {
            for (int c = 0; c < N(); c++)
                if (S->at(c).present && S->at(c).id == id && before[c].s.present && before[c].s.id == id) return c;
            return -1;
        };
        auto idle = [&](int c) { return c >= 0 && !S->at(c).active() && !before[c].s.active(); };
        auto route = [&](int a, int oa, int b, int ob, bool e) { return reference_route(x, lay, a, oa, b, ob, e); };
        auto refused = [&](PatchId a, PatchId b) { return refused_at(faults, k, a, b); };
        switch (i.kind) {
        case Kind::SPM: return at(i.own[0]) >= 0;
        case Kind::Pauli: case Kind::H: return idle(at(i.own[0]));
        case Kind::S: {
            if (edpc || refused(i.own[0], i.own[0])) return false;
            int c = at(i.own[0]);
            return idle(c) && route(c, int(PauliOperator::X), c, int(PauliOperator::Z), false).found;
        }
        case Kind::MPM: {
            auto& m = std::get<MultiPatchMeasurement>(i.ins.operation);
            if (m.observable.size() != 2) return false;
            auto a = *m.observable.begin(), b = *std::next(m.observable.begin());
            int ca = at(a.first), cb = at(b.first);
            if (!idle(ca) || !idle(cb)) return false;
            if (opt.local) return side_of(ca, cb) >= 0;
            if (edpc || refused(a.first, b.first)) return false;
            return route(ca, int(a.second), cb, int(b.second), false).found;
        }
        case Kind::Init: {
            auto& p = std::get<PatchInit>(i.ins.operation);
            if (!p.place_next_to) {
                for (int c : lay.ancilla) if (!x.at(c).present) return true;
                return false;
            }
            int t = at(p.place_next_to->target);
            if (t < 0) return false;
            for (int s = 0; s < 4; s++) {
                int n = nb(t, s);
                if (n >= 0 && !x.at(n).present && S->at(t).bt[s] == btype(p.place_next_to->op) && before[t].s.bt[s] == S->at(t).bt[s]) return true;
            }
            return false;
        }
        case Kind::Magic: {
            auto& r = std::get<MagicStateRequest>(i.ins.operation);
            if (at(r.near_patch) < 0) return false;
            for (int c = 0; c < N(); c++)
                if (before[c].role == Role::Magic && S->at(c).present && S->at(c).type == T_PREP) return true;
            return false;
        }
        case Kind::Y: {
            auto& r = std::get<YStateRequest>(i.ins.operation);
            if (at(r.target) >= 0) return true;
            int t = at(r.near_patch);
            if (t < 0) return false;
            for (int v : visits_of_slice[k]) if (std::holds_alternative<YStateRequest>(log.visits[v].operation)) return false;
            if (!(opt.local && opt.twists)) {
                bool any_pool = false;
                for (int c : lay.ypool) {
                    if (before[c].role == Role::YIdle) any_pool = true;
                    if (before[c].role == Role::YIdle && !before[c].s.active() && S->at(c).present && S->at(c).id < 0 && !S->at(c).active()) return true;
                }
                if (any_pool) return false;
            }
            if (!opt.twists) return false;
            for (int s = 0; s < 4; s++) {
                int n = nb(t, s);
                if (n >= 0 && !x.at(n).present && S->at(t).bt[s] == B_SMOOTH && before[t].s.bt[s] == B_SMOOTH) return true;
            }
            return false;
        }
        case Kind::Rotate: {
            int t = at(i.own[0]);
            if (!idle(t)) return false;
            for (int s = 0; s < 4; s++) { int n = nb(t, s); if (n >= 0 && !x.at(n).present) return true; }
            return false;
        }
        case Kind::CNOT: {
            int a = at(i.own[0]), b = at(i.own[1]);
            if (!idle(a) || !idle(b) || refused(i.own[0], i.own[1])) return false;
            auto r = route(a, int(PauliOperator::Z), b, int(PauliOperator::X), false);
            return r.found && r.length >= 2;
        }
        case Kind::BellInit: {
            auto& b = std::get<BellPairInit>(i.ins.operation);
            int p = at(b.loc1.target), q = at(b.loc2.target);
            if (p < 0 || q < 0 || refused(b.loc1.target, b.loc2.target)) return false;
            auto r = route(p, int(b.loc1.op), q, int(b.loc2.op), false);
            return r.found && r.length >= 2;
        }
        case Kind::Reset: return true;
        default: return false;
        }
    }

    void progress(const vector<MC>& before)
    {
        if (sc.get("router") == "cached") return;
        std::optional<SliceSnap> x;
        bool first_undone = true;
        for (auto& i : insts) {
            if (i.st == St::Done && i.done <= k) continue;
            bool head = first_undone;
            first_undone = false;
            if (stream && !head) break;
            if (i.pulled_slice > k) continue;
            if (i.st == St::New) {
                bool ready = true;
                for (int p : i.preds) if (insts[p].st != St::Done || insts[p].done >= k) ready = false;
                if (stream) {   // everything before must have completed in an earlier slice
                    int self = int(&i - insts.data());
                    if (self > 0 && insts[self - 1].done >= k) ready = false;
                }
                if (!ready) { i.streak = 0; continue; }
                if (!x) x = both(before);
                if (applicable(i, *x, before)) i.streak++;
                else { i.streak = 0; out.count("waiting_legitimately"); }
                if (i.streak >= 3 && !i.stalled_reported) {
                    i.stalled_reported = true;
                    string why = cat("'", i.text, "' has been applicable for ", i.streak, " slices but was not applied");
                    fail("C12", "stalled", why);
                    if (i.kind == Kind::Y) fail("C08", "stalled", why);
                    if (i.kind == Kind::Magic) fail("C07", "stalled", why);
                    if (i.kind == Kind::Rotate) fail("C09", "stalled", why);
                }
            }
            else if (is_bell(i) && i.start < k && i.pos < i.flat.size()) {
                if (step_now(i, before)) i.streak++;
                else i.streak = 0;
                if (i.streak >= 3 && !i.stalled_reported) {
                    i.stalled_reported = true;
                    fails({"C12", "C10"}, "stalled-step", cat("step ", i.pos, " of '", i.text, "' has been possible for ", i.streak, " slices but was not executed"));
                }
            }
            else if (i.kind == Kind::S && i.st == St::Started && k > i.start + 3 && !i.stalled_reported) {
                i.stalled_reported = true;
                fails({"C12", "C01"}, "stalled-correction", cat("the correction of '", i.text, "' is overdue"));
            }
            else if (i.kind == Kind::Rotate && i.st == St::Started && k > i.start + rotation_slices() && !i.stalled_reported) {
                i.stalled_reported = true;
                fails({"C09", "C12"}, "overdue", cat("the rotation of patch ", i.own[0], " begun in slice ", i.start, " is not over"));
            }
        }
    }
    // the step the operation stands at was possible both before and after this slice
    bool step_now(const Inst& i, const vector<MC>& before)
    {
        size_t at_before = i.pos;
        // only count when no step was executed in this slice
        if (last_pos[int(&i - insts.data())] != at_before) { last_pos[int(&i - insts.data())] = at_before; return false; }
        if (!step_error(i.flat[i.pos]).empty()) return false;
        vector<MC> keep = before;
        std::swap(keep, M);
        bool ok = step_error(i.flat[i.pos]).empty();
        std::swap(keep, M);
        if (i.kind == Kind::CNOT) {
            for (int j = 0; j < 2; j++) {
                int c = find(i.own[j]);
                if (c < 0 || M[c].s.active() || before[c].s.active()) return false;
            }
        }
        return ok;
    }
    std::map<int, size_t> last_pos;

    // -------------------------------------------------------------- retry budgets
    bool finite(const Inst& i) const { return i.ins.wait_at_most_for != LSInstruction::DEFAULT_MAX_WAIT; }
    void check_budget_at_start(const Inst& i)
    {
        if (!finite(i) || dag) return;
        int64_t n = int64_t(i.ins.wait_at_most_for);
        int64_t latest = stream ? i.pulled_slice + n : ready_slice(i) + 1 + n;
        if (k > latest)
            fail("C12", "budget", cat("'", i.text, "' with a budget of ", n, " was applied after ", stream ? k - i.pulled_slice : k - ready_slice(i) - 1, " refused slices"));
        if (k > (stream ? i.pulled_slice : ready_slice(i) + 1)) out.count("budget_used");
    }
    // some crossing cell of the wave has two or more crossing cells as neighbours along the routes
    bool crossing_cluster(int slice) const
    {
        std::map<int, int> uses;
        std::map<int, std::set<int>> next;
        for (auto& q : log.queries) {
            if (q.slice != slice || !q.found || q.refused || q.cells.size() < 2) continue;
            for (int c : q.cells) uses[c]++;
            for (size_t i = 1; i < q.cells.size(); i++) { next[q.cells[i]].insert(q.cells[i - 1]); next[q.cells[i - 1]].insert(q.cells[i]); }
        }
        for (auto& [c, n] : uses) {
            if (n < 2) continue;
            int linked = 0;
            for (int d : next[c]) linked += uses[d] >= 2;
            if (linked >= 2) return true;
        }
        return false;
    }
    void judge_exception()
    {
        if (log.core_ids.size() > lay.core.size()) {
            k = 0;
            if (!log.threw) fail("C03", "absent", cat(log.core_ids.size(), " patches were declared on a layout with room for ", lay.core.size(), " and the run was not refused"));
            else out.count("declared_too_many_refused");
            return;
        }
        if (!log.threw || log.fault_fired) return;
        int s = int(log.slices.size());
        std::set<Kind> due;             // what was being executed or about to be
        for (auto& i : insts) {
            if (i.st == St::Done) continue;
            if (i.st == St::Started) { due.insert(i.kind); continue; }
            bool ready = true;
            bool in_tail = false;   // the last step of a predecessor may have been executed in the failing slice
            for (int p : i.preds) {
                if (tail_visited.count(p)) in_tail = true;
                else if (insts[p].st != St::Done) ready = false;
            }
            if (!ready) continue;
            int r = in_tail ? s : ready_slice(i);
            if (stream && &i != &insts.back()) continue;
            due.insert(i.kind);
            if (stream) {
                if (finite(i) && s == i.pulled_slice + int(i.ins.wait_at_most_for) + 1) { out.count("budget_exhausted"); return; }
            }
            else if (dag) {
                if (s - 100 == r || s - 100 == r + 1) { out.count("dag_gave_up"); return; }
            }
            else if (finite(i)) {
                int d = s - int(i.ins.wait_at_most_for);
                if (d == r || d == r + 1) { out.count("budget_exhausted"); return; }
            }
        }
        if (!stream && !log.queries.empty() && log.queries.back().found && log.queries.back().cells.size() < 2 && opt.local) { out.count("short_bell_route"); return; }
        if (stream && !log.queries.empty() && log.queries.back().found && log.queries.back().cells.size() < 2 && opt.local) { out.count("short_bell_route"); return; }
        if (log.error.find("Unsupported") != string::npos) return;
        k = s;
        if (edpc && log.error.find("crossing cell") != string::npos && crossing_cluster(s)) {
            // the labelling of crossings cannot express this set of routes (see known-findings)
            fail("C11", "crossing-cluster", cat("three or more crossings in a row of routes abort the run: ", log.error.substr(0, 300)));
            return;
        }
        fail("C12", "unjustified-error", cat("the run failed without cause: ", log.error_type, ": ", log.error.substr(0, 300)));
        if (edpc) fail("C11", "unjustified-error", cat("the run failed without cause: ", log.error.substr(0, 300)));
        if (log.error.find("proximate") != string::npos || log.error.find("BusyRegion") != string::npos) fail("C09", "unjustified-error", log.error.substr(0, 300));
        if (opt.local) fail("C10", "unjustified-error", log.error.substr(0, 300));
        if (log.error.find("occup") != string::npos) fail("C04", "unjustified-error", log.error.substr(0, 300));
        auto blame = [&](std::initializer_list<Kind> ks, const char* p) {
            for (Kind x : ks) if (due.count(x)) { fail(p, "unjustified-error", cat("the run failed without cause: ", log.error.substr(0, 300))); return; }
        };
        if (due.size() <= 2) {          // otherwise too many candidates
            blame({Kind::Rotate}, "C09");
            blame({Kind::MPM, Kind::S}, "C05");
            blame({Kind::Magic}, "C07");
            blame({Kind::Y}, "C08");
            blame({Kind::Init}, "C04");
            blame({Kind::CNOT, Kind::BellInit}, "C10");
        }
    }

    void run()
    {
        if (log.setup_failed) { out.count("setup_failed"); return; }
        for (auto& t : log.limited) fails({"C12", "C15"}, "budget-invented", cat("'", t, "' was read without a wait budget but got one"));
        load();
        initial();
        for (k = 0; k < int(log.slices.size()); k++) {
            S = &log.slices[k];
            if (S->rows != lay.rows || S->cols != lay.cols) { fail("C04", "size", "the lattice changed size"); return; }
            vector<MC> before = M;
            marked_this_slice = false;
            for (int v : visits_of_slice[k]) {
                if (edpc && !marked_this_slice && first_cnot_visit(v)) { mark_wave_routes(); marked_this_slice = true; }
                on_visit(v);
            }
            compare();
            for (auto& i : insts) if (i.kind == Kind::Rotate && i.done == k && i.rot_cell >= 0) turned.insert(i.rot_cell);
            progress(before);
            out.states.push_back(S->hash());
            advance();
            if (out.violations.size() >= 30) return;
        }
        // visits of a slice that was never emitted (failed runs): order and multiplicity only
        if (!visits_of_slice[log.slices.size()].empty() && !log.slices.empty()) {
            if (log.finished) fails({"C16", "C01"}, "unemitted", "instructions were applied in a slice that was never emitted");
            tail_visits();
        }
        final_checks();
        judge_exception();
        out.sim_time += log.slices.size();
    }
    bool first_cnot_visit(int v) const
    {
        auto* b = std::get_if<BellBasedCNOT>(&log.visits[v].operation);
        if (!b) return false;
        auto it = by_text.find(ins_text(log.visits[v]));
        return it != by_text.end() && insts[it->second[0]].st == St::New;
    }
    void tail_visits()
    {
        for (int v : visits_of_slice[log.slices.size()]) {
            const LSInstruction& ins = log.visits[v];
            if (auto* br = std::get_if<BusyRegion>(&ins.operation)) {
                if (br->steps_to_clear == 0)
                    for (auto& i : insts)
                        if (i.kind == Kind::Rotate && i.st == St::Started && !br->region.cells.empty() && cell_of(br->region.cells[0].cell) == i.rot_cell)
                            tail_visited.insert(int(&i - insts.data()));
                continue;
            }
            string t = ins_text(ins);
            auto it = by_text.find(t);
            Inst* hit = nullptr;
            if (it != by_text.end()) {
                for (int j : it->second) if (insts[j].st == St::New) { hit = &insts[j]; break; }
                if (!hit) for (int j : it->second) if (insts[j].st == St::Started) hit = &insts[j];
            }
            if (auto* q = std::get_if<SingleQubitOp>(&ins.operation))
                if (q->op == SingleQubitOp::Operator::Z)   // a Z on a patch whose S gate is unfinished is its correction
                    for (auto& i : insts) if (i.kind == Kind::S && i.st == St::Started && i.own[0] == q->target) hit = nullptr;
            if (!hit) {
                bool corr = false;
                if (auto* q = std::get_if<SingleQubitOp>(&ins.operation))
                    for (auto& i : insts) if (i.kind == Kind::S && i.st == St::Started && i.own[0] == q->target) { corr = true; tail_visited.insert(int(&i - insts.data())); finish(i); }
                if (!corr && !edpc) fail("C01", "duplicated", cat("'", t, "' was applied more often than it is in the program"));
                continue;
            }
            tail_visited.insert(int(hit - insts.data()));
            if (hit->st == St::New) {
                hit->start = k;
                for (int p : hit->preds)
                    if (insts[p].st == St::New) fail("C02", "order", cat("'", t, "' applied before the earlier '", insts[p].text, "'"));
                hit->st = hit->kind == Kind::S || hit->kind == Kind::Rotate || is_bell(*hit) ? St::Started : St::Done;
                hit->done = k;
            }
        }
    }

    std::set<int> tail_visited;   // applied in the slice that failed

    void final_checks()
    {
        size_t started = 0;
        for (auto& i : insts) started += i.st != St::New;
        if (log.finished && !log.threw) {
            bool graceful_fail = opt.graceful && log.graceful_text.find("Encountered exception") != string::npos;
            if (!graceful_fail) {
                for (auto& i : insts)
                    if (i.st != St::Done) {
                        fail("C01", "lost", cat("the run ended but '", i.text, "' was ", i.st == St::New ? "never applied" : "not completed"));
                        if (i.st == St::Started && is_bell(i)) fail("C10", "incomplete", cat("the run ended but '", i.text, "' executed ", i.pos, " of ", i.flat.size(), " steps"));
                        if (i.st == St::Started && i.kind == Kind::Rotate) fail("C09", "incomplete", cat("the run ended inside the rotation of ", i.own[0]));
                    }
                if (!log.stream_exhausted) fail("C01", "unread", "the run ended before the instruction stream was read to its end");
                if (log.source_total >= 0 && size_t(log.source_total) != log.pulls.size())
                    fail("C01", "unread", cat("the run ended after reading ", log.pulls.size(), " of ", log.source_total, " instructions"));
                size_t want = stream ? log.pulls.size() : log.visits.size();
                if (log.count_instr != want) fails({"C01", "C16"}, "count", cat("reported ", log.count_instr, " instructions, expected ", want));
                // the model has been advanced past the last slice
                for (int c = 0; c < N(); c++) {
                    auto& m = M[c];
                    if (m.role == Role::Path || m.role == Role::Rot || m.role == Role::Mark || m.role == Role::Anon) {
                        fails({"C04"}, "leftover", cat("the program is finished but ", pos(c), " is still occupied by ", to_text(m.s)));
                        if (m.role == Role::Mark) fail("C11", "leftover", cat("reservation left on ", pos(c)));
                        if (m.role == Role::Anon) fail("C10", "leftover", cat("unnamed patch left on ", pos(c)));
                    }
                }
                size_t lent = 0, idle = 0;
                for (int c : lay.ypool) { if (M[c].role == Role::YIdle) idle++; else if (M[c].role == Role::Live) lent++; }
                if (sc.get("wrap") == "edpc_cat" && !lay.ypool.empty() && idle != lay.ypool.size())
                    fail("C08", "not-returned", cat("only ", idle, " of ", lay.ypool.size(), " catalyst states are idle at the end (", lent, " lent)"));
                out.count("finished_runs");
            }
        }
        if (log.stopped_idle) {
            out.count("stopped_idle");
            for (auto& i : insts)
                if (i.st == St::Started && (is_bell(i) || i.kind == Kind::S)) { out.count("stuck_in_progress"); break; }
        }
        if (log.stopped_cap) out.count("stopped_cap");
        if (log.threw) out.count("failed_runs");
        if (binds > deliveries) fail("C07", "overdrawn", cat(binds, " magic states were bound but only ", deliveries, " delivered"));
        bool waited = out.counters.count("waited") || out.counters.count("waiting_legitimately");
        out.nontrivial = log.slices.size() >= 3 && started >= 3 && (waited || log.counters.count("fault_route_refused"));
    }
};
}  // namespace

void check_log(const Scenario& sc, const Log& log, Outcome& out)
{
    for (auto& [n, v] : log.counters) out.counters[n] += v;
    out.hash = mix(out.hash, log.hash());
    if (sc.get("router") == "cached") { out.sim_time += log.slices.size(); return; }
    Checker c(sc, log, out);
    c.run();
}

void log_failure_text(const Log& log, std::ostream& o)
{
    int rows = log.lay.rows, cols = log.lay.cols;
    for (auto& e : log.events) {
        if (e.kind == EvKind::Pull) o << "pull  " << log.pulls[e.index] << "\n";
        else if (e.kind == EvKind::Visit) o << "apply " << log.visits[e.index] << "\n";
        else if (e.kind == EvKind::Query) {
            auto& q = log.queries[e.index];
            o << "route " << q.s << " op" << q.sop << " -> " << q.t << " op" << q.top << (q.found ? " found" : " none") << (q.refused ? " REFUSED" : "") << (q.detour ? " DETOUR" : "") << " [";
            for (int c : q.cells) o << " (" << c / cols << "," << c % cols << ")";
            o << " ]\n";
        }
        else {
            auto& s = log.slices[e.index];
            o << "slice " << e.index << "\n";
            for (int r = 0; r < rows; r++) {
                o << "    ";
                for (int c = 0; c < cols; c++) {
                    auto& x = s.at(r * cols + c);
                    string t = ".";
                    if (x.present) {
                        if (x.type == 4) t = "X";
                        else if (x.type == 0) t = "D";
                        else if (x.type == 1) t = "M";
                        else if (x.type == 3) t = x.act == 5 ? "+" : x.act == 6 ? "o" : x.act == 7 ? "e" : "E";
                        else t = x.id >= 0 ? std::to_string(x.id) : "y";
                        if (x.act == 1) t += "m";
                        if (x.act == 2) t += "u";
                        if (x.type == 2) t += x.bt[0] == 3 ? "|" : "-";
                        if (x.ba[0]) t += "^";
                        if (x.ba[1]) t += "v";
                        if (x.ba[2]) t += "<";
                        if (x.ba[3]) t += ">";
                    }
                    o << t << string(t.size() < 9 ? 9 - t.size() : 1, ' ');
                }
                o << "\n";
            }
        }
    }
    if (log.threw) o << "exception " << log.error_type << ": " << log.error << "\n";
    o << "finished=" << log.finished << " idle=" << log.stopped_idle << " cap=" << log.stopped_cap << "\n";
}

}  // namespace sim

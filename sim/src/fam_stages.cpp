// The streams between the input and the scheduler, alone and composed, against an independent expansion model.
#include "cli.hpp"
#include "fam_io.hpp"
#include "seams.hpp"

#include <lsqecc/gates/decompose_rotation_stream.hpp>
#include <lsqecc/layout/ascii_layout_spec.hpp>
#include <lsqecc/ls_instructions/boundary_rotation_injection_stream.hpp>
#include <lsqecc/ls_instructions/catalytic_s_gate_injection_stream.hpp>
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
#include <lsqecc/ls_instructions/teleported_s_gate_injection_stream.hpp>

#include <algorithm>
#include <deque>
#include <limits>
#include <memory>
#include <optional>

namespace sim {
using namespace lsqecc;
namespace {
const string P = "C20";
const size_t FOREVER = std::numeric_limits<size_t>::max();

// ---------------------------------------------------------------- the model
// An instruction as the documentation of the expansions describes it. Negative ids stand for fresh ones.
struct It {
    string kind;                    // RX RZ.. see describe()
    vector<std::pair<long, string>> ids;   // id and role/operator
    bool unordered = false;         // the ids are a set (joint measurements)
    std::set<long> clients;         // at least these
    std::set<long> may;             // at most these (with clients)
    long group = 0;                 // neighbouring items of the same group may come in any order
    std::optional<LSInstruction> same;     // passed through: must be exactly this
    size_t from = 0;                // source item
    string text() const
    {
        string s = kind;
        for (auto& [i, r] : ids) s += i < 0 ? cat(" fresh", -i, ":", r) : cat(" ", i, ":", r);
        return s;
    }
};
char pauli(PauliOperator p) { return p == PauliOperator::X ? 'X' : p == PauliOperator::Y ? 'Y' : p == PauliOperator::Z ? 'Z' : 'I'; }
It describe(const LSInstruction& in)
{
    It r;
    std::visit([&](const auto& o) {
        using T = std::decay_t<decltype(o)>;
        if constexpr (std::is_same_v<T, SinglePatchMeasurement>) { r.kind = "measure"; r.ids = {{o.target, cat(o.is_negative ? "-" : "", pauli(o.observable))}}; }
        else if constexpr (std::is_same_v<T, MultiPatchMeasurement>) {
            r.kind = o.is_negative ? "joint-" : "joint";
            r.unordered = true;
            for (auto& [p, op] : o.observable) r.ids.push_back({p, string(1, pauli(op))});
            if (o.local_instruction) r.kind += "local";
        }
        else if constexpr (std::is_same_v<T, PatchInit>) {
            r.kind = o.state == PatchInit::InitializeableStates::Zero ? "init0" : "init+";
            r.ids = {{o.target, "new"}};
            if (o.place_next_to) r.ids.push_back({o.place_next_to->target, string("near") + pauli(o.place_next_to->op)});
        }
        else if constexpr (std::is_same_v<T, BellPairInit>) {
            r.kind = "bellpair";
            r.ids = {{o.side1, "1"}, {o.side2, "2"}, {o.loc1.target, string(1, pauli(o.loc1.op))}, {o.loc2.target, string(1, pauli(o.loc2.op))}};
        }
        else if constexpr (std::is_same_v<T, MagicStateRequest>) { r.kind = "magic"; r.ids = {{o.target, "new"}, {o.near_patch, "near"}}; }
        else if constexpr (std::is_same_v<T, YStateRequest>) { r.kind = o.local_instruction ? "ystate-local" : "ystate"; r.ids = {{o.target, "new"}, {o.near_patch, "near"}}; }
        else if constexpr (std::is_same_v<T, SingleQubitOp>) {
            static const char* n[] = {"X", "Y", "Z", "H", "S"};
            int k = o.op == SingleQubitOp::Operator::X ? 0 : o.op == SingleQubitOp::Operator::Y ? 1 : o.op == SingleQubitOp::Operator::Z ? 2 : o.op == SingleQubitOp::Operator::H ? 3 : 4;
            r.kind = string("op") + n[k] + (o.is_dagger ? "dg" : "");
            r.ids = {{o.target, ""}};
        }
        else if constexpr (std::is_same_v<T, RotateSingleCellPatch>) { r.kind = "rotate"; r.ids = {{o.target, ""}}; }
        else if constexpr (std::is_same_v<T, BellBasedCNOT>) {
            r.kind = (o.route || o.counter_pairs || o.local_instruction_sets || o.current_phase) ? "bellcnot-started" : "bellcnot";
            r.ids = {{o.control, "c"}, {o.target, "t"}, {o.side1, "s"}, {o.side2, "s"}};
        }
        else if constexpr (std::is_same_v<T, PatchReset>) { r.kind = "reset"; r.ids = {{o.target, ""}}; }
        else if constexpr (std::is_same_v<T, DeclareLogicalQubitPatches>) { r.kind = "declare"; for (auto p : o.patch_ids) r.ids.push_back({p, ""}); }
        else { r.kind = "busy"; }
    }, in.operation);
    return r;
}

struct Model {
    long fresh_used = 0;
    long group = 0;
    long fresh() { return -(++fresh_used); }
};
It simple(const string& kind, long id, const string& role = "") { It i; i.kind = kind; i.ids = {{id, role}}; return i; }
It joint(long a, const string& oa, long b, const string& ob) { It i; i.kind = "joint"; i.unordered = true; i.ids = {{a, oa}, {b, ob}}; return i; }
It bell(Model& m, long c, long t)
{
    It i;
    i.kind = "bellcnot";
    i.ids = {{c, "c"}, {t, "t"}};
    i.ids.push_back({m.fresh(), "s"});
    i.ids.push_back({m.fresh(), "s"});
    i.clients = {c, t};
    return i;
}
// the gadget of a CNOT; nothing if it is refused
std::optional<vector<It>> cnot(Model& m, long c, long t, const string& type, const string& anc, bool local, bool always)
{
    if (type == "bell" || local) {
        if (always) return std::nullopt;
        return vector<It>{bell(m, c, t)};
    }
    long a = m.fresh();
    It init;
    init.kind = "init+";
    init.ids = {{a, "new"}};
    if (anc == "control") init.ids.push_back({c, "nearZ"});
    if (anc == "target") init.ids.push_back({t, "nearX"});
    init.clients = {c, t};
    init.may = {c, t};
    vector<It> r{init};
    It zz = joint(c, "Z", a, "Z"), xx = joint(a, "X", t, "X");
    if (type == "cf") {
        r.push_back(zz);
        if (always) r.push_back(simple("opX", a));
        r.push_back(xx);
        if (always) r.push_back(simple("opZ", c));
    }
    else {
        r.push_back(xx);
        if (always) r.push_back(simple("opZ", a));
        r.push_back(zz);
        if (always) r.push_back(simple("opX", t));
    }
    r.push_back(simple("measure", a, "X"));
    return r;
}
It request(const string& kind, long id, long near, bool bound)
{
    It i;
    i.kind = kind;
    i.ids = {{id, "new"}, {near, "near"}};
    if (bound) i.clients = {near};
    i.may = {near};
    return i;
}
void append(vector<It>& a, vector<It> b) { for (auto& x : b) a.push_back(std::move(x)); }

// one gate; nothing if it is refused
struct GateLine { string name; long a = 0, b = 0; string type = "cf", anc = "dedicated", reg = "q"; long num = 1, den = 1; bool neg = false; };
GateLine gate_of(const vector<string>& w)     // w[0] = name
{
    GateLine g;
    g.name = w.at(0);
    auto n = [&](size_t i) { return i < w.size() ? std::stol(w[i]) : 0; };
    if (g.name == "cx" || g.name == "cz" || g.name == "cy") { g.a = n(1); g.b = n(2); if (w.size() > 3) g.type = w[3]; if (w.size() > 4) g.anc = w[4]; }
    else if (g.name == "rz") { g.a = n(1); g.num = n(2); g.den = n(3); g.neg = n(4); }
    else if (g.name == "crz") { g.a = n(1); g.b = n(2); g.num = n(3); g.den = n(4); }
    else if (g.name == "reset") { g.a = n(1); if (w.size() > 2) g.reg = w[2]; }
    else g.a = n(1);
    return g;
}
gates::Gate real_gate(const GateLine& g)
{
    using namespace gates;
    static const std::map<string, BasicSingleQubitGate::Type> single{
        {"x", BasicSingleQubitGate::Type::X}, {"y", BasicSingleQubitGate::Type::Y}, {"z", BasicSingleQubitGate::Type::Z},
        {"s", BasicSingleQubitGate::Type::S}, {"t", BasicSingleQubitGate::Type::T}, {"h", BasicSingleQubitGate::Type::H},
        {"sdg", BasicSingleQubitGate::Type::SDg}, {"tdg", BasicSingleQubitGate::Type::TDg}};
    if (auto it = single.find(g.name); it != single.end()) return BasicSingleQubitGate{QubitNum(g.a), it->second};
    if (g.name == "rz") return RZ{QubitNum(g.a), Fraction{g.num, g.den, g.neg}};
    if (g.name == "reset") return Reset{g.reg, QubitNum(g.a)};
    auto type = g.type == "bell" ? CNOTType::BELL_BASED : g.type == "tf" ? CNOTType::ZX_WITH_MBM_TARGET_FIRST : CNOTType::ZX_WITH_MBM_CONTROL_FIRST;
    auto anc = g.anc == "control" ? CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL : g.anc == "target" ? CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET : CNOTAncillaPlacement::USE_DEDICATED_CELL;
    if (g.name == "crz") return ControlledGate{QubitNum(g.a), RZ{QubitNum(g.b), Fraction{g.num, g.den}}, type, anc};
    auto k = g.name == "cx" ? BasicSingleQubitGate::Type::X : g.name == "cz" ? BasicSingleQubitGate::Type::Z : BasicSingleQubitGate::Type::Y;
    return ControlledGate{QubitNum(g.a), BasicSingleQubitGate{QubitNum(g.b), k}, type, anc};
}
std::optional<vector<It>> expand_gate(Model& m, const GateLine& g, bool local, bool always, bool decompose, bool parsed)
{
    vector<It> r;
    auto t_gate = [&](long q) {
        long s = m.fresh();
        r.push_back(request("magic", s, q, true));
        if (local) {
            r.push_back(bell(m, q, s));
            r.push_back(simple("measure", s, "Z"));
        }
        else {
            r.push_back(joint(q, "Z", s, "Z"));
            r.push_back(simple("measure", s, "X"));
        }
        r.push_back(simple("opS", q));
    };
    if (g.name == "x" || g.name == "y" || g.name == "z" || g.name == "h" || g.name == "s") r.push_back(simple(string("op") + char(toupper(g.name[0])), g.a));
    else if (g.name == "sdg") r.push_back(simple("opSdg", g.a));
    else if (g.name == "t" || g.name == "tdg") t_gate(g.a);
    else if (g.name == "rz") {
        if (parsed && g.den == 1) { r.push_back(simple("opZ", g.a)); return r; }   // the parser reads it as a Z
        if (decompose || g.num != 1) return std::nullopt;
        if (g.den == 1) r.push_back(simple("opZ", g.a));
        else if (g.den == 2) r.push_back(simple(g.neg ? "opSdg" : "opS", g.a));
        else if (g.den == 4) t_gate(g.a);
        else return std::nullopt;
    }
    else if (g.name == "cx" || g.name == "cz") {
        if (g.name == "cz") r.push_back(simple("opH", g.b));
        auto c = cnot(m, g.a, g.b, g.type, g.anc, local, always);
        if (!c) return std::nullopt;
        append(r, *c);
        if (g.name == "cz") r.push_back(simple("opH", g.b));
    }
    else if (g.name == "reset") {
        if (g.reg != "q") return std::nullopt;
        r.push_back(simple("reset", g.a));
    }
    else return std::nullopt;
    return r;
}

bool is_s(const It& i) { return i.kind == "opS" || i.kind == "opSdg"; }

struct StageModel {
    virtual ~StageModel() = default;
    virtual vector<It> step(Model& m, const It& i) = 0;
};
struct Teleported : StageModel {
    std::set<long> core;
    bool rotate;
    Teleported(std::set<long> c, bool r) : core(std::move(c)), rotate(r) {}
    vector<It> step(Model& m, const It& i) override
    {
        bool mine = !i.ids.empty() && core.count(i.ids[0].first);
        if (is_s(i) && mine) {
            long q = i.ids[0].first, y = m.fresh();
            return {request("ystate", y, q, true), joint(y, "Z", q, "Z"), simple("measure", y, "X"), simple("opZ", q)};
        }
        if (rotate && i.kind == "opH" && mine) return {i, simple("rotate", i.ids[0].first)};
        return {i};
    }
};
struct Catalytic : StageModel {
    std::set<long> core;
    bool local, rotate;
    Catalytic(std::set<long> c, bool l, bool r) : core(std::move(c)), local(l), rotate(r) {}
    vector<It> step(Model& m, const It& i) override
    {
        bool mine = !i.ids.empty() && core.count(i.ids[0].first);
        if (is_s(i) && mine) {
            long q = i.ids[0].first, y = m.fresh();
            vector<It> r{request("ystate", y, q, true)};
            for (int k = 0; k < 2; k++) {
                append(r, *cnot(m, q, y, "cf", "control", local, false));
                r.push_back(simple("opH", y));
                r.push_back(simple("rotate", y));
            }
            r.push_back(request("ystate", y, q, false));
            return r;
        }
        if (rotate && i.kind == "opH" && mine) return {i, simple("rotate", i.ids[0].first)};
        return {i};
    }
};
struct Boundary : StageModel {
    std::map<long, std::pair<bool, bool>> shown;     // X, Z
    uint64_t* injected;
    vector<It> step(Model& m, const It& i) override
    {
        vector<It> r;
        long g = ++m.group;
        auto need = [&](long q, const string& op) {
            auto it = shown.find(q);
            if (it == shown.end()) return;
            auto& [x, z] = it->second;
            if (op == "X" ? x : z) return;
            It rot = simple("rotate", q);
            rot.group = g;
            r.push_back(rot);
            std::swap(x, z);
            ++*injected;
        };
        auto turn = [&](long q) { if (auto it = shown.find(q); it != shown.end()) std::swap(it->second.first, it->second.second); };
        if (i.kind.rfind("joint", 0) == 0) for (auto& [q, op] : i.ids) need(q, op);
        else if (i.kind == "bellcnot") { need(i.ids[0].first, "Z"); need(i.ids[1].first, "X"); }
        else if (is_s(i)) need(i.ids[0].first, "Z");
        else if ((i.kind == "init+" || i.kind == "init0") && i.ids.size() > 1) need(i.ids[1].first, i.ids[1].second.substr(4));
        else if (i.kind == "opH" || i.kind == "rotate") turn(i.ids[0].first);
        r.push_back(i);
        return r;
    }
};

// ---------------------------------------------------------------- sources the simulator owns
struct Failed : std::runtime_error { using std::runtime_error::runtime_error; };
struct Ctl {                       // what happens at the source of one chain
    size_t pulled = 0;             // items handed out
    std::map<size_t, int> fail;    // item -> how often it fails before it is handed out (-1: for ever)
    std::set<size_t> poll_fail;    // polls of the source that fail
    mutable size_t polls = 0;
    uint64_t* fired;
    mutable bool item_failed = false;   // the last failure was of an item, not of a poll
    void before()
    {
        auto it = fail.find(pulled);
        if (it != fail.end() && it->second) {
            if (it->second > 0) it->second--;
            ++*fired;
            item_failed = true;
            throw Failed("source failed");
        }
    }
    void poll() const
    {
        if (poll_fail.count(polls++)) { ++*fired; item_failed = false; throw Failed("source poll failed"); }
    }
};
struct Gates : GateStream {
    vector<gates::Gate> v;
    Ctl& c;
    Qreg q{"q", 0};
    explicit Gates(Ctl& c_) : c(c_) {}
    gates::Gate get_next_gate() override { if (c.pulled >= v.size()) throw std::logic_error("read past the end of the source"); c.before(); return v[c.pulled++]; }
    bool has_next_gate() const override { c.poll(); return c.pulled < v.size(); }
    const Qreg& get_qreg() const override { return q; }
};
struct Instrs : LSInstructionStream {
    vector<LSInstruction> v;
    Ctl& c;
    tsl::ordered_set<PatchId> core;
    explicit Instrs(Ctl& c_) : c(c_) {}
    LSInstruction get_next_instruction() override { if (c.pulled >= v.size()) throw std::logic_error("read past the end of the source"); c.before(); return v[c.pulled++]; }
    bool has_next_instruction() const override { c.poll(); return c.pulled < v.size(); }
    const tsl::ordered_set<PatchId>& core_qubits() const override { return core; }
};

// ---------------------------------------------------------------- scenario
//  opt chains <n>, opt start <id>, opt sched <seed>, opt layout<c> 1 (exposures from the layout)
//  opt chain<c> <gate|lli> <local> <always> <decompose> <stages: B T0 T1 C00..>
//  opt core<c> <ids>;  opt shown<c> <id:xz ...>
//  p <c> g <gate..> / p <c> l <wait|-> <clients|-> <text>
//  fault throw <c> <item> <times>; fault poll <c> <nth>; fault alloc <nth>
Scenario gen(uint64_t seed, const string&)
{
    Rng r(seed);
    Scenario sc;
    sc.family = "stages";
    sc.seed = seed;
    bool cli = r.chance(0.15);
    int chains = !cli && r.chance(0.25) ? 2 : 1;
    if (cli) {
        sc.set("cli", 1);
        sc.set("layout", r.pick(vector<string>{"compact", "compact", "noclog", "edpc", "edpc", "ascii"}));
        bool cat_ok = sc.get("layout") == "edpc" || sc.get("layout") == "ascii";
        sc.set("twists", !(cat_ok && r.chance(0.5)));
        sc.set("predistilled", !sc.geti("twists", 1));
        if (sc.get("layout") == "ascii") {
            sc.layout.push_back("rrrrrrrrrrrrY");
            sc.layout.push_back(r.chance(0.5) ? "rQrQrQrQrQrQA" : "rQrQrQrQrQrQr");
            sc.layout.push_back("rrrrrrrrrrrrr");
        }
        sc.set("infile", r.chance(0.3));
        sc.set("strings", !sc.geti("infile", 0) && r.chance(0.3));
        if (r.chance(0.5)) sc.set("mode", r.pick(vector<string>{"stream", "wave", "dag"}));
    }
    sc.set("chains", chains);
    sc.set("sched", int64_t(r.below(1u << 30)));
    long start = 0;
    bool usedlay = false;
    for (int c = 0; c < chains; c++) {
        bool gate = r.chance(0.55), local = r.chance(0.4);
        int n = 1 + int(r.below(5));
        vector<long> core;
        bool lay = !cli && !usedlay && r.chance(0.3);
        if (gate || lay) for (int i = 0; i < n; i++) core.push_back(i);
        else { std::set<long> s; while (int(s.size()) < n) s.insert(long(r.below(r.chance(0.2) ? 40 : 9))); core.assign(s.begin(), s.end()); if (r.chance(0.3)) r.shuffle(core); }
        vector<string> st;
        switch (r.below(8)) {
        case 0: case 1: st = {"B", "T0"}; break;
        case 2: st = {"T1"}; break;
        case 3: st = {cat("C", local ? 1 : 0, r.chance(0.7) ? 1 : 0)}; break;
        case 4: st = {"B"}; break;
        default: {
            int k = int(r.below(4));
            while (k--) st.push_back(r.pick(vector<string>{"B", "T0", "T1", "C00", "C01", "C10", "C11"}));
        }
        }
        bool always = r.chance(0.3), dec = gate && (cli || r.chance(0.5));
        if (cli) {
            st.clear();
            string l = sc.get("layout");
            if (l == "compact" || l == "noclog") st = {"B", "T0"};
            else if (l == "edpc") st = sc.geti("twists", 1) ? vector<string>{"T1"} : vector<string>{local ? "C11" : "C01"};
        }
        string ch = cat(gate ? "gate" : "lli", " ", local ? 1 : 0, " ", always ? 1 : 0, " ", dec ? 1 : 0);
        for (auto& s : st) ch += " " + s;
        sc.set(cat("chain", c), ch);
        string cs, sh;
        for (long i : core) {
            cs += cat(i, " ");
            if (r.chance(0.9)) sh += cat(i, ":", r.pick(vector<string>{"x", "z", "x", "z", "xz"}), " ");
            start = std::max(start, i + 1);
        }
        sc.set(cat("core", c), cs);
        sc.set(cat("shown", c), sh);
        if (lay) {
            usedlay = true;
            sc.set(cat("layout", c), 1);
            // the n patches, each with something free next to it
            int cols = 3 + int(r.below(4)), left = n;
            while (left > 0) {
                string a(size_t(cols), 'r'), b(size_t(cols), 'r');
                for (int x = 0; x < cols && left > 0; x++)
                    if (r.chance(0.6)) { a[size_t(x)] = 'Q'; left--; }
                for (auto& ch2 : b) if (r.chance(0.3)) ch2 = 'X';
                sc.layout.push_back(a);
                if (r.chance(0.7)) sc.layout.push_back(b);
            }
            if (r.chance(0.5)) sc.layout.push_back(string(size_t(cols), 'r'));
            if (r.chance(0.5)) sc.layout.insert(sc.layout.begin(), string(size_t(cols), 'r'));
        }
        int len = 1 + int(r.below(r.chance(0.004) ? 600 : r.chance(0.15) ? 40 : 12));
        long own = 100 + 100 * c;              // ids the program gives itself
        if (cli || (chains == 1 && r.chance(0.3))) own = *std::max_element(core.begin(), core.end()) + 1 + long(r.below(3));
        vector<long> mine;
        double ps = r.chance(0.5) ? 0.35 : 0.12;
        for (int k = 0; k < len; k++) {
            long a = r.pick(core), b = r.pick(core);
            if (gate) {
                string g;
                if (r.chance(ps)) g = cat(r.pick(vector<string>{"s", "s", "sdg", "t", "tdg", "h"}), " ", a);
                else switch (r.below(9)) {
                case 0: g = cat(r.pick(vector<string>{"x", "y", "z"}), " ", a); break;
                case 1: g = cat("h ", a); break;
                case 2: g = cat("t ", a); break;
                case 3: case 4: case 5:
                    if (core.size() < 2) { g = cat("h ", a); break; }
                    while (b == a) b = r.pick(core);
                    g = cat(r.chance(0.3) ? "cz " : "cx ", a, " ", b, " ", always && !r.chance(0.06) ? r.pick(vector<string>{"cf", "tf"}) : r.pick(vector<string>{"cf", "tf", "bell"}), " ", r.pick(vector<string>{"control", "target", "dedicated"}));
                    break;
                case 6: g = cat("reset ", a, r.chance(0.05) ? " other" : ""); break;
                case 7: g = (!dec || r.chance(0.05)) ? cat("rz ", a, " 1 ", r.pick(vector<string>{"1", "2", "2", "4", "4"}), " ", r.chance(0.4) ? 1 : 0) : cat("sdg ", a); break;
                default: {
                    if (!r.chance(0.15) || core.size() < 2) { g = cat("s ", a); break; }
                    while (b == a) b = r.pick(core);
                    g = r.pick(vector<string>{cat("cy ", a, " ", b), cat("rz ", a, " 1 8 0"), cat("rz ", a, " 3 4 0"), cat("crz ", a, " ", b, " 1 2")});
                }
                }
                sc.prog.push_back(cat(c, " g ", g));
            }
            else {
                auto any = [&] { return !mine.empty() && r.chance(0.3) ? r.pick(mine) : r.pick(core); };
                auto xz = [&] { return r.chance(0.5) ? "X" : "Z"; };
                a = any();
                string t, cl = "-", wait = r.chance(0.1) ? cat(r.below(50)) : string("-");
                if (r.chance(ps)) t = cat(r.chance(0.7) ? "SGate " : "HGate ", a);
                else switch (r.below(14)) {
                case 0: t = cat("HGate ", a); break;
                case 1: t = cat("LogicalPauli ", a, " ", r.pick(vector<string>{"X", "Y", "Z"})); break;
                case 2: t = cat("MeasureSinglePatch ", a, " ", xz()); break;
                case 3: case 4: case 5: {
                    std::set<long> used{a};
                    t = cat("MultiBodyMeasure ", a, ":", xz());
                    int m = 1 + int(r.below(3));
                    while (m--) { long q = any(); if (used.insert(q).second) t += cat(",", q, ":", xz()); }
                    break;
                }
                case 6: mine.push_back(own); t = cat("Init ", own, " ", r.chance(0.5) ? "|0>" : "|+>", r.chance(0.5) ? cat(" ", a, ":", xz()) : string()); cl = cat(own); if (r.chance(0.3)) cl += cat(",", a); own++; break;
                case 7: mine.push_back(own); t = cat("RequestMagicState ", own++, " ", a); cl = r.chance(0.5) ? cat(a) : "-"; break;
                case 8: mine.push_back(own); t = cat("RequestYState ", own++, " ", a); cl = r.chance(0.5) ? cat(a) : "-"; break;
                case 9: t = cat("RotateSingleCellPatch ", a); break;
                case 10: { b = any(); if (a == b) { t = cat("SGate ", a); break; } t = cat("BellBasedCNOT ", a, " ", b, " ", own, " ", own + 1); cl = cat(a, ",", b); own += 2; break; }
                case 11: { b = any(); t = cat("BellPairInit ", own, " ", own + 1, " ", a, ":", xz(), ",", b, ":", xz()); own += 2; break; }
                case 12: if (cli) { t = cat("HGate ", a); break; } t = cat("Reset ", a); break;
                default: t = cat(cli ? "SGate " : "SDagger ", a);
                }
                if (cli) wait = cl = "-";
                sc.prog.push_back(cat(c, " l ", wait, " ", cl, " ", t));
            }
            start = std::max(start, own);
        }
        if (cli) continue;
        if (r.chance(0.3)) sc.faults.push_back(cat("throw ", c, " ", r.below(uint64_t(len) + 1), " ", r.pick(vector<int>{1, 1, 2, -1})));
        if (r.chance(0.15)) sc.faults.push_back(cat("poll ", c, " ", r.below(uint64_t(len) * 4 + 4)));
    }
    sc.set("start", r.chance(0.3) ? 2147483648ll : start);
    if (cli) {
        sc.opt.erase("start");
        sc.opt.erase("shown0");
        if (r.chance(0.5)) sc.faults.push_back(cat("in_chunk ", r.chance(0.5) ? 1 : r.range(2, 60), " ", r.below(1000000)));
        return sc;
    }
    if (r.chance(0.15)) sc.faults.push_back(cat("alloc ", 1 + r.below(r.chance(0.5) ? 60 : 600)));
    return sc;
}

// which of X (rough, left and right) and Z (smooth, above and below) of each patch face a free cell
std::map<long, std::pair<bool, bool>> shown_by(const vector<string>& rows)
{
    std::map<long, std::pair<bool, bool>> m;
    long id = 0;
    auto free = [&](int y, int x) { return y >= 0 && y < int(rows.size()) && x >= 0 && x < int(rows[size_t(y)].size()) && rows[size_t(y)][size_t(x)] == 'r'; };
    for (int y = 0; y < int(rows.size()); y++)
        for (int x = 0; x < int(rows[size_t(y)].size()); x++) {
            char ch = rows[size_t(y)][size_t(x)];
            if (ch != 'Q') continue;
            bool v = free(y - 1, x) || free(y + 1, x), h = free(y, x - 1) || free(y, x + 1);
            m[id++] = {h, v};
        }
    return m;
}

// ---- the whole program: "--printlli before"
string qasm_of(const GateLine& g)
{
    auto q = [](long i) { return cat("q[", i, "]"); };
    if (g.name == "cx" || g.name == "cz" || g.name == "cy") {
        string t = g.type == "tf" ? "ZXWithMBMTargetFirst" : g.type == "bell" ? "BellBased" : "ZXWithMBMControlFirst";
        string a = g.anc == "control" ? "AncillaNextToControl" : g.anc == "target" ? "AncillaNextToTarget" : g.anc == "default" ? "" : "AncillaFreePlacement";
        return cat(g.name, " ", q(g.a), ",", q(g.b), "; // %", t, a.empty() ? "" : ",", a);
    }
    if (g.name == "rz") return cat("rz(", g.neg ? "-" : "", g.num == 1 ? "pi/" : cat(g.num, "*pi/"), g.den, ") ", q(g.a), ";");
    if (g.name == "crz") return cat("crz(pi/", g.den, ") ", q(g.a), ",", q(g.b), ";");
    if (g.name == "reset") return cat("reset ", g.reg, "[", g.a, "];");
    return cat(g.name, " ", q(g.a), ";");
}
bool parse_text(const string& l, It& i)
{
    auto w = words(l);
    if (w.size() < 2) return false;
    i = It{};
    auto n = [&](size_t k) { return std::stol(w.at(k)); };
    auto pairs = [&](const string& t, const string& pre) {
        for (auto& x : split(t, ',')) {
            auto c = x.find(':');
            if (c == string::npos) throw std::runtime_error("pair");
            i.ids.push_back({std::stol(x.substr(0, c)), pre + x.substr(c + 1)});
        }
    };
    try {
        if (w[0] == "MeasureSinglePatch" && w.size() == 3) { i.kind = "measure"; i.ids = {{n(1), w[2]}}; }
        else if (w[0] == "MultiBodyMeasure" && w.size() == 2) {
            i.kind = w[1][0] == '-' ? "joint-" : "joint";
            i.unordered = true;
            pairs(w[1][0] == '-' ? w[1].substr(1) : w[1], "");
        }
        else if (w[0] == "Init" && (w.size() == 3 || w.size() == 4)) {
            i.kind = w[2] == "|0>" ? "init0" : "init+";
            i.ids = {{n(1), "new"}};
            if (w.size() == 4) pairs(w[3], "near");
        }
        else if (w[0] == "RequestMagicState" && w.size() == 3) { i.kind = "magic"; i.ids = {{n(1), "new"}, {n(2), "near"}}; }
        else if (w[0] == "RequestYState" && w.size() == 3) { i.kind = "ystate"; i.ids = {{n(1), "new"}, {n(2), "near"}}; }
        else if (w[0] == "RotateSingleCellPatch" && w.size() == 2) { i.kind = "rotate"; i.ids = {{n(1), ""}}; }
        else if (w[0] == "BellBasedCNOT" && w.size() == 5) { i.kind = "bellcnot"; i.ids = {{n(1), "c"}, {n(2), "t"}, {n(3), "s"}, {n(4), "s"}}; }
        else if (w[0] == "BellPairInit" && w.size() == 4) { i.kind = "bellpair"; i.ids = {{n(1), "1"}, {n(2), "2"}}; pairs(w[3], ""); }
        else if (w[0] == "Reset" && w.size() == 2) { i.kind = "reset"; i.ids = {{n(1), ""}}; }
        else if (w[0].size() == 5 && w[0].substr(1) == "Gate" && w.size() == 2) { i.kind = string("op") + w[0][0]; i.ids = {{n(1), ""}}; }
        else return false;
    }
    catch (const std::exception&) { return false; }
    return true;
}
vector<string> compact_rows(long n)
{
    size_t top = size_t((n + 1) / 2);
    vector<string> v(3, string(top + 3, 'r'));
    for (size_t i = 0; i < top; i++) v[0][i] = 'Q';
    for (size_t i = 0; i < size_t(n) - top; i++) v[2][i] = 'Q';
    return v;
}

struct Chain {
    Ctl ctl;
    std::unique_ptr<GateStream> gates;
    std::unique_ptr<LSInstructionStream> top;
    std::set<long> core;
    vector<It> want;                // everything it should deliver
    bool refuses = false;           // an illegal source item follows
    size_t items = 0, at = 0;       // source items, delivered
    size_t group_from = 0;
    vector<char> used;
    bool over = false;
    std::map<size_t, size_t> first; // source item -> first output
};

void run(const Scenario& sc, const string&, Outcome& out)
{
    int n = int(sc.geti("chains", 1));
    bool cli = sc.geti("cli", 0);
    Scenario prog_sc = sc;
    prog_sc.family = "program";
    prog_sc.prog.clear();
    IdGenerator ids;
    ids.set_start(PatchId(sc.geti("start", 0)));
    Model m;
    uint64_t fired = 0, injected = 0, expanded = 0;
    std::deque<Chain> ch(static_cast<size_t>(n));
    std::set<long> taken;            // ids of the programs
    std::optional<LayoutFromSpec> layout;
    if (!sc.layout.empty() && !cli) {
        string t;
        for (auto& l : sc.layout) t += (t.empty() ? "" : "\n") + l;
        layout.emplace(t, DistillationOptions{});
    }
    for (int c = 0; c < n; c++) {
        Chain& k = ch[size_t(c)];
        k.ctl.fired = &fired;
        auto w = words(sc.get(cat("chain", c)));
        if (w.size() < 4) return;
        bool gate = w[0] == "gate", local = w[1] == "1", always = w[2] == "1", dec = w[3] == "1";
        vector<string> stages(w.begin() + 4, w.end());
        vector<long> core;
        for (auto& x : words(sc.get(cat("core", c)))) core.push_back(std::stol(x));
        if (core.empty()) return;
        k.core.insert(core.begin(), core.end());
        taken.insert(core.begin(), core.end());
        std::map<long, std::pair<bool, bool>> shown;
        bool bylay = sc.geti(cat("layout", c), 0) && layout;
        if (cli) {
            if (sc.get("layout") == "compact" || sc.get("layout") == "noclog") {
                // core patches are numbered along the layout in the order of declaration
                auto s = shown_by(compact_rows(long(core.size())));
                for (size_t i = 0; i < core.size(); i++) shown[core[i]] = s.at(long(i));
            }
        }
        else if (bylay) {
            shown = shown_by(sc.layout);
            if (shown.size() < core.size()) return;      // not a scenario
            for (auto it = shown.begin(); it != shown.end();) it = k.core.count(it->first) ? std::next(it) : shown.erase(it);
        }
        else for (auto& x : words(sc.get(cat("shown", c)))) {
            auto s = x.find(':');
            if (s == string::npos) continue;
            long q = std::stol(x.substr(0, s));
            if (k.core.count(q)) shown[q] = {x.find('x', s) != string::npos, x.find('z', s) != string::npos};
        }
        // source and what it means
        vector<vector<It>> src;
        vector<gates::Gate> gv;
        vector<LSInstruction> lv;
        for (auto& l : sc.prog) {
            auto p = words(l);
            if (p.size() < 3 || p[0] != cat(c)) continue;
            if (gate && p[1] == "g") {
                auto g = gate_of({p.begin() + 2, p.end()});
                if (cli) {
                    // an ancilla without annotation: next to the target unless the layout has ancilla tiles
                    bool tiles = sc.get("layout") == "compact" || sc.get("layout") == "noclog" || (sc.get("layout") == "ascii" && string(sc.layout.size() > 1 ? sc.layout[1] : "").find('A') != string::npos);
                    if (g.anc == "dedicated" && sc.seed % 2) g.anc = "default";
                    prog_sc.prog.push_back(qasm_of(g));
                    if (g.anc == "default") g.anc = tiles ? "dedicated" : "target";
                }
                gv.push_back(real_gate(g));
                if (k.refuses) continue;
                auto e = expand_gate(m, g, local, always, dec, cli);
                if (!e) { k.refuses = true; continue; }
                src.push_back(*e);
            }
            else if (!gate && p[1] == "l" && p.size() > 5 - 1) {
                string t;
                for (size_t i = 4; i < p.size(); i++) t += (i > 4 ? " " : "") + p[i];
                LSInstruction in;
                if (p[4] == "Reset") in = {.operation = PatchReset{PatchId(std::stoul(p.at(5)))}};
                else if (p[4] == "SDagger") in = {.operation = SingleQubitOp{PatchId(std::stoul(p.at(5))), SingleQubitOp::Operator::S, true}};
                else in = parse_ls_instruction(t);
                in.clients.clear();
                if (p[3] != "-") for (auto& x : split(p[3], ',')) in.clients.insert(PatchId(std::stoul(x)));
                if (p[2] != "-") in.wait_at_most_for = std::stoul(p[2]);
                lv.push_back(in);
                if (cli) prog_sc.prog.push_back(t);
                It d = describe(in);
                if (!cli) d.same = in;
                for (auto& [id, role] : d.ids) taken.insert(id);
                src.push_back({d});
            }
        }
        k.items = src.size();
        if (gate) {
            auto g = std::make_unique<Gates>(k.ctl);
            g->v = gv;
            g->q.size = QubitNum(core.size());
            k.gates = std::move(g);
            if (dec) k.gates = std::make_unique<DecomposeRotationStream>(std::move(k.gates), 3.0);
            k.top = std::make_unique<LSInstructionStreamFromGateStream>(*k.gates, always ? CNOTCorrectionMode::ALWAYS : CNOTCorrectionMode::NEVER, ids, local);
        }
        else {
            auto s = std::make_unique<Instrs>(k.ctl);
            s->v = lv;
            for (long i : core) s->core.insert(PatchId(i));
            k.top = std::move(s);
        }
        if (cli) {
            prog_sc.set("qasm", gate);
            string cs;
            for (long i : core) cs += (cs.empty() ? "" : ",") + std::to_string(i);
            prog_sc.set("core", cs);
            prog_sc.set("local", local);
            prog_sc.set("corrections", always);
            prog_sc.set("print", "before");
            if (gate) prog_sc.prog.insert(prog_sc.prog.begin(), {"OPENQASM 2.0;", "include \"qelib1.inc\";", cat("qreg q[", core.size(), "];")});
        }
        vector<std::unique_ptr<StageModel>> ms;
        for (auto& s : stages) {
            if (s == "B") {
                auto b = std::make_unique<Boundary>();
                b->shown = shown;
                b->injected = &injected;
                ms.push_back(std::move(b));
                if (bylay) k.top = std::make_unique<BoundaryRotationInjectionStream>(std::move(k.top), *layout);
                else {
                    tsl::ordered_map<PatchId, RotatableSingleQubitPatchExposedOperators> x;
                    for (auto& [q, e] : shown) x[PatchId(q)] = {e.first, e.second};
                    k.top = std::make_unique<BoundaryRotationInjectionStream>(std::move(k.top), std::move(x));
                }
            }
            else if (s[0] == 'T') {
                ms.push_back(std::make_unique<Teleported>(k.core, s == "T1"));
                k.top = std::make_unique<TeleportedSGateInjectionStream>(std::move(k.top), ids, s == "T1");
            }
            else if (s[0] == 'C' && s.size() == 3) {
                ms.push_back(std::make_unique<Catalytic>(k.core, s[1] == '1', s[2] == '1'));
                k.top = std::make_unique<CatalyticSGateInjectionStream>(std::move(k.top), ids, s[1] == '1', s[2] == '1');
            }
        }
        for (size_t i = 0; i < src.size(); i++) {
            vector<It> cur = src[i];
            for (auto& s : ms) {
                vector<It> nx;
                for (auto& x : cur) append(nx, s->step(m, x));
                cur = std::move(nx);
            }
            k.first[i] = k.want.size();
            if (cur.size() > 1) expanded++;
            for (auto& x : cur) { x.from = i; k.want.push_back(x); }
        }
        k.used.assign(k.want.size(), 0);
    }
    bool alloc = false;
    int64_t nth = -1;
    for (auto& f : sc.faults) {
        auto w = words(f);
        if (w.size() >= 4 && w[0] == "throw") { size_t c = std::stoul(w[1]); if (c < ch.size()) ch[c].ctl.fail[std::stoul(w[2])] = std::stoi(w[3]); }
        else if (w.size() >= 3 && w[0] == "poll") { size_t c = std::stoul(w[1]); if (c < ch.size()) ch[c].ctl.poll_fail.insert(std::stoul(w[2])); }
        else if (w.size() >= 2 && w[0] == "alloc") { nth = std::stoll(w[1]); alloc = true; }
    }
    // ids: symbolic -> real, one to one, distinct from everything a program names
    std::map<long, long> bound;
    std::set<long> given;
    auto fits_id = [&](long want, long got, vector<std::pair<long, long>>& nb) {
        if (want >= 0) return want == got;
        auto it = bound.find(want);
        if (it != bound.end()) return it->second == got;
        for (auto& [a, b] : nb) { if (a == want) return b == got; if (b == got) return false; }
        nb.push_back({want, got});
        return true;
    };
    auto fits = [&](const It& w, const It& g, const LSInstruction* got, string& why, vector<std::pair<long, long>>& nb) {
        nb.clear();
        if (got && w.same) {
            if (*w.same == *got) return true;
            why = cat("the source's [", w.text(), "] comes out changed as [", g.text(), "]");
            return false;
        }
        auto no = [&] { why = cat("[", w.text(), "] expected, [", g.text(), "] delivered"); return false; };
        if ((got ? g.kind != w.kind : g.kind != (w.kind == "opSdg" ? "opS" : w.kind)) || g.ids.size() != w.ids.size()) return no();
        if (w.unordered) {
            vector<char> u(g.ids.size(), 0);
            for (int pass = 0; pass < 2; pass++)          // known ids first
                for (auto& [id, op] : w.ids) {
                    bool known = id >= 0 || bound.count(id);
                    if (known != (pass == 0)) continue;
                    bool ok = false;
                    for (size_t j = 0; j < g.ids.size() && !ok; j++) {
                        if (u[j] || g.ids[j].second != op) continue;
                        auto keep = nb;
                        if (fits_id(id, g.ids[j].first, nb)) { u[j] = 1; ok = true; }
                        else nb = keep;
                    }
                    if (!ok) return no();
                }
        }
        else for (size_t j = 0; j < w.ids.size(); j++)
            if (g.ids[j].second != w.ids[j].second || !fits_id(w.ids[j].first, g.ids[j].first, nb)) return no();
        if (!got) return true;             // the rest is not printed
        if (got->wait_at_most_for != FOREVER) { why = cat("[", w.text(), "] gives up after ", got->wait_at_most_for, " slices"); return false; }
        auto real = [&](long id) -> long {
            if (id >= 0) return id;
            auto it = bound.find(id);
            if (it != bound.end()) return it->second;
            for (auto& [a, b] : nb) if (a == id) return b;
            return -1;
        };
        for (long c : w.clients) if (!got->clients.contains(PatchId(real(c)))) { why = cat("[", w.text(), "] does not wait for patch ", real(c)); return false; }
        std::set<long> may{w.clients};
        may.insert(w.may.begin(), w.may.end());
        for (auto& [id, role] : w.ids) may.insert(id);
        std::set<long> mr;
        for (long id : may) mr.insert(real(id));
        for (PatchId c : got->clients) if (!mr.count(long(c))) { why = cat("[", w.text(), "] also waits for patch ", c, ", which it has nothing to do with"); return false; }
        return true;
    };
    Rng r(uint64_t(sc.geti("sched", 1)));
    Hasher h;
    if (cli) {
        Chain& k = ch[0];
        auto res = run_cli(prog_sc, cli_plan(prog_sc));
        vector<string> lines;
        { std::istringstream in(res.out); string l; while (std::getline(in, l)) lines.push_back(l); }
        auto where = [&] { return cat("program run (", sc.get("layout"), ", ", sc.get("chain0"), "), after ", k.at, " instructions: "); };
        for (auto& l : lines) {
            if (res.threw && k.at >= k.want.size()) break;
            It g;
            if (!parse_text(l, g)) { out.v(P, "print", where() + cat("[", l.substr(0, 100), "] is not an instruction")); break; }
            if (k.at >= k.want.size()) { out.v(P, "extra", where() + cat("[", l, "] is delivered after the end")); break; }
            string why, why0;
            vector<std::pair<long, long>> nb;
            bool ok = false;
            long grp = k.want[k.at].group;
            for (size_t j = k.at; j < k.want.size() && (j == k.at || (grp && k.want[j].group == grp)); j++) {
                if (fits(k.want[j], g, nullptr, why, nb)) { std::swap(k.want[k.at], k.want[j]); ok = true; break; }
                if (j == k.at) why0 = why;
            }
            if (!ok) { out.v(P, "expansion", where() + why0); break; }
            for (auto& [a, b] : nb) {
                if (taken.count(b)) { out.v(P, "fresh", where() + cat("the new id ", b, " in [", l, "] belongs to the program")); break; }
                if (!given.insert(b).second) { out.v(P, "fresh", where() + cat("the new id ", b, " in [", l, "] was given before")); break; }
                bound[a] = b;
            }
            if (!out.violations.empty()) break;
            k.at++;
            h.str(l);
            out.states.push_back(mix(hash_str(k.want[k.at - 1].kind), mix(k.at, hash_str(sc.get("layout") + sc.get("chain0")))));
        }
        if (out.violations.empty()) {
            // the file streams read one line ahead: a refusal may hide the item before it
            if (k.refuses != res.threw) out.v(P, k.refuses ? "accepted" : "refused", where() + (k.refuses ? "an unsupported gate was accepted" : "failed: " + res.what));
            else if (!res.threw && res.exit != 0) out.v(P, "refused", where() + cat("exit ", res.exit, ": ", res.err.substr(0, 200)));
            else if (!res.threw && k.at < k.want.size()) out.v(P, "missing", where() + cat("[", k.want[k.at].text(), "] is missing"));
        }
        out.count(res.threw ? "unsupported_refused" : "whole_program");
        if (injected) out.count("rotations_injected", injected);
        if (expanded) out.count("items_expanded", expanded);
        out.sim_time = lines.size();
        out.hash = h.h;
        out.nontrivial = expanded > 0;
        return;
    }
    bool stop = false, oom = false, refused = false;
    uint64_t steps = 0, polls = 0, retries = 0;
    auto say = [&](size_t c) { return cat("chain ", c, " (", sc.get(cat("chain", int(c))), "), after ", ch[c].at, " instructions: "); };
    seam::alloc_reset();
    if (alloc) seam::alloc_arm(nth);
    seam::alloc_pause(1);
    auto guarded = [&](auto f) -> int {      // 0 fine, 1 the source's failure, 2 another exception, 3 out of memory
        seam::alloc_pause(-1);
        int res = 0;
        try { f(); }
        catch (const Failed&) { res = 1; }
        catch (const std::bad_alloc&) { res = 3; }
        catch (const std::exception&) { res = 2; }
        seam::alloc_pause(1);
        return res;
    };
    for (auto& k : ch) {
        std::set<long> core;
        for (auto q : k.top->core_qubits()) core.insert(long(q));
        if (core != k.core) out.v(P, "core", "a stage reports other core qubits than its source");
    }
    while (!stop && steps < 20000) {
        vector<size_t> live;
        for (size_t c = 0; c < ch.size(); c++) if (!ch[c].over) live.push_back(c);
        if (live.empty()) break;
        size_t c = live[r.below(live.size())];
        Chain& k = ch[c];
        steps++;
        bool more = k.at < k.want.size() || k.refuses;
        // polls
        uint64_t np = r.chance(0.7) ? 1 : r.below(4);
        bool polled_failed = false;
        for (uint64_t i = 0; i < np && !stop; i++) {
            uint64_t f0 = fired;
            bool b = false;
            int e = guarded([&] { b = k.top->has_next_instruction(); });
            polls++;
            if (e == 3) { oom = stop = true; break; }
            if (e) {
                if (fired == f0) { out.v(P, "poll-error", say(c) + "asking for more failed although the source did not"); stop = true; }
                polled_failed = true;
                retries++;
                break;
            }
            if (b != more) {
                if (fired != f0) out.v(P, "poll-swallowed", say(c) + "a failure of the source turned into an answer");
                else out.v(P, "has-next", say(c) + (b ? "more is announced than the source holds" : "the end is announced although instructions are left"));
                stop = true;
            }
        }
        if (stop || polled_failed) continue;
        size_t before = k.ctl.pulled;
        uint64_t f0 = fired;
        std::optional<LSInstruction> got;
        int e = guarded([&] { got = k.top->get_next_instruction(); });
        if (e == 3) { oom = stop = true; break; }
        if (e == 1 || (e == 2 && fired != f0)) {
            // the source failed: everything before it must have been delivered
            size_t failing = before;
            if (k.ctl.item_failed && k.at < k.want.size() && k.want[k.at].from < failing) { out.v(P, "prefix", say(c) + cat("the source failed at item ", failing, " but not everything before it had been delivered")); break; }
            retries++;
            h.u(777);
            if (k.ctl.item_failed && k.ctl.fail[failing] < 0) k.over = true;
            continue;
        }
        if (e == 2) {
            if (k.at < k.want.size()) { out.v(P, "refused", say(c) + cat("[", k.want[k.at].text(), "] expected but it failed")); break; }
            refused = true;
            out.count(k.refuses ? "unsupported_refused" : "read_past_end");
            k.over = true;
            h.u(778);
            if (!k.refuses) {
                bool b = true;
                guarded([&] { b = k.top->has_next_instruction(); });
                if (b && fired == f0) { out.v(P, "has-next", say(c) + "after the end more is announced"); break; }
            }
            continue;
        }
        if (fired != f0) { out.v(P, "swallowed", say(c) + "a failure of the source was swallowed"); break; }
        if (k.at >= k.want.size()) {
            out.v(P, k.refuses ? "accepted" : "extra", say(c) + cat("[", describe(*got).text(), "] is delivered after ", k.refuses ? "the last supported item" : "the end"));
            break;
        }
        // match, within the group of injected rotations
        string why, why0;
        vector<std::pair<long, long>> nb;
        bool ok = false;
        size_t lo = k.at;
        long grp = k.want[lo].group;
        for (size_t j = lo; j < k.want.size() && (j == lo || (grp && k.want[j].group == grp)); j++) {
            if (fits(k.want[j], describe(*got), &*got, why, nb)) { std::swap(k.want[lo], k.want[j]); ok = true; break; }
            if (j == lo) why0 = why;
        }
        if (!ok) { out.v(P, "expansion", say(c) + why0); break; }
        for (auto& [a, b] : nb) {
            if (taken.count(b)) { out.v(P, "fresh", say(c) + cat("the new id ", b, " in [", describe(*got).text(), "] belongs to the program")); stop = true; }
            else if (!given.insert(b).second) { out.v(P, "fresh", say(c) + cat("the new id ", b, " in [", describe(*got).text(), "] was given before")); stop = true; }
            bound[a] = b;
        }
        k.at++;
        if (k.ctl.pulled > k.want[lo].from + 2) { out.v(P, "lazy", say(c) + cat("source item ", k.ctl.pulled - 1, " was read although only item ", k.want[lo].from, " was needed")); break; }
        h.str(describe(*got).text());
        out.states.push_back(mix(hash_str(k.want[lo].kind), mix(k.at, hash_str(sc.get(cat("chain", int(c)))))));
        if (k.at == k.want.size() && !k.refuses && r.chance(0.3) && k.ctl.fail[k.items] == 0) k.over = true;   // leave without reading past the end
    }
    bool hit = seam::alloc_fired();
    seam::alloc_arm(-1);
    seam::alloc_pause(-1);
    // (a message that could not be formatted completely is still an error)
    if (alloc && hit && !oom && !refused && out.violations.empty()) out.v(P, "oom-swallowed", "a failed allocation disappeared");
    if (steps >= 20000) out.v(P, "endless", "a stage never comes to its end");
    if (oom) out.count("fault_allocation");
    if (fired) out.count("fault_source", fired);
    if (injected) out.count("rotations_injected", injected);
    if (expanded) out.count("items_expanded", expanded);
    if (retries) out.count("continued_after_failure", retries);
    if (n > 1) out.count("interleaved_chains");
    if (layout) out.count("exposures_from_layout");
    out.sim_time = steps + polls;
    h.u(steps);
    h.u(m.fresh_used);
    out.hash = h.h;
    out.nontrivial = expanded > 0 && steps >= 3;
}
void explain(const Scenario& sc, std::ostream& o)
{
    for (auto& l : sc.prog) o << "  " << l << "\n";
}
}  // namespace
Family stages_family() { return {gen, run, explain}; }
}  // namespace sim

// Input streams under seed-chosen delivery: chunking, noise lines, read errors, truncation, polling.
#include "fam_io.hpp"
#include "seams.hpp"
#include "sim_io.hpp"

#include <lsqecc/gates/decompose_rotation_stream.hpp>
#include <lsqecc/gates/parse_gates.hpp>
#include <lsqecc/layout/dynamic_layouts/compact_layout.hpp>
#include <lsqecc/ls_instructions/boundary_rotation_injection_stream.hpp>
#include <lsqecc/ls_instructions/catalytic_s_gate_injection_stream.hpp>
#include <lsqecc/ls_instructions/ls_instruction_stream.hpp>
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
#include <lsqecc/ls_instructions/teleported_s_gate_injection_stream.hpp>

#include <algorithm>
#include <fstream>

namespace sim {
using namespace lsqecc;
namespace {
const string P = "C15";

// ---- canonical text of what was read, from the data structures
string pauli(PauliOperator p) { return p == PauliOperator::I ? "I" : p == PauliOperator::X ? "X" : p == PauliOperator::Y ? "Y" : "Z"; }
string canon(const LSInstruction& i)
{
    std::ostringstream o;
    std::visit([&](const auto& x) {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, DeclareLogicalQubitPatches>) { o << "declare"; for (auto p : x.patch_ids) o << " " << p; }
        else if constexpr (std::is_same_v<T, SinglePatchMeasurement>) o << "measure " << x.target << " " << (x.is_negative ? "-" : "") << pauli(x.observable);
        else if constexpr (std::is_same_v<T, MultiPatchMeasurement>) { o << "joint" << (x.is_negative ? " -" : ""); for (auto& [p, q] : x.observable) o << " " << p << ":" << pauli(q); }
        else if constexpr (std::is_same_v<T, PatchInit>) { o << "init " << x.target << " " << (x.state == PatchInit::InitializeableStates::Zero ? "0" : "+"); if (x.place_next_to) o << " " << x.place_next_to->target << ":" << pauli(x.place_next_to->op); }
        else if constexpr (std::is_same_v<T, BellPairInit>) o << "bell " << x.side1 << " " << x.side2 << " " << x.loc1.target << ":" << pauli(x.loc1.op) << " " << x.loc2.target << ":" << pauli(x.loc2.op);
        else if constexpr (std::is_same_v<T, MagicStateRequest>) o << "magic " << x.target << " " << x.near_patch;
        else if constexpr (std::is_same_v<T, YStateRequest>) o << "ystate " << x.target << " " << x.near_patch;
        else if constexpr (std::is_same_v<T, SingleQubitOp>) {
            using Op = SingleQubitOp::Operator;
            o << "gate " << x.target << " " << (x.op == Op::X ? "X" : x.op == Op::Y ? "Y" : x.op == Op::Z ? "Z" : x.op == Op::H ? "H" : x.op == Op::S ? "S" : "?") << (x.is_dagger ? "dg" : "");
        }
        else if constexpr (std::is_same_v<T, RotateSingleCellPatch>) o << "rotate " << x.target;
        else if constexpr (std::is_same_v<T, BellBasedCNOT>) o << "cnot " << x.control << " " << x.target << " " << x.side1 << " " << x.side2;
        else if constexpr (std::is_same_v<T, PatchReset>) o << "reset " << x.target;
        else o << "other";
    }, i.operation);
    return o.str();
}
string canon(const gates::SingleQubitGate& g)
{
    std::ostringstream o;
    if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) {
        using T = gates::BasicSingleQubitGate::Type;
        static const std::map<T, string> n{{T::X, "x"}, {T::Y, "y"}, {T::Z, "z"}, {T::S, "s"}, {T::T, "t"}, {T::H, "h"}, {T::SDg, "sdg"}, {T::TDg, "tdg"}};
        auto it = n.find(b->gate_type);
        o << (it == n.end() ? "?" : it->second) << " " << b->target_qubit;
    }
    else {
        auto& r = std::get<gates::RZ>(g);
        o << "rz " << (r.pi_fraction.is_negative ? "-" : "") << r.pi_fraction.num << "/" << r.pi_fraction.den << " " << r.target_qubit;
    }
    return o.str();
}
string canon(const gates::Gate& g)
{
    if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) return canon(gates::SingleQubitGate{*b});
    if (auto* r = std::get_if<gates::RZ>(&g)) return canon(gates::SingleQubitGate{*r});
    if (auto* r = std::get_if<gates::Reset>(&g)) return cat("reset ", r->register_name, " ", r->target_qubit);
    auto& c = std::get<gates::ControlledGate>(g);
    return cat("c ", c.control_qubit, " ", canon(c.target_gate), " type ", int(c.cnot_type), " anc ", int(c.cnot_ancilla_placement));
}

// ---- reference reading of one clean line; "" for a line that yields nothing, nullopt if not understood
std::optional<string> ref_lli(const string& l)
{
    auto w = words(l);
    auto at = [&](size_t i) { return i < w.size() ? w[i] : string("?"); };
    auto commas = [](string s) { std::replace(s.begin(), s.end(), ',', ' '); return s; };
    if (w.empty()) return "";
    const string& k = w[0];
    if (k == "DeclareLogicalQubitPatches") return "declare " + commas(at(1));
    if (k == "Init" || k == "0") {
        string st = at(2);
        if (st.size() == 3) st = st.substr(1, 1);
        return cat("init ", at(1), " ", st, w.size() > 3 ? " " + w[3] : "");
    }
    if (k == "MeasureSinglePatch" || k == "1") return cat("measure ", at(1), " ", at(2));
    if (k == "MultiBodyMeasure" || k == "2") return "joint " + commas(at(1));
    if (k == "RequestMagicState" || k == "3") return cat("magic ", at(1), " ", at(2));
    if (k == "LogicalPauli" || k == "4") return cat("gate ", at(1), " ", at(2));
    if (k == "HGate" || k == "5") return cat("gate ", at(1), " H");
    if (k == "SGate" || k == "6") return cat("gate ", at(1), " S");
    if (k == "RotateSingleCellPatch" || k == "7") return cat("rotate ", at(1));
    if (k == "BellPairInit" || k == "8") return cat("bell ", at(1), " ", at(2), " ", commas(at(3)));
    if (k == "RequestYState" || k == "9") return cat("ystate ", at(1), " ", at(2));
    if (k == "BellBasedCNOT" || k == "10") return cat("cnot ", at(1), " ", at(2), " ", at(3), " ", at(4));
    return std::nullopt;
}
// generator-side description of QASM lines: the scenario line is "text" + TAB + expected canonical text
string visible(const string& l) { return l.substr(0, l.find('\t')); }
string expected_of(const string& l)
{
    auto t = l.find('\t');
    return t == string::npos ? "" : l.substr(t + 1);
}

// ---- scenarios
string qasm_line(Rng& r, int n, bool safe)
{
    static const char* one[] = {"x", "y", "z", "s", "t", "h", "sdg", "tdg"};
    auto q = [&] { return int(r.below(uint64_t(n))); };
    string c = r.chance(0.25) ? (r.chance(0.5) ? " // a comment" : " // one; two, three") : "";
    string lead = r.chance(0.1) ? "  " : "";
    auto sp = [&] { return string(r.chance(0.05) ? 1 + r.below(3) : 0, ' '); };   // blanks a writer may add
    int anc = int(gates::ControlledGate::default_ancilla_placement);
    switch (r.weighted({6, 3, 1, 1.5, safe ? 0.0 : 0.3})) {
    case 0: {
        string g = one[r.below(8)];
        int a = q();
        return cat(lead, g, sp(), " q[", a, "]", sp(), ";", c, "\t", g, " ", a);
    }
    case 1:
    case 2: {
        int a = q(), b = q();
        if (a == b) b = (a + 1) % n;
        bool z = r.chance(0.3);
        string ann;
        int type = 0;
        if (r.chance(0.3)) {
            static const char* ty[] = {"ZXWithMBMControlFirst", "ZXWithMBMTargetFirst", "BellBased"};
            static const char* an[] = {"AncillaFreePlacement", "AncillaNextToControl", "AncillaNextToTarget"};
            bool t = r.chance(0.7), p = !t || r.chance(0.5);
            ann = " // %";
            if (t) { type = int(r.below(3)); ann += ty[type]; }
            if (p) { anc = int(r.below(3)); ann += cat(t ? "," : "", an[anc]); }
            c = ann;
        }
        if (!safe && r.chance(0.08)) {
            int den = 1 << (1 + r.below(5));
            return cat(lead, "crz(pi/", den, ") q[", a, "],q[", b, "];", c, "\tc ", a, " rz 1/", den, " ", b, " type ", type, " anc ", anc);
        }
        return cat(lead, z ? "cz" : "cx", sp(), " q[", a, "],", r.chance(0.3) ? " " : "", sp(), "q[", b, "];", c, "\tc ", a, " ", z ? "z" : "x", " ", b, " type ", type, " anc ", anc);
    }
    case 3: {
        int a = q();
        bool neg = r.chance(0.3);
        int den = 1 << (1 + r.below(3));
        int num = r.chance(0.5) ? 1 : int(1 + 2 * r.below(4));
        if (safe) { neg = false; num = 1; }
        return cat(lead, "rz(", neg ? "-" : "", num == 1 && r.chance(0.7) ? "" : cat(num, "*"), "pi/", den, ") q[", a, "];", c, "\trz ", neg ? "-" : "", num, "/", den, " ", a);
    }
    default: {
        int a = q();
        return cat("reset", sp(), " q[", a, "];", c, "\treset q ", a);
    }
    }
}
string noise_line(Rng& r, bool qasm)
{
    if (!qasm || r.chance(0.4)) return "";
    static const char* n[] = {"// comment", "  // indented comment", "// h q[0];", "//x", "barrier q[0];", "creg c[3];", "include \"qelib1.inc\";", "OPENQASM 2.0;"};
    return n[r.below(8)];
}
string lli_line(Rng& r, int n, PatchId& fresh, bool safe)
{
    bool num = r.chance(0.15);
    auto q = [&] { return r.chance(0.05) ? int64_t(r.below(2000000000)) : int64_t(r.below(uint64_t(n))); };
    auto op = [&] { return string(r.chance(0.5) ? "X" : "Z"); };
    auto k = [&](const char* name, int code) { return num ? std::to_string(code) : string(name); };
    int64_t a = q(), b = q();
    if (a == b) b = a + 1;
    switch (r.below(safe ? 9 : 11)) {
    case 0: return cat(k("Init", 0), " ", fresh++, " ", r.chance(0.5) ? "|0>" : "|+>", r.chance(0.5) ? cat(" ", a, ":", op()) : "");
    case 1: return cat(k("MeasureSinglePatch", 1), " ", a, " ", op());
    case 2: return cat(k("MultiBodyMeasure", 2), " ", a, ":", op(), ",", b, ":", op());
    case 3: return cat(k("RequestMagicState", 3), " ", fresh++, " ", a);
    case 4: return cat(k("LogicalPauli", 4), " ", a, " ", r.chance(0.2) ? "Y" : op());
    case 5: return cat(k("HGate", 5), " ", a);
    case 6: return cat(k("SGate", 6), " ", a);
    case 7: return cat(k("RotateSingleCellPatch", 7), " ", a);
    case 8: return cat(k("RequestYState", 9), " ", fresh++, " ", a);
    case 9: { auto s = fresh; fresh += 2; return cat(k("BellPairInit", 8), " ", s, " ", s + 1, " ", a, ":", op(), ",", b, ":", op()); }
    default: { auto s = fresh; fresh += 2; return cat(k("BellBasedCNOT", 10), " ", a, " ", b, " ", s, " ", s + 1); }
    }
}
Scenario gen_stream(uint64_t seed, const string&)
{
    Rng r(mix(seed, 0x57e));
    Scenario sc;
    bool qasm = r.chance(0.5);
    sc.set("kind", qasm ? "qasm" : "lli");
    sc.set("chain", r.chance(0.4) ? int(1 + r.below(4)) : 0);
    bool safe = sc.geti("chain", 0);
    int n = int(2 + r.below(8));
    sc.set("qubits", n);
    PatchId fresh = PatchId(2000000001u + r.below(1000));
    int lines = int(r.chance(0.2) ? r.below(4) : r.chance(0.8) ? 2 + r.below(25) : r.chance(0.95) ? 40 + r.below(200) : 300 + r.below(3000));
    double noise = r.chance(0.3) ? 0 : r.chance(0.5) ? 0.15 : 0.6;
    bool bursts = r.chance(0.06);
    auto maybe_noise = [&] {
        while (r.chance(noise)) sc.prog.push_back(noise_line(r, qasm));
        if (bursts && r.chance(0.1)) {   // long runs of blank lines, lines longer than any buffer
            if (qasm && r.chance(0.3)) sc.prog.push_back("// " + string(size_t(r.range(4000, 20000)), 'x'));
            else for (int64_t k = r.chance(0.5) ? r.range(20, 300) : r.range(300, 3000); k > 0; k--) sc.prog.push_back("");
        }
    };
    gates::ControlledGate::default_ancilla_placement = gates::CNOTAncillaPlacement::USE_DEDICATED_CELL;
    if (qasm) {
        if (r.chance(0.6)) sc.prog.push_back("OPENQASM 2.0;");
        if (r.chance(0.6)) sc.prog.push_back("include \"qelib1.inc\";");
        maybe_noise();
        sc.prog.push_back(cat("qreg q[", n, "];"));
    }
    else {
        maybe_noise();
        string d;
        for (int i = 0; i < n; i++) d += cat(i ? "," : "", i);
        if (r.chance(0.01)) for (int64_t i = 0, k = r.range(100, 4000); i < k; i++) d += cat(",", n + 7 * i);       // a very long line
        sc.prog.push_back("DeclareLogicalQubitPatches " + d);
    }
    for (int i = 0; i < lines; i++) {
        maybe_noise();
        sc.prog.push_back(qasm ? qasm_line(r, n, safe) : lli_line(r, n, fresh, safe));
    }
    maybe_noise();
    sc.set("final_nl", r.chance(0.7));
    sc.set("polls", int64_t(r.chance(0.3) ? 1 : r.below(1000000)));
    sc.set("file", r.chance(0.25));
    if (r.chance(0.8)) sc.faults.push_back(cat("in_chunk ", r.chance(0.4) ? 1 : r.chance(0.5) ? 1 + r.below(7) : 1 + r.below(300), " ", r.below(1000000)));
    if (sc.geti("file", 0) && r.chance(0.3)) sc.faults.push_back(cat("in_eintr ", 2 + r.below(5)));
    size_t total = 0;
    for (auto& l : sc.prog) total += visible(l).size() + 1;
    switch (r.weighted({4, 2, 2, 2})) {
    case 1: sc.faults.push_back(cat("in_fail ", r.chance(0.05) ? total - 1 : r.below(total))); break;
    case 2: sc.faults.push_back(cat("eof ", r.below(total))); break;
    case 3: {
        static const char* bq[] = {"foo q[0];", "cx q[0];", "h q;", "rz(abc) q[0];", "h q[x];", "qreg q[3];", "cx q[0] q[1];", "h", "measure q[0] -> c[0];", "rz(pi/4)", "rz(pi/4);", "crz(pi/4) q[0];", "cz q[1];", "cx", "reset q;", "u3(0,0,0) q[0];", "]]", "rz(pi/4", "rz(pi/) q[0];", "h q[];", "h q[1a];"};
        static const char* bl[] = {"Foo 1", "HGate", "MeasureSinglePatch 0", "MeasureSinglePatch 0 Q", "MultiBodyMeasure 0-X", "MultiBodyMeasure 0:X,1", "Init 77 |2>", "RequestMagicState 5", "HGate x", " HGate 0", "BellPairInit 900 901 0:X", "BellPairInit 900 901 0:X,1:Z,2:X", "BellPairInit 900 901", "RequestYState 4", "BellBasedCNOT 0 1 2", "LogicalPauli 0", "DeclareLogicalQubitPatches", "hgate 0", "RotateSingleCellPatch", "Init 78 |0> 0", "SGate 99999999999999", "11 0"};
        size_t i = r.below(sc.prog.size() + 1);
        sc.prog.insert(sc.prog.begin() + long(i), string(qasm ? bq[r.below(std::size(bq))] : bl[r.below(std::size(bl))]) + "\t!");
        break;
    }
    }
    return sc;
}

struct Read {
    vector<string> items;
    string core;
    bool threw = false;
    string what;
    bool runaway = false;
    string poll_problem;
};
const size_t CAP = 40000;
template<class Has, class Get, class Core> void drain(Read& r, uint64_t polls, Has has, Get get, Core core)
{
    Rng pr(polls);
    while (true) {
        size_t k = polls == 1 ? 1 : 1 + pr.below(4);
        bool more = has();
        for (size_t i = 1; i < k; i++)
            if (has() != more && r.poll_problem.empty()) r.poll_problem = cat("after item ", r.items.size(), " polling gave ", more, " then ", !more);
        if (polls != 1 && pr.chance(0.2)) {
            string c = core();
            if (c != r.core && r.poll_problem.empty()) r.poll_problem = cat("declared qubits changed from [", r.core, "] to [", c, "] after item ", r.items.size());
        }
        if (!more) break;
        r.items.push_back(get());
        if (r.items.size() > CAP) { r.runaway = true; return; }
    }
    if (polls != 1 && has()) r.poll_problem = "the ended stream has further items";
}
string ids(const tsl::ordered_set<PatchId>& s)
{
    string o;
    for (auto p : s) o += cat(p, " ");
    return o;
}
std::unique_ptr<LSInstructionStream> wrap(std::unique_ptr<LSInstructionStream> s, int chain, IdGenerator& g, std::unique_ptr<Layout>& lay)
{
    if (chain == 2) s = std::make_unique<TeleportedSGateInjectionStream>(std::move(s), g, true);
    if (chain == 3) s = std::make_unique<CatalyticSGateInjectionStream>(std::move(s), g, true, true);
    if (chain == 4) {
        lay = make_compact_layout(s->core_qubits().size(), {}, false);
        s = std::make_unique<BoundaryRotationInjectionStream>(std::move(s), *lay);
        s = std::make_unique<TeleportedSGateInjectionStream>(std::move(s), g, false);
    }
    return s;
}
Read consume(std::istream& in, bool qasm, int chain, uint64_t polls)
{
    Read r;
    try {
        gates::ControlledGate::default_ancilla_placement = gates::CNOTAncillaPlacement::USE_DEDICATED_CELL;
        IdGenerator g;
        std::unique_ptr<GateStream> gs;
        std::unique_ptr<LSInstructionStream> s;
        std::unique_ptr<Layout> lay;
        if (qasm) {
            gs = std::make_unique<GateStreamFromFile>(in);
            if (!chain) {
                auto core = [&] { return cat(gs->get_qreg().name, " ", gs->get_qreg().size); };
                r.core = core();
                drain(r, polls, [&] { return gs->has_next_gate(); }, [&] { return canon(gs->get_next_gate()); }, core);
                return r;
            }
            gs = std::make_unique<DecomposeRotationStream>(std::move(gs), 10);
            g.set_start(gs->get_qreg().size);
            s = std::make_unique<LSInstructionStreamFromGateStream>(*gs, CNOTCorrectionMode::NEVER, g, chain == 3);
        }
        else {
            s = std::make_unique<LSInstructionStreamFromFile>(in);
            g.set_start(3000000000u);
        }
        s = wrap(std::move(s), chain, g, lay);
        auto core = [&] { return ids(s->core_qubits()); };
        r.core = core();
        drain(r, polls, [&] { return s->has_next_instruction(); }, [&] { return canon(s->get_next_instruction()); }, core);
    }
    catch (const std::exception& e) {
        r.threw = true;
        r.what = e.what();
    }
    return r;
}

void run_stream(const Scenario& sc, const string&, Outcome& out)
{
    bool qasm = sc.get("kind") == "qasm";
    int chain = int(sc.geti("chain", 0));
    io::Plan plan;
    int64_t eof = -1;
    for (auto& f : sc.faults) {
        auto w = words(f);
        auto I = [&](size_t i) { return i < w.size() ? std::stoll(w[i]) : 0; };
        if (w.empty()) continue;
        if (w[0] == "in_chunk") { plan.in_chunk = int(std::max<int64_t>(1, I(1))); plan.in_salt = uint64_t(I(2)); out.count("delivery_chunked"); }
        else if (w[0] == "in_eintr") { plan.in_eintr_every = int(std::max<int64_t>(2, I(1))); out.count("fault_eintr"); }
        else if (w[0] == "in_fail") plan.in_fail_at = I(1);
        else if (w[0] == "eof") eof = I(1);
    }
    string text;
    bool noise = false, garbled = false;
    for (size_t i = 0; i < sc.prog.size(); i++) {
        text += visible(sc.prog[i]);
        noise |= visible(sc.prog[i]).empty();
        garbled |= expected_of(sc.prog[i]) == "!";
        if (i + 1 < sc.prog.size() || sc.geti("final_nl", 1)) text += "\n";
    }
    string delivered = text;
    if (eof >= 0 && size_t(eof) < delivered.size()) { delivered = delivered.substr(0, size_t(eof)); out.count("fault_truncated"); }
    else eof = -1;

    // the reference: every delivered line on its own
    vector<string> ref;
    string ref_core, why;
    bool ref_err = false;
    {
        size_t pos = 0;
        bool first = true;
        for (auto& l : sc.prog) {
            if (pos >= delivered.size()) break;
            string v = visible(l);
            size_t end = pos + v.size();
            bool partial = end > delivered.size();
            if (partial) v = delivered.substr(pos);
            pos = end + 1;
            if (v.empty()) continue;
            std::optional<string> c;
            if (partial) {
                // the rest of a cut line means whatever the parser makes of it
                try {
                    if (qasm) {
                        auto p = parse_gate(v);
                        if (auto* g = std::get_if<gates::Gate>(&p)) c = canon(*g);
                        else if (auto* q = std::get_if<Qreg>(&p)) { c = ""; if (ref_core.empty()) ref_core = cat(q->name, " ", q->size); else c.reset(); }
                        else c = "";
                    }
                    else c = canon(parse_ls_instruction(v));
                }
                catch (const std::exception& e) { why = e.what(); }
            }
            else if (expected_of(l) == "!") { why = "malformed line: " + v; }
            else if (qasm) {
                c = expected_of(l);
                if (v.rfind("qreg ", 0) == 0) {
                    auto a = v.find('['), b = v.find(']');
                    if (ref_core.empty()) ref_core = cat(v.substr(5, a - 5), " ", v.substr(a + 1, b - a - 1));
                    else c.reset();
                }
            }
            else c = ref_lli(v);
            if (!c) { ref_err = true; break; }
            if (c->empty()) continue;
            if (qasm && ref_core.empty()) { ref_err = true; why = "gate before the register"; ref.clear(); break; }
            if (!qasm && first) {
                first = false;
                if (c->rfind("declare", 0) != 0) { ref_err = true; why = "no declaration"; break; }
                ref_core = c->size() > 8 ? c->substr(8) + " " : "";
                continue;
            }
            ref.push_back(*c);
        }
        if (qasm && ref_core.empty()) { ref_err = true; ref.clear(); }
        if (!qasm && first) ref_err = true;
    }
    bool fails = plan.in_fail_at >= 0 && size_t(plan.in_fail_at) <= delivered.size();
    if (plan.in_fail_at >= 0 && !fails) plan.in_fail_at = -1;
    if (fails && !ref_err) out.count("fault_read_error");
    if (garbled && ref_err) out.count("fault_malformed_line");

    if (chain) {
        // the rewritten sequence of the clean text, read plainly
        std::istringstream plain(delivered);
        Read c = consume(plain, qasm, chain, 1);
        if (c.threw && !ref_err) out.count("chain_rejects");
        ref = c.items;
        ref_err = c.threw;
        ref_core = c.core;
        if (c.runaway) return;
    }
    uint64_t polls = uint64_t(sc.geti("polls", 1));
    Read got;
    uint64_t reads = 0;
    if (sc.geti("file", 0)) {
        io::put_file("in", delivered);
        io::arm(plan);
        {
            std::ifstream f(io::scratch() + "/in");
            got = consume(f, qasm, chain, polls);
        }
        reads = io::seen().reads;
        if (io::seen().eintrs) out.count("fault_eintr_seen", io::seen().eintrs);
        io::disarm();
    }
    else {
        io::InBuf b(delivered, plan);
        std::istream in(&b);
        got = consume(in, qasm, chain, polls);
        reads = b.refills;
    }
    // ---- checks
    string where = cat(qasm ? "QASM" : "LLI", chain ? cat(" with rewriting ", chain) : "");
    if (got.runaway) out.v(P, "runaway", where + ": the stream does not end");
    if (!got.poll_problem.empty()) out.v(P, "polling", where + ": " + got.poll_problem);
    for (size_t i = 0; i < got.items.size(); i++) {
        if (i >= ref.size()) { out.v(P, "extra", cat(where, ": item ", i, " [", got.items[i], "] was never in the input")); break; }
        if (got.items[i] != ref[i]) { out.v(P, "differs", cat(where, ": item ", i, " is [", got.items[i], "], the input says [", ref[i], "]")); break; }
    }
    if (!got.threw && !got.runaway) {
        if (fails && !ref_err) out.v(P, "read-error-hidden", cat(where, ": reading failed after ", plan.in_fail_at, " of ", delivered.size(), " bytes, the stream ended normally after ", got.items.size(), " items"));
        else if (fails) out.v(P, "error-hidden", cat(where, ": neither the read error nor the malformed line was reported"));
        else if (ref_err) out.v(P, "malformed-hidden", cat(where, ": the stream ended normally although the input is not valid (", why, ")"));
        else if (got.items.size() < ref.size()) out.v(P, "shortened", cat(where, ": ", got.items.size(), " items of ", ref.size(), "; first missing: ", ref[got.items.size()]));
        if (!ref_err && !fails && got.core != ref_core) out.v(P, "declaration", cat(where, ": declared qubits [", got.core, "] instead of [", ref_core, "]"));
    }
    else if (got.threw) {
        if (!fails && !ref_err) out.v(P, "spurious", cat(where, ": valid input was rejected: ", got.what));
    }
    out.sim_time = delivered.size();
    out.nontrivial = sc.prog.size() >= 4 && (plan.in_chunk || fails || eof >= 0 || noise || ref_err || !sc.geti("final_nl", 1));
    Hasher h;
    for (auto& i : got.items) {
        h.str(i);
        out.states.push_back(mix(hash_str(i.substr(0, i.find(' '))), mix(uint64_t(plan.in_chunk), uint64_t(fails) * 4 + uint64_t(eof >= 0) * 2 + ref_err)));
    }
    h.u(got.threw);
    h.str(got.what);
    h.u(reads);
    h.u(plan.in_salt);
    out.hash = h.h;
}
void explain_stream(const Scenario& sc, std::ostream& o)
{
    for (auto& l : sc.prog) o << "  line: " << visible(l) << "\n";
    for (auto& f : sc.faults) o << "  fault: " << f << "\n";
    Outcome out;
    run_stream(sc, "C15", out);
    for (auto& v : out.violations) o << "  " << v.cls << ": " << v.msg << "\n";
}
}  // namespace
Family stream_family() { return {gen_stream, run_stream, explain_stream}; }
}  // namespace sim

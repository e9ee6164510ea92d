// Circuits stored in the Pandora database, behind a simulated server.
#include "fam_io.hpp"
#include "pq_sim.hpp"
#include "seams.hpp"

#include <lsqecc/gates/postgres_gate_stream.hpp>
#include <lsqecc/pipelines/slicer.hpp>

#include <algorithm>
#include <iostream>

namespace sim {
using namespace lsqecc;
namespace {
const string P = "C18";

// what a stored row stands for: "" nothing, "!" not representable
struct Row {
    int64_t layer = 0;
    int type = 0;
    string control, target, param;     // "null" for NULL
};
string meaning(const Row& r)
{
    auto one = [&](const char* g) { return cat(g, " ", r.control); };
    switch (r.type) {
    case 0: case 1: case 13: case 14: return "";
    case 5: case 6: case 7: {
        double p = 0;
        try { p = std::stod(r.param); } catch (...) { return "!"; }
        if (p == 1 || p == -1) return one("z");
        if (p == 0.5) return one("s");
        if (p == -0.5) return one("sdg");
        if (p == 0.25) return one("t");
        if (p == -0.25) return one("tdg");
        return "!";
    }
    case 8: return one("h");
    case 9: return one("x");
    case 10: return one("z");
    case 17: case 18: return r.target == "null" ? "!" : cat("cx ", r.control, " ", r.target);
    case 27: return one("s");
    case 28: return one("sdg");
    case 29: return one("t");
    case 30: return one("tdg");
    }
    return "!";
}
bool readable(const Row& r)
{
    auto num = [](const string& s) { return !s.empty() && (isdigit((unsigned char)s[0]) || (s[0] == '-' && s.size() > 1 && isdigit((unsigned char)s[1]))); };
    return num(r.control);
}
Row parse_row(const string& l)
{
    auto w = words(l);
    Row r;
    if (w.size() < 5) return r;
    r.layer = std::stoll(w[0]);
    r.type = int(std::stol(w[1]));
    r.control = w[2];
    r.target = w[3];
    r.param = w[4];
    return r;
}
string gate_text(const gates::Gate& g)
{
    using T = gates::BasicSingleQubitGate::Type;
    static const std::map<T, string> n{{T::X, "x"}, {T::Y, "y"}, {T::Z, "z"}, {T::S, "s"}, {T::T, "t"}, {T::H, "h"}, {T::SDg, "sdg"}, {T::TDg, "tdg"}};
    if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) return cat(n.count(b->gate_type) ? n.at(b->gate_type) : "?", " ", b->target_qubit);
    if (auto* c = std::get_if<gates::ControlledGate>(&g)) {
        auto* b = std::get_if<gates::BasicSingleQubitGate>(&c->target_gate);
        if (b && b->gate_type == T::X) return cat("cx ", c->control_qubit, " ", b->target_qubit);
        return "controlled ?";
    }
    return "other";
}

Scenario gen_pandora(uint64_t seed, const string&)
{
    Rng r(mix(seed, 0x9a7d));
    Scenario sc;
    bool program = r.chance(0.25);
    sc.set("program", program);
    bool wide = !program && r.chance(0.01), tall = !program && !wide && r.chance(0.01);
    int n = int(wide ? 100 + r.below(1200) : 2 + r.below(6));
    int layers = int(wide ? 1 + r.below(3) : tall ? 200 + r.below(400) : r.chance(0.1) ? 0 : r.chance(0.8) ? 1 + r.below(12) : 20 + r.below(60));
    // part of a larger circuit's qubits: numbers that need more than one or two bytes
    uint64_t base = 0, step = 1;
    if (!program && r.chance(0.12)) {
        static const uint64_t b[] = {250, 65530, 70000, 1000000, 16777210, 2147483000};
        base = b[r.below(6)];
        step = 1 + (r.chance(0.5) ? 0 : r.below(base > 1000000000 ? 50 : 70000));
    }
    auto qn = [&](int q) { return base + uint64_t(q) * step; };
    auto row = [&](int64_t layer, int type, int c, int t, string param) { sc.prog.push_back(cat(layer, " ", type, " ", qn(c), " ", t < 0 ? "null" : cat(qn(t)), " ", param.empty() ? "null" : param)); };
    for (int i = 0; i < n; i++) row(0, 0, i, -1, "");
    double idle = r.chance(0.5) ? 0.05 : 0.35;      // layers whose rows have no effect
    bool mixed = r.chance(0.6);
    for (int l = 1; l <= layers; l++) {
        vector<int> qs;
        for (int i = 0; i < n; i++) qs.push_back(i);
        r.shuffle(qs);
        bool ineffective = r.chance(idle);
        size_t want = program ? 1 : 1 + r.below(qs.size());
        size_t i = 0, placed = 0;
        while (i < qs.size() && (placed < want || (ineffective && i < 2))) {
            int q = qs[i++];
            if (ineffective || (mixed && !program && r.chance(0.25))) {
                static const int none[] = {13, 14, 1};
                row(l, none[r.below(l == layers ? 3 : 2)], q, -1, "");
                if (r.chance(0.04)) row(l, 0, q + (r.chance(0.5) ? n : 0), -1, "");      // a qubit introduced later
                placed++;
                continue;
            }
            switch (r.weighted({3, 3, 1})) {
            case 0: {
                static const int t[] = {8, 9, 10, 27, 28, 29, 30};
                row(l, t[r.below(7)], q, -1, r.chance(0.5) ? "1.0" : "");
                break;
            }
            case 1: {
                static const char* p[] = {"1", "-1", "1.0", "-1.0", "0.5", "-0.5", "0.25", "-0.25", "0.250", "5e-1"};
                row(l, int(5 + r.below(3)), q, -1, p[r.below(10)]);
                break;
            }
            default:
                if (i < qs.size()) row(l, r.chance(0.5) ? 17 : 18, q, qs[i++], "1");
                else row(l, 8, q, -1, "1");
            }
            placed++;
            if (program && mixed && i < qs.size() && r.chance(0.3)) row(l, r.chance(0.5) ? 13 : 14, qs[i++], -1, "");
        }
    }
    for (int i = 0; i < n; i++) if (r.chance(0.7)) row(layers + 1, 1, i, -1, "");
    sc.set("shuffle", r.chance(0.2) ? 0 : int64_t(1 + r.below(1000000)));
    sc.set("polls", int64_t(r.below(1000000)));
    if (r.chance(0.5)) {        // stored in any order
        vector<string> p = sc.prog;
        r.shuffle(p);
        sc.prog = p;
    }
    switch (r.weighted({5, 0.5, 2.5, 1.2, 0.8})) {
    case 1: sc.faults.push_back("connect"); break;
    case 2: sc.faults.push_back(cat("query ", r.chance(0.3) ? r.below(3) : r.below(uint64_t(layers) + 4), " ", r.below(3))); break;
    case 3: {
        if (sc.prog.empty()) break;
        size_t k = r.below(sc.prog.size());
        Row x = parse_row(sc.prog[k]);
        if (x.layer == 0) break;
        static const char* bad[] = {"null", "abc", "--"};
        static const char* angle[] = {"0.3", "0.75", "-0.75", "1.5", "-1.5", "2", "0.125", "-0.125", "0", "0.26", "-0.49", "0.99", "1e9", "nan"};
        string b = bad[r.below(3)];
        bool two = x.type == 17 || x.type == 18, pow = x.type >= 5 && x.type <= 7;
        if (two && r.chance(0.5)) x.target = b;
        else if (pow && r.chance(0.5)) x.param = r.chance(0.4) ? b : angle[r.below(14)];
        else x.control = b;
        sc.prog[k] = cat(x.layer, " ", x.type, " ", x.control, " ", x.target, " ", x.param);
        sc.set("bad", 1);
        break;
    }
    case 4: {
        static const int t[] = {2, 3, 4, 12, 15, 16, 19, 20, 21, 22, 23, 24, 25, 26, 31, 32, 99, -1};
        if (layers) row(int64_t(1 + r.below(uint64_t(layers))), t[r.below(18)], int(r.below(uint64_t(n))), 0, "1");
        break;
    }
    }
    return sc;
}

void fill(const Scenario& sc, vector<Row>& rows)
{
    pq::reset();
    auto& d = pq::db();
    d.cols = {"id", "layer", "control_q", "target_q", "type", "param", "global_shift", "prev_q1", "prev_q2", "prev_q3"};
    int64_t id = 1;
    for (auto& l : sc.prog) {
        Row r = parse_row(l);
        rows.push_back(r);
        pq::Row x;
        auto add = [&](const string& v) { x.null.push_back(v == "null"); x.v.push_back(v == "null" ? "" : v); };
        add(std::to_string(id++));
        add(std::to_string(r.layer));
        add(r.control);
        add(r.target);
        add(std::to_string(r.type));
        add(r.param);
        add("0");
        add("null");
        add("null");
        add("null");
        d.rows.push_back(x);
    }
    d.shuffle = uint64_t(sc.geti("shuffle", 0));
    for (auto& f : sc.faults) {
        auto w = words(f);
        if (w.empty()) continue;
        if (w[0] == "connect") d.connect_fails = true;
        if (w[0] == "query" && w.size() >= 3) { d.fail_query = int(std::stol(w[1])); d.fail_kind = int(std::stol(w[2])); }
    }
}

struct Prog { int exit = -1; bool threw = false; string what, out, err; };
Prog program(vector<string> args, const string& input)
{
    Prog p;
    vector<const char*> argv{"lsqecc_slicer"};
    for (auto& a : args) argv.push_back(a.c_str());
    std::istringstream in(input);
    std::ostringstream out, err, global;
    struct Redirect {
        std::ostream& o;
        std::streambuf* b;
        ~Redirect() { o.rdbuf(b); o.clear(); }
    } ro{std::cout, std::cout.rdbuf(global.rdbuf())}, re{std::cerr, std::cerr.rdbuf(global.rdbuf())};
    try { p.exit = run_slicer_program(int(argv.size()), argv.data(), in, out, err); }
    catch (const std::exception& e) { p.threw = true; p.what = e.what(); }
    p.out = out.str();
    p.err = err.str();
    return p;
}

void run_pandora(const Scenario& sc, const string&, Outcome& out)
{
    vector<Row> rows;
    fill(sc, rows);
    auto& d = pq::db();
    // the stored circuit, layer by layer, up to the first layer without rows
    std::map<int64_t, vector<Row>> by;
    uint64_t qubits = 0;
    for (auto& r : rows) { by[r.layer].push_back(r); qubits += r.type == 0; }
    vector<vector<string>> layers;
    bool bad = false, maybe = false;
    size_t bad_layer = 0, ineffective = 0;
    for (int64_t l = 1; by.count(l); l++) {
        vector<string> g;
        for (auto& r : by[l]) {
            string m = meaning(r);
            if (!readable(r)) { if (m.empty()) maybe = true; else m = "!"; }   // rows without effect need not be read
            if ((r.type == 17 || r.type == 18) && m != "!") { Row t = r; t.control = r.target; if (!readable(t)) m = "!"; }
            if (m == "!") { if (!bad) bad_layer = layers.size(); bad = true; }
            else if (m.empty()) ineffective++;
            else g.push_back(m);
        }
        std::sort(g.begin(), g.end());
        layers.push_back(g);
    }
    size_t total = 0;
    for (auto& l : layers) total += l.size();
    if (bad) out.count("fault_unreadable_or_unsupported_row");
    Hasher h;

    if (sc.geti("program", 0) && qubits > 0) {
        // the program: a database circuit and the same circuit as text give the same output
        string qasm = cat("qreg pandora_reg[", qubits, "];\n");
        for (auto& l : layers) for (auto& g : l) {
            auto w = words(g);
            if (w[0] == "cx") qasm += cat("cx pandora_reg[", w[1], "],pandora_reg[", w[2], "]; // %ZXWithMBMControlFirst,AncillaNextToControl\n");
            else qasm += cat(w[0], " pandora_reg[", w[1], "];\n");
        }
        bool single = true;         // the order within a layer is not fixed
        for (auto& l : layers) single &= l.size() <= 1;
        vector<string> args{"-L", "edpc", "--op-ids"};
        if (sc.seed % 3 == 1) args.insert(args.end(), {"--printlli", "before"});
        if (sc.seed % 3 == 2) args.insert(args.end(), {"--printlli", "sliced", "-P", "wave"});
        vector<string> a = args, b = args;
        a.insert(a.end(), {"-I", "pandora"});
        b.insert(b.end(), {"-I", "qasm"});
        Prog x = program(a, "");
        if (d.unknown_sql) { out.count("sql_outside_the_simulated_subset"); return; }
        out.sim_time = uint64_t(d.queries);
        if (d.failed) out.count("fault_database");
        bool ok = !x.threw && x.exit == 0;
        if (ok && d.failed) out.v(P, "program-hides-failure", "a database call failed, the program reported success");
        else if (ok && bad) out.v(P, "program-hides-row", "a row could not be delivered, the program reported success");
        else if (!bad && !maybe && !d.failed && single) {
            Prog y = program(b, qasm);
            bool yok = !y.threw && y.exit == 0;
            if (ok != yok || x.out != y.out) {
                size_t k = 0;
                while (k < x.out.size() && k < y.out.size() && x.out[k] == y.out[k]) k++;
                out.v(P, "program-differs", cat("the program's output for the stored circuit differs from the one for the same circuit as text at byte ", k, " (exit ", x.exit, "/", y.exit, " ", x.what, "|", y.what, ")"));
            }
            out.count("program_compared");
        }
        if (d.live_connections || d.live_results) out.v(P, "leak", "database connections or results stay open");
        h.str(x.out);
        h.str(x.what);
    }
    else {
        vector<string> got;
        bool threw = false;
        string what, poll, reg;
        uint64_t size = 0;
        Rng pr(uint64_t(sc.geti("polls", 1)));
        try {
            PandoraPostgresGateStream s("localhost", "5432", "postgres");
            size = s.get_qreg().size;
            while (true) {
                bool more = s.has_next_gate();
                for (size_t i = pr.below(4); i > 0; i--) if (s.has_next_gate() != more) poll = cat("polling changes its answer after ", got.size(), " gates");
                if (!more) break;
                got.push_back(gate_text(s.get_next_gate()));
                if (got.size() > rows.size() + 10) break;
            }
        }
        catch (const std::exception& e) { threw = true; what = e.what(); }
        if (d.unknown_sql) { out.count("sql_outside_the_simulated_subset"); return; }
        if (d.failed) out.count("fault_database");
        out.sim_time = uint64_t(d.queries);
        if (!poll.empty()) out.v(P, "polling", poll);
        if (d.failed && !threw) out.v(P, "failure-hidden", cat("a database call failed, the stream ended normally after ", got.size(), " of ", total, " gates"));
        else if (bad && !threw) out.v(P, "row-hidden", cat("layer ", bad_layer + 1, " has a row that cannot be delivered; the stream ended normally after ", got.size(), " gates"));
        else if (threw && !d.failed && !bad && !maybe) out.v(P, "spurious", "a readable circuit was rejected: " + what);
        if (!threw && size != qubits) out.v(P, "register", cat("the register has ", size, " qubits, the database ", qubits));
        // layer by layer
        size_t k = 0;
        for (size_t l = 0; l < layers.size() && k < got.size(); l++) {
            size_t m = std::min(layers[l].size(), got.size() - k);
            vector<string> g(got.begin() + long(k), got.begin() + long(k + m));
            std::sort(g.begin(), g.end());
            if (bad && l >= bad_layer) break;       // what precedes the unreadable row in its layer is not fixed
            bool ok = m == layers[l].size() ? g == layers[l] : std::includes(layers[l].begin(), layers[l].end(), g.begin(), g.end());
            if (!ok) {
                string a, b;
                for (auto& x : layers[l]) a += x + "; ";
                for (auto& x : g) b += x + "; ";
                out.v(P, "layer", cat("layer ", l + 1, " was delivered as [", b, "], stored is [", a, "]"));
                break;
            }
            k += m;
        }
        if (!threw && !d.failed && !bad) {
            if (got.size() < total) out.v(P, "shortened", cat(got.size(), " of ", total, " gates were delivered"));
            else if (got.size() > total) out.v(P, "extra", cat(got.size(), " gates were delivered, ", total, " are stored"));
        }
        if (d.live_connections || d.live_results) out.v(P, "leak", "database connections or results stay open");
        for (auto& g : got) h.str(g);
        h.str(what);
    }
    h.u(uint64_t(d.queries));
    h.u(d.shuffle);
    out.hash = h.h;
    out.nontrivial = layers.size() >= 2 && (ineffective || d.failed || bad || d.shuffle);
    for (auto& l : layers) {
        uint64_t x = d.failed * 2 + bad;
        for (auto& g : l) x = mix(x, hash_str(g.substr(0, g.find(' '))));
        out.states.push_back(x);
    }
}
void explain_pandora(const Scenario& sc, std::ostream& o)
{
    o << "  rows (layer type control target param):\n";
    for (auto& l : sc.prog) o << "    " << l << "\n";
    for (auto& f : sc.faults) o << "  fault: " << f << "\n";
}
}  // namespace
Family pandora_family() { return {gen_pandora, run_pandora, explain_pandora}; }
}  // namespace sim

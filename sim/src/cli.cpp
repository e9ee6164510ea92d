#include "cli.hpp"
#include "gen.hpp"
#include "seams.hpp"

#include <lsqecc/pipelines/slicer.hpp>
#include <nlohmann/json.hpp>

#include <iostream>
#include <regex>

namespace sim {
string CliRun::text() const
{
    auto mask = [](string s) {
        for (const char* key : {"Took ", "after "}) {
            (void)key;
        }
        static const std::regex took("Took [-+.0-9e]+s"), path("/[^ \"\n]*lsqsim-io-[A-Za-z0-9]+");
        s = std::regex_replace(s, took, "Took <t>s");
        return std::regex_replace(s, path, "<dir>");
    };
    return cat("exit ", exit, " threw ", threw, " [", mask(what), "]\nout: ", mask(out), "\nerr: ", mask(err), "\nglobal: ", mask(global), "\nfile: ", file);
}

Scenario cli_scenario(uint64_t seed, const string&, Rng& r)
{
    static const char* base_focus[] = {"C16", "C16", "C01", "C08", "C09", "C10", "C11", "C07"};
    Scenario sc = gen_lattice(seed, base_focus[r.below(8)]);
    sc.faults.clear();
    string layout = sc.get("layout", "ascii");
    bool y = false;
    for (auto& l : sc.layout) y |= l.find('Y') != string::npos;
    if (layout == "compact" || layout == "noclog") { sc.set("twists", 1); sc.set("wrap", "compact"); }
    else if (layout == "edpc") { sc.set("wrap", sc.geti("twists", 1) ? "edpc_tel" : "edpc_cat"); sc.set("predistilled", !sc.geti("twists", 1)); }
    else { sc.set("wrap", "none"); if (!y) sc.set("twists", 1); }
    if (sc.get("mode") == "edpc" && !(layout == "edpc" && sc.geti("local", 0) && sc.geti("lanes", 1) == 1)) sc.set("mode", "wave");
    if (!sc.geti("qasm", 0)) {
        vector<string> p;
        for (auto& l : sc.prog) {
            auto a = l.find(' ');
            auto b = a == string::npos ? a : l.find(' ', a + 1);
            if (b != string::npos) p.push_back(l.substr(b + 1));
        }
        sc.prog = p;
        // ids made up for an instruction file come from the upper half of the id space
        int64_t next = 1ll << 31;
        for (auto& c : split(sc.get("core"), ',')) if (!c.empty()) next = std::max<int64_t>(next, std::stoll(c) + 1);
        sc.set("idstart", next);
    }
    sc.set("cap", 400);
    sc.set("idle", 25);
    if (r.chance(0.15)) sc.set("router", "cached");
    sc.set("graceful", r.chance(0.3));
    sc.set("infile", r.chance(0.4));
    // output mode
    switch (r.weighted({5, 3, 1, 1, 1.2})) {
    case 0: sc.set("print", "slices"); break;
    case 1: sc.set("print", "sliced"); break;
    case 2: sc.set("print", "before"); break;
    case 3: sc.set("print", "none"); break;
    case 4: sc.set("print", r.chance(0.5) ? "dag" : "daginput"); break;
    }
    if (r.chance(0.5)) sc.set("outfile", 1);
    if (sc.geti("outfile", 0) || sc.get("print") == "none") {
        static const char* f[] = {"", "progress", "noprogress", "machine", "stats", "noprogres"};
        string m = f[r.below(6) % (r.chance(0.8) ? 5 : 6)];
        if (!m.empty()) sc.set("fmt", m);
    }
    return sc;
}

vector<string> cli_args(const Scenario& sc)
{
    vector<string> a;
    auto add = [&](std::initializer_list<string> w) { a.insert(a.end(), w); };
    if (sc.geti("qasm", 0)) add({"-I", "qasm"});
    else if (sc.seed % 3 == 0) add({"-I", "lli"});
    string layout = sc.get("layout", "ascii");
    if (layout == "ascii") add({"-l", io::scratch() + "/layout"});
    else if (layout == "noclog") add({"-L", "compact_no_clogging"});
    else if (layout == "edpc") {
        add({"-L", "edpc"});
        if (sc.geti("lanes", 1) != 1) add({"--numlanes", sc.get("lanes")});
        if (sc.geti("condensed", 0)) add({"--condensed", "1"});
        if (sc.geti("factories", 0)) add({"--explicitfactories"});
    }
    else if (sc.seed % 2) add({"-L", "compact"});
    string mode = sc.get("mode", "stream");
    if (mode != "stream" || sc.seed % 2) add({"-P", mode});
    if (sc.opt.count("search")) add({"-g", sc.get("search")});
    if (sc.get("router") == "cached") add({"-r", "graph_search_cached"});
    if (sc.geti("opids", 0)) add({"--op-ids"});
    if (sc.geti("graceful", 0)) add({"--graceful"});
    if (sc.geti("local", 0)) add({"--local"});
    if (!sc.geti("twists", 1)) add({"--notwists"});
    add({"--disttime", std::to_string(sc.geti("disttime", 10))});
    if (!sc.geti("stagger", 1)) add({"--nostagger"});
    if (sc.geti("corrections", 0)) add({"--cnotcorrections", "always"});
    if (sc.geti("infile", 0)) add({"-i", io::scratch() + "/in"});
    if (sc.geti("outfile", 0)) add({"-o", io::scratch() + "/out"});
    string print = sc.get("print", "slices");
    if (print == "none") add({"--noslices"});
    if (print == "sliced" || print == "before") add({"--printlli", print});
    if (print == "dag") add({"--printdag", "processedlli"});
    if (print == "daginput") add({"--printdag", "input"});
    if (sc.opt.count("fmt")) add({"-f", sc.get("fmt")});
    if (sc.opt.count("timeout")) add({"-t", sc.get("timeout")});
    return a;
}

string cli_input(const Scenario& sc)
{
    string t;
    if (!sc.geti("qasm", 0)) t = "DeclareLogicalQubitPatches " + sc.get("core") + "\n";
    for (auto& l : sc.prog) t += l + "\n";
    return t;
}

Scenario cli_reference(const Scenario& sc)
{
    Scenario s = sc;
    s.family = "lattice";
    s.faults.clear();
    s.opt.erase("timeout");
    s.set("graceful", 0);
    s.set("lazy", 1);
    return s;
}

io::Plan cli_plan(const Scenario& sc)
{
    io::Plan p;
    for (auto& l : sc.faults) {
        auto w = words(l);
        auto I = [&](size_t i) { return i < w.size() ? std::stoll(w[i]) : 0; };
        if (w.empty()) continue;
        if (w[0] == "out_fail") { p.out_fail_at = I(1); p.out_errno = int(I(2)); p.out_sticky = I(3); }
        else if (w[0] == "out_chunk") p.out_chunk = int(I(1));
        else if (w[0] == "out_eintr") p.out_eintr_every = int(std::max<int64_t>(2, I(1)));
        else if (w[0] == "out_stall") p.out_stall_ns = I(1);
        else if (w[0] == "open_fails") p.open_fails = true;
        else if (w[0] == "close_fails") p.close_fails = true;
        else if (w[0] == "sync_fails") p.sync_fails = true;
        else if (w[0] == "in_chunk") { p.in_chunk = int(I(1)); p.in_salt = uint64_t(I(2)); }
        else if (w[0] == "in_eintr") p.in_eintr_every = int(std::max<int64_t>(2, I(1)));
        else if (w[0] == "in_fail") p.in_fail_at = I(1);
        else if (w[0] == "in_stall") p.in_stall_ns = I(1);
    }
    return p;
}

CliRun run_cli(const Scenario& sc, const io::Plan& plan)
{
    CliRun r;
    string input = cli_input(sc);
    bool infile = sc.geti("infile", 0);
    if (sc.get("layout", "ascii") == "ascii") {
        string t;
        for (auto& l : sc.layout) t += l + "\n";
        io::put_file("layout", t);
    }
    if (infile) io::put_file("in", input);
    auto args = cli_args(sc);
    r.used_file = sc.geti("outfile", 0);
    std::ostringstream global;
    struct Redirect {
        std::ostream& o;
        std::streambuf* b;
        ~Redirect() { o.rdbuf(b); o.clear(); }
    } ro{std::cout, std::cout.rdbuf(global.rdbuf())}, re{std::cerr, std::cerr.rdbuf(global.rdbuf())};
    io::arm(plan);
    if (sc.geti("strings", 0) && !infile) {
        // the entry point of the web / npm / python builds
        string line;
        for (auto& a : args) line += (line.empty() ? "" : " ") + a;
        try {
            auto j = nlohmann::json::parse(lsqecc::run_slicer_program_from_strings(line, input));
            r.out = j.at("output").get<string>();
            r.err = j.at("err").get<string>();
            r.exit = j.at("exit_code").get<int>();
            auto p = r.err.find("Compiler exception: ");
            if (p != string::npos) {
                r.threw = true;
                r.what = r.err.substr(p + 20);
                if (!r.what.empty() && r.what.back() == '\n') r.what.pop_back();
            }
        }
        catch (const std::exception& e) {
            r.threw = true;
            r.what = e.what();
        }
    }
    else {
        io::InBuf ib(infile ? "" : input, infile ? io::Plan{} : plan);
        io::OutBuf ob(plan);
        if (r.used_file) ob.p = io::Plan{};
        std::istream in(&ib);
        std::ostream out(&ob);
        std::ostringstream err;
        vector<const char*> argv{"lsqecc_slicer"};
        for (auto& a : args) argv.push_back(a.c_str());
        try {
            r.exit = lsqecc::run_slicer_program(int(argv.size()), argv.data(), in, out, err);
        }
        catch (const std::exception& e) {
            r.threw = true;
            r.what = e.what();
        }
        r.out = ob.text;
        r.err = err.str();
        r.stdout_failed = ob.failed;
        r.stdin_failed = ib.failed;
    }
    r.io = io::seen();
    io::disarm();
    r.file = r.io.written;
    r.global = global.str();
    return r;
}
}  // namespace sim

// Whole-program runs: complete and correct output (C16), clean failure (C14), input faults (C15), timeouts (C13),
// histories of runs in one process (C17).
#include "cli.hpp"
#include "dag_text.hpp"
#include "fam_cli.hpp"
#include "fam_faults.hpp"
#include "gen.hpp"
#include "seams.hpp"

#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
#include <nlohmann/json.hpp>

#include <csignal>
#include <cstdlib>
#include <poll.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
using nlohmann::json;
namespace {
enum { T_DIST, T_PREPARED, T_QUBIT, T_ROUTING, T_DEAD };

// an independent rendering of a recorded slice
json cell_json(const CellSnap& c)
{
    static const char* plain[] = {"None", "None", "Dashed", "Solid", "None", "None"};
    static const char* active[] = {"None", "AncillaJoin", "DashedStiched", "SolidStiched", "SolidStiched", "DashedStiched"};
    json j;
    static const char* names[] = {"Top", "Bottom", "Left", "Right"};
    for (int i = 0; i < 4; i++) j["edges"][names[i]] = c.ba[i] ? active[c.bt[i]] : plain[c.bt[i]];
    if (c.op >= 0) j["operation_id"] = std::to_string(c.op);
    j["patch_type"] = c.type == T_DIST || c.type == T_PREPARED ? "DistillationQubit" : c.type == T_QUBIT ? "Qubit" : "Ancilla";
    j["activity"]["activity_type"] = c.act == 1 ? json("Measurement") : c.act == 2 ? json("Unitary") : json();
    j["text"] = c.id >= 0 ? cat("Id: ", c.id) : (c.type == T_QUBIT || (c.type == T_DIST && c.act == 0)) ? "Not bound" : "";
    return j;
}
string slice_problem(const json& j, const SliceSnap& s, const LayoutInfo& lay)
{
    if (!j.is_array() || int(j.size()) != s.rows) return "wrong number of rows";
    std::map<int, string> timers;
    for (size_t i = 0; i < lay.regions.size(); i++)
        timers[lay.regions[i].front()] = cat("Time to next magic state:", i < s.timers.size() ? std::to_string(s.timers[i]) : "?");
    for (int r = 0; r < s.rows; r++) {
        if (!j[r].is_array() || int(j[r].size()) != s.cols) return "wrong number of columns";
        for (int c = 0; c < s.cols; c++) {
            int i = r * s.cols + c;
            json want = s.at(i).present ? cell_json(s.at(i)) : json();
            if (timers.count(i)) want["text"] = timers[i];
            if (j[r][c] != want) return cat("cell ", r, ",", c, " is ", j[r][c].dump(), ", the lattice has ", want.dump());
        }
    }
    return "";
}
// "" when the text is a complete JSON array of exactly the first n slices (prefix: may break off after them)
string json_problem(const string& text, const Log& log, bool complete, size_t* got = nullptr)
{
    json j;
    if (complete) {
        j = json::parse(text, nullptr, false);
        if (j.is_discarded()) return "the output is not well-formed JSON: ..." + text.substr(text.size() > 60 ? text.size() - 60 : 0);
        if (!j.is_array()) return "the output is not a JSON array";
        if (j.size() != log.slices.size()) return cat("the output holds ", j.size(), " slices, ", log.slices.size(), " were computed");
    }
    else {
        if (text.empty()) { if (got) *got = 0; return ""; }
        j = json::parse(text + "]", nullptr, false);
        if (j.is_discarded()) {   // may also break off inside a slice: drop the last piece
            auto p = text.rfind(",\n[");
            j = json::parse((p == string::npos ? "[" : text.substr(0, p)) + "]", nullptr, false);
            if (j.is_discarded()) return "the output before the failure is not a sequence of slices";
        }
        if (j.size() > log.slices.size()) return cat("the output holds ", j.size(), " slices, only ", log.slices.size(), " were computed");
    }
    if (got) *got = j.size();
    for (size_t k = 0; k < j.size(); k++) {
        string p = slice_problem(j[k], log.slices[k], log.lay);
        if (!p.empty()) return cat("slice ", k, ": ", p);
    }
    return "";
}
string sliced_text(const Log& log, bool complete)
{
    std::ostringstream o;
    for (auto& e : log.events) {
        if (e.kind == EvKind::Visit) o << print_text(log.visits[e.index]) << ";";
        else if (e.kind == EvKind::Slice) o << "\n";
    }
    if (complete) o << "\n";
    return o.str();
}
// what a printed dependency graph has to show; throws where reading the program fails
DagItem lli_item(const LSInstruction& i)
{
    using namespace lsqecc;
    DagItem d;
    d.text = print_text(i);
    for (auto c : i.clients) d.res.insert(c);
    std::visit([&](const auto& x) {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, MultiPatchMeasurement>) { for (auto& [p, o] : x.observable) { (void)o; d.res.insert(p); } }
        else if constexpr (std::is_same_v<T, BellPairInit>) { for (auto p : {x.side1, x.side2, x.loc1.target, x.loc2.target}) d.res.insert(p); }
        else if constexpr (std::is_same_v<T, BellBasedCNOT>) { for (auto p : {x.control, x.target, x.side1, x.side2}) d.res.insert(p); }
        else if constexpr (requires { x.target; }) d.res.insert(x.target);
    }, i.operation);
    return d;
}
vector<DagItem> dag_reference(const Scenario& sc, const Scenario& rs)
{
    vector<DagItem> v;
    if (sc.get("print") == "dag") {
        std::unique_ptr<lsqecc::Layout> layout;
        ProgramSource src;
        build(rs, layout, src);
        while (src.stream->has_next_instruction() && v.size() <= 250) v.push_back(lli_item(src.stream->get_next_instruction()));
        return v;
    }
    for (auto& l : sc.prog) {
        auto w = words(l);
        if (w.empty()) continue;
        if (!sc.geti("qasm", 0)) { v.push_back(lli_item(lsqecc::parse_ls_instruction(l))); continue; }
        if (w[0] == "OPENQASM" || w[0] == "include" || w[0] == "qreg" || w[0] == "creg" || w[0] == "barrier" || w[0].rfind("//", 0) == 0) continue;
        if (w[0] == "foo") throw std::runtime_error("unknown gate");
        DagItem d;
        d.text = gate_text(l.substr(l.find_first_not_of(' ')));
        vector<int64_t> q;
        for (size_t p = d.text.find('['); p != string::npos; p = d.text.find('[', p + 1)) q.push_back(std::stoll(d.text.substr(p + 1)));
        d.res.insert(q.begin(), q.end());
        if (q.size() == 2) { d.ctrl = q[0]; d.tgt = {q[1]}; }
        v.push_back(d);
    }
    return v;
}
struct Volumes { size_t volume = 0, unused = 0, dist = 0, dead = 0; };
Volumes volumes(const Log& log)
{
    Volumes v;
    for (auto& s : log.slices) {
        v.volume += s.cells.size();
        for (auto& c : s.cells) {
            if (!c.present) v.unused++;
            else if (c.type == T_DIST || (log.lay.magic_reserved && c.type == T_PREPARED)) v.dist++;
            else if (c.type == T_DEAD) v.dead++;
        }
    }
    return v;
}
bool number_after(const string& text, const string& key, uint64_t& n)
{
    auto p = text.find(key);
    if (p == string::npos) return false;
    try { n = std::stoull(text.substr(p + key.size())); } catch (...) { return false; }
    return true;
}

Scenario gen_cli(uint64_t seed, const string& focus)
{
    Rng r(mix(seed, 0xc11));
    Scenario sc = cli_scenario(seed, focus, r);
    if (!sc.geti("infile", 0)) sc.set("strings", r.chance(0.3));
    if (focus == "C14" || focus == "C13") {
        sc.set("strings", r.chance(0.3) && !sc.geti("infile", 0));
        if (focus == "C13" || r.chance(0.4)) {
            sc.set("timeout", r.range(0, 5));
            sc.set("idle", 400);                 // the reference goes on for longer than the timeout allows
            sc.faults.push_back(cat("tick ", r.range(40, 2000) * 1000000));
        }
        if (focus == "C14" && r.chance(0.5)) {   // an instruction that cannot work, somewhere
            if (sc.geti("qasm", 0)) sc.prog.push_back(r.chance(0.5) ? "foo q[0];" : "h q[99];");
            else {
                static const char* bad[] = {"LogicalPauli 999999 X", "HGate 999999", "MeasureSinglePatch 999999 Z", "Nonsense 1", "Init", "BellPairInit 800001 800002 0:X,999999:Z", "BellPairInit 800001 800002 999999:X,0:Z", "BellBasedCNOT 0 999999 800001 800002", "BellBasedCNOT 999999 0 800001 800002", "MultiBodyMeasure 0:X,999999:Z", "SGate 999999"};
                sc.prog.insert(sc.prog.begin() + long(r.below(sc.prog.size() + 1)), bad[r.below(11)]);
            }
            sc.set("badins", 1);
        }
        return sc;
    }
    if (focus == "C15") {
        sc.set("strings", 0);
        if (r.chance(0.7)) sc.faults.push_back(cat("in_fail ", r.below(cli_input(sc).size() + 1)));
        if (r.chance(0.7)) sc.faults.push_back(cat("in_chunk ", r.chance(0.5) ? 1 : r.range(2, 200), " ", r.below(1000000)));
        if (sc.geti("infile", 0) && r.chance(0.3)) sc.faults.push_back(cat("in_eintr ", r.range(2, 5)));
        if (r.chance(0.2)) sc.faults.push_back(cat("in_stall ", r.range(1, 100000) * 1000000));
        return sc;
    }
    // output faults
    bool file = sc.geti("outfile", 0);
    if (r.chance(0.6)) {
        sc.set("strings", 0);
        switch (r.weighted({6, 1, 1, 2, 1, 1})) {
        case 0: {
            int64_t at = r.chance(0.2) ? r.range(0, 4) : r.chance(0.6) ? r.range(0, 3000) : r.range(0, 60000);
            sc.faults.push_back(cat("out_fail ", at, " ", r.chance(0.6) ? 28 : r.chance(0.5) ? 5 : 122, " ", r.chance(0.6) ? 1 : 0));
            break;
        }
        case 1: sc.faults.push_back(file ? "open_fails" : "sync_fails"); break;
        case 2: sc.faults.push_back(file ? "close_fails" : "sync_fails"); break;
        case 3: sc.faults.push_back(cat("out_chunk ", r.chance(0.5) ? 1 : r.range(2, 5000))); break;
        case 4: sc.faults.push_back(cat("out_eintr ", r.range(2, 4))); break;
        case 5: sc.faults.push_back(cat("out_stall ", r.range(1, 5000) * 1000000)); break;
        }
        if (r.chance(0.3)) sc.faults.push_back(cat("out_chunk ", r.range(1, 3000)));
        if (r.chance(0.2)) sc.faults.push_back(cat("out_stall ", r.range(1, 5000) * 1000000));
    }
    if (r.chance(0.2)) sc.faults.push_back(cat("in_chunk ", r.range(1, 50), " ", r.below(1000000)));
    return sc;
}

void run_cli_family(const Scenario& sc, const string& focus, Outcome& out)
{
    Outcome scratch;
    Log ref;
    Scenario rs = cli_reference(sc);
    int64_t tick = 0;
    for (auto& l : sc.faults) { auto w = words(l); if (w.size() > 1 && w[0] == "tick") tick = std::stoll(w[1]); }
    io::Plan plan = cli_plan(sc);
    bool dag = sc.get("print").rfind("dag", 0) == 0;
    vector<DagItem> dag_want;
    string dag_error;
    if (dag) {
        try { dag_want = dag_reference(sc, rs); }
        catch (const std::exception& e) { dag_error = e.what(); }
        if (dag_want.size() > 250) { out.count("skipped_large"); return; }
    }
    // the reference recording; unparsable input ends it before or during slicing
    run_lattice(rs, ref, scratch);
    bool unfinished = !ref.finished && !ref.threw;
    string print = sc.get("print", "slices");
    out.hash = ref.hash();
    if (unfinished && print != "before" && !dag && !(sc.opt.count("timeout") && tick)) { out.count("skipped_endless"); return; }
    seam::clock_sim(true);
    seam::clock_set_ns(int64_t(sc.seed % 1000000007) * 1000);
    seam::clock_step_per_read_ns(tick);
    CliRun c = run_cli(sc, plan);
    int64_t clock_end = seam::clock_ns() - int64_t(sc.seed % 1000000007) * 1000;
    seam::clock_sim(false);
    out.sim_time = ref.slices.size();
    out.hash = mix(out.hash, hash_str(c.text()));
    out.count("program_runs");
    if (c.io.write_failed || (c.stdout_failed && !plan.sync_fails)) out.count(plan.out_errno == 28 ? "fault_enospc" : "fault_io_error");
    if (c.io.shorts) out.count("fault_short_write", c.io.shorts);
    if (c.io.eintrs) out.count("fault_eintr", c.io.eintrs);
    if (c.io.open_failed) out.count("fault_open_failed");
    if (c.io.close_failed) out.count("fault_close_failed");
    if (c.stdout_failed && plan.sync_fails) out.count("fault_flush_failed");
    if (c.io.read_failed || c.stdin_failed) out.count("fault_read_error");
    const string& bulk = c.used_file ? c.file : c.out;
    bool graceful = sc.geti("graceful", 0);
    bool read_failed = c.io.read_failed || c.stdin_failed;
    bool timed_out = c.what.find("Out of time") != string::npos || c.global.find("Out of time") != string::npos;
    auto tail = [&] { return cat(" [exit ", c.exit, c.threw ? " exception " + c.what : string(), "; stderr: ", c.err.substr(0, 120), c.global.substr(0, 120), "]"); };

    if (read_failed) {
        if (c.ok() && !graceful) out.v("C15", "truncated-read", "reading the program failed, but the run reported success" + tail());
        if (c.ok() && graceful && c.global.empty() && c.err.empty()) out.v("C15", "truncated-read", "reading the program failed, but the graceful run reported nothing" + tail());
        if (print == "slices" && !c.fault_fired()) {
            string p = json_problem(bulk, ref, c.ok());
            if (!c.ok() && !p.empty()) out.v("C14", "not-a-prefix", "output before the read error: " + p + tail());
        }
        out.nontrivial = true;
        return;
    }
    if (c.fault_fired()) {
        if (c.ok()) out.v("C16", "silent-loss", cat("output could not be written (", c.io.open_failed ? "open" : c.io.close_failed ? "close" : "write", " failed), but the program reported success", tail()));
        out.nontrivial = true;
        return;
    }
    if (print == "before") {
        if (ref.setup_failed) { if (c.ok() && !sc.geti("badins", 0)) out.v("C14", "complete-looking", "unusable input, but the program reported success" + tail()); return; }
        std::unique_ptr<lsqecc::Layout> layout;
        ProgramSource src;
        std::ostringstream want;
        try {
            build(rs, layout, src);
            while (src.stream->has_next_instruction()) want << print_text(src.stream->get_next_instruction()) << "\n";
        }
        catch (const std::exception& e) {
            if (c.ok()) out.v("C14", "complete-looking", cat("unusable input (", e.what(), "), but the program reported success", tail()));
            return;
        }
        if (!c.ok()) out.v("C16", "spurious-failure", "printing the instructions failed" + tail());
        else if (c.out != want.str()) out.v("C16", "lli-differs", cat("printed instructions differ from the instruction stream: ", c.out.substr(0, 100), " / ", want.str().substr(0, 100)));
        return;
    }
    if (dag) {
        out.count("printed_dags");
        if (!dag_error.empty() || ref.setup_failed) {
            if (c.ok() && (!dag_error.empty() || print == "dag")) out.v("C14", "complete-looking", cat("unusable input (", dag_error, "), but the program reported success", tail()));
            if (!c.ok()) return;
        }
        if (!c.ok()) { out.v("C16", "spurious-failure", "printing the dependency graph failed" + tail()); return; }
        string p = dag_text_problem(c.out, dag_want);
        if (!p.empty()) out.v(focus == "C15" ? "C15" : "C16", "dag", p);
        out.nontrivial = dag_want.size() >= 3;
        out.states.push_back(hash_str(c.out));
        return;
    }
    if (timed_out) {
        out.count("timeouts_expired");
        if (!sc.opt.count("timeout") || clock_end <= sc.geti("timeout", 0) * 1000000000) out.v("C13", "early", cat("timed out although only ", double(clock_end) / 1e9, " s passed", tail()));
        if (graceful != c.ok()) out.v(graceful ? "C14" : "C13", graceful ? "graceful-throws" : "silent", "wrong end of a timed out run" + tail());
        size_t n = 0;
        if (print == "slices" && !ref.setup_failed) {
            bool complete = graceful;
            if (complete) {
                json j = json::parse(bulk, nullptr, false);
                if (j.is_discarded() || !j.is_array()) out.v("C14", "graceful-malformed", "graceful run left malformed output: ..." + bulk.substr(bulk.size() > 60 ? bulk.size() - 60 : 0));
                else {
                    string t = bulk;
                    while (!t.empty() && t.back() != ']') t.pop_back();
                    if (!t.empty()) t.pop_back();
                    while (!t.empty() && t.back() == '\n') t.pop_back();
                    if (t == "[") t.clear();
                    string p = json_problem(t, ref, false, &n);
                    if (!p.empty()) out.v("C14", "not-a-prefix", "output before the timeout: " + p);
                }
            }
            else {
                string p = json_problem(bulk, ref, false, &n);
                if (!p.empty()) out.v("C14", "not-a-prefix", "output before the timeout: " + p);
            }
        }
        out.nontrivial = true;
        return;
    }
    if (unfinished) { out.v("C13", "missed", cat("an endless run came back without a timeout", tail())); return; }
    if (ref.setup_failed || ref.threw) {
        if (!graceful || ref.setup_failed || c.threw) {
            if (c.ok() && !(graceful && !(c.global + c.err).empty())) out.v("C14", "complete-looking", cat("slicing fails (", ref.error, "), but the program reported success", tail()));
            if (c.threw && !ref.setup_failed && c.what != ref.error) out.v("C14", "changed-error", cat("slicing fails with \"", ref.error, "\", the program with \"", c.what, "\""));
            if (graceful && c.threw && !ref.setup_failed) out.v("C14", "graceful-throws", "a graceful run ended with an exception" + tail());
            if (print == "slices" && !ref.setup_failed) {
                size_t n = 0;
                string p = json_problem(bulk, ref, false, &n);
                if (!p.empty()) out.v("C14", "not-a-prefix", "output before the failure: " + p + tail());
                else if (n != ref.slices.size()) out.v("C14", "lost-output", cat("only ", n, " of the ", ref.slices.size(), " slices before the failure were written", tail()));
            }
        }
        else {
            if (!c.ok()) out.v("C14", "graceful-throws", "a graceful run returned a failure code" + tail());
            if (c.global.find(ref.error) == string::npos && c.err.find(ref.error) == string::npos && c.out.find(ref.error) == string::npos)
                out.v("C14", "graceful-silent", cat("a graceful run did not report \"", ref.error, "\"", tail()));
            if (print == "slices") {
                string p = json_problem(bulk, ref, true);
                if (!p.empty()) out.v("C14", "graceful-malformed", "graceful run: " + p);
            }
        }
        out.nontrivial = ref.slices.size() > 0;
        if (out.nontrivial) out.count("program_failures");
        return;
    }
    // success expected
    string P = focus == "C15" ? "C15" : "C16";
    if (!c.ok()) { out.v(P, "spurious-failure", "the run should succeed" + tail()); return; }
    if (print == "slices") {
        string p = json_problem(bulk, ref, true);
        if (!p.empty()) out.v(P, "json", p);
    }
    if (print == "sliced") {
        string want = sliced_text(ref, true);
        if (bulk != want && !(c.out == bulk && c.out.rfind(want, 0) == 0)) {
            size_t i = 0;
            while (i < bulk.size() && i < want.size() && bulk[i] == want[i]) i++;
            out.v(P, "sliced-lli", cat("differs at byte ", i, ": \"", bulk.substr(i, 60), "\" instead of \"", want.substr(i, 60), "\""));
        }
    }
    bool reports = c.used_file || print == "none";
    string fmt = sc.get("fmt", reports ? "progress" : "noprogress");
    if (reports && (fmt == "progress" || fmt == "stats")) {
        uint64_t n;
        if (!number_after(c.out, "LS Instructions read", n)) out.v(P, "no-count", "no instruction count in the report: " + c.out.substr(0, 200));
        else if (n != ref.count_instr) out.v(P, "count", cat("reports ", n, " instructions, ", ref.count_instr, " were counted"));
        else if (sc.get("mode", "stream") == "stream" && n != ref.pulls.size()) out.v(P, "count", cat("reports ", n, " instructions, ", ref.pulls.size(), " were read"));
    }
    if (reports && fmt == "machine") {
        auto w = split(c.out, ',');
        if (w.size() < 3 || w[0] != std::to_string(ref.count_instr)) out.v(P, "machine", "machine report: " + c.out.substr(0, 100));
    }
    if (reports && fmt == "stats") {
        Volumes v = volumes(ref);
        const std::pair<const char*, size_t> want[] = {{"Total volume: ", v.volume}, {"Distillation volume: ", v.dist}, {"Unused routing volume: ", v.unused},
                                                       {"Dead volume: ", v.dead}, {"Other active volume: ", v.volume - v.unused - v.dist - v.dead}};
        for (auto& [k, x] : want) {
            uint64_t n;
            if (!number_after(c.out, k, n)) out.v(P, "no-stats", cat("no \"", k, "\" in the report"));
            else if (n != x) out.v(P, "stats", cat(k, n, ", the slices have ", x));
        }
    }
    out.nontrivial = ref.slices.size() >= 2;
    for (auto& s : ref.slices) out.states.push_back(mix(s.hash(), hash_str(print + fmt)));
}

// ------------------------------------------------------------ histories (C17)
Scenario gen_history(uint64_t seed, const string&)
{
    Rng r(mix(seed, 0x415));
    uint64_t ts = r.next() >> 1;
    bool lat = r.chance(0.35);
    Scenario sc;
    if (lat) {
        static const char* base_focus[] = {"C01", "C07", "C08", "C09", "C10", "C11", "C12"};
        sc = gen_lattice(ts, base_focus[r.below(7)]);
        sc.set("target", "lattice");
        sc.set("cap", 400);
        sc.set("idle", 25);
    }
    else {
        sc = cli_scenario(ts, "C17", r);
        sc.set("target", "program");
        if (!sc.geti("infile", 0)) sc.set("strings", r.chance(0.6));
    }
    sc.set("targetseed", int64_t(ts));
    int n = int(r.range(1, 4));
    for (int i = 0; i < n; i++) sc.faults.push_back(cat("hist ", r.below(4), " ", r.next() >> 1));
    return sc;
}
void run_any(const Scenario& sc, std::string& text)
{
    Outcome scratch;
    if (sc.get("target") == "lattice") {
        Log log;
        run_lattice(sc, log, scratch);
        std::ostringstream o;
        for (auto& e : log.events) {
            if (e.kind == EvKind::Visit) o << "I " << log.visits[e.index] << "\n";
            if (e.kind == EvKind::Slice) o << "S " << log.slices[e.index].hash() << "\n";
            if (e.kind == EvKind::Pull) o << "P " << log.pulls[e.index] << "\n";
        }
        o << log.finished << log.threw << log.stopped_idle << log.stopped_cap << " " << log.error << "\n";
        text = o.str();
        return;
    }
    // endless runs end by a timeout on the ticking clock
    Scenario s = sc;
    if (!s.opt.count("timeout")) s.set("timeout", 300);
    text = run_cli(s, cli_plan(s)).text();
}
// one child process: the history, then the target; its result comes back through a pipe
struct Child { pid_t pid; int fd; };
Child start_child(const Scenario& sc, bool with_history, int heap_mode, int64_t clock0)
{
    int p[2];
    if (pipe(p)) return {-1, -1};
    pid_t pid = fork();
    if (pid != 0) { close(p[1]); return {pid, p[0]}; }
    close(p[0]);
    FILE* nul = fopen("/dev/null", "w");
    if (nul) dup2(fileno(nul), 1);
    itimerval t{};
    t.it_value.tv_sec = 20;
    setitimer(ITIMER_PROF, &t, nullptr);
    seam::heap_layout(heap_mode, sc.seed);
    // what memory holds before anyone wrote to it: differs between the two processes
    static const unsigned char junk[] = {0xFF, 0x00, 0x01, 0x02};
    const unsigned char before = with_history ? junk[sc.seed / 2 % 4] : 0xA7;
    seam::fresh_memory(before);
    seam::clock_sim(true);
    seam::clock_set_ns(clock0);
    seam::clock_step_per_read_ns(1000000000);     // one second per look at the clock: 300 slices until the timeout
    if (with_history)
        for (auto& l : sc.faults) {
            auto w = words(l);
            if (w.size() < 3 || w[0] != "hist") continue;
            uint64_t hs = std::stoull(w[2]);
            int kind = std::stoi(w[1]);
            string ignored;
            if (kind == 0) {
                Scenario h = prefix_family().gen(hs, "C17");
                h.set("target", "lattice");
                h.set("cap", 200);
                run_any(h, ignored);
            }
            else {
                Scenario h = gen_cli(hs, kind == 1 ? "C14" : kind == 2 ? "C15" : "C16");
                h.set("timeout", 100);
                run_any(h, ignored);
            }
        }
    seam::clock_set_ns(clock0 + (with_history ? 12345678901 : 0));
    Scenario target = sc;
    vector<string> keep;
    for (auto& l : sc.faults) if (l.rfind("hist", 0) != 0) keep.push_back(l);
    target.faults = keep;
    if (!with_history) {}
    else if (target.get("target") == "program") target.faults.push_back(cat("in_chunk ", 1 + sc.seed % 40, " ", sc.seed % 1000));
    string text;
    seam::fresh_stack(before);
    run_any(target, text);
    for (size_t o = 0; o < text.size();) {
        ssize_t k = ::write(p[1], text.data() + o, text.size() - o);
        if (k <= 0) break;
        o += size_t(k);
    }
    _exit(0);
}
string collect(Child c, int& status)
{
    string s;
    char b[65536];
    for (;;) {
        ssize_t k = ::read(c.fd, b, sizeof b);
        if (k <= 0) break;
        s.append(b, size_t(k));
    }
    close(c.fd);
    waitpid(c.pid, &status, 0);
    return s;
}
void run_history(const Scenario& sc, const string&, Outcome& out)
{
    io::scratch();
    int st1 = 0, st2 = 0;
    string fresh = collect(start_child(sc, false, 0, 1000000000), st1);
    string after = collect(start_child(sc, true, 1 + int(sc.seed % 2), 777000000000 + int64_t(sc.seed % 1000)), st2);
    out.hash = mix(hash_str(fresh), hash_str(after));
    out.sim_time = 2 + sc.faults.size();
    int n = 0;
    for (auto& l : sc.faults) n += l.rfind("hist", 0) == 0;
    out.count("earlier_runs", uint64_t(n));
    out.count("fault_history", 1);
    if (st1 != 0 || st2 != 0) {
        if (st1 != st2) out.v("C17", "ends-differently", cat("in a fresh process the run ended with status ", st1, ", after the history with ", st2));
        return;
    }
    if (fresh != after) {
        size_t i = 0;
        while (i < fresh.size() && i < after.size() && fresh[i] == after[i]) i++;
        size_t a = i > 60 ? i - 60 : 0;
        out.v("C17", "history", cat("differs at byte ", i, " of the result: fresh \"", fresh.substr(a, 140), "\", after the history \"", after.substr(a, 140), "\""));
    }
    out.nontrivial = fresh.size() > 200;
    out.states.push_back(hash_str(fresh));
}
}  // namespace

Family cli_family() { return {gen_cli, run_cli_family, nullptr}; }
Family history_family() { return {gen_history, run_history, nullptr}; }
}  // namespace sim

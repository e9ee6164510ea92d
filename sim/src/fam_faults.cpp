// Faulted and timed runs, compared with the fault-free run of the same scenario.
#include "fam_faults.hpp"
#include "gen.hpp"
#include "lattice.hpp"
#include "seams.hpp"

#include <algorithm>

namespace sim {
namespace {
string step_text(const Log& l, const Ev& e)
{
    std::ostringstream o;
    if (e.kind == EvKind::Slice) o << "slice " << e.index << " hash " << l.slices[e.index].hash();
    else if (e.kind == EvKind::Visit) o << "instruction " << l.visits[e.index];
    return o.str();
}
vector<const Ev*> emitted(const Log& l)
{
    vector<const Ev*> r;
    for (auto& e : l.events) if (e.kind == EvKind::Slice || e.kind == EvKind::Visit) r.push_back(&e);
    return r;
}
// "" when a's output is a prefix of (or, with all, equal to) b's
string prefix_problem(const Log& a, const Log& b, bool all)
{
    auto x = emitted(a), y = emitted(b);
    for (size_t i = 0; i < x.size(); i++) {
        if (i >= y.size()) return cat("it emitted ", x.size(), " items, the reference only ", y.size(), "; first extra: ", step_text(a, *x[i]));
        if (x[i]->kind != y[i]->kind || step_text(a, *x[i]) != step_text(b, *y[i]))
            return cat("item ", i, " (", x[i]->kind == EvKind::Slice ? "slice " : "instruction ", x[i]->index, "): ", step_text(a, *x[i]), " instead of ", step_text(b, *y[i]));
    }
    if (all && x.size() != y.size()) return cat("it emitted ", x.size(), " items, the reference ", y.size());
    return "";
}
string outcome_text(const Log& l)
{
    return l.setup_failed ? "setup failed: " + l.error : l.threw ? "exception: " + l.error : l.finished ? "finished" : l.stopped_idle ? "idle" : "capped";
}
Scenario strip(const Scenario& sc, const std::set<string>& kinds)
{
    Scenario s = sc;
    s.faults.clear();
    for (auto& l : sc.faults) {
        auto w = words(l);
        if (w.empty() || !kinds.count(w[0])) s.faults.push_back(l);
    }
    return s;
}
const std::set<string> FAULTS{"source_throw", "router_throw", "slice_throw", "visit_throw", "alloc_fail"};

// ------------------------------------------------------------ faults at any point (C14)
Scenario gen_prefix(uint64_t seed, const string& focus)
{
    static const char* base_focus[] = {"C14", "C14", "C08", "C09", "C10", "C11", "C12", "C07"};
    Rng r(mix(seed, 0xfa01));
    Scenario sc = gen_lattice(seed, r.pick(vector<string>(base_focus, base_focus + 8)));
    sc.set("idle", 25);
    sc.set("graceful", r.chance(0.4));
    int kind = int(r.weighted({3, 2, 3, 3, 3, 2, 2}));
    int at = int(r.chance(0.4) ? r.below(6) : r.chance(0.7) ? r.below(25) : r.below(120));
    switch (kind) {
    case 0: sc.faults.push_back(cat("source_throw ", at)); break;
    case 1: sc.faults.push_back(cat("router_throw ", at)); break;
    case 2: sc.faults.push_back(cat("slice_throw ", at)); break;
    case 3: sc.faults.push_back(cat("visit_throw ", at)); break;
    case 4: sc.faults.push_back(cat("alloc_fail ", 1 + (r.chance(0.3) ? r.below(60) : r.chance(0.7) ? r.below(1500) : r.below(20000)))); break;
    case 5:   // a retry budget that runs out: everything is refused from some slice on
        if (!sc.geti("qasm", 0)) {
            for (auto& l : sc.prog) {
                auto sp = l.find(' ');
                if (sp != string::npos && r.chance(0.5)) l = cat(r.below(3)) + l.substr(sp);
            }
        }
        sc.set("budgets", 1);
        sc.faults.push_back(cat("refuse ", r.below(12), " 400 ", r.chance(0.7) ? 1000 : 700, " ", r.below(1000000)));
        break;
    case 6: {   // an instruction that can never work
        static const char* bad[] = {"LogicalPauli 999999 X", "HGate 999999", "MeasureSinglePatch 999999 Z", "RotateSingleCellPatch 999999", "BellPairInit 800001 800002 0:X,999999:Z", "BellPairInit 800001 800002 999999:X,0:Z", "BellBasedCNOT 0 999999 800001 800002", "BellBasedCNOT 999999 0 800001 800002", "MultiBodyMeasure 0:X,999999:Z", "SGate 999999"};
        if (!sc.geti("qasm", 0)) {
            size_t p = r.below(sc.prog.size() + 1);
            sc.prog.insert(sc.prog.begin() + long(p), cat("- - ", bad[r.below(10)]));
        }
        else {
            sc.prog.push_back(r.chance(0.5) ? "h q[77];" : "foo q[0];");
            if (r.chance(0.5) && sc.prog.size() > 6) std::swap(sc.prog.back(), sc.prog[5]);
        }
        sc.set("badins", 1);
        break;
    }
    }
    return sc;
}

void run_prefix(const Scenario& sc, const string&, Outcome& out)
{
    const string P = "C14";
    Hasher h;
    Outcome scratch;                // findings of the lattice oracles belong to other properties
    bool graceful = sc.geti("graceful", 0);
    Scenario failing = sc, quiet = sc, ref = strip(sc, FAULTS);
    failing.set("graceful", 0);
    ref.set("graceful", 0);
    if (sc.geti("budgets", 0))
        for (auto& l : ref.prog) {
            auto sp = l.find(' ');
            if (sp != string::npos && !sc.geti("qasm", 0)) l = "-" + l.substr(sp);
        }
    Log full, fail, grace;
    run_lattice(failing, fail, scratch);
    out.hash = fail.hash();
    for (auto& [k, n] : fail.counters) out.count(k, n);
    bool bad_alloc = fail.threw && fail.error_type.find("bad_alloc") != string::npos;
    if (!sc.geti("badins", 0)) {
        run_lattice(ref, full, scratch);
        out.sim_time = fail.slices.size() + full.slices.size();
        if (full.setup_failed || fail.setup_failed) {
            // the layout or the input was rejected before slicing began
            if (full.setup_failed != fail.setup_failed && !bad_alloc) out.v(P, "setup", "setup failed in one of the runs only");
            return;
        }
        bool budget = sc.geti("budgets", 0);
        if (fail.fault_fired) {
            bool alloc = fail.counters.count("fault_alloc");
            if (!fail.threw && !alloc)
                out.v(P, "swallowed", cat("the failure never reached the caller; the run ended as: ", outcome_text(fail)));
            if (fail.threw && !alloc && fail.error.find("injected:") == string::npos) out.v(P, "changed-error", "the injected failure was reported as: " + fail.error);
        }
        bool same_end = !fail.threw;    // nothing failed (or the failure was absorbed): same result as without
        string p = prefix_problem(fail, full, same_end);
        if (!p.empty()) out.v(P, "not-a-prefix", cat("run ended as [", outcome_text(fail), "], fault-free run as [", outcome_text(full), "]: ", p));
        if (same_end && outcome_text(fail) != outcome_text(full) && !budget)
            out.v(P, "silent", cat("ended as [", outcome_text(fail), "] instead of [", outcome_text(full), "]"));
        if (fail.threw && full.finished && !fail.fault_fired && !budget)
            out.v(P, "spurious", "a run without a failure threw: " + fail.error);
        if (budget && fail.threw) out.count("fault_budget_exhausted");
    }
    else {
        out.sim_time = fail.slices.size();
        out.count("fault_unusable_instruction");
        if (fail.finished && !fail.setup_failed)
            out.v(P, "complete-looking", "a program with an unusable instruction finished as if nothing was wrong");
    }
    if (graceful && !fail.setup_failed && !fail.stopped_cap) {
        run_lattice(quiet, grace, scratch);
        out.sim_time += grace.slices.size();
        h.u(out.hash);
        h.u(grace.hash());
        out.hash = h.h;
        bool alloc = fail.counters.count("fault_alloc") || grace.counters.count("fault_alloc");
        if (grace.threw && !(alloc && grace.events.empty())) out.v(P, "graceful-throws", "a graceful run ended with an exception: " + grace.error);
        string p = prefix_problem(grace, alloc ? full : fail, !alloc && !(sc.geti("badins", 0) && false));
        if (!p.empty()) out.v(P, "graceful-differs", "graceful run differs from the normal run: " + p);
        if (fail.threw && !alloc) {
            out.count("graceful_errors");
            if (grace.graceful_text.find(fail.error) == string::npos)
                out.v(P, "graceful-silent", cat("a graceful run did not report the error \"", fail.error, "\"; it reported \"", grace.graceful_text.substr(0, 200), "\""));
            if (grace.finished && grace.count_instr > grace.pulls.size() + 1 && sc.get("mode", "stream") == "stream")
                out.v(P, "graceful-count", cat("a graceful run counts ", grace.count_instr, " instructions of ", grace.pulls.size(), " read"));
        }
        if (!fail.threw && grace.finished && !alloc && !grace.graceful_text.empty())
            out.v(P, "graceful-noise", "a graceful run without failure reported: " + grace.graceful_text.substr(0, 200));
    }
    out.nontrivial = fail.threw && (fail.slices.size() > 0 || fail.visits.size() > 0);
    for (auto& s : fail.slices) out.states.push_back(mix(s.hash(), hash_str(fail.error_type)));
}

// ------------------------------------------------------------ the clock (C13)
Scenario gen_timeout(uint64_t seed, const string&)
{
    static const char* base_focus[] = {"C13", "C13", "C08", "C09", "C10", "C11", "C12", "C07"};
    Rng r(mix(seed, 0xc10c));
    Scenario sc = gen_lattice(seed, r.pick(vector<string>(base_focus, base_focus + 8)));
    sc.set("idle", 25);
    sc.set("graceful", r.chance(0.4));
    int64_t t = r.chance(0.1) ? 0 : r.chance(0.8) ? r.range(1, 20) : r.chance(0.8) ? r.range(100, 100000) : r.range(2000000, 9000000);
    sc.set("timeout", t);
    sc.set("clock0", r.range(1, 1000000) * 1000000 + r.range(0, 999999));
    const int64_t S = 1000000000;
    int style = int(r.weighted({3, 3, 2, 2}));
    auto step = [&]() -> int64_t {
        switch (style) {
        case 0: return r.range(0, 2) * S / 2;                 // half seconds
        case 1: return r.range(0, S * 3);                     // anything
        case 2: return r.chance(0.1) ? r.range(1, 30) * S : 0;   // rare long stalls
        default: return r.chance(0.5) ? r.range(0, 3) * S : r.range(-1, 1) + S;
        }
    };
    int n = int(r.range(2, 25));
    for (int i = 0; i < n; i++) {
        int64_t d = std::max<int64_t>(0, step());
        if (d) sc.faults.push_back(cat(r.chance(0.7) ? "stall_slice " : "stall_pull ", r.below(25), " ", d));
    }
    if (r.chance(0.25)) {                                     // land exactly on the limit, or one tick beside it
        sc.faults.clear();
        int k = int(r.range(0, 8));
        sc.faults.push_back(cat("stall_slice ", k, " ", std::max<int64_t>(0, t * S + r.range(-1, 1))));
        if (r.chance(0.6)) sc.faults.push_back(cat("stall_slice ", k + int(r.range(1, 4)), " ", r.range(0, 2)));
    }
    if (r.chance(0.3)) sc.faults.push_back(cat("wall_jump ", r.below(15), " ", r.range(-100000, 100000) * S));
    return sc;
}

void run_timeout(const Scenario& sc, const string&, Outcome& out)
{
    const string P = "C13";
    static const std::set<string> CLOCK{"stall_slice", "stall_pull", "wall_jump"};
    const int64_t S = 1000000000;
    std::map<int, int64_t> at_slice, at_pull, wall;
    for (auto& l : sc.faults) {
        auto w = words(l);
        if (w.size() < 3 || !CLOCK.count(w[0])) continue;
        auto& m = w[0] == "stall_slice" ? at_slice : w[0] == "stall_pull" ? at_pull : wall;
        m[std::stoi(w[1])] += std::stoll(w[2]);
    }
    Outcome scratch;
    auto timed = [&](const Scenario& s, Log& log, vector<int64_t>& due, int64_t& start, int64_t& end, bool stall) {
        seam::clock_sim(true);
        seam::clock_set_ns(s.geti("clock0", 1) * 1000 + 1);
        start = seam::clock_ns();
        int pulls = 0;
        RunHooks hk;
        hk.before_pull = [&] {
            if (stall && at_pull.count(pulls)) { seam::clock_advance_ns(at_pull[pulls]); out.count("fault_stalled_source"); }
            pulls++;
        };
        hk.on_slice = [&](const lsqecc::DenseSlice&) {
            int k = int(log.slices.size());
            due.push_back(seam::clock_ns());
            if (!stall) return;
            if (wall.count(k)) { seam::clock_wall_jump_ns(wall[k]); out.count("fault_wall_clock_jump"); }
            if (at_slice.count(k)) { seam::clock_advance_ns(at_slice[k]); out.count("fault_stalled_consumer"); }
        };
        run_lattice(s, log, scratch, hk);
        end = seam::clock_ns();
        seam::clock_sim(false);
    };
    Scenario fail = sc, ref = sc;
    fail.set("graceful", 0);
    ref.set("graceful", 0);
    ref.opt.erase("timeout");
    int64_t T = sc.geti("timeout", 0) * S;
    Log full, log, grace, frozen;
    vector<int64_t> due, due2, due3;
    int64_t start, end, s2, e2;
    timed(fail, log, due, start, end, true);
    timed(ref, full, due2, s2, e2, true);
    out.hash = log.hash();
    out.sim_time = uint64_t((end - start) / S);
    if (log.setup_failed || full.setup_failed) return;
    // the same elapsed time without a timeout changes nothing
    timed(ref, frozen, due3, s2, e2, false);
    string p = prefix_problem(frozen, full, true);
    if (!p.empty() || outcome_text(frozen) != outcome_text(full)) out.v(P, "clock-matters", "without a timeout, elapsed time changed the result: " + p);
    for (size_t k = 0; k < due.size(); k++)
        if (due[k] - start > T) out.v(P, "late", cat("slice ", k, " was emitted ", double(due[k] - start) / S, " s after the start, with a timeout of ", T / S, " s"));
    bool out_of_time = log.threw && log.error.find("Out of time") != string::npos;
    bool expired = end - start > T;
    p = prefix_problem(log, full, false);
    if (!p.empty()) out.v(P, "not-a-prefix", "the timed run differs from the untimed run: " + p);
    if (log.threw && !full.threw && !out_of_time && !expired) out.v(P, "error", "the timed run failed: " + log.error);
    if (log.threw && !expired && (!full.threw || log.slices.size() < full.slices.size()))
        out.v(P, "early", cat("the run was stopped (", log.error, ") after ", double(end - start) / S, " s, with a timeout of ", T / S, " s"));
    if (!log.threw && outcome_text(log) == outcome_text(full)) {
        p = prefix_problem(log, full, true);
        if (!p.empty()) out.v(P, "incomplete", "the timed run ended like the untimed one but differs: " + p);
    }
    if (!log.threw && outcome_text(log) != outcome_text(full))
        out.v(P, "silent", cat("the timed run ended as [", outcome_text(log), "], the untimed one as [", outcome_text(full), "]"));
    // the first slice due after the limit must not be emitted: the reference knows when it is due
    if (expired && log.threw) out.count("timeouts_expired");
    for (size_t k = 0; k < due2.size(); k++)
        if (due2[k] - s2 > T) {
            break;
        }
    if (log.slices.size() < full.slices.size() && !log.threw && log.finished)
        out.v(P, "truncated", cat("the run returned normally with ", log.slices.size(), " of ", full.slices.size(), " slices"));
    if (sc.geti("graceful", 0)) {
        vector<int64_t> due4;
        int64_t s4, e4;
        timed(sc, grace, due4, s4, e4, true);
        p = prefix_problem(grace, log, true);
        if (!p.empty()) out.v(P, "graceful-differs", "graceful timed run differs: " + p);
        if (grace.threw) out.v(P, "graceful-throws", "a graceful run ended with an exception: " + grace.error);
        if (out_of_time && grace.graceful_text.find("Out of time") == string::npos) out.v(P, "graceful-silent", "the timeout of a graceful run was not reported");
        out.hash = mix(out.hash, grace.hash());
    }
    out.nontrivial = end > start && full.slices.size() >= 2;
    for (auto& s : log.slices) out.states.push_back(mix(s.hash(), uint64_t(out_of_time)));
}
}  // namespace

Family prefix_family() { return {gen_prefix, run_prefix, nullptr}; }
Family timeout_family() { return {gen_timeout, run_timeout, nullptr}; }
}  // namespace sim

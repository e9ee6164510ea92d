// Simulator driver.
//   lsqsim gen <property> <seed>                         print the scenario of a seed
//   lsqsim run <file> <property>                         execute one scenario file, print violations and event hash
//   lsqsim explain <file>                                print the event log of a scenario
//   lsqsim batch <property> <base> <first> <step> <secs> <max> <outdir> <tag>   seeded search
#include "family.hpp"
#include "seams.hpp"

#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;

namespace {
char g_now[64] = "none";
const char* g_kind = "";

void die(int code, const char* what)
{
    char b[200];
    int n = snprintf(b, sizeof b, "\nLSQSIM-FATAL %s seed=%s\n", what, g_now);
    ssize_t x = write(1, b, size_t(n));
    (void)x;
    _exit(code);
}
void on_signal(int s)
{
    if (s == SIGPROF || s == SIGVTALRM || s == SIGXCPU) die(97, "hang");
    die(98, s == SIGSEGV ? "crash SIGSEGV" : s == SIGABRT ? "crash SIGABRT" : s == SIGFPE ? "crash SIGFPE" : s == SIGBUS ? "crash SIGBUS" : "crash");
}
void on_terminate()
{
    die(98, "crash std::terminate");
}
int g_limit = 10;
volatile sig_atomic_t g_stop = 0;
void on_stop(int) { g_stop = 1; }
void watchdog(int secs)
{
    itimerval t{};
    t.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &t, nullptr);
}
void guards()
{
    static char stack[1 << 16];
    stack_t ss{};
    ss.ss_sp = stack;
    ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) {
        struct sigaction a{};
        a.sa_handler = on_signal;
        a.sa_flags = SA_ONSTACK | SA_NODEFER;
        sigaction(s, &a, nullptr);
    }
    signal(SIGPIPE, SIG_IGN);
    std::set_terminate(on_terminate);
    rlimit r{6ull << 30, 6ull << 30};
    setrlimit(RLIMIT_AS, &r);
    rlimit c{0, 0};
    setrlimit(RLIMIT_CORE, &c);
    if (const char* e = getenv("LSQSIM_HANG_SECS")) g_limit = atoi(e);
}
string json_str(const string& s)
{
    string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}
Scenario generate(const string& prop, uint64_t seed)
{
    auto& fs = families_of(prop);
    Rng r(mix(seed, 0xfa417));
    vector<double> w;
    for (auto& f : fs) w.push_back(f.second);
    auto& name = fs[r.weighted(w)].first;
    Scenario sc = families().at(name).gen(seed, prop);
    sc.family = name;
    sc.seed = seed;
    return sc;
}
Outcome execute(const Scenario& sc, const string& prop)
{
    Outcome out;
    watchdog(g_limit);
    seam::heap_layout(int(sc.seed % 3), sc.seed);
    families().at(sc.family).run(sc, prop, out);
    watchdog(0);
    if (seam::heap_corrupted()) out.v(prop, "heap", cat("memory misuse: ", seam::heap_problem()));
    return out;
}
string slurp(const string& f)
{
    std::ifstream i(f);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
}  // namespace

int main(int argc, char** argv)
{
    std::ios::sync_with_stdio(true);
    guards();
    vector<string> a(argv + 1, argv + argc);
    if (a.size() >= 3 && a[0] == "gen") {
        std::cout << generate(a[1], std::stoull(a[2])).text();
        return 0;
    }
    if (a.size() >= 3 && a[0] == "run") {
        // a file holds one scenario, or a history of scenarios (separated by "----") run in one process;
        // violations are reported for the last one
        vector<string> parts{""};
        for (auto& l : split(slurp(a[1]), '\n')) {
            if (l.rfind("----", 0) == 0) parts.emplace_back();
            else parts.back() += l + "\n";
        }
        Outcome o;
        for (auto& t : parts) {
            Scenario sc = Scenario::parse(t);
            snprintf(g_now, sizeof g_now, "%llu", (unsigned long long)sc.seed);
            if (!families().count(sc.family)) { std::cout << "LSQSIM-BAD unknown family\n"; return 3; }
            o = execute(sc, a[2]);
        }
        for (auto& v : o.violations) std::cout << "V " << v.prop << " " << v.cls << " " << json_str(v.msg) << "\n";
        if (a.size() > 3) for (auto& [k, n] : o.counters) std::cout << "C " << k << " " << n << "\n";
        std::cout << "NONTRIVIAL " << o.nontrivial << "\n";
        std::cout << "HASH " << o.hash << "\n";
        return 0;
    }
    if (a.size() >= 2 && a[0] == "explain") {
        Scenario sc = Scenario::parse(slurp(a[1]));
        if (families().at(sc.family).explain) families().at(sc.family).explain(sc, std::cout);
        return 0;
    }
    if (a.size() >= 2 && a[0] == "hashes") {   // hashes <property>: seeds on stdin, one event log hash each on stdout
        uint64_t seed;
        while (std::cin >> seed) {
            snprintf(g_now, sizeof g_now, "%llu", (unsigned long long)seed);
            Outcome o = execute(generate(a[1], seed), a[1]);
            std::cout << seed << " " << o.hash << "\n" << std::flush;
        }
        return 0;
    }
    if (a.size() >= 9 && a[0] == "batch") {
        string prop = a[1];
        uint64_t base = std::stoull(a[2]), i = std::stoull(a[3]), step = std::stoull(a[4]);
        double secs = std::stod(a[5]);
        uint64_t max = std::stoull(a[6]);
        string dir = a[7], tag = a[8];
        double t0 = seam::real_seconds();
        vector<uint8_t> bitmap(1u << 21);
        std::ofstream hashes(dir + "/" + tag + ".hashes", std::ios::binary);
        std::map<string, uint64_t> counters, fam;
        uint64_t runs = 0, nontrivial = 0, sim_time = 0, states = 0, reported = 0, others = 0;
        int samples = 0;
        std::set<string> known;
        if (const char* e = getenv("LSQSIM_KNOWN")) for (auto& c : split(e, ',')) known.insert(c);
        uint64_t known_hits = 0;
        vector<std::pair<uint64_t, uint64_t>> recheck;   // a sample of (seed, event log hash) for the determinism check
        const uint64_t mixed_base = mix(base, 0x5eed);
        signal(SIGTERM, on_stop);
        for (; !g_stop && runs < max && seam::real_seconds() - t0 < secs; i += step) {
            uint64_t seed = mix(mixed_base, i) >> 1;
            snprintf(g_now, sizeof g_now, "%llu idx=%llu", (unsigned long long)seed, (unsigned long long)i);
            Scenario sc = generate(prop, seed);
            Outcome o = execute(sc, prop);
            runs++;
            fam[sc.family]++;
            sim_time += o.sim_time;
            for (auto& [k, n] : o.counters) counters[k] += n;
            for (auto s : o.states) {
                uint32_t b = uint32_t(s >> 40) & ((1u << 24) - 1);
                if (!(bitmap[b >> 3] >> (b & 7) & 1)) { bitmap[b >> 3] |= uint8_t(1 << (b & 7)); states++; }
            }
            if (o.nontrivial) {
                nontrivial++;
                hashes.write(reinterpret_cast<const char*>(&o.hash), 8);
                if (samples < 2 && runs > 3) {
                    samples++;
                    std::cout << "{\"t\":\"sample\",\"seed\":" << seed << ",\"text\":" << json_str(sc.text()) << ",\"hash\":\"" << o.hash << "\"}\n";
                }
            }
            std::set<string> cls;
            for (auto& v : o.violations) {
                if (v.prop != prop) { others++; continue; }
                if (known.count(v.cls)) { known_hits++; continue; }
                if (!cls.insert(v.cls).second || reported > 200) continue;
                reported++;
                std::cout << "{\"t\":\"violation\",\"seed\":" << seed << ",\"idx\":" << i << ",\"hash\":\"" << o.hash << "\",\"cls\":" << json_str(v.cls)
                          << ",\"msg\":" << json_str(v.msg) << ",\"size\":" << sc.prog.size() + sc.faults.size() << "}\n" << std::flush;
            }
            if (reported > 60) break;
            if (recheck.size() < 64 && runs % 37 == 5) recheck.push_back({seed, o.hash});
        }
        std::ofstream(dir + "/" + tag + ".bitmap", std::ios::binary).write(reinterpret_cast<char*>(bitmap.data()), long(bitmap.size()));
        std::cout << "{\"t\":\"summary\",\"runs\":" << runs << ",\"nontrivial\":" << nontrivial << ",\"sim_time\":" << sim_time << ",\"states\":" << states
                  << ",\"known\":" << known_hits << ",\"others\":" << others << ",\"secs\":" << seam::real_seconds() - t0 << ",\"counters\":{";
        bool first = true;
        for (auto& [k, n] : counters) { std::cout << (first ? "" : ",") << json_str(k) << ":" << n; first = false; }
        std::cout << "},\"families\":{";
        first = true;
        for (auto& [k, n] : fam) { std::cout << (first ? "" : ",") << json_str(k) << ":" << n; first = false; }
        std::cout << "},\"recheck\":[";
        for (size_t q = 0; q < recheck.size(); q++) std::cout << (q ? "," : "") << "[\"" << recheck[q].first << "\",\"" << recheck[q].second << "\"]";
        std::cout << "]}\n" << std::flush;
        return 0;
    }
    std::cerr << "usage: lsqsim gen|run|explain|batch ...\n";
    return 2;
}

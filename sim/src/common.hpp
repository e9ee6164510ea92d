// Common utilities of the simulator: PRNG, hashing, scenario files, violations.
#pragma once
#include <cstdint>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

using std::string;
using std::vector;

// splitmix64/xorshift based generator; the only source of randomness in the simulator
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template<class T> const T& pick(const vector<T>& v) { return v.at(below(v.size())); }
    template<class T> void shuffle(vector<T>& v)
    {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
    size_t weighted(const vector<double>& w)
    {
        double t = 0;
        for (double x : w) t += x;
        double r = (double)(next() >> 11) * (1.0 / 9007199254740992.0) * t;
        for (size_t i = 0; i < w.size(); i++) {
            if (r < w[i]) return i;
            r -= w[i];
        }
        return w.size() - 1;
    }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}
struct Hasher {
    uint64_t h = 1469598103934665603ull;
    void u(uint64_t x) { h = mix(h, x); }
    void str(const string& s) { h = mix(h, hash_str(s)); h = mix(h, s.size()); }
};

// A scenario is a text file; one line per item, so that a delta debugger can drop lines.
//   family <name> / seed <n> / opt <key> <value> / L <layout row> / p <line> / fault <...>
struct Scenario {
    string family;
    uint64_t seed = 0;
    std::map<string, string> opt;
    vector<string> layout, prog, faults;

    string get(const string& k, const string& d = "") const
    {
        auto it = opt.find(k);
        return it == opt.end() ? d : it->second;
    }
    int64_t geti(const string& k, int64_t d) const
    {
        auto it = opt.find(k);
        if (it == opt.end()) return d;
        try { return std::stoll(it->second); } catch (...) { return d; }
    }
    void set(const string& k, int64_t v) { opt[k] = std::to_string(v); }
    void set(const string& k, const string& v) { opt[k] = v; }
    string text() const
    {
        std::ostringstream o;
        o << "family " << family << "\nseed " << seed << "\n";
        for (auto& [k, v] : opt) o << "opt " << k << " " << v << "\n";
        for (auto& l : layout) o << "L " << l << "\n";
        for (auto& l : prog) o << "p " << l << "\n";
        for (auto& l : faults) o << "fault " << l << "\n";
        return o.str();
    }
    static Scenario parse(const string& t)
    {
        Scenario s;
        std::istringstream in(t);
        string l;
        while (std::getline(in, l)) {
            auto sp = l.find(' ');
            if (sp == string::npos) continue;
            string k = l.substr(0, sp), v = l.substr(sp + 1);
            if (k == "family") s.family = v;
            else if (k == "seed") s.seed = std::stoull(v);
            else if (k == "opt") {
                auto q = v.find(' ');
                if (q == string::npos) s.opt[v] = "";
                else s.opt[v.substr(0, q)] = v.substr(q + 1);
            }
            else if (k == "L") s.layout.push_back(v);
            else if (k == "p") s.prog.push_back(v);
            else if (k == "fault") s.faults.push_back(v);
        }
        return s;
    }
};

struct Violation {
    string prop, cls, msg;
};

// What one simulated execution produced
struct Outcome {
    vector<Violation> violations;
    uint64_t hash = 0;            // of the whole event log
    vector<uint64_t> states;      // abstract states reached (property dependent measure)
    std::map<string, uint64_t> counters;  // probes: faults fired, rare conditions, applied checks
    uint64_t sim_time = 0;        // simulated slices / calls / seconds, as the family defines
    bool nontrivial = false;

    void v(const string& prop, const string& cls, const string& msg)
    {
        if (violations.size() < 40) violations.push_back({prop, cls, msg});
    }
    void count(const string& k, uint64_t n = 1) { counters[k] += n; }
};

inline vector<string> split(const string& s, char d)
{
    vector<string> r;
    string cur;
    for (char c : s) {
        if (c == d) { r.push_back(cur); cur.clear(); }
        else cur.push_back(c);
    }
    r.push_back(cur);
    return r;
}
inline vector<string> words(const string& s)
{
    vector<string> r;
    std::istringstream i(s);
    string w;
    while (i >> w) r.push_back(w);
    return r;
}
template<class... A> string cat(A&&... a)
{
    std::ostringstream o;
    (o << ... << a);
    return o.str();
}

}  // namespace sim

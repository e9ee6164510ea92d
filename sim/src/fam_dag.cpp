// Histories of scheduler operations on the dependency DAG, against a reference order.
#include "dag_text.hpp"
#include "fam_io.hpp"
#include "lattice.hpp"
#include "seams.hpp"

#include <lsqecc/dag/domain_dags.hpp>
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>

#include <algorithm>
#include <memory>

namespace sim {
// an instruction type of the simulator: a name and the resources it uses
struct Item {
    string name;
    std::set<int> res;
};
std::ostream& operator<<(std::ostream& o, const Item& i) { return o << i.name; }
}  // namespace sim

namespace lsqecc::dag {
template<> struct CommutationTrait<sim::Item> {
    static bool can_commute(const sim::Item& a, const sim::Item& b)
    {
        for (int r : a.res) if (b.res.count(r)) return false;
        return true;
    }
};
}  // namespace lsqecc::dag

namespace sim {
using namespace lsqecc;

string gate_text(const string& line)      // the printed form of a clean QASM line
{
    string t = line.substr(0, line.find(';') + 1);
    auto p = t.find("rz(");
    if (p == 0) {
        p += 3;
        if (t[p] == '-') p++;
        if (t.compare(p, 3, "pi/") == 0) t.insert(p, "1*");
    }
    for (auto q = t.find(", "); q != string::npos; q = t.find(", ")) t.erase(q + 1, 1);
    return t;
}
// a printed dependency graph: every instruction once, ordered exactly as far as the program orders them
string dag_text_problem(const string& g, const vector<DagItem>& prog)
{
    std::map<long, std::set<long>> next;
    std::map<long, string> text;
    std::istringstream in(g);
    string l;
    bool open = false, closed = false;
    while (std::getline(in, l)) {
        long a, b;
        if (closed && !l.empty()) return "text after the end of the graph: " + l;
        if (l.rfind("digraph", 0) == 0) open = true;
        else if (l == "}") closed = true;
        else if (sscanf(l.c_str(), " %ld -> %ld", &a, &b) == 2) next[a].insert(b);
        else if (sscanf(l.c_str(), " %ld", &a) == 1 && l.find("label=") != string::npos) {
            auto x = l.find("<b>"), y = l.find("</b>");
            if (x == string::npos || y == string::npos) return "an instruction without a text: " + l;
            string s = l.substr(x + 3, y - x - 3);
            if (s.find('>') != string::npos || s.find('<') != string::npos) return "unescaped text in: " + l;
            for (auto q = s.find("&gt;"); q != string::npos; q = s.find("&gt;")) s.replace(q, 4, ">");
            if (text.count(a)) return cat("instruction number ", a, " is printed twice");
            text[a] = s;
        }
        else if (sscanf(l.c_str(), " %ld", &a) == 1 && l.find(';') != string::npos) { if (!text.count(a)) return "an instruction without a text: " + l; }
        else if (!l.empty()) return "not a graph line: " + l;
    }
    if (!open || !closed) return "the printed graph is not complete";
    std::map<string, int> have;
    for (auto& [k, s] : text) have[s]++;
    for (auto& p : prog) if (--have[p.text] < 0) return cat("[", p.text, "] is in the program, not in the printed graph (", text.size(), " of ", prog.size(), " instructions)");
    for (auto& [s, n] : have) if (n > 0) return cat("[", s, "] is in the printed graph, not in the program");
    for (auto& [a, s] : next) { if (!text.count(a)) return cat("an edge starts at ", a, ", which is no instruction"); for (long b : s) if (!text.count(b)) return cat("an edge leads to ", b, ", which is no instruction"); }
    // transitive closures, compared by the texts they relate
    std::map<std::pair<string, string>, long> rel;
    for (auto& [a, s] : text) {
        std::set<long> seen;
        vector<long> todo{a};
        while (!todo.empty()) {
            long x = todo.back();
            todo.pop_back();
            for (long y : next[x]) if (seen.insert(y).second) todo.push_back(y);
        }
        if (seen.count(a)) return cat("[", s, "] comes before itself");
        for (long y : seen) rel[{s, text[y]}]++;
    }
    vector<std::set<size_t>> before(prog.size());
    for (size_t i = 0; i < prog.size(); i++)
        for (size_t j = 0; j < i; j++) {
            auto meet = [](const auto& x, const auto& y) { for (auto k : x) if (y.count(k)) return true; return false; };
            auto &x = prog[j], &y = prog[i];
            if (x.ctrl >= 0 && x.ctrl == y.ctrl ? meet(x.tgt, y.tgt) : meet(x.res, y.res)) { before[i].insert(j); before[i].insert(before[j].begin(), before[j].end()); }
        }
    for (size_t i = 0; i < prog.size(); i++) for (size_t j : before[i]) rel[{prog[j].text, prog[i].text}]--;
    for (auto& [p, n] : rel) {
        if (n > 0) return cat("the printed graph puts [", p.first, "] before [", p.second, "], which the program does not ask for");
        if (n < 0) return cat("the printed graph does not put [", p.first, "] before [", p.second, "]");
    }
    return "";
}

namespace {
const string P = "C19";
struct Res { std::set<int> plain; int ctrl = -1; std::set<int> tgt; };
bool independent(const Res& a, const Res& b)
{
    auto meet = [](const std::set<int>& x, const std::set<int>& y) { for (int i : x) if (y.count(i)) return true; return false; };
    if (a.ctrl >= 0 && a.ctrl == b.ctrl) return !meet(a.tgt, b.tgt);
    return !meet(a.plain, b.plain);
}
// reference: which of the remaining instructions must come before which
struct Ref {
    struct Node { string text; Res res; std::set<int> before; bool urgent = false; };   // before: nodes still to be served first
    std::map<int, Node> n;
    std::set<std::pair<int, int>> links;      // follow-ups that become urgent when their neighbour is served
    int next = 0;
    int push(const string& text, const Res& r)
    {
        Node x{text, r, {}};
        for (auto& [k, m] : n) if (!independent(m.res, r)) x.before.insert(k);
        n[next] = x;
        return next++;
    }
    vector<int> heads() const
    {
        vector<int> h;
        for (auto& [k, m] : n) if (m.before.empty()) h.push_back(k);
        return h;
    }
    vector<int> urgent() const
    {
        vector<int> h;
        for (auto& [k, m] : n) if (m.urgent) h.push_back(k);
        return h;
    }
    void serve(int k)
    {
        n.erase(k);
        for (auto& [q, m] : n) m.before.erase(k);
        auto l = links;
        for (auto& p : l)
            if (p.first == k || p.second == k) {
                int o = p.first == k ? p.second : p.first;
                if (n.count(o)) n[o].urgent = true;
                links.erase(p);
            }
    }
    vector<int> expand(int k, const vector<std::pair<string, Res>>& rep, bool prox)
    {
        vector<int> ids;
        Node old = n.at(k);
        for (size_t i = 0; i < rep.size(); i++) {
            Node x{rep[i].first, rep[i].second, {}};
            if (i == 0) x.before = old.before;
            else x.before = {ids.back()};
            ids.push_back(next);
            n[next++] = x;
        }
        n.erase(k);
        for (auto& [q, m] : n) if (m.before.erase(k)) m.before.insert(ids.back());
        if (prox) for (size_t i = 0; i + 1 < ids.size(); i++) links.insert({ids[i], ids[i + 1]});
        auto l = links;
        for (auto& p : l)
            if (p.first == k || p.second == k) {
                links.erase(p);
                links.insert(p.first == k ? std::make_pair(ids.back(), p.second) : std::make_pair(p.first, ids.front()));
            }
        if (old.urgent) n[ids.front()].urgent = true;
        return ids;
    }
};

Res res_of(const string& s)     // "3,4" or "c3>4,5" (controlled)
{
    Res r;
    string t = s;
    if (!t.empty() && t[0] == 'c') {
        auto g = t.find('>');
        r.ctrl = std::stoi(t.substr(1, g - 1));
        r.plain.insert(r.ctrl);
        t = t.substr(g + 1);
        for (auto& w : split(t, ',')) if (!w.empty()) { r.tgt.insert(std::stoi(w)); r.plain.insert(std::stoi(w)); }
        return r;
    }
    for (auto& w : split(t, ',')) if (!w.empty() && w != "-") r.plain.insert(std::stoi(w));
    return r;
}

// ---- scenario lines
//  "i <resources> <text>"        instruction
//  "serve <k>" / "expand <k> <mid> <prox> <n> <text;text..>" / "urgent <k>" / "serve_urgent <k>" / "push <resources> <text>"
string lli_text(Rng& r, int n, string& res, int& fresh)
{
    int a = int(r.below(uint64_t(n))), b = int(r.below(uint64_t(n)));
    if (a == b) b = (a + 1) % n;
    string o = r.chance(0.5) ? "X" : "Z";
    res = cat(a);
    switch (r.below(9)) {
    case 0: return cat("HGate ", a);
    case 1: return cat("SGate ", a);
    case 2: return cat("LogicalPauli ", a, " ", o);
    case 3: return cat("MeasureSinglePatch ", a, " ", o);
    case 4: case 5: res = cat(a, ",", b); return cat("MultiBodyMeasure ", a, ":", o, ",", b, ":Z");
    case 6: return cat("RotateSingleCellPatch ", a);
    case 7: { int s = fresh; fresh += 2; res = cat(a, ",", b, ",", s, ",", s + 1); return cat("BellBasedCNOT ", a, " ", b, " ", s, " ", s + 1); }
    default: { int s = fresh++; res = cat(s); return cat("Init ", s, " |0>"); }
    }
}
string gate_line(Rng& r, int n, string& res)
{
    int a = int(r.below(uint64_t(n))), b = int(r.below(uint64_t(n)));
    if (a == b) b = (a + 1) % n;
    static const char* one[] = {"x", "y", "z", "s", "t", "h", "sdg", "tdg"};
    res = cat(a);
    if (r.chance(0.45)) return cat(one[r.below(8)], " q[", a, "];");
    if (r.chance(0.15)) return cat("rz(", r.chance(0.3) ? "-" : "", r.chance(0.7) ? string() : cat(1 + 2 * r.below(4), "*"), "pi/", 2 << r.below(4), ") q[", a, "];");
    if (r.chance(0.07)) return cat("reset q[", a, "];");
    if (r.chance(0.1)) { res = cat("c", a, ">", b); return cat("crz(pi/", 2 << r.below(4), ") q[", a, "],q[", b, "];"); }
    res = cat("c", a, ">", b);
    return cat(r.chance(0.7) ? "cx" : "cz", " q[", a, "],q[", b, "];");
}
Scenario gen_dag(uint64_t seed, const string&)
{
    Rng r(mix(seed, 0xda6));
    Scenario sc;
    static const char* kinds[] = {"own", "lli", "gates", "graph"};
    string kind = kinds[r.weighted({5, 2, 2, 2})];
    sc.set("kind", kind);
    int n = int(2 + r.below(7));
    sc.set("qubits", n);
    int count = int(r.chance(0.2) ? r.below(4) : r.chance(0.85) ? 3 + r.below(18) : r.chance(0.97) ? 25 + r.below(40) : 90 + r.below(130));
    if (kind == "graph") {
        int nodes = 2 + int(r.below(9));
        for (int i = 0; i < count * 2; i++) {
            uint64_t a = r.below(uint64_t(nodes)), b = r.below(uint64_t(nodes));
            switch (r.weighted({2, 6, 1, 1.5, 1.5})) {
            case 0: sc.prog.push_back(cat("node ", a)); break;
            case 1: if (a > b) std::swap(a, b); if (a != b) sc.prog.push_back(cat("edge ", a, " ", b)); break;
            case 2: if (a > b) std::swap(a, b); sc.prog.push_back(cat("unedge ", a, " ", b)); break;
            case 3: sc.prog.push_back(cat("drop ", a)); break;
            default: sc.prog.push_back(cat("expand ", a, " ", r.chance(0.9) ? 1 + r.below(4) : 0, " ", r.chance(0.1)));
            }
        }
        return sc;
    }
    int fresh = 50, name = 0;
    auto own_res = [&] {
        std::set<int> s;
        int k = int(r.weighted({0.3, 4, 4, 1}));
        for (int i = 0; i < k; i++) s.insert(int(r.below(uint64_t(n))));
        string t;
        for (int x : s) t += cat(t.empty() ? "" : ",", x);
        return t.empty() ? string("-") : t;
    };
    for (int i = 0; i < count; i++) {
        string res;
        if (kind == "own") { res = own_res(); sc.prog.push_back(cat("i ", res, " I", name++)); }
        else if (kind == "lli") { string t = lli_text(r, n, res, fresh); sc.prog.push_back(cat("i ", res, " ", t)); }
        else { string t = gate_line(r, n, res); sc.prog.push_back(cat("i ", res, " ", t)); }
    }
    int ops = int(r.below(uint64_t(2 * count) + 6));
    for (int i = 0; i < ops; i++) {
        switch (r.weighted({6, kind == "own" ? 3.0 : 0, kind == "own" ? 1.5 : 0.5, 3, kind == "own" ? 1.0 : 0})) {
        case 0: sc.prog.push_back(cat("serve ", r.below(8))); break;
        case 1: {
            size_t k = 1 + r.below(4);
            string t;
            for (size_t j = 0; j < k; j++) { t += cat(j ? ";" : "", own_res(), "/I", name++); }
            bool mid = r.chance(0.25);
            // as the scheduler does it: the follow-ups of a served instruction are urgent
            sc.prog.push_back(cat("expand ", r.below(8), " ", mid, " ", mid ? r.chance(0.3) : r.chance(0.75), " ", r.chance(0.8) && !mid, " ", t));
            break;
        }
        case 2: sc.prog.push_back(cat("urgent ", r.below(8))); break;
        case 3: sc.prog.push_back(cat("serve_urgent ", r.below(8))); break;
        case 4: sc.prog.push_back(cat("push ", own_res(), " I", name++)); break;
        }
    }
    sc.set("drain", int64_t(r.below(1000000)));
    return sc;
}

template<class I> string text_of(const I& i)
{
    using lsqecc::operator<<;
    using sim::operator<<;
    std::ostringstream o;
    o << i;
    return o.str();
}

// drives one DAG and its reference side by side
template<class I> struct Driver {
    dag::DependencyDag<I>& d;
    Ref ref;
    Outcome& out;
    Hasher h;
    std::map<dag::label_t, int> of;      // label -> reference node
    std::map<int, dag::label_t> label;
    uint64_t ops = 0;
    string last;
    bool dead = false;

    void bind(dag::label_t l, int k) { of[l] = k; label[k] = l; }
    void fail(const string& cls, const string& m) { out.v(P, cls, cat("after ", ops, " operations (", last, "): ", m)); dead = true; }
    // maps offered labels to reference nodes; an instruction offered for the first time is recognised by its text
    bool resolve(const vector<dag::label_t>& ls, const vector<int>& want, vector<int>& got, const char* what)
    {
        std::set<dag::label_t> seen;
        for (auto l : ls) {
            if (!seen.insert(l).second) { fail("twice", cat(what, " lists ", text_of(d.at(l)), " twice")); return false; }
            string t = text_of(d.at(l));
            int k = -1;
            if (of.count(l)) {
                k = of[l];
                if (!ref.n.count(k)) { fail("again", cat(what, " offers [", t, "] again, it was already served")); return false; }
                if (ref.n[k].text != t) { fail("changed", cat("[", ref.n[k].text, "] became [", t, "]")); return false; }
            }
            else {
                for (int c : want) if (!label.count(c) && ref.n[c].text == t) { k = c; break; }
                if (k < 0) {
                    for (auto& [c, m] : ref.n) if (!label.count(c) && m.text == t) { fail("early", cat(what, " offers [", t, "] although ", m.before.size(), " instruction(s) before it are not served")); return false; }
                    fail("unknown", cat(what, " offers [", t, "], which is not in the program"));
                    return false;
                }
                bind(l, k);
            }
            got.push_back(k);
        }
        std::sort(got.begin(), got.end());
        for (size_t i = 1; i < got.size(); i++) if (got[i] == got[i - 1]) { fail("twice", cat(what, " lists [", ref.n[got[i]].text, "] twice")); return false; }
        return true;
    }
    string list(const vector<int>& v) { string s; for (int k : v) s += cat(s.empty() ? "" : "; ", ref.n.count(k) ? ref.n[k].text : cat("#", k)); return s; }
    void check()
    {
        if (dead) return;
        vector<int> want = ref.heads(), got, wu = ref.urgent(), gu;
        if (!resolve(d.applicable_instructions(), want, got, "the DAG")) return;
        if (got != want) {
            for (int k : got) if (!ref.n[k].before.empty()) { fail("early", cat("[", ref.n[k].text, "] is offered before [", ref.n.count(*ref.n[k].before.begin()) ? ref.n[*ref.n[k].before.begin()].text : "?", "]")); return; }
            fail("withheld", cat("offered: ", list(got), " | due: ", list(want)));
            return;
        }
        if (!resolve(d.proximate_instructions(), wu, gu, "the urgent list")) return;
        if (gu != wu) { fail("urgent", cat("urgent: ", list(gu), " | expected: ", list(wu))); return; }
        if (d.empty() != ref.n.empty()) { fail("empty", cat("empty() is ", d.empty(), " with ", ref.n.size(), " instructions left")); return; }
        uint64_t x = mix(got.size(), gu.size() * 1000 + ref.n.size());
        for (int k : got) x = mix(x, uint64_t(k));
        for (int k : gu) x = mix(x, uint64_t(k) + 77777);
        out.states.push_back(x);
        h.u(x);
        for (int k : got) h.u(label[k]);
    }
    // the printed DAG at this point of the history (instructions with distinct texts)
    void check_print()
    {
        if (dead) return;
        string g = dag::to_graphviz(d);
        vector<string> red;
        std::map<long, string> text;
        std::set<std::pair<string, string>> strong, edges;
        vector<std::pair<std::pair<long, long>, bool>> raw;
        vector<long> urgent;
        std::istringstream in(g);
        string l;
        bool open = false, closed = false;
        while (std::getline(in, l)) {
            long a, b;
            if (l.rfind("digraph", 0) == 0) open = true;
            else if (l == "}") closed = true;
            else if (sscanf(l.c_str(), " %ld -> %ld", &a, &b) == 2) raw.push_back({{a, b}, l.find("penwidth") != string::npos});
            else if (sscanf(l.c_str(), " %ld", &a) == 1) {
                auto x = l.find("<b>"), y = l.find("</b>");
                if (x != string::npos && y != string::npos) { if (!text.emplace(a, l.substr(x + 3, y - x - 3)).second) { fail("print", cat("instruction number ", a, " is printed twice")); return; } }
                else if (l.find("fontcolor=red") != string::npos) urgent.push_back(a);
            }
        }
        if (!open || !closed) { fail("print", "the printed graph is not complete"); return; }
        std::map<string, int> of_text;
        for (auto& [k, m] : ref.n) of_text[m.text] = k;
        for (auto& [a, t] : text) if (!of_text.count(t)) { fail("print", cat("[", t, "] is in the printed graph, not in the DAG")); return; }
        if (text.size() != ref.n.size()) { fail("print", cat(text.size(), " instructions are printed, the DAG has ", ref.n.size())); return; }
        std::map<int, std::set<int>> next;
        std::set<std::pair<int, int>> links;
        for (auto& [e, thick] : raw) {
            if (!text.count(e.first) || !text.count(e.second)) { fail("print", "an edge is printed that has no instruction at one end"); return; }
            int a = of_text[text[e.first]], b = of_text[text[e.second]];
            if (thick) links.insert({a, b}); else next[a].insert(b);
        }
        std::set<int> u;
        for (long a : urgent) { if (!text.count(a)) { fail("print", "an urgent mark without an instruction"); return; } u.insert(of_text[text[a]]); }
        auto wu = ref.urgent();
        if (u != std::set<int>(wu.begin(), wu.end())) { fail("print", cat("printed as urgent: ", list({u.begin(), u.end()}), " | urgent: ", list(wu))); return; }
        if (links != ref.links) { fail("print", cat(links.size(), " pairs that must follow each other are printed instead of ", ref.links.size())); return; }
        using Bits = std::vector<uint64_t>;
        std::map<int, size_t> idx;
        for (auto& [k, m] : ref.n) { size_t i = idx.size(); idx[k] = i; }
        size_t words64 = idx.size() / 64 + 1;
        auto closures = [&](std::map<int, std::set<int>>& m) {       // everything reachable from each instruction
            std::map<int, Bits> c;
            std::set<int> busy;
            std::function<const Bits&(int)> go = [&](int k) -> const Bits& {
                if (auto it = c.find(k); it != c.end()) return it->second;
                Bits x(words64, 0);
                if (!busy.insert(k).second) { x[words64 - 1] = ~0ull; return c[k] = x; }      // a cycle
                for (int y : m[k]) { const Bits& o = go(y); for (size_t i = 0; i < words64; i++) x[i] |= o[i]; x[idx[y] / 64] |= 1ull << (idx[y] % 64); }
                return c[k] = x;
            };
            for (auto& [k, i] : idx) go(k);
            return c;
        };
        std::map<int, std::set<int>> want;
        for (auto& [k, m] : ref.n) for (int b : m.before) want[b].insert(k);
        auto cn = closures(next), cw = closures(want);
        for (auto& [k, m] : ref.n) if (cn[k] != cw[k]) { fail("print", cat("the printed graph does not show what comes after [", m.text, "]")); return; }
        out.count("printed_mid_history");
        h.str(g);
    }
    int nth(const vector<int>& v, uint64_t k) { return v.empty() ? -1 : v[k % v.size()]; }
    void serve(int k)
    {
        d.pop_head(label.at(k));
        ref.serve(k);
        ops++;
    }
    void op(const string& line, const std::function<I(const string&, const string&)>& make)
    {
        if (dead) return;
        auto w = words(line);
        if (w.empty()) return;
        last = line;
        uint64_t k = w.size() > 1 && isdigit((unsigned char)w[1][0]) ? std::stoull(w[1]) : 0;
        if (w[0] == "serve") { int x = nth(ref.heads(), k); if (x >= 0) serve(x); }
        else if (w[0] == "serve_urgent") {
            // urgent instructions whose turn has come
            vector<int> u;
            for (int q : ref.urgent()) if (ref.n[q].before.empty()) u.push_back(q);
            int x = nth(u, k);
            if (x >= 0) { serve(x); out.count("urgent_served"); }
        }
        else if (w[0] == "urgent") {
            int x = nth(ref.heads(), k);
            if (x >= 0) { d.make_proximate(label.at(x)); ref.n[x].urgent = true; ops++; out.count("prioritised"); }
        }
        else if (w[0] == "push" && w.size() >= 3) {
            auto l = d.push_instruction_based_on_commutation(make(w[1], w[2]));
            int x = ref.push(w[2], res_of(w[1]));
            if (of.count(l)) { fail("label", "a new instruction got a label that was already given"); return; }
            bind(l, x);
            ops++;
        }
        else if (w[0] == "expand" && w.size() >= 6) {
            bool mid = w[2] == "1", prox = w[3] == "1", prio = w[4] == "1";
            vector<int> cand;
            if (mid) { for (auto& [q, m] : ref.n) if (label.count(q)) cand.push_back(q); }
            else cand = ref.heads();
            int x = nth(cand, k);
            if (x < 0) return;
            vector<I> rep;
            vector<std::pair<string, Res>> rr;
            for (auto& t : split(w[5], ';')) {
                auto s = t.find('/');
                if (s == string::npos) continue;
                rep.push_back(make(t.substr(0, s), t.substr(s + 1)));
                rr.push_back({t.substr(s + 1), res_of(t.substr(0, s))});
            }
            if (rep.empty()) return;
            auto l = d.expand(label.at(x), std::move(rep), prox);
            auto ids = ref.expand(x, rr, prox);
            if (of.count(l)) { fail("label", "a follow-up got a label that was already given"); return; }
            if (text_of(d.at(l)) != rr[0].first) { fail("front", cat("the follow-ups start with [", text_of(d.at(l)), "] instead of [", rr[0].first, "]")); return; }
            bind(l, ids[0]);
            // followers that are not offered yet: named here if their labels can be found near the first one's
            for (size_t j = 1; j < ids.size(); j++)
                for (auto m = l + 1; m < l + 1 + decltype(l)(2 * ids.size()); m++) {
                    if (of.count(m)) continue;
                    try { if (text_of(d.at(m)) == rr[j].first) { bind(m, ids[j]); break; } }
                    catch (const std::out_of_range&) {}
                }
            if (prio) { d.make_proximate(l); ref.n[ids[0]].urgent = true; }
            ops++;
            out.count("expanded");
        }
        else return;
        check();
    }
    void drain(uint64_t seed)
    {
        Rng r(seed);
        last = "draining";
        size_t bound = ref.n.size() + 5;
        while (!dead && !ref.n.empty() && bound--) {
            auto heads = ref.heads();
            if (heads.empty()) { fail("stuck", "nothing is offered although instructions are left"); break; }
            serve(heads[r.below(heads.size())]);
            check();
        }
        if (!dead && !d.empty()) fail("empty", "everything was served but the DAG is not empty");
    }
};

// ---- printed DAGs
void check_graph_text(const string& g, const Ref& ref, Outcome& out, Hasher& h)
{
    string p = dag_text_problem(g, [&] {
        vector<DagItem> v;
        for (auto& [k, m] : ref.n) v.push_back({m.text, {m.res.plain.begin(), m.res.plain.end()}, m.res.ctrl, {m.res.tgt.begin(), m.res.tgt.end()}});
        return v;
    }());
    if (!p.empty()) out.v(P, "print", p);
    h.str(g);
}

struct GateSource : GateStream {
    vector<gates::Gate> v;
    size_t i = 0;
    Qreg q{"q", 0};
    gates::Gate get_next_gate() override { return v.at(i++); }
    bool has_next_gate() const override { return i < v.size(); }
    const Qreg& get_qreg() const override { return q; }
};
struct InsSource : LSInstructionStream {
    vector<LSInstruction> v;
    size_t i = 0;
    tsl::ordered_set<PatchId> core;
    LSInstruction get_next_instruction() override { return v.at(i++); }
    bool has_next_instruction() const override { return i < v.size(); }
    const tsl::ordered_set<PatchId>& core_qubits() const override { return core; }
};

// ---- the graph below
void run_graph(const Scenario& sc, Outcome& out)
{
    dag::DirectedGraph g;
    std::map<uint64_t, std::set<uint64_t>> m;
    uint64_t fresh = 1000, ops = 0;
    Hasher h;
    for (auto& line : sc.prog) {
        auto w = words(line);
        if (w.size() < 2) continue;
        uint64_t a = std::stoull(w[1]), b = w.size() > 2 ? std::stoull(w[2]) : 0;
        bool threw = false, should = false;
        try {
            if (w[0] == "node") g.add_node(a);
            else if (w[0] == "edge") g.add_edge(a, b);
            else if (w[0] == "unedge") { if (m.count(a) && m.count(b) && !m[a].count(b)) continue; g.remove_edge(a, b); }
            else if (w[0] == "drop") g.remove_node(a);
            else if (w[0] == "expand") {
                vector<dag::label_t> rep;
                for (uint64_t i = 0; i < b; i++) rep.push_back(fresh + i);
                if (b && w.size() > 3 && w[3] == "1" && !m.empty()) rep.back() = m.begin()->first;
                should = !m.count(a) || rep.empty();
                for (auto x : rep) should |= m.count(x);
                g.expand(a, rep);
            }
        }
        catch (const std::exception&) { threw = true; }
        ops++;
        if (w[0] == "node") m[a];
        else if (w[0] == "edge") { m[a].insert(b); m[b]; }
        else if (w[0] == "unedge") { should = !m.count(a) || !m.count(b); if (!should) m[a].erase(b); }
        else if (w[0] == "drop") {
            should = !m.count(a);
            m.erase(a);
            for (auto& [k, s] : m) s.erase(a);
        }
        else if (w[0] == "expand" && !should) {
            auto succ = m[a];
            m.erase(a);
            for (auto& [k, s] : m) if (s.erase(a)) s.insert(fresh);
            for (uint64_t i = 0; i < b; i++) { m[fresh + i]; if (i) m[fresh + i - 1].insert(fresh + i); }
            m[fresh + b - 1].insert(succ.begin(), succ.end());
            fresh += b;
            out.count("expanded");
        }
        auto fail = [&](const string& c, const string& t) { out.v(P, c, cat("after ", ops, " graph operations (", line, "): ", t)); };
        if (threw != should) { fail("graph-error", threw ? "a valid operation was refused" : "an impossible operation was accepted"); break; }
        if (should) out.count("impossible_operation");
        // observe
        std::set<uint64_t> heads, tails;
        std::map<uint64_t, std::set<uint64_t>> back;
        for (auto& [k, s] : m) for (auto x : s) back[x].insert(k);
        for (auto& [k, s] : m) { if (!back.count(k)) heads.insert(k); if (s.empty()) tails.insert(k); }
        auto as = [](const auto& c) { std::set<uint64_t> s; for (auto x : c) s.insert(x); return s; };
        if (g.empty() != m.empty()) { fail("graph-empty", "empty() is wrong"); break; }
        if (as(g.heads()) != heads) { fail("graph-heads", cat(g.heads().size(), " heads instead of ", heads.size())); break; }
        if (as(g.tails()) != tails) { fail("graph-tails", cat(g.tails().size(), " tails instead of ", tails.size())); break; }
        bool bad = false;
        for (auto& [k, s] : m) {
            auto su = g.successors(k), pr = g.predecessors(k);
            if (as(su) != s || su.size() != s.size()) { fail("graph-successors", cat("node ", k, " has the wrong successors")); bad = true; break; }
            if (as(pr) != back[k] || pr.size() != back[k].size()) { fail("graph-predecessors", cat("node ", k, " has the wrong predecessors")); bad = true; break; }
        }
        if (bad) break;
        auto order = g.topological_order_tails_first();
        std::map<uint64_t, size_t> at;
        for (size_t i = 0; i < order.size(); i++) at[order[i]] = i;
        if (order.size() != m.size() || at.size() != m.size()) { fail("graph-order", cat("the topological order has ", order.size(), " entries for ", m.size(), " nodes")); break; }
        for (auto& [k, s] : m) for (auto x : s) if (at[x] > at[k]) { fail("graph-order", cat("node ", k, " comes before its successor ", x, " in the order from the tails")); bad = true; }
        if (bad) break;
        uint64_t x = m.size();
        for (auto& [k, s] : m) { x = mix(x, k); for (auto y : s) x = mix(x, y + 5000); }
        out.states.push_back(x);
        h.u(x);
        for (auto o : order) h.u(o);
    }
    out.sim_time = ops;
    out.hash = h.h;
    out.nontrivial = ops >= 6 && (out.counters.count("expanded") || out.counters.count("impossible_operation"));
}

template<class I> void finish(const Scenario& sc, Driver<I>& d, const std::function<I(const string&, const string&)>& make, Outcome& out)
{
    size_t total = d.ref.n.size();
    d.check();
    bool print = sc.get("kind") == "own";
    size_t step = 0;
    for (auto& l : sc.prog) if (l.rfind("i ", 0) != 0) {
        d.op(l, make);
        if (print && mix(sc.seed, step++) % (total > 60 ? 50 : 5) == 0) d.check_print();
    }
    if (print) d.check_print();
    d.drain(uint64_t(sc.geti("drain", 0)));
    out.sim_time = d.ops;
    out.hash = d.h.h;
    out.nontrivial = total >= 4 && d.ops >= 4 && (sc.get("kind") != "own" || out.counters.count("expanded") || out.counters.count("prioritised"));
}

void run_dag(const Scenario& sc, const string&, Outcome& out)
{
    string kind = sc.get("kind");
    if (kind == "graph") { run_graph(sc, out); return; }
    struct Line { string res, text; };
    vector<Line> ins;
    for (auto& l : sc.prog) if (l.rfind("i ", 0) == 0) {
        auto s = l.find(' ', 2);
        if (s != string::npos) ins.push_back({l.substr(2, s - 2), l.substr(s + 1)});
    }
    if (kind == "own") {
        std::function<Item(const string&, const string&)> make = [](const string& r, const string& t) { return Item{t, res_of(r).plain}; };
        dag::DependencyDag<Item> g;
        Driver<Item> d{g, {}, out};
        for (auto& l : ins) {
            auto lab = g.push_instruction_based_on_commutation(make(l.res, l.text));
            if (d.of.count(lab)) { out.v(P, "label", "a label was given twice"); return; }
            d.bind(lab, d.ref.push(l.text, res_of(l.res)));
        }
        finish<Item>(sc, d, make, out);
    }
    else if (kind == "lli") {
        InsSource s;
        Ref ref;
        for (auto& l : ins) {
            s.v.push_back(parse_ls_instruction(l.text));
            ref.push(print_text(s.v.back()), res_of(l.res));
        }
        auto g = dag::full_dependency_dag_from_instruction_stream(s);
        Driver<LSInstruction> d{g, ref, out};
        check_graph_text(dag::to_graphviz(g), ref, out, d.h);
        finish<LSInstruction>(sc, d, [](const string&, const string& t) { return parse_ls_instruction(t); }, out);
    }
    else {
        GateSource s;
        Ref ref;
        for (auto& l : ins) {
            auto p = parse_gate(l.text);
            s.v.push_back(std::get<gates::Gate>(p));
            ref.push(gate_text(l.text), res_of(l.res));
        }
        auto g = dag::full_dependency_dag_from_gate_stream(s);
        Driver<gates::Gate> d{g, ref, out};
        check_graph_text(dag::to_graphviz(g), ref, out, d.h);
        finish<gates::Gate>(sc, d, [](const string&, const string& t) { return std::get<gates::Gate>(parse_gate(t)); }, out);
    }
}
void explain_dag(const Scenario& sc, std::ostream& o)
{
    for (auto& l : sc.prog) o << "  " << l << "\n";
}
}  // namespace
Family dag_family() { return {gen_dag, run_dag, explain_dag}; }
}  // namespace sim

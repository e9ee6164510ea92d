#include "gen.hpp"

#include <algorithm>
#include <array>
#include <map>

namespace sim {

namespace {
int count_ch(const vector<string>& g, char c)
{
    int n = 0;
    for (auto& l : g) n += int(std::count(l.begin(), l.end(), c));
    return n;
}
bool in(const vector<string>& g, int r, int c) { return r >= 0 && c >= 0 && r < int(g.size()) && c < int(g[0].size()); }
int around(const vector<string>& g, int r, int c, char x)
{
    int n = 0;
    static const int DR[] = {-1, 1, 0, 0}, DC[] = {0, 0, -1, 1};
    for (int k = 0; k < 4; k++) if (in(g, r + DR[k], c + DC[k]) && g[r + DR[k]][c + DC[k]] == x) n++;
    return n;
}
}  // namespace

// r routing, Q patch, A ancilla location, digits factories, M reserved, X dead, Y catalyst pool
vector<string> gen_layout(Rng& r, int want, bool magic, bool ypool, int& n_core, bool& has_ancilla)
{
    vector<string> g;
    int style = int(r.weighted({4, 3, 2, 1}));
    int rows, cols;
    if (style == 0) {   // patches on a grid with lanes all around
        int per = std::max(1, int(r.range(1, want))), lines = (want + per - 1) / per;
        int gap = r.chance(0.2) ? 2 : 1;
        rows = lines * (gap + 1) + gap;
        cols = per * (gap + 1) + gap;
        g.assign(rows, string(cols, 'r'));
        int n = 0;
        for (int y = gap; y < rows; y += gap + 1)
            for (int x = gap; x < cols; x += gap + 1)
                if (n++ < want) g[y][x] = 'Q';
    }
    else if (style == 1) {   // scattered
        rows = int(r.range(3, 7));
        cols = int(r.range(3, 8));
        while (rows * cols < want * 3 + 4) { if (r.chance(0.5)) rows++; else cols++; }
        g.assign(rows, string(cols, 'r'));
        for (int n = 0, tries = 0; n < want && tries < 200; tries++) {
            int y = int(r.below(rows)), x = int(r.below(cols));
            if (g[y][x] != 'r') continue;
            if (around(g, y, x, 'Q') && r.chance(0.7)) continue;
            g[y][x] = 'Q';
            n++;
        }
    }
    else if (style == 2) {   // one or two rows of patches on a corridor
        int lanes = int(r.range(1, 2));
        bool two = r.chance(0.5);
        int per = two ? (want + 1) / 2 : want;
        bool spaced = r.chance(0.5);
        cols = spaced ? 2 * per + 1 : per + 2;
        rows = lanes + (two ? 2 : 1) + 1;
        g.assign(rows, string(cols, 'r'));
        int n = 0;
        for (int i = 0; i < per && n < want; i++, n++) g[0][spaced ? 2 * i + 1 : i + 1] = 'Q';
        for (int i = 0; two && i < per && n < want; i++, n++) g[1 + lanes][spaced ? 2 * i + 1 : i + 1] = 'Q';
    }
    else {   // big and empty
        rows = int(r.range(6, 10));
        cols = int(r.range(6, 10));
        g.assign(rows, string(cols, 'r'));
        for (int n = 0, tries = 0; n < want && tries < 2000; tries++) {
            int y = int(r.below(rows)), x = int(r.below(cols));
            if (g[y][x] == 'r' && !around(g, y, x, 'Q')) { g[y][x] = 'Q'; n++; }
        }
    }
    auto drop = [&](char ch, int n, double lonely) {
        for (int k = 0, tries = 0; k < n && tries < 60; tries++) {
            int y = int(r.below(rows)), x = int(r.below(cols));
            if (g[y][x] != 'r') continue;
            if (around(g, y, x, 'r') == 0) continue;
            if (around(g, y, x, 'Q') && !r.chance(lonely)) continue;
            g[y][x] = ch;
            k++;
        }
    };
    has_ancilla = r.chance(0.4);
    if (has_ancilla) drop('A', int(r.range(1, 3)), 0.3);
    if (ypool) drop('Y', int(r.range(1, 3)), 0.2);
    if (magic) {
        if (r.chance(0.35)) drop('M', int(r.chance(0.93) ? r.range(1, 3) : r.range(4, 12)), 0.3);
        else {
            int n = int(r.chance(0.96) ? r.range(1, 3) : r.range(4, 10));
            for (int k = 0; k < n; k++) {
                char d = char('0' + (r.chance(0.1) ? 0 : k));
                int side = int(r.below(3));
                if (side == 0) {   // a block along the right edge
                    int h = int(r.range(1, std::min(rows, 3))), y0 = int(r.below(rows - h + 1));
                    if (k == 0) { for (auto& l : g) l += 'r'; cols++; }
                    for (int y = y0; y < y0 + h; y++) if (g[y][cols - 1] == 'r') g[y][cols - 1] = d;
                }
                else if (side == 1) {   // along the bottom
                    int w = int(r.range(1, std::min(cols, 3))), x0 = int(r.below(cols - w + 1));
                    if (k == 0) { g.push_back(string(cols, 'r')); rows++; }
                    for (int x = x0; x < x0 + w; x++) if (g[rows - 1][x] == 'r') g[rows - 1][x] = d;
                }
                else drop(d, 1, 0.3);
            }
        }
    }
    if (r.chance(0.3)) drop('X', int(r.range(1, 3)), 0.3);
    n_core = count_ch(g, 'Q');
    has_ancilla = count_ch(g, 'A') > 0;
    return g;
}

vector<string> gen_qasm(Rng& r, int n, int gates, bool s_gates, bool t_gates, bool resets)
{
    vector<string> p{"OPENQASM 2.0;", "include \"qelib1.inc\";", cat("qreg q[", n, "];")};
    if (r.chance(0.3)) p.push_back(cat("creg c[", n, "];"));
    double ws = s_gates ? r.range(0, 4) : 0, wt = t_gates ? r.range(0, 3) : 0, wr = resets && r.chance(0.2) ? 1 : 0;
    vector<double> w{(double)r.range(0, 3), (double)r.range(0, 3), 1, n > 1 ? (double)r.range(1, 6) : 0.0, ws, wt, wr, n > 1 && r.chance(0.3) ? 1.0 : 0.0};
    double layers = r.chance(n > 8 ? 0.4 : 0.1) ? 0.1 + 0.1 * double(r.below(4)) : 0;
    bool notes = r.chance(0.3);
    for (int i = 0; i < gates; i++) {
        if (layers > 0 && r.chance(layers)) {
            const char* g = r.chance(0.6) ? "h" : r.chance(0.5) && s_gates ? "s" : "x";
            bool pairs = r.chance(0.3);
            for (int q = 0; q < n; q++) {
                if (pairs && q + 1 < n) { p.push_back(cat("cx q[", q, "],q[", q + 1, "];")); q++; }
                else if (!pairs) p.push_back(cat(g, " q[", q, "];"));
            }
            i += n / 2;
            continue;
        }
        int a = int(r.below(n)), b = n > 1 ? int((a + 1 + r.below(n - 1)) % n) : a;
        switch (r.weighted(w)) {
        case 0: p.push_back(cat("h q[", a, "];")); break;
        case 1: p.push_back(cat("x q[", a, "];")); break;
        case 2: p.push_back(cat("z q[", a, "];")); break;
        case 3: {
            string note;
            if (notes && r.chance(0.5)) {
                vector<string> t;
                if (r.chance(0.6)) t.push_back(r.chance(0.7) ? "ZXWithMBMTargetFirst" : "ZXWithMBMControlFirst");
                if (r.chance(0.5)) t.push_back(r.chance(0.5) ? "AncillaNextToControl" : "AncillaNextToTarget");
                for (size_t k = 0; k < t.size(); k++) note += (k ? "," : " // %") + t[k];
            }
            p.push_back(cat("cx q[", a, "],q[", b, "];", note));
            break;
        }
        case 4: p.push_back(cat("s q[", a, "];")); break;
        case 5: p.push_back(cat(r.chance(0.7) ? "t" : "tdg", " q[", a, "];")); break;
        case 6: p.push_back(cat("reset q[", a, "];")); break;
        case 7: p.push_back(cat("cz q[", a, "],q[", b, "];")); break;
        }
    }
    return p;
}

namespace {
struct Prog {
    Rng& r;
    Scenario& sc;
    vector<int> core, extra;   // live ids
    std::set<int> used;
    int next;
    double budget_p = 0;
    int budget_max = 4;
    bool clients = true;

    void emit(const string& text, const vector<int>& cl = {}, bool waitable = true)
    {
        string w = "-", c = "-";
        if (waitable && budget_p > 0 && r.chance(budget_p)) w = std::to_string(r.range(0, budget_max));
        if (!cl.empty() && clients) {
            c.clear();
            for (int x : cl) c += (c.empty() ? "" : ",") + std::to_string(x);
        }
        sc.prog.push_back(w + " " + c + " " + text);
    }
    vector<int> live() const
    {
        vector<int> l = core;
        l.insert(l.end(), extra.begin(), extra.end());
        return l;
    }
    int any() { auto l = live(); return l.empty() ? -1 : r.pick(l); }
    bool two(int& a, int& b)
    {
        auto l = live();
        if (l.size() < 2) return false;
        r.shuffle(l);
        a = l[0];
        b = l[1];
        return true;
    }
    string pz() { return r.chance(0.5) ? "X" : "Z"; }
    void kill(int id)
    {
        core.erase(std::remove(core.begin(), core.end(), id), core.end());
        extra.erase(std::remove(extra.begin(), extra.end(), id), extra.end());
    }
};

void lli_nonlocal(Rng& r, Scenario& sc, Prog& p, const string& focus, bool magic, int pool, bool ancilla, int len)
{
    bool init_any = ancilla;
    vector<double> w{
        (double)r.range(0, 2),                       // 0 measure an extra (or rarely a core) patch
        (double)r.range(0, 2),                       // 1 pauli
        (double)r.range(0, 2),                       // 2 H
        sc.geti("twists", 1) && r.chance(0.6) ? (double)r.range(1, 2) : 0.0,   // 3 S
        (double)r.range(1, 6),                       // 4 MPM
        (double)r.range(0, 3),                       // 5 init next to
        init_any ? (double)r.range(1, 2) : 0.0,      // 6 init
        magic ? (double)r.range(1, 3) : 0.0,         // 7 magic request (+ use)
        0.0,                                         // 8 y request / gadget
        r.chance(0.7) ? (double)r.range(1, 3) : 0.0  // 9 rotate
    };
    if (pool) w[8] = double(r.range(1, 3));
    else if (sc.geti("twists", 1) && r.chance(0.4)) w[8] = 1;
    auto boost = [&](std::initializer_list<int> ks) { for (int k : ks) if (w[k] > 0 || k == 4 || k == 5 || k == 9 || k == 0) w[k] = w[k] * 3 + 2; };
    if (focus == "C07") boost({7, 0});
    if (focus == "C08") boost({8});
    if (focus == "C09") boost({9});
    if (focus == "C05" || focus == "C06") boost({4});
    if (focus == "C04" || focus == "C03") boost({5, 9, 0});
    vector<std::pair<int, int>> lent;
    // with twists a drained pool falls back to fresh states, which cannot be returned
    int loans = pool && sc.geti("twists", 1) ? pool : 1 << 20;
    int cap = int(p.core.size()) + int(r.range(2, 6));
    // layered programs: the same instruction on (almost) every patch, so that many instructions become ready together
    double layers = r.chance(p.core.size() > 8 ? 0.5 : 0.1) ? 0.15 + 0.1 * double(r.below(6)) : 0;
    for (int i = 0; i < len; i++) {
        int a = p.any(), b;
        if (a < 0) break;
        if (layers > 0 && r.chance(layers)) {
            auto l = p.core;
            if (r.chance(0.5)) r.shuffle(l);
            int kind = int(r.weighted({4, 3, w[3] > 0 ? 2.0 : 0.0, 1, 2}));
            double part = r.chance(0.5) ? 1 : 0.8;
            for (size_t k = 0; k < l.size(); k++) {
                if (!r.chance(part)) continue;
                if (kind == 4) { if (k + 1 < l.size()) { p.emit(cat("MultiBodyMeasure ", l[k], ":", p.pz(), ",", l[k + 1], ":", p.pz())); k += r.chance(0.8) ? 1 : 0; } }
                else if (kind == 0) p.emit(cat("HGate ", l[k]));
                else if (kind == 1) p.emit(cat("RotateSingleCellPatch ", l[k]));
                else if (kind == 2) p.emit(cat("SGate ", l[k]));
                else p.emit(cat("LogicalPauli ", l[k], " X"));
            }
            i += int(l.size()) / 3;
            continue;
        }
        bool full = int(p.live().size()) >= cap;
        switch (r.weighted(w)) {
        case 0: {
            int x = !p.extra.empty() && r.chance(0.9) ? r.pick(p.extra) : r.chance(0.15) ? a : -1;
            if (x < 0) break;
            bool is_lent = false;
            for (auto& [y, n] : lent) if (y == x) is_lent = true;
            if (is_lent) break;
            p.emit(cat("MeasureSinglePatch ", x, " ", p.pz()));
            p.kill(x);
            break;
        }
        case 1: p.emit(cat("LogicalPauli ", a, " ", r.pick(vector<string>{"X", "Z", "Y"}))); break;
        case 2: p.emit(cat("HGate ", a)); break;
        case 3: p.emit(cat("SGate ", a)); break;
        case 4:
            if (p.two(a, b)) p.emit(cat("MultiBodyMeasure ", a, ":", p.pz(), ",", b, ":", p.pz()));
            break;
        case 5:
            if (full) break;
            p.emit(cat("Init ", p.next, " ", r.chance(0.5) ? "|0>" : "|+>", " ", a, ":", p.pz()), {a});
            p.extra.push_back(p.next++);
            break;
        case 6:
            if (full) break;
            p.emit(cat("Init ", p.next, " ", r.chance(0.5) ? "|0>" : "|+>"));
            p.extra.push_back(p.next++);
            break;
        case 7: {
            if (full) break;
            int m = p.next++;
            p.emit(cat("RequestMagicState ", m, " ", a), {a});
            if (r.chance(0.75)) {
                p.emit(cat("MultiBodyMeasure ", a, ":", r.chance(0.8) ? "Z" : "X", ",", m, ":Z"));
                if (r.chance(0.9)) { p.emit(cat("MeasureSinglePatch ", m, " X")); break; }
            }
            p.extra.push_back(m);
            break;
        }
        case 8: {
            if (pool) {
                if (!lent.empty() && (loans == 0 || r.chance(int(lent.size()) >= pool ? 0.95 : 0.4))) {
                    size_t k = r.below(lent.size());
                    auto [y, n] = lent[k];
                    lent.erase(lent.begin() + k);
                    p.kill(y);
                    p.emit(cat("RequestYState ", y, " ", n), {}, false);
                }
                else if (loans == 0) break;
                else if (loans--, r.chance(0.5)) {   // borrow, use, return
                    int y = p.next++;
                    p.emit(cat("RequestYState ", y, " ", a), {a});
                    if (r.chance(0.7)) p.emit(cat("MultiBodyMeasure ", a, ":Z,", y, ":Z"));
                    if (r.chance(0.3)) p.emit(cat("HGate ", y));
                    if (r.chance(0.3)) p.emit(cat("RotateSingleCellPatch ", y));
                    if (r.chance(0.8)) p.emit(cat("RequestYState ", y, " ", a), {}, false);
                    else { lent.push_back({y, a}); p.extra.push_back(y); }
                }
                else {
                    int y = p.next++;
                    p.emit(cat("RequestYState ", y, " ", a), {a});
                    lent.push_back({y, a});
                    p.extra.push_back(y);
                }
            }
            else if (!full) {
                int y = p.next++;
                p.emit(cat("RequestYState ", y, " ", a), {a});
                if (r.chance(0.7)) {
                    p.emit(cat("MultiBodyMeasure ", a, ":Z,", y, ":Z"));
                    if (r.chance(0.9)) { p.emit(cat("MeasureSinglePatch ", y, " X")); break; }
                }
                p.extra.push_back(y);
            }
            break;
        }
        case 9: p.emit(cat("RotateSingleCellPatch ", a)); break;
        }
    }
    if (r.chance(0.8))
        for (auto& [y, n] : lent) p.emit(cat("RequestYState ", y, " ", n), {}, false);
}

void lli_local(Rng& r, Scenario& sc, Prog& p, const string& focus, bool magic, bool edpc, int len)
{
    // declared patches that touch each other (they are handed out in reading order of the layout)
    vector<std::array<int, 3>> touching;
    {
        std::map<std::pair<int, int>, int> at;
        size_t k = 0;
        for (size_t y = 0; y < sc.layout.size(); y++)
            for (size_t x = 0; x < sc.layout[y].size(); x++)
                if (sc.layout[y][x] == 'Q' && k < p.core.size()) at[{int(y), int(x)}] = p.core[k++];
        for (auto& [c, id] : at) {
            auto d = at.find({c.first + 1, c.second}), e = at.find({c.first, c.second + 1});
            if (d != at.end()) touching.push_back({id, d->second, 1});
            if (e != at.end()) touching.push_back({id, e->second, 0});
        }
    }
    vector<double> w{
        (double)r.range(2, 8),                               // 0 Bell CNOT
        (double)r.range(0, 4),                               // 1 Bell pair and joint measurements
        (double)r.range(0, 2),                               // 2 pauli/H
        r.chance(0.5) ? 1.0 : 0.0,                           // 3 rotate
        (double)r.range(0, 2),                               // 4 init next to + local merge
        sc.geti("twists", 1) && r.chance(0.5) ? 1.0 : 0.0,   // 5 fresh Y gadget
        magic ? 1.0 : 0.0,                                   // 6 magic + CNOT
        0.4,                                                 // 7 measure
        touching.empty() ? 0.0 : (double)r.range(1, 4),      // 8 joint measurements of touching patches
        r.chance(0.5) ? (double)r.range(0, 2) : 0.0          // 9 two new patches in a chain
    };
    if (focus == "C10") { w[0] *= 2; w[1] = w[1] * 2 + 2; }
    if (edpc && r.chance(0.6)) { w[1] = 0; w[3] *= 0.3; }
    if (edpc) { w[1] = 0; w[9] = 0; }
    for (int i = 0; i < len; i++) {
        int a, b;
        if (p.core.size() < 2) break;
        auto l = p.core;
        r.shuffle(l);
        a = l[0];
        b = l[1];
        switch (r.weighted(w)) {
        case 0: p.emit(cat("BellBasedCNOT ", a, " ", b, " ", p.next, " ", p.next + 1)); p.next += 2; break;
        case 1: {
            int s1 = p.next, s2 = p.next + 1;
            p.next += 2;
            string o1 = p.pz(), o2 = p.pz();
            p.emit(cat("BellPairInit ", s1, " ", s2, " ", a, ":", o1, ",", b, ":", o2), {});
            if (r.chance(0.8)) p.emit(cat("MultiBodyMeasure ", s1, ":Z,", a, ":Z"));
            if (r.chance(0.8)) p.emit(cat("MultiBodyMeasure ", s2, ":X,", b, ":X"));
            p.emit(cat("MeasureSinglePatch ", s1, " X"));
            p.emit(cat("MeasureSinglePatch ", s2, " Z"));
            break;
        }
        case 2:
            if (r.chance(0.5)) p.emit(cat("HGate ", a));
            else p.emit(cat("LogicalPauli ", a, " ", r.pick(vector<string>{"X", "Z", "Y"})));
            break;
        case 3: p.emit(cat("RotateSingleCellPatch ", a)); break;
        case 4: {
            int c = p.next++;
            string o = p.pz();
            p.emit(cat("Init ", c, " |0> ", a, ":", o), {a});
            p.emit(cat("MultiBodyMeasure ", a, ":", o, ",", c, ":", o));
            p.emit(cat("MeasureSinglePatch ", c, " Z"));
            break;
        }
        case 5: {
            int y = p.next++;
            p.emit(cat("RequestYState ", y, " ", a), {a});
            p.emit(cat("MultiBodyMeasure ", y, ":Z,", a, ":Z"));
            p.emit(cat("MeasureSinglePatch ", y, " X"));
            break;
        }
        case 6: {
            int m = p.next++;
            p.emit(cat("RequestMagicState ", m, " ", a), {a});
            p.emit(cat("BellBasedCNOT ", a, " ", m, " ", p.next, " ", p.next + 1));
            p.next += 2;
            p.emit(cat("MeasureSinglePatch ", m, " Z"));
            break;
        }
        case 8:
            for (int n = int(r.range(1, 4)); n > 0; n--) {
                auto& t = r.pick(touching);
                int u = t[0], v = t[1];
                if (std::find(p.core.begin(), p.core.end(), u) == p.core.end() || std::find(p.core.begin(), p.core.end(), v) == p.core.end()) continue;
                if (r.chance(0.5)) std::swap(u, v);
                const char* o = t[2] ? "Z" : "X";
                p.emit(cat("MultiBodyMeasure ", u, ":", o, ",", v, ":", o));
            }
            break;
        case 9: {
            int c = p.next, d = p.next + 1;
            p.next += 2;
            string o = p.pz(), q = p.pz();
            p.emit(cat("Init ", c, " |0> ", a, ":", o), {a});
            p.emit(cat("Init ", d, " |+> ", c, ":", q), {c});
            for (int n = int(r.range(1, 4)); n > 0; n--) {
                bool first = r.chance(0.5), turned = r.chance(0.5);
                int u = first ? a : c, v = first ? c : d;
                const string& t = first ? o : q;
                p.emit(cat("MultiBodyMeasure ", turned ? v : u, ":", t, ",", turned ? u : v, ":", t));
            }
            p.emit(cat("MeasureSinglePatch ", d, " Z"));
            p.emit(cat("MeasureSinglePatch ", c, " X"));
            break;
        }
        case 7:
            if (p.core.size() > 3 && r.chance(0.5)) { p.emit(cat("MeasureSinglePatch ", a, " Z")); p.kill(a); }
            break;
        }
    }
}
}  // namespace

// ids of the declared patches: usually 0..n-1, sometimes sparse, shuffled and large
static void core_ids(Rng& r, Scenario& sc, Prog& p, int n, bool plain)
{
    int style = plain ? 0 : int(r.weighted({12, 1, 1, 1}));
    int base = style == 0 ? 0 : style == 1 ? int(r.range(1, 40)) : style == 2 ? 2000000000 : int(r.range(100, 100000));
    for (int i = 0; i < n; i++) p.core.push_back(base + (style >= 2 ? i * 7 : i));
    if (style) r.shuffle(p.core);
    string core;
    for (int id : p.core) { core += (core.empty() ? "" : ",") + std::to_string(id); p.next = std::max(p.next, id + 1); }
    sc.set("core", core);
}

Scenario gen_lattice(uint64_t seed, const string& focus)
{
    Rng r(seed);
    Scenario sc;
    sc.family = "lattice";
    sc.seed = seed;
    // class of scenario: 0 LLI, 1 local LLI, 2 QASM on the compact layouts, 3 QASM on EDPC layouts, 4 LLI on EDPC layouts, 5 LLI on the compact layouts
    vector<double> cls{5, 2, 2, 2, 1, 0.8};
    if (focus == "C05" || focus == "C06" || focus == "C09") cls = {8, 1.5, 3, 1, 0.5, 0.8};
    if (focus == "C07") cls = {7, 0.5, 3, 2, 0, 0.8};
    if (focus == "C08") cls = {6, 0, 0, 4, 0, 0.8};
    if (focus == "C10") cls = {0, 7, 0, 3, 3};
    if (focus == "C11") cls = {0, 0, 0, 3, 7};
    if (focus == "C12") cls = {7, 3, 2, 2, 1, 0.8};
    int c = int(r.weighted(cls));
    vector<string> modes{"stream", "dag", "wave"};
    string mode = r.pick(modes);
    if (focus == "C12" && mode == "dag" && r.chance(0.4)) mode = r.chance(0.5) ? "stream" : "wave";
    sc.set("opids", r.chance(0.5));
    sc.set("disttime", r.chance(0.6) ? r.range(1, 8) : r.chance(0.96) ? r.range(9, 20) : r.range(21, 400));
    sc.set("stagger", r.chance(0.6));
    {
        double p = focus == "C06" ? 0.35 : 0.12;
        if (r.chance(p)) sc.set("search", "astar");
        else if (r.chance(p)) sc.set("search", "boost");
    }
    if (focus == "C06" ? false : r.chance(0.03)) sc.set("opt_none", "1");
    sc.opt.erase("opt_none");
    int len = r.chance(0.2) ? int(r.range(3, 8)) : r.chance(0.8) ? int(r.range(8, 30)) : r.chance(0.96) ? int(r.range(30, 70)) : int(r.range(100, 400));
    double budget = 0;
    if (focus == "C12") budget = r.chance(0.5) ? 0.05 + 0.2 * double(r.below(3)) : 0;
    else if (r.chance(0.08)) budget = 0.1;

    if (c == 0 || c == 1) {
        bool local = c == 1;
        bool magic = r.chance(focus == "C07" ? 0.97 : 0.5);
        bool pool = !local && r.chance(focus == "C08" ? 0.8 : 0.12);
        int n;
        bool anc;
        sc.set("layout", "ascii");
        bool wide = r.chance(0.05);
        sc.layout = gen_layout(r, wide ? int(r.chance(0.9) ? r.range(11, 18) : r.range(19, r.chance(0.8) ? 60 : 300)) : int(r.range(local ? 2 : 1, r.chance(0.7) ? 5 : 10)), magic, pool, n, anc);
        bool has_magic = false;
        int has_pool = 0;
        for (auto& l : sc.layout)
            for (char ch : l) { if (ch == 'M' || (ch >= '0' && ch <= '9')) has_magic = true; if (ch == 'Y') has_pool++; }
        sc.set("twists", has_pool ? r.chance(0.3) : r.chance(0.8));
        sc.set("local", local);
        sc.set("mode", mode);
        Prog p{r, sc, {}, {}, {}, n};
        bool wrapped = !local && !has_pool && sc.geti("twists", 1) && r.chance(0.08);
        if (n > 1 && r.chance(0.12)) n = int(r.range(1, n - 1));     // fewer declared patches than the layout has room for
        else if (!wrapped && r.chance(0.02)) n += int(r.range(1, 3)); // more: has to be refused
        core_ids(r, sc, p, n, wrapped);
        p.budget_p = budget;
        p.budget_max = r.chance(0.7) ? 4 : 15;
        if (mode == "stream") p.clients = r.chance(0.7);
        if (local) lli_local(r, sc, p, focus, has_magic, false, len);
        else lli_nonlocal(r, sc, p, focus, has_magic, has_pool, anc, len);
        // injection streams on top of an instruction file
        if (wrapped) { sc.set("wrap", r.chance(0.5) ? "compact" : "edpc_tel"); }
    }
    else if (c == 2) {
        int n = r.chance(0.05) ? int(r.range(10, r.chance(0.95) ? 18 : 50)) : int(r.range(1, r.chance(0.7) ? 5 : 9));
        sc.set("layout", r.chance(0.5) ? "compact" : "noclog");
        if (r.chance(0.15)) {
            int nn;
            bool anc;
            sc.set("layout", "ascii");
            sc.layout = gen_layout(r, std::max(n, 2), true, false, nn, anc);
            n = nn;
            if (n > 2 && r.chance(0.2)) n = int(r.range(2, n - 1));
        }
        sc.set("qasm", 1);
        sc.set("mode", mode);
        sc.set("corrections", r.chance(0.3));
        sc.set("wrap", sc.get("layout") == "ascii" ? "none" : "compact");
        string core;
        for (int i = 0; i < n; i++) core += (i ? "," : "") + std::to_string(i);
        sc.set("core", core);
        sc.prog = gen_qasm(r, n, std::min(len, 20), true, true, true);
    }
    else if (c == 3) {
        bool edpc_pipe = r.chance(focus == "C11" ? 0.9 : 0.4);
        bool local = edpc_pipe || r.chance(0.7);
        int n = r.chance(0.05) ? int(r.range(11, r.chance(0.95) ? 20 : 50)) : int(r.range(2, r.chance(0.7) ? 6 : 10));
        sc.set("layout", "edpc");
        sc.set("condensed", r.chance(0.4));
        sc.set("lanes", edpc_pipe || r.chance(0.6) ? 1 : r.range(1, 2));
        sc.set("factories", r.chance(0.4));
        sc.set("local", local);
        bool cat_s = r.chance(focus == "C08" ? 0.9 : 0.5);
        sc.set("twists", cat_s ? 0 : 1);
        sc.set("predistilled", cat_s);
        sc.set("wrap", cat_s ? "edpc_cat" : "edpc_tel");
        sc.set("qasm", 1);
        sc.set("mode", edpc_pipe ? "edpc" : mode);
        if (edpc_pipe) { sc.opt.erase("search"); }
        string core;
        for (int i = 0; i < n; i++) core += (i ? "," : "") + std::to_string(i);
        sc.set("core", core);
        sc.prog = gen_qasm(r, n, std::min(len, 20), true, true, false);
    }
    else if (c == 5) {
        int n = r.chance(0.05) ? int(r.range(10, r.chance(0.95) ? 18 : 50)) : int(r.range(1, r.chance(0.7) ? 5 : 9));
        sc.set("layout", r.chance(0.5) ? "compact" : "noclog");
        sc.set("wrap", "compact");
        sc.set("mode", mode);
        sc.set("twists", 1);
        Prog p{r, sc, {}, {}, {}, n};
        core_ids(r, sc, p, n, false);
        p.budget_p = budget;
        p.budget_max = r.chance(0.7) ? 4 : 15;
        p.clients = r.chance(0.7) || mode != "stream";
        lli_nonlocal(r, sc, p, focus, true, 0, true, std::min(len, 20));
    }
    else {
        bool edpc_pipe = r.chance(0.85);
        bool crowd = r.chance(focus == "C11" ? 0.35 : 0.06);        // many disjoint pairs at once: neighbouring crossings
        int n = int(crowd ? r.range(10, r.chance(0.8) ? 18 : 30) : r.range(2, r.chance(0.5) ? 8 : 14));
        sc.set("layout", "edpc");
        sc.set("condensed", r.chance(0.4));
        sc.set("lanes", 1);
        sc.set("factories", r.chance(0.3));
        sc.set("local", 1);
        sc.set("predistilled", 0);
        sc.set("twists", 1);
        sc.set("mode", edpc_pipe ? "edpc" : mode);
        if (edpc_pipe) sc.opt.erase("search");
        Prog p{r, sc, {}, {}, {}, n};
        core_ids(r, sc, p, n, false);
        p.budget_p = budget;
        if (crowd) {
            for (int wave = int(r.range(1, 4)); wave > 0; wave--) {
                auto l = p.core;
                r.shuffle(l);
                size_t keep = r.chance(0.6) ? l.size() : l.size() / 2 + r.below(l.size() / 2);
                for (size_t k = 0; k + 1 < keep; k += 2) { p.emit(cat("BellBasedCNOT ", l[k], " ", l[k + 1], " ", p.next, " ", p.next + 1)); p.next += 2; }
                if (r.chance(0.3)) p.emit(cat(r.chance(0.5) ? "HGate " : "RotateSingleCellPatch ", l[0]));
            }
        }
        else lli_local(r, sc, p, focus, r.chance(0.3), edpc_pipe, len);
    }
    // faults: routes refused in windows, legal detours
    double pf = 0.45;
    if (r.chance(pf)) {
        int n = int(r.range(1, 3));
        for (int i = 0; i < n; i++) {
            int from = int(r.range(0, 30)), dur = int(r.range(0, r.chance(0.8) ? 6 : 25));
            sc.faults.push_back(cat("refuse ", from, " ", from + dur, " ", r.chance(0.4) ? 1000 : int(r.range(200, 900)), " ", r.below(1000000)));
        }
    }
    if (focus == "C12" && sc.get("mode") == "dag" && r.chance(0.15))
        sc.faults.push_back(cat("refuse ", r.range(0, 5), " 200 1000 ", r.below(1000000)));
    if (sc.get("mode") != "edpc" && r.chance(0.25)) sc.faults.push_back(cat("detour ", int(r.range(100, 900)), " ", r.below(1000000)));
    return sc;
}
}  // namespace sim

#include "pq_sim.hpp"

#include <libpq-fe.h>

#include <algorithm>
#include <cctype>
#include <cstring>

namespace sim::pq {
Db& db()
{
    static Db d;
    return d;
}
void reset() { db() = Db{}; }
}  // namespace sim::pq

using sim::pq::Db;
using sim::pq::Row;
using std::string;
using std::vector;

struct pg_conn {
    bool ok = false;
    string err;
};
struct pg_result {
    ExecStatusType st = PGRES_FATAL_ERROR;
    vector<string> cols;
    vector<Row> rows;
};

namespace {
vector<string> tokens(const string& q)
{
    vector<string> t;
    for (size_t i = 0; i < q.size();) {
        char c = q[i];
        if (isspace((unsigned char)c) || c == ';') { i++; continue; }
        if (isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || (c == '-' && i + 1 < q.size() && isdigit((unsigned char)q[i + 1]))) {
            size_t j = i + 1;
            while (j < q.size() && (isalnum((unsigned char)q[j]) || q[j] == '_' || q[j] == '.')) j++;
            string w = q.substr(i, j - i);
            for (auto& x : w) x = char(tolower(x));
            auto d = w.rfind('.');
            if (d != string::npos && isalpha((unsigned char)w[0])) w = w.substr(d + 1);
            t.push_back(w);
            i = j;
        }
        else if ((c == '<' || c == '>' || c == '!') && i + 1 < q.size() && (q[i + 1] == '=' || q[i + 1] == '>')) { t.push_back(q.substr(i, 2)); i += 2; }
        else if (c == '\'' || c == '"') {
            size_t j = q.find(c, i + 1);
            if (j == string::npos) j = q.size() - 1;
            t.push_back(q.substr(i + 1, j - i - 1));
            i = j + 1;
        }
        else { t.push_back(string(1, c)); i++; }
    }
    return t;
}
int col(const Db& d, const string& n)
{
    for (size_t i = 0; i < d.cols.size(); i++) if (d.cols[i] == n) return int(i);
    return -1;
}
long num(const string& s) { try { return std::stol(s); } catch (...) { return 0; } }

// select <*|columns|count(*)|max(c)|min(c)> from T [as x] [where c op n (and ...)*] [order by ...] [limit n] [offset n]
bool select(const Db& d, const vector<string>& t, pg_result& r, int qno)
{
    size_t i = 1;
    vector<string> items;
    string agg;
    string aggcol, aggname;
    vector<string> out_names;
    bool distinct = false;
    if (i < t.size() && t[i] == "distinct") { distinct = true; i++; }
    while (i < t.size() && t[i] != "from") {
        if (t[i] == ",") { i++; continue; }
        if ((t[i] == "count" || t[i] == "max" || t[i] == "min") && i + 3 < t.size() && t[i + 1] == "(") {
            agg = aggname = t[i];
            aggcol = t[i + 2];
            i += 4;
        }
        else { items.push_back(t[i]); i++; }
        if (i + 1 < t.size() && t[i] == "as") { if (!agg.empty()) aggname = t[i + 1]; i += 2; }
    }
    if (i + 1 >= t.size() || t[i + 1] != "layered_lscom") return false;
    i += 2;
    if (i < t.size() && t[i] == "as") i += 2;
    struct Cond { int c; string op; long v; };
    vector<Cond> conds;
    if (i < t.size() && t[i] == "where") {
        i++;
        while (true) {
            if (i + 2 >= t.size()) return false;
            int c = col(d, t[i]);
            if (c < 0) return false;
            conds.push_back({c, t[i + 1], num(t[i + 2])});
            i += 3;
            if (i < t.size() && t[i] == "and") { i++; continue; }
            break;
        }
    }
    vector<std::pair<int, bool>> order;
    long limit = -1, offset = 0;
    while (i < t.size()) {
        if (t[i] == "order" && i + 2 < t.size() && t[i + 1] == "by") {
            i += 2;
            while (i < t.size() && t[i] != "limit" && t[i] != "offset") {
                if (t[i] == ",") { i++; continue; }
                int c = col(d, t[i]);
                if (c < 0) return false;
                bool desc = false;
                i++;
                if (i < t.size() && (t[i] == "asc" || t[i] == "desc")) { desc = t[i] == "desc"; i++; }
                order.push_back({c, desc});
            }
        }
        else if (t[i] == "limit" && i + 1 < t.size()) { limit = num(t[i + 1]); i += 2; }
        else if (t[i] == "offset" && i + 1 < t.size()) { offset = num(t[i + 1]); i += 2; }
        else return false;
    }
    vector<const Row*> sel;
    for (auto& row : d.rows) {
        bool ok = true;
        for (auto& c : conds) {
            if (row.null[c.c]) { ok = false; break; }
            long x = num(row.v[c.c]);
            bool h = c.op == "=" ? x == c.v : c.op == "<" ? x < c.v : c.op == ">" ? x > c.v : c.op == "<=" ? x <= c.v
                   : c.op == ">=" ? x >= c.v : (c.op == "<>" || c.op == "!=") ? x != c.v : false;
            if (!h) { ok = false; break; }
        }
        if (ok) sel.push_back(&row);
    }
    if (d.shuffle) {
        sim::Rng rng(sim::mix(d.shuffle, uint64_t(qno)));
        rng.shuffle(sel);
    }
    std::stable_sort(sel.begin(), sel.end(), [&](const Row* a, const Row* b) {
        for (auto& [c, desc] : order) {
            long x = num(a->v[c]), y = num(b->v[c]);
            if (x != y) return desc ? x > y : x < y;
        }
        return false;
    });
    r.st = PGRES_TUPLES_OK;
    if (!agg.empty()) {
        r.cols = {aggname};
        Row o;
        if (agg == "count") { o.v = {std::to_string(sel.size())}; o.null = {false}; }
        else {
            int c = col(d, aggcol);
            if (c < 0) return false;
            bool any = false;
            long best = 0;
            for (auto* s : sel) {
                long x = num(s->v[c]);
                if (!any || (agg == "max" ? x > best : x < best)) best = x;
                any = true;
            }
            o.v = {any ? std::to_string(best) : ""};
            o.null = {!any};
        }
        r.rows = {o};
        return true;
    }
    vector<int> idx;
    for (auto& it : items) {
        if (it == "*") for (size_t c = 0; c < d.cols.size(); c++) { idx.push_back(int(c)); r.cols.push_back(d.cols[c]); }
        else {
            int c = col(d, it);
            if (c < 0) return false;
            idx.push_back(c);
            r.cols.push_back(it);
        }
    }
    if (idx.empty()) return false;
    long n = 0;
    std::set<vector<string>> seen;
    for (auto* s : sel) {
        if (n++ < offset) continue;
        if (limit >= 0 && long(r.rows.size()) >= limit) break;
        Row o;
        for (int c : idx) { o.v.push_back(s->v[c]); o.null.push_back(s->null[c]); }
        if (distinct && !seen.insert(o.v).second) continue;
        r.rows.push_back(o);
    }
    return true;
}

pg_result* exec(pg_conn* c, string q, int n, const char* const* vals)
{
    Db& d = sim::pq::db();
    int qno = d.queries++;
    if (!c->ok) { c->err = "connection is closed"; d.failed = true; return nullptr; }
    if (qno == d.fail_query) {
        d.failed = true;
        c->err = "simulated: server closed the connection unexpectedly";
        if (d.fail_kind >= 1) { if (d.fail_kind == 2) c->ok = false; return nullptr; }
        auto* r = new pg_result;
        d.live_results++;
        return r;
    }
    for (int i = n; i >= 1; i--) {
        string k = "$" + std::to_string(i);
        for (size_t p; (p = q.find(k)) != string::npos;) q.replace(p, k.size(), vals[i - 1] ? vals[i - 1] : "null");
    }
    auto t = tokens(q);
    auto* r = new pg_result;
    d.live_results++;
    if (t.empty()) return r;
    if (t[0] == "select") {
        if (!select(d, t, *r, qno)) {
            d.unknown_sql = true;
            d.last_unknown = q;
            c->err = "simulated server: cannot interpret: " + q;
            r->st = PGRES_FATAL_ERROR;
        }
    }
    else if (t[0] == "create" || t[0] == "begin" || t[0] == "commit" || t[0] == "set" || t[0] == "analyze" || t[0] == "rollback") r->st = PGRES_COMMAND_OK;
    else {
        d.unknown_sql = true;
        d.last_unknown = q;
        c->err = "simulated server: cannot interpret: " + q;
    }
    return r;
}
}  // namespace

extern "C" {
PGconn* PQconnectdb(const char*)
{
    Db& d = sim::pq::db();
    auto* c = new pg_conn;
    d.connections++;
    d.live_connections++;
    c->ok = !d.connect_fails;
    if (!c->ok) { c->err = "simulated: could not connect to server: Connection refused"; d.failed = true; }
    return c;
}
PGconn* PQconnectdbParams(const char* const*, const char* const*, int) { return PQconnectdb(""); }
void PQfinish(PGconn* c) { if (c) { sim::pq::db().live_connections--; delete c; } }
ConnStatusType PQstatus(const PGconn* c) { return c && c->ok ? CONNECTION_OK : CONNECTION_BAD; }
char* PQerrorMessage(const PGconn* c) { return const_cast<char*>(c ? c->err.c_str() : "no connection"); }
PGresult* PQexecParams(PGconn* c, const char* q, int n, const Oid*, const char* const* v, const int*, const int*, int) { return exec(c, q, n, v); }
PGresult* PQexec(PGconn* c, const char* q) { return exec(c, q, 0, nullptr); }
PGresult* PQprepare(PGconn* c, const char*, const char*, int, const Oid*) { c->err = "simulated server: PREPARE is not supported"; return nullptr; }
PGresult* PQexecPrepared(PGconn* c, const char*, int, const char* const*, const int*, const int*, int) { c->err = "simulated server: PREPARE is not supported"; return nullptr; }
ExecStatusType PQresultStatus(const PGresult* r) { return r ? r->st : PGRES_FATAL_ERROR; }
int PQnfields(const PGresult* r) { return r ? int(r->cols.size()) : 0; }
int PQntuples(const PGresult* r) { return r ? int(r->rows.size()) : 0; }
char* PQfname(const PGresult* r, int c) { return const_cast<char*>(r->cols.at(size_t(c)).c_str()); }
int PQfnumber(const PGresult* r, const char* n)
{
    for (size_t i = 0; r && i < r->cols.size(); i++) if (r->cols[i] == n) return int(i);
    return -1;
}
char* PQgetvalue(const PGresult* r, int i, int c)
{
    auto& row = r->rows.at(size_t(i));
    return const_cast<char*>(row.null.at(size_t(c)) ? "" : row.v.at(size_t(c)).c_str());
}
int PQgetisnull(const PGresult* r, int i, int c) { return r->rows.at(size_t(i)).null.at(size_t(c)); }
int PQgetlength(const PGresult* r, int i, int c) { return int(strlen(PQgetvalue(r, i, c))); }
void PQclear(PGresult* r) { if (r) { sim::pq::db().live_results--; delete r; } }
char* PQresultErrorMessage(const PGresult*) { return const_cast<char*>("simulated error"); }
int PQconsumeInput(PGconn*) { return 1; }
PGnotify* PQnotifies(PGconn*) { return nullptr; }
int PQsocket(const PGconn*) { return -1; }
void PQfreemem(void*) {}
}

// Simulated PostgreSQL server behind the libpq interface.
#pragma once
#include "common.hpp"
namespace sim::pq {
struct Row { vector<string> v; vector<bool> null; };
struct Db {
    vector<string> cols;
    vector<Row> rows;
    bool connect_fails = false;
    int fail_query = -1;        // this query (0-based) fails
    int fail_kind = 0;          // 0 error result, 1 no result at all (connection lost), 2 connection lost for good
    uint64_t shuffle = 0;       // rows come back in an order that depends on this and the query number
    // observed
    int queries = 0, connections = 0, live_connections = 0, live_results = 0;
    bool failed = false;
    bool unknown_sql = false;
    string last_unknown;
};
Db& db();
void reset();
}

// Printed dependency graphs against the program they were made from.
#pragma once
#include "common.hpp"
namespace sim {
struct DagItem {
    string text;
    std::set<int64_t> res;    // what it uses
    int64_t ctrl = -1;        // control of a controlled gate: those with the same control and other targets commute
    std::set<int64_t> tgt;
};
string gate_text(const string& line);
string dag_text_problem(const string& graph, const vector<DagItem>& program);   // "" if it shows exactly the program's order
}  // namespace sim

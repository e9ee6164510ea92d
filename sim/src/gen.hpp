// Seeded scenario generators (swarm: every scenario switches features on and off at random).
#pragma once
#include "common.hpp"
namespace sim {
Scenario gen_lattice(uint64_t seed, const string& focus);
// pieces reused by the other families
vector<string> gen_layout(Rng& r, int want_core, bool magic, bool ypool, int& n_core, bool& has_ancilla);
vector<string> gen_qasm(Rng& r, int n, int gates, bool s_gates, bool t_gates, bool resets);
}

// A family of scenarios: how they are generated and executed.
#pragma once
#include "common.hpp"
#include <functional>
namespace sim {
struct Family {
    std::function<Scenario(uint64_t seed, const string& focus)> gen;
    std::function<void(const Scenario&, const string& focus, Outcome&)> run;
    std::function<void(const Scenario&, std::ostream&)> explain;   // readable log of the run
};
const std::map<string, Family>& families();
// which families decide a property, with weights
const vector<std::pair<string, double>>& families_of(const string& prop);
}

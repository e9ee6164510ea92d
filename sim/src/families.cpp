#include "family.hpp"
#include "fam_cli.hpp"
#include "fam_faults.hpp"
#include "fam_io.hpp"
#include "gen.hpp"
#include "lattice.hpp"

namespace sim {
namespace {
void run_lattice_family(const Scenario& sc, const string&, Outcome& out)
{
    Log log;
    run_lattice(sc, log, out);
    check_log(sc, log, out);
}
void explain_lattice(const Scenario& sc, std::ostream& o)
{
    Log log;
    Outcome out;
    run_lattice(sc, log, out);
    log_failure_text(log, o);
}
}  // namespace

const std::map<string, Family>& families()
{
    static const std::map<string, Family> f{
        {"lattice", {gen_lattice, run_lattice_family, explain_lattice}},
        {"prefix", prefix_family()},
        {"timeout", timeout_family()},
        {"program", cli_family()},
        {"history", history_family()},
        {"stream", stream_family()},
        {"pandora", pandora_family()},
        {"dag", dag_family()},
        {"stages", stages_family()},
    };
    return f;
}

const vector<std::pair<string, double>>& families_of(const string& prop)
{
    static const std::map<string, vector<std::pair<string, double>>> m{
        {"C13", {{"timeout", 5}, {"program", 1}}},
        {"C14", {{"prefix", 3}, {"program", 1}}},
        {"C15", {{"stream", 6}, {"program", 1}}},
        {"C16", {{"program", 1}}},
        {"C17", {{"history", 1}}},
        {"C18", {{"pandora", 1}}},
        {"C19", {{"dag", 1}}},
        {"C20", {{"stages", 1}}},
        {"default", {{"lattice", 1}}},
    };
    auto it = m.find(prop);
    return it == m.end() ? m.at("default") : it->second;
}
}  // namespace sim

// Whole-program runs: the slicer program inside the simulator.
#pragma once
#include "common.hpp"
#include "lattice.hpp"
#include "sim_io.hpp"
namespace sim {
struct CliRun {
    int exit = -999;
    bool threw = false;
    string what;
    string out, err, global;      // program's stdout and stderr streams; process-wide cout/cerr
    string file;                  // what the simulated disk holds
    bool used_file = false;
    io::Seen io;
    bool stdout_failed = false, stdin_failed = false;
    bool ok() const { return !threw && exit == 0; }
    bool fault_fired() const { return io.write_failed || io.open_failed || io.close_failed || stdout_failed; }
    string text() const;          // everything a user sees, without wall times
};
// turns a lattice scenario into one that can be expressed on the command line
Scenario cli_scenario(uint64_t seed, const string& focus, Rng& r);
vector<string> cli_args(const Scenario& sc);
string cli_input(const Scenario& sc);          // program text as the user writes it
Scenario cli_reference(const Scenario& sc);    // the same slicing run as a lattice scenario
io::Plan cli_plan(const Scenario& sc);
CliRun run_cli(const Scenario& sc, const io::Plan& plan);
}  // namespace sim

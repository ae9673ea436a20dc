// Scenarios: complete simulated runs of the library against which the properties are checked.
#pragma once
#include "world.h"
#include <set>

namespace sim {

// one simulated run (one seed)
struct Run {
    Choices c;
    std::string prop; // the property the run is executed for
    std::vector<Violation> viol; // violations of any property
    std::map<std::string, u64> count; // counters for the evidence
    std::set<u64> states; // distinct states/interleavings reached (by scenario specific hash)
    std::string log; // human readable description
    bool verbose = false;
    u64 executions = 0; // complete library executions (parse/apply) within this run
    u64 nontrivial = 0;
    bool big = false; // use big files
    void fail(const std::string &p, const std::string &cls, const std::string &msg);
    void note(const std::string &s);
    void hit(const std::string &k, u64 n = 1) { count[k] += n; }
};

// executes the scenario for r.prop
void executeRun(Run &r);

} // namespace sim

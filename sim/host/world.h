// Files of a scenario, simulated runs over them, and what such a run leaves behind.
#pragma once
#include "dns.h"
#include "sim.h"
#include <array>
#include <map>
#include <optional>

using Files = std::map<std::string, std::string>; // path relative to the scratch directory -> content

Files files_of(const Scenario &s);
std::vector<std::string> argv_of(const Scenario &s, const std::string &output = "output.json");

struct Plan {
    SchedPlan sched;
    std::vector<Fault> faults;
    uint32_t flags = 0;
    uint64_t max_steps = ~0ull;
    bool use_replay = false;
    std::vector<uint64_t> replay;
};
json to_json(const Plan &p);
Plan plan_from(const json &j);

struct Seen {
    RunOut run;
    bool has_report = false, has_lint = false, has_log = false;
    std::string report, lint, log;
    std::vector<long> ecs;
    long total_ecs = -1, total_violations = -1, parsed = -1, vertices = -1, edges = -1;
    std::map<std::string, long> counts;
    // announced for each job: largest, smallest, mean, median number of vertices and edges of the resolution graphs
    std::vector<std::array<double, 4>> graph_vertices, graph_edges;
    std::vector<IoOp> io;
    Files paths; // index (as text) -> path of an IoOp; only with io
};

struct CheckError : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct Tally {
    uint64_t runs = 0, steps = 0, switches = 0, preemptions = 0, sync_ops = 0, vtime = 0, stall_effects = 0;
    uint64_t fired[F_KINDS] = {0};
    uint64_t faulted_runs = 0, max_threads = 0, max_runnable = 0;
    std::set<uint64_t> interleavings; // distinct orders of synchronisation operations, of runs with a preemption or fault
    std::map<std::string, uint64_t> what;
    std::map<std::string, uint64_t> damage; // runs on damaged input, by the kind of damage
    std::map<std::string, uint64_t> endings;
    void merge(const Tally &o);
};

// One scratch directory and one simulator.
class World
{
  public:
    World(const std::string &exe, const std::string &scratch, int core) : sim(exe, scratch, core)
    {
    }
    ~World();
    Sim sim;
    Tally tally;
    // leftovers: files an earlier run left behind (removed otherwise)
    Seen run(const Files &files, const std::vector<std::string> &argv, const Plan &plan, const Files &leftovers = {},
             const std::string &report = "output.json");
    // What the run before did to files that are not its own ("" if nothing).
    std::string touched(const Files &before, const std::set<std::string> &own, const Seen &s);

  private:
    Files installed_;
};

// Why a run without faults over well-formed input did not end as it has to ("" if it did).
std::string abnormal(const RunOut &r);
std::optional<json> parse_report(const std::string &text);
std::string symbols(const std::string &exe, const std::vector<uint32_t> &pcs);

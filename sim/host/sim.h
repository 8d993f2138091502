// Client side of the simulated program: one worker owns one fork server and one scratch directory.
#pragma once
#include "../shared.h"
#include <map>
#include <string>
#include <vector>

struct RunSpec {
    std::vector<std::string> argv;
    std::string report = "output.json";
    SchedPlan sched;
    uint32_t flags = 0;
    std::vector<Fault> faults;
    uint64_t max_steps = ~0ull;
    bool use_replay = false;
    std::vector<uint64_t> replay;
};

struct RunOut {
    bool timeout = false; // wall clock; an error of the check, not a result
    uint32_t end_kind = 0;
    int wait_status = 0;
    uint64_t steps = 0, vtime = 0, hash = 0, sync_hash = 0, nswitches = 0, preemptions = 0, sync_ops = 0, max_slice = 0;
    uint32_t threads = 0, max_runnable = 0;
    uint64_t n_alloc = 0, n_thread = 0, n_open = 0, n_read = 0, n_write = 0, n_close = 0, nio = 0;
    uint64_t fired[F_KINDS] = {0};
    uint64_t stall_effects = 0;
    uint32_t race_found = 0, mem_found = 0;
    std::string race_text, mem_text, note;
    std::vector<uint32_t> race_pcs, mem_pcs;
    int64_t live_bytes = 0, live_count = 0;
    bool marked = false;
    uint64_t bytes_written = 0;
    std::string out, err;

    bool exited() const;
    int status() const; // exit status, or -signal
    bool ok() const
    {
        return end_kind == E_NONE && exited() && status() == 0;
    }
    std::string ending() const;
};

class Sim
{
  public:
    Sim(const std::string &exe, const std::string &scratch, int core);
    ~Sim();
    Sim(const Sim &) = delete;
    RunOut run(const RunSpec &spec);
    std::vector<uint64_t> switches() const;
    const Shm *shm() const
    {
        return shm_;
    }
    const std::string &dir() const
    {
        return dir_;
    }
    std::string path(const std::string &rel) const
    {
        return dir_ + "/" + rel;
    }
    double wall_limit = 120;

  private:
    void start();
    int stop();
    std::string exe_, dir_;
    int core_;
    int pid_ = -1, cmd_ = -1, rsp_ = -1, memfd_ = -1;
    Shm *shm_ = nullptr;
};

bool read_file(const std::string &path, std::string &out);
bool write_file(const std::string &path, const std::string &data);

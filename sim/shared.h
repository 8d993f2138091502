// Layout of the memory shared between the orchestrator (host) and the simulated program (rt).
#pragma once
#include <cstdint>

constexpr uint64_t kShmAddr = 0x500000000000ull;
constexpr int kShmFd = 200;   // shared memory, inherited by the simulated program
constexpr int kCmdFd = 201;   // requests, host -> fork server
constexpr int kRspFd = 202;   // responses, fork server -> host

enum Strategy : uint32_t {
    S_TURNS = 0, // round robin with a fixed quantum
    S_RANDOM,    // uniformly random thread after a geometric number of steps
    S_PCT,       // priorities with random change points, slice cap for fairness
    S_SYNC,      // switches at synchronisation operations with a probability
    S_MIXED,     // random phases of the above
    S_REPLAY     // recorded switches
};

enum FaultKind : uint32_t {
    F_NONE = 0,
    F_OPEN_FAIL,   // arg errno
    F_READ_SHORT,  // arg maximum number of bytes
    F_READ_EINTR,
    F_READ_FAIL,   // arg errno
    F_WRITE_SHORT, // arg maximum number of bytes
    F_WRITE_EINTR,
    F_WRITE_FAIL,  // arg errno
    F_DISK_FULL,   // arg: number of bytes that still fit (files matching the filter), then ENOSPC
    F_CLOSE_FAIL,  // arg errno
    F_ALLOC_FAIL,  // nth allocation (count in a row)
    F_ALLOC_BIG,   // allocations of at least arg bytes, from the nth such one (count)
    F_THREAD_FAIL, // nth thread creation
    F_CLOCK_JUMP,  // at step arg2, jump by arg nanoseconds
    F_CRASH_STEP,  // process dies at step nth
    F_CRASH_IO,    // process dies at the nth file operation; arg 0 before, 1 after, 2 in the middle (short)
    F_SPURIOUS,    // condition variables wake up spuriously; arg: one in arg waits
    F_FSYNC_FAIL,
    F_RENAME_FAIL,
    F_ALLOC_SITE, // allocations under the call stack with hash arg, from the nth one (count)
    F_KINDS
};

struct Fault {
    uint32_t kind = 0;
    uint32_t count = 1;
    uint64_t nth = 0;
    int64_t arg = 0;
    uint64_t arg2 = 0;
    char filter[64] = {0}; // substring of the path, empty for any
    // state
    uint64_t seen = 0;
    uint64_t fired = 0;
};

struct Stall {
    uint64_t from, to;  // steps
    uint64_t threads;   // threads with (1 << creation ordinal % 64) & threads
};

constexpr uint32_t kMaxFaults = 48;
constexpr uint32_t kMaxStalls = 8;
constexpr uint32_t kMaxSwitches = 6u << 20;
constexpr uint32_t kMaxSites = 8192;
constexpr uint32_t kMaxIo = 8192;
constexpr uint32_t kMaxPaths = 64;

enum Flags : uint32_t { FL_MEM = 1, FL_RACE = 2, FL_SITES = 4, FL_TRACE = 8,
                        FL_ALL_SITES = 16 }; // list every allocation site, not only those with something alive

struct SchedPlan {
    uint32_t strategy = S_TURNS;
    uint32_t quantum = 2000;
    uint64_t seed = 1;
    uint64_t mean_gap = 1000;
    uint64_t slice_cap = 100000;
    uint32_t sync_ppm = 0;
    uint32_t pct_depth = 3;
    uint64_t pct_length = 1000000;
    uint64_t fair_after = ~0ull; // from this step on: turns with fair_quantum, no stalls
    uint32_t fair_quantum = 1500;
    uint64_t fair_switches = 400000; // or after that many switches
    uint32_t nstalls = 0;
    Stall stalls[kMaxStalls] = {};
    int64_t time_base = 1700000000ll * 1000000000ll;
    uint32_t ns_per_step = 10;
    uint32_t log_queue = 0;   // capacity of the logger's queue, if not 0
    uint32_t child_map = 500; // a node with more children than that gets an index of them
};

struct IoOp {
    uint64_t step;
    uint32_t op; // 'o' open for writing (arg 1 truncated), 'r', 'w', 'c' close, 's' fsync, 'n' rename (path2), 'u' unlink, 'R' open for reading, 't' stat
    int32_t path, path2;
    int32_t result; // bytes or -errno
    uint64_t off;
    uint32_t arg;
    uint32_t slot;
};

struct SiteStat {
    uint64_t hash;
    int64_t live, bytes, total;
    uint32_t pcs[8];
};

enum EndKind : uint32_t {
    E_NONE = 0,   // process ended by itself: see wait status
    E_CRASH,      // injected crash
    E_DEADLOCK,
    E_LIMIT,      // step limit exceeded
    E_INTERNAL    // limitation of the simulator
};

struct Request {
    uint32_t argc;
    uint32_t argv_off[32];
    char argv_buf[4096];
    char report_path[128];
    SchedPlan sched;
    uint32_t flags;
    uint32_t nfaults;
    Fault faults[kMaxFaults];
    uint64_t max_steps;
    uint32_t replay_n;
    uint32_t pad;
};

struct Result {
    uint32_t end_kind;
    int32_t wait_status;
    uint64_t steps;
    uint64_t vtime;        // simulated nanoseconds
    uint64_t hash;         // of every scheduling decision, sync operation and file operation
    uint64_t sync_hash;    // order of synchronisation operations by thread: the interleaving
    uint64_t nswitches;
    uint64_t preemptions;
    uint64_t sync_ops;
    uint64_t max_slice;
    uint32_t threads_created;
    uint32_t max_runnable;
    uint64_t n_alloc, n_thread;
    uint64_t n_open, n_read, n_write, n_close;
    uint64_t fired[F_KINDS];
    uint64_t stall_effects;
    uint32_t race_found, mem_found;
    char race_text[2048];
    char mem_text[2048];
    uint32_t race_pcs[32];
    uint32_t mem_pcs[32];
    char note[512];
    int64_t live_bytes, live_count; // at the mark
    uint32_t marked;
    uint32_t nsites;
    uint32_t nio;
    uint32_t npaths;
    char paths[kMaxPaths][128];
    uint64_t bytes_written;
    SiteStat sites[kMaxSites];
    IoOp io[kMaxIo];
};

struct Shm {
    Request req;
    Result res;
    uint64_t replay[kMaxSwitches];
    uint64_t switches[kMaxSwitches];
};

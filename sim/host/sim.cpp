#include "sim.h"
#include <cerrno>
#include <csignal>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

bool read_file(const std::string &path, std::string &out)
{
    out.clear();
    int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0)
        return false;
    char b[65536];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0)
        out.append(b, (size_t)n);
    close(fd);
    return n == 0;
}
bool write_file(const std::string &path, const std::string &data)
{
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0)
        return false;
    size_t o = 0;
    while (o < data.size()) {
        ssize_t n = write(fd, data.data() + o, data.size() - o);
        if (n <= 0) {
            close(fd);
            return false;
        }
        o += (size_t)n;
    }
    close(fd);
    return true;
}

bool RunOut::exited() const
{
    return WIFEXITED(wait_status);
}
int RunOut::status() const
{
    return WIFEXITED(wait_status) ? WEXITSTATUS(wait_status) : -WTERMSIG(wait_status);
}
std::string RunOut::ending() const
{
    if (timeout)
        return "wall-clock limit of the simulator";
    switch (end_kind) {
    case E_CRASH:
        return "crash: " + note;
    case E_DEADLOCK:
        return "deadlock: " + note;
    case E_LIMIT:
        return "no progress: " + note;
    case E_INTERNAL:
        return "simulator: " + note;
    }
    if (WIFSIGNALED(wait_status))
        return "signal " + std::to_string(WTERMSIG(wait_status));
    return "exit status " + std::to_string(status());
}

Sim::Sim(const std::string &exe, const std::string &scratch, int core) : exe_(exe), dir_(scratch), core_(core)
{
    mkdir(dir_.c_str(), 0755);
    memfd_ = (int)syscall(SYS_memfd_create, "sim", 1u);
    if (memfd_ < 0 || ftruncate(memfd_, sizeof(Shm)) != 0)
        throw std::runtime_error("cannot create shared memory");
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, memfd_, 0);
    if (p == MAP_FAILED)
        throw std::runtime_error("cannot map shared memory");
    shm_ = static_cast<Shm *>(p);
    start();
}

void Sim::start()
{
    int c[2], r[2];
    if (pipe2(c, O_CLOEXEC) || pipe2(r, O_CLOEXEC))
        throw std::runtime_error("pipe");
    int pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        if (core_ >= 0) {
            cpu_set_t cs;
            CPU_ZERO(&cs);
            CPU_SET(core_, &cs);
            sched_setaffinity(0, sizeof cs, &cs);
        }
        personality(ADDR_NO_RANDOMIZE);
        int a = fcntl(c[0], F_DUPFD, 210), b = fcntl(r[1], F_DUPFD, 210), m = fcntl(memfd_, F_DUPFD, 210);
        dup2(m, kShmFd);
        dup2(a, kCmdFd);
        dup2(b, kRspFd);
        for (int fd = 3; fd < 300; fd++)
            if (fd != kShmFd && fd != kCmdFd && fd != kRspFd)
                close(fd);
        int n = open("/dev/null", O_RDONLY);
        dup2(n, 0);
        if (n > 2)
            close(n);
        if (chdir(dir_.c_str()))
            _exit(99);
        const char *argv[] = {"simgroot", nullptr};
        const char *env[] = {"TZ=UTC", "LC_ALL=C", "PATH=/usr/bin:/bin", nullptr};
        execve(exe_.c_str(), const_cast<char *const *>(argv), const_cast<char *const *>(env));
        _exit(98);
    }
    close(c[0]);
    close(r[1]);
    pid_ = pid;
    cmd_ = c[1];
    rsp_ = r[0];
}

int Sim::stop()
{
    int st = 0;
    if (pid_ > 0) {
        close(cmd_);
        close(rsp_);
        kill(-pid_, SIGKILL);
        kill(pid_, SIGKILL);
        waitpid(pid_, &st, 0);
        pid_ = -1;
    }
    return st;
}

Sim::~Sim()
{
    stop();
    munmap(shm_, sizeof(Shm));
    close(memfd_);
}

static bool read_int(int fd, int &v, double seconds)
{
    struct pollfd p = {fd, POLLIN, 0};
    int rc;
    do
        rc = poll(&p, 1, (int)(seconds * 1000));
    while (rc < 0 && errno == EINTR);
    if (rc <= 0)
        return false;
    return read(fd, &v, 4) == 4;
}

RunOut Sim::run(const RunSpec &spec)
{
    Request &q = shm_->req;
    memset(static_cast<void *>(&q), 0, sizeof q);
    uint32_t off = 0;
    q.argc = 0;
    auto add = [&](const std::string &a) {
        if (q.argc >= 31 || off + a.size() + 1 > sizeof q.argv_buf)
            throw std::runtime_error("too many arguments");
        q.argv_off[q.argc++] = off;
        memcpy(q.argv_buf + off, a.c_str(), a.size() + 1);
        off += (uint32_t)a.size() + 1;
    };
    add("groot");
    for (auto &a : spec.argv)
        add(a);
    strncpy(q.report_path, spec.report.c_str(), sizeof q.report_path - 1);
    q.sched = spec.sched;
    q.flags = spec.flags;
    q.max_steps = spec.max_steps;
    q.nfaults = (uint32_t)spec.faults.size();
    if (q.nfaults > kMaxFaults)
        throw std::runtime_error("too many faults");
    for (uint32_t i = 0; i < q.nfaults; i++) {
        q.faults[i] = spec.faults[i];
        q.faults[i].seen = q.faults[i].fired = 0;
    }
    if (spec.use_replay) {
        q.sched.strategy = S_REPLAY;
        q.replay_n = (uint32_t)spec.replay.size();
        memcpy(shm_->replay, spec.replay.data(), spec.replay.size() * 8);
    }
    memset(&shm_->res, 0, offsetof(Result, sites));

    RunOut o;
    char c = 'r';
    int pid = 0, st = 0;
    // What the machine does to the simulator (a process that the system ends, a machine that stands still) is not a result:
    // once more from the start.
    const Request asked = q;
    for (int attempt = 0;; attempt++) {
        bool begun = write(cmd_, &c, 1) == 1 && read_int(rsp_, pid, 60) && pid > 0;
        if (begun && read_int(rsp_, st, wall_limit) && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL))
            break;
        int how = stop();
        start();
        if (attempt < 2) {
            fprintf(stderr, "note: a run %s (process status %d, %llu switches, strategy %u, at most %llu steps); once more\n",
                    begun ? "did not end" : "did not start", how, (unsigned long long)shm_->res.nswitches, q.sched.strategy,
                    (unsigned long long)q.max_steps);
            q = asked;
            memset(static_cast<void *>(&shm_->res), 0, offsetof(Result, sites));
            continue;
        }
        if (!begun)
            throw std::runtime_error("the simulated program does not start");
        o.timeout = true;
        break;
    }
    const Result &r = shm_->res;
    o.wait_status = st;
    o.end_kind = r.end_kind;
    o.steps = r.steps;
    o.vtime = r.vtime;
    o.hash = r.hash;
    o.sync_hash = r.sync_hash;
    o.nswitches = r.nswitches;
    o.preemptions = r.preemptions;
    o.sync_ops = r.sync_ops;
    o.max_slice = r.max_slice;
    o.threads = r.threads_created;
    o.max_runnable = r.max_runnable;
    o.n_alloc = r.n_alloc;
    o.n_thread = r.n_thread;
    o.n_open = r.n_open;
    o.n_read = r.n_read;
    o.n_write = r.n_write;
    o.n_close = r.n_close;
    o.nio = r.nio;
    memcpy(o.fired, r.fired, sizeof o.fired);
    o.stall_effects = r.stall_effects;
    o.race_found = r.race_found;
    o.mem_found = r.mem_found;
    o.race_text = r.race_text;
    o.mem_text = r.mem_text;
    o.note = r.note;
    for (uint32_t p : r.race_pcs)
        if (p)
            o.race_pcs.push_back(p);
    for (uint32_t p : r.mem_pcs)
        if (p)
            o.mem_pcs.push_back(p);
    o.live_bytes = r.live_bytes;
    o.live_count = r.live_count;
    o.marked = r.marked;
    o.bytes_written = r.bytes_written;
    read_file(path("stdout.txt"), o.out);
    read_file(path("stderr.txt"), o.err);
    return o;
}

std::vector<uint64_t> Sim::switches() const
{
    uint64_t n = shm_->res.nswitches;
    if (n > kMaxSwitches)
        n = kMaxSwitches;
    return std::vector<uint64_t>(shm_->switches, shm_->switches + n);
}

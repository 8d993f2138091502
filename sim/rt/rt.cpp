// Scheduler core and the pthread, clock and randomness seams of the simulated program.
#include "rt.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <initializer_list>
#include <cstdio>

G g;
__thread Thr *self __attribute__((tls_model("initial-exec")));

static inline long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void futex_wait(int *p, int v)
{
    raw6(SYS_futex, (long)p, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0, 0, 0);
}
static void futex_wake(int *p)
{
    raw6(SYS_futex, (long)p, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
void raw_exit(int code)
{
    for (;;)
        raw6(SYS_exit_group, code, 0, 0, 0, 0, 0);
}

uint64_t prng(uint64_t &s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

// ---------------------------------------------------------------- state of the scheduler
static struct {
    uint64_t rs, ws, rnd; // streams: schedule, wake-up choice, program randomness
    uint64_t preempt_at;
    bool yield, fair;
    uint32_t mode;
    uint64_t mode_until;
    uint64_t quantum, mean, cap;
    uint32_t sync_ppm;
    uint64_t change[16];
    int nchange, next_change;
    int64_t low;
    uint64_t mono_off, real_off;
    uint64_t replay_i;
    uint32_t thr_epoch[kSlots];
    uint64_t wait_seq;
    uint64_t last_switch;
} s;

static const SchedPlan &plan()
{
    return g.shm->req.sched;
}

static uint64_t mono_now()
{
    return g.steps * plan().ns_per_step + s.mono_off;
}

static void finish_stats()
{
    Result &r = g.shm->res;
    r.steps = g.steps;
    r.vtime = mono_now();
}

void end_run(EndKind k, const char *note)
{
    finish_stats();
    g.shm->res.end_kind = k;
    if (note) {
        size_t n = strlen(note);
        if (n > sizeof g.shm->res.note - 1)
            n = sizeof g.shm->res.note - 1;
        memcpy(g.shm->res.note, note, n);
        g.shm->res.note[n] = 0;
    }
    raw_exit(k == E_CRASH ? 137 : 250);
}

__attribute__((destructor)) static void at_fini()
{
    if (g.active)
        finish_stats();
}

// ---------------------------------------------------------------- choice
static uint64_t geometric(uint64_t mean)
{
    if (mean <= 1)
        return 1;
    // -ln(u) * mean by 8 fractional bits of log2
    uint64_t r = prng(s.rs) | 1;
    int lz = __builtin_clzll(r);
    uint64_t m = (r << lz) >> 55 & 255; // after the leading one
    uint64_t frac = 256 - m;            // rough
    uint64_t v = ((uint64_t)lz * 256 + frac) * mean * 177 / (256 * 256);
    return v < 1 ? 1 : v;
}

static void set_mode()
{
    const SchedPlan &p = plan();
    s.mode = p.strategy;
    s.quantum = p.quantum;
    s.mean = p.mean_gap;
    s.cap = p.slice_cap;
    s.sync_ppm = p.sync_ppm;
    s.mode_until = ~0ull;
    if (s.mode == S_MIXED) {
        static const uint32_t modes[] = {S_TURNS, S_RANDOM, S_PCT, S_SYNC, S_RANDOM, S_SYNC};
        s.mode = modes[prng(s.rs) % 6];
        static const uint64_t gaps[] = {3, 10, 40, 200, 1000, 5000, 30000};
        s.mean = gaps[prng(s.rs) % 7];
        s.quantum = gaps[prng(s.rs) % 7] * 3 + 1;
        static const uint32_t ppm[] = {2000, 20000, 100000, 400000};
        s.sync_ppm = ppm[prng(s.rs) % 4];
        s.cap = 2000ull << (prng(s.rs) % 6);
        s.mode_until = g.steps + geometric(s.mean * 50 + 2000);
    }
}

static void plan_slice()
{
    if (s.fair) {
        s.preempt_at = g.steps + plan().fair_quantum;
        return;
    }
    if (g.steps >= s.mode_until)
        set_mode();
    switch (s.mode) {
    case S_TURNS:
        s.preempt_at = g.steps + s.quantum;
        break;
    case S_RANDOM:
        s.preempt_at = g.steps + geometric(s.mean);
        break;
    case S_PCT: {
        uint64_t at = g.steps + s.cap;
        if (s.next_change < s.nchange && s.change[s.next_change] < at)
            at = s.change[s.next_change];
        s.preempt_at = at > g.steps ? at : g.steps + 1;
        break;
    }
    case S_SYNC:
        s.preempt_at = g.steps + s.cap;
        break;
    case S_REPLAY: {
        uint64_t at = s.last_switch + s.quantum;
        if (at <= g.steps)
            at = g.steps + s.quantum;
        uint64_t n = g.shm->req.replay_n;
        if (s.replay_i < n) {
            uint64_t e = g.shm->replay[s.replay_i];
            uint64_t st = e >> 7;
            if (e & 64)
                st++;
            if (st <= g.steps)
                st = g.steps + 1;
            if (st < at)
                at = st;
        }
        s.preempt_at = at;
        break;
    }
    }
    if (s.mode_until < s.preempt_at && s.mode_until > g.steps)
        s.preempt_at = s.mode_until;
}

static uint64_t stalled_now(uint64_t *next_edge)
{
    const SchedPlan &p = plan();
    uint64_t m = 0;
    if (!s.fair)
        for (uint32_t i = 0; i < p.nstalls; i++) {
            const Stall &st = p.stalls[i];
            if (g.steps >= st.from && g.steps < st.to) {
                for (int k = 0; k < kSlots; k++)
                    if (g.thr[k].state != T_FREE && ((st.threads >> (g.thr[k].tid % 64)) & 1))
                        m |= 1ull << k;
                if (next_edge && st.to < *next_edge)
                    *next_edge = st.to;
            } else if (g.steps < st.from && next_edge && st.from < *next_edge)
                *next_edge = st.from;
        }
    return m;
}

static int nth_bit(uint64_t m, int n)
{
    while (n-- > 0)
        m &= m - 1;
    return __builtin_ctzll(m);
}

static int next_in_ring(uint64_t m, int from)
{
    for (int i = 1; i <= kSlots; i++) {
        int k = (from + i) % kSlots;
        if ((m >> k) & 1)
            return k;
    }
    return -1;
}

// Chooses who runs next among the runnable threads (there is at least one). voluntary: the current thread could go on.
static int pick(bool voluntary, bool yield)
{
    uint64_t m = g.runnable;
    uint64_t st = stalled_now(nullptr) & m;
    if (st) {
        g.shm->res.stall_effects++;
        if (m & ~st)
            m &= ~st;
    }
    int cur = g.cur->slot;
    bool cur_ok = (m >> cur) & 1;
    int cnt = __builtin_popcountll(m);
    if ((uint32_t)cnt > g.shm->res.max_runnable)
        g.shm->res.max_runnable = cnt;
    if (s.fair)
        return next_in_ring(m, cur);
    switch (s.mode) {
    case S_TURNS:
        return next_in_ring(m, cur);
    case S_RANDOM:
    case S_SYNC: {
        uint64_t o = (voluntary && cnt > 1) ? m & ~(1ull << cur) : m;
        if (!o)
            o = m;
        return nth_bit(o, prng(s.rs) % __builtin_popcountll(o));
    }
    case S_PCT: {
        if (voluntary && cur_ok) {
            if (s.next_change < s.nchange && g.steps >= s.change[s.next_change]) {
                while (s.next_change < s.nchange && g.steps >= s.change[s.next_change])
                    s.next_change++;
                g.cur->prio = --s.low;
            } else if (yield || g.steps - g.cur->slice_start >= s.cap)
                g.cur->prio = --s.low;
        }
        int best = -1;
        for (uint64_t k = m; k; k &= k - 1) {
            int i = __builtin_ctzll(k);
            if (best < 0 || g.thr[i].prio > g.thr[best].prio)
                best = i;
        }
        return best;
    }
    case S_REPLAY: {
        uint64_t n = g.shm->req.replay_n;
        while (s.replay_i < n && (g.shm->replay[s.replay_i] >> 7) < g.steps)
            s.replay_i++;
        if (s.replay_i < n) {
            uint64_t e = g.shm->replay[s.replay_i];
            bool forced = e & 64;
            int slot = e & 63;
            if ((e >> 7) == g.steps && forced == !voluntary) {
                s.replay_i++;
                if ((g.runnable >> slot) & 1)
                    return slot;
                return voluntary && cur_ok ? cur : next_in_ring(m, cur);
            }
        }
        if (voluntary && cur_ok && !yield && g.steps - s.last_switch < s.quantum)
            return cur;
        return next_in_ring(m, cur);
    }
    }
    return next_in_ring(m, cur);
}

static void compute_next()
{
    const Request &rq = g.shm->req;
    uint64_t n = s.preempt_at;
    if (rq.max_steps < n)
        n = rq.max_steps;
    if (!s.fair && plan().fair_after < n)
        n = plan().fair_after;
    for (uint32_t i = 0; i < rq.nfaults; i++) {
        const Fault &f = rq.faults[i];
        if (f.fired)
            continue;
        uint64_t at = ~0ull;
        if (f.kind == F_CRASH_STEP)
            at = f.nth;
        if (f.kind == F_CLOCK_JUMP)
            at = f.arg2;
        if (at < n)
            n = at;
    }
    for (int k = 0; k < kSlots; k++) {
        const Thr &t = g.thr[k];
        if (t.state != T_FREE && t.state != T_RUN && t.timed) {
            uint64_t now = mono_now();
            uint64_t at = t.deadline <= now ? g.steps + 1 : g.steps + (t.deadline - now) / plan().ns_per_step + 1;
            if (at < n)
                n = at;
        }
    }
    if (n <= g.steps)
        n = g.steps + 1;
    g.next = n;
}

static void make_runnable(Thr *t)
{
    t->state = T_RUN;
    t->timed = false;
    g.runnable |= 1ull << t->slot;
}

static bool wake_timed()
{
    bool any = false;
    uint64_t now = mono_now();
    for (int k = 0; k < kSlots; k++) {
        Thr &t = g.thr[k];
        if (t.state != T_FREE && t.state != T_RUN && t.timed && t.deadline <= now) {
            t.timed_out = true;
            make_runnable(&t);
            any = true;
        }
    }
    return any;
}

static void run_as(Thr *n)
{
    uint64_t len = g.steps - s.last_switch;
    if (len > g.shm->res.max_slice)
        g.shm->res.max_slice = len;
    s.last_switch = g.steps;
    n->slice_start = g.steps;
    g.cur = n;
}

static void record_switch(int slot, bool forced)
{
    Result &r = g.shm->res;
    if (r.nswitches < kMaxSwitches)
        g.shm->switches[r.nswitches] = g.steps << 7 | (forced ? 64 : 0) | slot;
    r.nswitches++;
    hash_event(g.steps, 0x5000 + slot);
}

static void wait_turn(Thr *t)
{
    while (__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE) == 0)
        futex_wait(&t->baton, 0);
    __atomic_store_n(&t->baton, 0, __ATOMIC_RELAXED);
}
static void give_turn(Thr *n)
{
    __atomic_store_n(&n->baton, 1, __ATOMIC_RELEASE);
    futex_wake(&n->baton);
}

static void decide(Thr *t, bool yield)
{
    int k = pick(true, yield);
    Thr *n = &g.thr[k];
    if (n != t) {
        g.shm->res.preemptions++;
        record_switch(k, false);
        run_as(n);
        plan_slice();
        compute_next();
        give_turn(n);
        wait_turn(t);
        return;
    }
    t->slice_start = g.steps;
    plan_slice();
    compute_next();
}

void slow(Thr *t)
{
    if (!g.active || g.cur != t) {
        g.next = ~0ull;
        if (g.active)
            end_run(E_INTERNAL, "a thread ran without its turn");
        return;
    }
    Request &rq = g.shm->req;
    if (g.steps >= rq.max_steps)
        end_run(E_LIMIT, "step limit");
    for (uint32_t i = 0; i < rq.nfaults; i++) {
        Fault &f = rq.faults[i];
        if (f.fired)
            continue;
        if (f.kind == F_CRASH_STEP && g.steps >= f.nth) {
            f.fired = 1;
            g.shm->res.fired[F_CRASH_STEP]++;
            end_run(E_CRASH, "crash at a step");
        }
        if (f.kind == F_CLOCK_JUMP && g.steps >= f.arg2) {
            f.fired = 1;
            g.shm->res.fired[F_CLOCK_JUMP]++;
            s.real_off += f.arg;
        }
    }
    if (!s.fair && (g.steps >= plan().fair_after || g.shm->res.nswitches >= plan().fair_switches)) {
        s.fair = true;
        s.preempt_at = g.steps;
    }
    wake_timed();
    bool y = s.yield;
    s.yield = false;
    if ((y || g.steps >= s.preempt_at) && !t->internal)
        decide(t, y);
    else {
        if (g.steps >= s.preempt_at)
            s.preempt_at = g.steps + 1;
        compute_next();
    }
}

void sync_point(Thr *t, uint32_t what)
{
    g.shm->res.sync_ops++;
    g.shm->res.sync_hash = hmix(g.shm->res.sync_hash, (uint64_t)what << 32 | t->tid);
    hash_event(g.steps, (uint64_t)what << 8 | t->slot);
    if (s.mode == S_SYNC && !s.fair && !t->internal && prng(s.rs) % 1000000 < s.sync_ppm) {
        s.preempt_at = g.steps + 1;
        g.next = g.steps + 1;
    }
    step(t);
}

static void yield_point(Thr *t, uint32_t what)
{
    g.shm->res.sync_ops++;
    hash_event(g.steps, (uint64_t)what << 8 | t->slot);
    s.yield = true;
    g.next = g.steps + 1;
    step(t);
}

static void describe_deadlock()
{
    char b[480];
    int n = 0;
    static const char *names[] = {"free", "run", "mutex", "cond", "join", "sleep", "futex", "rwlock", "once", "done"};
    for (int k = 0; k < kSlots && n < 440; k++) {
        Thr &t = g.thr[k];
        if (t.state == T_FREE || t.state == T_DONE)
            continue;
        const char *nm = names[t.state];
        b[n++] = 'T';
        if (t.tid >= 10)
            b[n++] = '0' + t.tid / 10 % 10;
        b[n++] = '0' + t.tid % 10;
        b[n++] = ':';
        while (*nm)
            b[n++] = *nm++;
        b[n++] = ' ';
    }
    b[n] = 0;
    end_run(E_DEADLOCK, b);
}

// The current thread cannot go on: hands over and returns when it has been made runnable and chosen again.
// With done set it never comes back.
static void block_cur(Thr *t)
{
    g.runnable &= ~(1ull << t->slot);
    while (!g.runnable) {
        uint64_t best = ~0ull;
        for (int k = 0; k < kSlots; k++) {
            Thr &o = g.thr[k];
            if (o.state != T_FREE && o.state != T_RUN && o.timed && o.deadline < best)
                best = o.deadline;
        }
        if (best == ~0ull)
            describe_deadlock();
        uint64_t now = mono_now();
        if (best > now) {
            s.mono_off += best - now;
        }
        wake_timed();
    }
    int k = pick(false, false);
    Thr *n = &g.thr[k];
    record_switch(k, true);
    run_as(n);
    plan_slice();
    compute_next();
    if (n == t)
        return; // its own timer
    give_turn(n);
    if (t->state == T_DONE)
        return;
    wait_turn(t);
}

static void block(Thr *t, State st, void *obj)
{
    t->state = st;
    t->wait_obj = obj;
    t->wait_seq = ++s.wait_seq;
    t->timed_out = false;
    block_cur(t);
}
static void block_until(Thr *t, State st, void *obj, uint64_t deadline)
{
    t->timed = true;
    t->deadline = deadline;
    block(t, st, obj);
    t->timed = false;
}

static void wake_all(State st, void *obj)
{
    for (int k = 0; k < kSlots; k++)
        if (g.thr[k].state == st && g.thr[k].wait_obj == obj)
            make_runnable(&g.thr[k]);
    compute_next();
}
// FIFO most of the time when taking turns; otherwise any waiter.
static bool wake_one(State st, void *obj)
{
    Thr *best = nullptr;
    int n = 0;
    for (int k = 0; k < kSlots; k++)
        if (g.thr[k].state == st && g.thr[k].wait_obj == obj) {
            n++;
            if (!best || g.thr[k].wait_seq < best->wait_seq)
                best = &g.thr[k];
        }
    if (!n)
        return false;
    if (n > 1 && plan().strategy != S_TURNS) {
        int i = prng(s.ws) % n;
        for (int k = 0; k < kSlots; k++)
            if (g.thr[k].state == st && g.thr[k].wait_obj == obj && i-- == 0)
                best = &g.thr[k];
    }
    make_runnable(best);
    return true;
}

// ---------------------------------------------------------------- faults
uint64_t fault_fire(uint32_t kind, const char *path, int64_t *arg)
{
    Request &rq = g.shm->req;
    for (uint32_t i = 0; i < rq.nfaults; i++) {
        Fault &f = rq.faults[i];
        if (f.kind != kind)
            continue;
        if (f.filter[0] && !(path && strstr(path, f.filter)))
            continue;
        uint64_t n = f.seen++;
        if (n >= f.nth && n - f.nth < f.count) {
            f.fired++;
            g.shm->res.fired[kind]++;
            hash_event(g.steps, 0xfa0000 + kind);
            if (arg)
                *arg = f.arg;
            return 1;
        }
    }
    return 0;
}

bool alloc_fault(Thr *t, size_t n)
{
    uint32_t pcs[8];
    uint64_t site = 0;
    Request &rq = g.shm->req;
    if (!rq.nfaults)
        return false;
    for (uint32_t i = 0; i < rq.nfaults; i++) {
        Fault &f = rq.faults[i];
        if (f.kind == F_ALLOC_SITE && !site)
            site = site_hash(t, pcs);
        if (f.kind == F_ALLOC_FAIL || (f.kind == F_ALLOC_SITE && site == (uint64_t)f.arg) || (f.kind == F_ALLOC_BIG && n >= (size_t)f.arg)) {
            uint64_t k = f.seen++;
            if (k >= f.nth && k - f.nth < f.count) {
                f.fired++;
                g.shm->res.fired[f.kind]++;
                hash_event(g.steps, 0xfa0000 + f.kind);
                return true;
            }
        }
    }
    return false;
}

// ---------------------------------------------------------------- threads
template <class F> static F real_fn(F &cache, const char *name)
{
    if (!cache)
        cache = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    return cache;
}
#define REAL(name)                                                                                                     \
    static decltype(&name) real_##name;                                                                                \
    real_fn(real_##name, #name)

static void run_dtors(Thr *t)
{
    while (t->ndtors > 0) {
        DtorRec d = t->dtors[--t->ndtors];
        d.fn(d.obj);
    }
}

static void *trampoline(void *a)
{
    Thr *t = static_cast<Thr *>(a);
    wait_turn(t);
    self = t;
    t->ret = t->fn(t->arg);
    run_dtors(t);
    sync_point(t, 3);
    // finished: wake the joiner and hand over for good
    t->vc.c[t->slot]++;
    for (int k = 0; k < kSlots; k++)
        if (g.thr[k].state == T_JOIN && g.thr[k].wait_obj == t)
            make_runnable(&g.thr[k]);
    t->state = T_DONE;
    self = nullptr;
    block_cur(t);
    while (__atomic_load_n(&t->exit_ok, __ATOMIC_ACQUIRE) == 0)
        futex_wait(&t->exit_ok, 0);
    return t->ret;
}

static Thr *find_thread(pthread_t th)
{
    for (int k = 0; k < kSlots; k++)
        if (g.thr[k].state != T_FREE && g.thr[k].real == th)
            return &g.thr[k];
    return nullptr;
}

static Thr *new_thread(Thr *creator)
{
    int k = 0;
    while (k < kSlots && g.thr[k].state != T_FREE)
        k++;
    if (k == kSlots)
        end_run(E_INTERNAL, "too many threads");
    Thr *t = &g.thr[k];
    t->slot = k;
    t->tid = g.next_tid++;
    t->timed_out = t->detached = t->exiting = t->timed = false;
    t->internal = 0;
    t->baton = 0;
    t->exit_ok = 0;
    t->wait_obj = nullptr;
    t->prio = (int64_t)(prng(s.rs) >> 20);
    t->nstack = 0;
    t->ndtors = 0;
    t->has_pend = t->has_rel = false;
    t->slice_start = g.steps;
    if (creator) {
        t->vc = creator->vc;
        creator->vc.c[creator->slot]++;
    } else
        memset(&t->vc, 0, sizeof t->vc);
    t->vc.c[k] = ++s.thr_epoch[k];
    g.shm->res.threads_created++;
    return t;
}

static int start_real(Thr *t)
{
    REAL(pthread_create);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, reinterpret_cast<void *>(kStackBase + t->slot * kStackSize + 65536), kStackSize - 65536);
    int rc = real_pthread_create(&t->real, &at, trampoline, t);
    pthread_attr_destroy(&at);
    return rc;
}

extern "C" int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    Thr *t = self;
    if (!t || !g.active) {
        REAL(pthread_create);
        return real_pthread_create(th, attr, fn, arg);
    }
    sync_point(t, 1);
    g.shm->res.n_thread++;
    if (fault_fire(F_THREAD_FAIL, nullptr, nullptr))
        return EAGAIN;
    Thr *n = new_thread(t);
    n->fn = fn;
    n->arg = arg;
    t->internal++;
    int rc = start_real(n);
    t->internal--;
    if (rc)
        end_run(E_INTERNAL, "cannot create a real thread");
    *th = n->real;
    make_runnable(n);
    int ds;
    if (attr && pthread_attr_getdetachstate(attr, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED)
        n->detached = true;
    sync_point(t, 2);
    return 0;
}

static void vc_join(VC &a, const VC &b)
{
    for (int i = 0; i < kSlots; i++)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}

extern "C" int pthread_join(pthread_t th, void **ret)
{
    Thr *t = self;
    if (!t || !g.active) {
        REAL(pthread_join);
        return real_pthread_join(th, ret);
    }
    sync_point(t, 4);
    Thr *o = find_thread(th);
    if (!o)
        return ESRCH;
    if (o == t)
        return EDEADLK;
    if (o->detached)
        return EINVAL;
    while (o->state != T_DONE)
        block(t, T_JOIN, o);
    vc_join(t->vc, o->vc);
    s.thr_epoch[o->slot] = o->vc.c[o->slot];
    __atomic_store_n(&o->exit_ok, 1, __ATOMIC_RELEASE);
    futex_wake(&o->exit_ok);
    REAL(pthread_join);
    t->internal++;
    real_pthread_join(th, nullptr);
    t->internal--;
    if (ret)
        *ret = o->ret;
    o->state = T_FREE;
    return 0;
}

extern "C" int pthread_detach(pthread_t th)
{
    Thr *t = self;
    if (!t || !g.active) {
        REAL(pthread_detach);
        return real_pthread_detach(th);
    }
    Thr *o = find_thread(th);
    if (!o)
        return ESRCH;
    o->detached = true; // the real thread stays parked until the process ends
    return 0;
}

extern "C" void pthread_exit(void *ret)
{
    if (!self || !g.active) {
        static void (*real_pthread_exit)(void *) __attribute__((noreturn));
        real_pthread_exit = reinterpret_cast<decltype(real_pthread_exit)>(dlsym(RTLD_NEXT, "pthread_exit"));
        real_pthread_exit(ret);
    }
    end_run(E_INTERNAL, "pthread_exit is not simulated");
}

extern "C" int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso)
{
    Thr *t = self;
    if (!t || !g.active) {
        static int (*impl)(void (*)(void *), void *, void *);
        if (!impl)
            impl = reinterpret_cast<decltype(impl)>(dlsym(RTLD_DEFAULT, "__cxa_thread_atexit_impl"));
        return impl(fn, obj, dso);
    }
    if (t->ndtors < 64)
        t->dtors[t->ndtors++] = {fn, obj};
    else
        end_run(E_INTERNAL, "too many thread-local objects");
    return 0;
}

// ---------------------------------------------------------------- mutexes
static bool mutex_try(Thr *t, pthread_mutex_t *m)
{
    auto &d = m->__data;
    if (d.__lock == 0) {
        d.__lock = 1;
        d.__owner = t->slot + 1;
        d.__count = 1;
        hb_acquire_addr(t, m);
        return true;
    }
    if ((d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && d.__owner == t->slot + 1) {
        d.__count++;
        return true;
    }
    return false;
}

static void mutex_lock(Thr *t, pthread_mutex_t *m)
{
    while (!mutex_try(t, m))
        block(t, T_MUTEX, m);
}

static void mutex_unlock(Thr *t, pthread_mutex_t *m)
{
    auto &d = m->__data;
    if (--d.__count > 0 && (d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
        return;
    hb_release_addr(t, m);
    d.__lock = 0;
    d.__owner = 0;
    d.__count = 0;
    wake_all(T_MUTEX, m);
}

extern "C" int pthread_mutex_lock(pthread_mutex_t *m)
{
    Thr *t = self;
    if (!t || !g.active) {
        REAL(pthread_mutex_lock);
        return real_pthread_mutex_lock(m);
    }
    sync_point(t, 10);
    mutex_lock(t, m);
    return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m)
{
    Thr *t = self;
    if (!t || !g.active) {
        REAL(pthread_mutex_trylock);
        return real_pthread_mutex_trylock(m);
    }
    sync_point(t, 11);
    return mutex_try(t, m) ? 0 : EBUSY;
}
static uint64_t abs_to_mono(clockid_t c, const struct timespec *ts);
extern "C" int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts)
{
    Thr *t = self;
    if (!t || !g.active) {
        REAL(pthread_mutex_clocklock);
        return real_pthread_mutex_clocklock(m, c, ts);
    }
    sync_point(t, 12);
    uint64_t dl = abs_to_mono(c, ts);
    while (!mutex_try(t, m)) {
        block_until(t, T_MUTEX, m, dl);
        if (t->timed_out)
            return ETIMEDOUT;
    }
    return 0;
}
extern "C" int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
    if (!self || !g.active) {
        REAL(pthread_mutex_timedlock);
        return real_pthread_mutex_timedlock(m, ts);
    }
    return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m)
{
    Thr *t = self;
    if (!t || !g.active) {
        REAL(pthread_mutex_unlock);
        return real_pthread_mutex_unlock(m);
    }
    mutex_unlock(t, m);
    sync_point(t, 13);
    return 0;
}

// ---------------------------------------------------------------- condition variables
static int cond_wait(Thr *t, pthread_cond_t *c, pthread_mutex_t *m, bool timed, uint64_t dl)
{
    sync_point(t, 20);
    int64_t arg = 0;
    if (fault_fire(F_SPURIOUS, nullptr, &arg)) {
        mutex_unlock(t, m);
        yield_point(t, 21);
        mutex_lock(t, m);
        return 0;
    }
    mutex_unlock(t, m);
    if (timed)
        block_until(t, T_COND, c, dl);
    else
        block(t, T_COND, c);
    bool to = t->timed_out;
    mutex_lock(t, m);
    sync_point(t, 22);
    return to ? ETIMEDOUT : 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    Thr *t = self;
    if (!t || !g.active) {
        REAL(pthread_cond_wait);
        return real_pthread_cond_wait(c, m);
    }
    return cond_wait(t, c, m, false, 0);
}
extern "C" int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts)
{
    Thr *t = self;
    if (!t || !g.active) {
        REAL(pthread_cond_clockwait);
        return real_pthread_cond_clockwait(c, m, k, ts);
    }
    return cond_wait(t, c, m, true, abs_to_mono(k, ts));
}
extern "C" int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    if (!self || !g.active) {
        REAL(pthread_cond_timedwait);
        return real_pthread_cond_timedwait(c, m, ts);
    }
    return pthread_cond_clockwait(c, m, CLOCK_REALTIME, ts);
}
extern "C" int pthread_cond_signal(pthread_cond_t *c)
{
    Thr *t = self;
    if (!t || !g.active) {
        REAL(pthread_cond_signal);
        return real_pthread_cond_signal(c);
    }
    sync_point(t, 23);
    wake_one(T_COND, c);
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t *c)
{
    Thr *t = self;
    if (!t || !g.active) {
        REAL(pthread_cond_broadcast);
        return real_pthread_cond_broadcast(c);
    }
    sync_point(t, 24);
    wake_all(T_COND, c);
    return 0;
}

// ---------------------------------------------------------------- read-write locks
static bool rw_try(Thr *t, pthread_rwlock_t *l, bool write)
{
    auto &d = l->__data;
    if (d.__cur_writer || (write && d.__readers))
        return false;
    if (write)
        d.__cur_writer = t->slot + 1;
    else
        d.__readers++;
    hb_acquire_addr(t, l);
    return true;
}
static int rw_lock(pthread_rwlock_t *l, bool write, bool block_ok)
{
    Thr *t = self;
    sync_point(t, 30 + write);
    while (!rw_try(t, l, write)) {
        if (!block_ok)
            return EBUSY;
        block(t, T_RW, l);
    }
    return 0;
}
#define RW(name, write, block_ok)                                                                                      \
    extern "C" int name(pthread_rwlock_t *l)                                                                           \
    {                                                                                                                  \
        if (!self || !g.active) {                                                                                      \
            REAL(name);                                                                                                \
            return real_##name(l);                                                                                     \
        }                                                                                                              \
        return rw_lock(l, write, block_ok);                                                                            \
    }
RW(pthread_rwlock_rdlock, false, true)
RW(pthread_rwlock_wrlock, true, true)
RW(pthread_rwlock_tryrdlock, false, false)
RW(pthread_rwlock_trywrlock, true, false)
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    Thr *t = self;
    if (!t || !g.active) {
        REAL(pthread_rwlock_unlock);
        return real_pthread_rwlock_unlock(l);
    }
    auto &d = l->__data;
    hb_release_addr(t, l);
    if (d.__cur_writer)
        d.__cur_writer = 0;
    else
        d.__readers--;
    wake_all(T_RW, l);
    sync_point(t, 32);
    return 0;
}

// ---------------------------------------------------------------- one-time initialisation
extern "C" int pthread_once(pthread_once_t *o, void (*fn)(void))
{
    Thr *t = self;
    if (!t || !g.active) {
        REAL(pthread_once);
        return real_pthread_once(o, fn);
    }
    sync_point(t, 40);
    for (;;) {
        if (*o == 2) {
            hb_acquire_addr(t, o);
            return 0;
        }
        if (*o == 0)
            break;
        block(t, T_ONCE, o);
    }
    *o = 1;
    struct Guard {
        Thr *t;
        pthread_once_t *o;
        bool ok = false;
        ~Guard()
        {
            *o = ok ? 2 : 0;
            hb_release_addr(t, o);
            wake_all(T_ONCE, o);
        }
    } gd{t, o};
    fn();
    gd.ok = true;
    return 0;
}
extern "C" int __cxa_guard_acquire(uint64_t *gv)
{
    unsigned char *b = reinterpret_cast<unsigned char *>(gv);
    Thr *t = self;
    if (!t || !g.active) {
        if (b[0])
            return 0;
        b[1] = 1;
        return 1;
    }
    sync_point(t, 41);
    for (;;) {
        if (b[0]) {
            hb_acquire_addr(t, gv);
            return 0;
        }
        if (!b[1])
            break;
        block(t, T_ONCE, gv);
    }
    b[1] = 1;
    return 1;
}
extern "C" void __cxa_guard_release(uint64_t *gv)
{
    unsigned char *b = reinterpret_cast<unsigned char *>(gv);
    Thr *t = self;
    b[0] = 1;
    b[1] = 0;
    if (t && g.active) {
        hb_release_addr(t, gv);
        wake_all(T_ONCE, gv);
        sync_point(t, 42);
    }
}
extern "C" void __cxa_guard_abort(uint64_t *gv)
{
    unsigned char *b = reinterpret_cast<unsigned char *>(gv);
    b[1] = 0;
    if (self && g.active)
        wake_all(T_ONCE, gv);
}

// ---------------------------------------------------------------- clocks, sleeping, yielding
static uint64_t real_now()
{
    return plan().time_base + mono_now() + s.real_off;
}
static uint64_t abs_to_mono(clockid_t c, const struct timespec *ts)
{
    int64_t v = ts->tv_sec * 1000000000ll + ts->tv_nsec;
    int64_t now = c == CLOCK_REALTIME ? (int64_t)real_now() : (int64_t)mono_now();
    int64_t d = v - now;
    return mono_now() + (d > 0 ? d : 0);
}
extern "C" int clock_gettime(clockid_t c, struct timespec *ts) noexcept
{
    Thr *t = self;
    if (!t || !g.active)
        return raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0) ? -1 : 0;
    g.steps++;
    bool real = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
    uint64_t v = real ? real_now() : mono_now();
    ts->tv_sec = (int64_t)v / 1000000000ll;
    ts->tv_nsec = (int64_t)v % 1000000000ll;
    return 0;
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" time_t time(time_t *p) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p)
        *p = ts.tv_sec;
    return ts.tv_sec;
}
static void sleep_until(Thr *t, uint64_t dl)
{
    sync_point(t, 50);
    block_until(t, T_SLEEP, nullptr, dl);
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec *a, struct timespec *)
{
    Thr *t = self;
    if (!t || !g.active)
        return -(int)raw6(SYS_clock_nanosleep, c, flags, (long)a, 0, 0, 0);
    sleep_until(t, (flags & TIMER_ABSTIME) ? abs_to_mono(c, a)
                                           : mono_now() + a->tv_sec * 1000000000ull + a->tv_nsec);
    return 0;
}
extern "C" int nanosleep(const struct timespec *a, struct timespec *)
{
    return clock_nanosleep(CLOCK_MONOTONIC, 0, a, nullptr);
}
extern "C" int usleep(useconds_t us)
{
    struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
extern "C" unsigned sleep(unsigned sec)
{
    struct timespec ts = {(time_t)sec, 0};
    nanosleep(&ts, nullptr);
    return 0;
}
extern "C" int sched_yield() noexcept
{
    Thr *t = self;
    if (t && g.active && !t->internal)
        yield_point(t, 51);
    return 0;
}
extern "C" int poll(struct pollfd *f, unsigned long n, int ms)
{
    Thr *t = self;
    if (!t || !g.active || n)
        return (int)raw6(SYS_poll, (long)f, n, ms, 0, 0, 0);
    sleep_until(t, mono_now() + (uint64_t)(ms > 0 ? ms : 0) * 1000000);
    return 0;
}

// ---------------------------------------------------------------- randomness, identity, raw system calls
static void rnd_fill(void *p, size_t n)
{
    unsigned char *b = static_cast<unsigned char *>(p);
    for (size_t i = 0; i < n; i++)
        b[i] = (unsigned char)(prng(s.rnd) >> 24);
}
extern "C" ssize_t getrandom(void *p, size_t n, unsigned fl)
{
    if (!self || !g.active)
        return raw6(SYS_getrandom, (long)p, n, fl, 0, 0, 0);
    rnd_fill(p, n);
    return n;
}
extern "C" int getentropy(void *p, size_t n)
{
    return getrandom(p, n, 0) == (ssize_t)n ? 0 : -1;
}
extern "C" uint32_t arc4random() noexcept
{
    uint32_t v;
    getrandom(&v, sizeof v, 0);
    return v;
}
extern "C" int rand() noexcept
{
    uint32_t v;
    getrandom(&v, sizeof v, 0);
    return v >> 1;
}
extern "C" int get_nprocs() noexcept
{
    return 8;
}
extern "C" pid_t getpid() noexcept
{
    if (self && g.active)
        return 4242;
    return raw6(SYS_getpid, 0, 0, 0, 0, 0, 0);
}
extern "C" pid_t gettid() noexcept
{
    if (self && g.active)
        return 4242 + self->tid;
    return raw6(SYS_gettid, 0, 0, 0, 0, 0, 0);
}
extern "C" long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; i++)
        a[i] = va_arg(ap, long);
    va_end(ap);
    Thr *t = self;
    if (t && g.active) {
        if (n == SYS_gettid)
            return 4242 + t->tid;
        if (n == SYS_getpid)
            return 4242;
        if (n == SYS_getrandom) {
            rnd_fill(reinterpret_cast<void *>(a[0]), a[1]);
            return a[1];
        }
        if (n == SYS_sched_yield) {
            sched_yield();
            return 0;
        }
        if (n == SYS_futex) {
            int op = a[1] & 127 & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
            int *p = reinterpret_cast<int *>(a[0]);
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                sync_point(t, 60);
                if (*p != (int)a[2]) {
                    errno = EAGAIN;
                    return -1;
                }
                const struct timespec *ts = reinterpret_cast<const struct timespec *>(a[3]);
                if (ts) {
                    uint64_t dl = op == FUTEX_WAIT
                                      ? mono_now() + ts->tv_sec * 1000000000ull + ts->tv_nsec
                                      : abs_to_mono((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
                    block_until(t, T_FUTEX, p, dl);
                } else
                    block(t, T_FUTEX, p);
                if (t->timed_out) {
                    errno = ETIMEDOUT;
                    return -1;
                }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
                sync_point(t, 61);
                long k = 0;
                while (k < a[2] && wake_one(T_FUTEX, p))
                    k++;
                compute_next();
                return k;
            }
            end_run(E_INTERNAL, "futex operation is not simulated");
        }
    }
    long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}

// ---------------------------------------------------------------- memory reports
static void put(char *b, int &n, int cap, const char *t)
{
    while (*t && n < cap - 1)
        b[n++] = *t++;
    b[n] = 0;
}
static void put_hex(char *b, int &n, int cap, uint64_t v)
{
    char t[20];
    int k = 0;
    do
        t[k++] = "0123456789abcdef"[v & 15];
    while (v >>= 4);
    while (k && n < cap - 1)
        b[n++] = t[--k];
    b[n] = 0;
}
void mem_error(Thr *t, const char *what, uint64_t addr, uint64_t size, bool write)
{
    Result &r = g.shm->res;
    if (r.mem_found++ == 0) {
        int n = 0;
        put(r.mem_text, n, sizeof r.mem_text, what);
        put(r.mem_text, n, sizeof r.mem_text, write ? " (write of 0x" : " (read of 0x");
        put_hex(r.mem_text, n, sizeof r.mem_text, size);
        put(r.mem_text, n, sizeof r.mem_text, " bytes at 0x");
        put_hex(r.mem_text, n, sizeof r.mem_text, addr);
        put(r.mem_text, n, sizeof r.mem_text, ") by thread 0x");
        put_hex(r.mem_text, n, sizeof r.mem_text, t->tid);
        int d = t->nstack < 1024 ? t->nstack : 1024;
        for (int i = 0; i < 32 && i < d; i++)
            r.mem_pcs[i] = t->stack[d - 1 - i];
        hash_event(g.steps, 0xbad1);
    }
    if (r.mem_found > 1000)
        end_run(E_CRASH, "memory errors");
}

// ---------------------------------------------------------------- process
static void on_signal(int sig)
{
    static volatile int once;
    if (!once) {
        once = 1;
        if (g.active) {
            finish_stats();
            Thr *t = self;
            if (t) {
                int d = t->nstack < 1024 ? t->nstack : 1024;
                if (!g.shm->res.mem_found)
                    for (int i = 0; i < 32 && i < d; i++)
                        g.shm->res.mem_pcs[i] = t->stack[d - 1 - i];
            }
        }
    }
    signal(sig, SIG_DFL);
    raw6(SYS_tkill, raw6(SYS_gettid, 0, 0, 0, 0, 0, 0), sig, 0, 0, 0, 0);
    raw_exit(128 + sig);
}

extern "C" int groot_main(int argc, const char **argv);

static void *thread0(void *)
{
    Request &rq = g.shm->req;
    static const char *argv[33];
    for (uint32_t i = 0; i < rq.argc; i++)
        argv[i] = rq.argv_buf + rq.argv_off[i];
    argv[rq.argc] = nullptr;
    int rc = groot_main(rq.argc, argv);
    run_dtors(self);
    exit(rc);
}

static void child()
{
    Request &rq = g.shm->req;
    const SchedPlan &p = rq.sched;
    memset(&s, 0, sizeof s);
    s.rs = p.seed * 0x2545f4914f6cdd1dull + 1;
    s.ws = p.seed ^ 0x7777777777ull;
    s.rnd = p.seed ^ 0x1234567ull;
    s.low = 0;
    set_mode();
    if (p.strategy == S_PCT || p.strategy == S_MIXED) {
        s.nchange = p.pct_depth < 16 ? p.pct_depth : 16;
        for (int i = 0; i < s.nchange; i++)
            s.change[i] = 1 + prng(s.rs) % (p.pct_length ? p.pct_length : 1);
        for (int i = 0; i < s.nchange; i++)
            for (int j = i + 1; j < s.nchange; j++)
                if (s.change[j] < s.change[i]) {
                    uint64_t x = s.change[i];
                    s.change[i] = s.change[j];
                    s.change[j] = x;
                }
    }
    g.flags = rq.flags;
    g.steps = 0;
    g.next = 1;
    g.next_tid = 0;
    s.mono_off = 1000000000ull;

    static char sigstack[65536];
    stack_t ss = {};
    ss.ss_sp = sigstack;
    ss.ss_size = sizeof sigstack;
    (void)ss;
    struct sigaction sa = {};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_NODEFER;
    for (int sg : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL})
        sigaction(sg, &sa, nullptr);

    Thr *t = new_thread(nullptr);
    t->fn = thread0;
    t->arg = nullptr;
    if (start_real(t)) {
        raw_exit(252);
    }
    make_runnable(t);
    g.cur = t;
    plan_slice();
    compute_next();
    g.active = true;
    give_turn(t);
    static int never;
    for (;;)
        futex_wait(&never, 0);
}

extern "C" char __data_start, _end;

int main()
{
    arena_init();
    void *p = mmap(reinterpret_cast<void *>(kShmAddr), sizeof(Shm), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_FIXED_NOREPLACE, kShmFd, 0);
    if (p != reinterpret_cast<void *>(kShmAddr)) {
        dprintf(2, "simulator: cannot map the shared memory\n");
        return 253;
    }
    g.shm = static_cast<Shm *>(p);
    g.gbase = reinterpret_cast<uint64_t>(&__data_start) & ~7ull;
    g.gend = reinterpret_cast<uint64_t>(&_end);
    // resolve everything before the first run
    tzset();
    for (;;) {
        char c;
        ssize_t n = raw6(SYS_read, kCmdFd, (long)&c, 1, 0, 0, 0);
        if (n == -EINTR)
            continue;
        if (n != 1)
            raw_exit(0);
        // the response carries the pid first (for the host's watchdog), then the status
        int pid = fork();
        if (pid == 0) {
            raw6(SYS_close, kCmdFd, 0, 0, 0, 0, 0);
            raw6(SYS_close, kRspFd, 0, 0, 0, 0, 0);
            int o = open("stdout.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(o, 1);
            close(o);
            o = open("stderr.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(o, 2);
            close(o);
            child();
        }
        raw6(SYS_write, kRspFd, (long)&pid, 4, 0, 0, 0);
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
            ;
        g.shm->res.wait_status = st;
        raw6(SYS_write, kRspFd, (long)&st, 4, 0, 0, 0);
    }
}

// a knob of the program that the plan of the run turns
// The logger's thread pool, with a queue that may be smaller than what the program asks for.
extern "C" void real_log_pool(void *self, size_t size, size_t threads, void *start, void *stop) __asm__(
    "_ZN6spdlog7details11thread_poolC1EmmSt8functionIFvvEES4_");
extern "C" void sim_log_pool(void *self, size_t size, size_t threads, void *start, void *stop)
{
    if (g.shm && plan().log_queue && size > plan().log_queue)
        size = plan().log_queue;
    real_log_pool(self, size, threads, start, stop);
}

extern "C" int sim_child_map_threshold(void)
{
    return g.shm ? (int)plan().child_map : 500;
}

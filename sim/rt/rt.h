#pragma once
#include "../shared.h"
#include <cstddef>
#include <pthread.h>

constexpr int kSlots = 64;
constexpr uint64_t kHeapBase = 0x100000000000ull, kHeapSize = 2ull << 30;
constexpr uint64_t kStackBase = 0x110000000000ull, kStackSize = 8ull << 20;
constexpr uint64_t kStacksSize = kSlots * kStackSize;
constexpr uint64_t kByteShadow = 0x120000000000ull;  // 1 per 8 bytes of heap
constexpr uint64_t kRaceShadow = 0x130000000000ull;  // 4 cells of 8 bytes per 8 bytes, heap | stacks | globals
constexpr uint64_t kRacePcs = 0x140000000000ull;     // 4 x u32 per 8 bytes
constexpr uint64_t kSyncShadow = 0x150000000000ull;  // u32 per 8 bytes
constexpr uint64_t kGlobalsMax = 64ull << 20;
constexpr uint64_t kTracked = kHeapSize + kStacksSize + kGlobalsMax;

struct VC {
    uint32_t c[kSlots];
};

enum State : uint8_t { T_FREE = 0, T_RUN, T_MUTEX, T_COND, T_JOIN, T_SLEEP, T_FUTEX, T_RW, T_ONCE, T_DONE };

struct DtorRec {
    void (*fn)(void *);
    void *obj;
};

struct Thr {
    int slot;
    uint32_t tid;
    State state;
    bool timed_out, detached, exiting, timed;
    uint8_t internal;
    int baton;   // futex
    int exit_ok; // futex
    void *wait_obj;
    uint64_t deadline;
    uint64_t wait_seq;
    int64_t prio;
    pthread_t real;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    uint64_t slice_start;
    VC vc, pend_acq, rel_fence;
    bool has_pend, has_rel;
    int nstack;
    uint32_t stack[1024]; // return addresses of instrumented frames (no PIE: they fit)
    int ndtors;
    DtorRec dtors[64];
};

struct G {
    uint64_t steps, next; // next: step at which slow() has to run
    uint32_t flags;
    bool active;
    Thr *cur;
    uint64_t runnable; // slots
    Thr thr[kSlots];
    uint32_t next_tid;
    Shm *shm;
    uint64_t gbase, gend; // instrumented globals
};

extern G g;
extern __thread Thr *self __attribute__((tls_model("initial-exec")));

void slow(Thr *t);
void sync_point(Thr *t, uint32_t what);
[[noreturn]] void end_run(EndKind k, const char *note);
[[noreturn]] void raw_exit(int code);
void mem_error(Thr *t, const char *what, uint64_t addr, uint64_t size, bool write);
void race_access(Thr *t, uint64_t addr, uint32_t size, bool write, bool atomic);
void mem_check(Thr *t, uint64_t addr, uint64_t size, bool write);
void race_clear(uint64_t addr, uint64_t size);
void hb_release_addr(Thr *t, void *addr);
void hb_acquire_addr(Thr *t, void *addr);
void site_mark();
uint64_t site_hash(Thr *t, uint32_t *pcs);
bool alloc_fault(Thr *t, size_t n);
uint64_t prng(uint64_t &s);
void arena_init();
uint64_t fault_fire(uint32_t kind, const char *path, int64_t *arg);
void race_free(Thr *t, uint64_t a, uint64_t n);

inline void step(Thr *t)
{
    if (__builtin_expect(++g.steps >= g.next, 0))
        slow(t);
}
inline uint64_t hmix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
}
inline void hash_event(uint64_t a, uint64_t b)
{
    uint64_t &h = g.shm->res.hash;
    h = hmix(h, a * 0x100000001b3ull + b);
}

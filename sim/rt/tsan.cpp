// The compiler's -fsanitize=thread hooks: every memory access of the program is a step of the scheduler; atomics run
// one at a time (sequentially consistent); happens-before is tracked with vector clocks for the race detector.
#include "rt.h"
#include <cstring>
#include <sys/mman.h>

#define PC ((uint32_t)(uint64_t)__builtin_return_address(0))

// ---------------------------------------------------------------- shadow of tracked memory
static inline uint64_t index_of(uint64_t a)
{
    uint64_t o = a - kHeapBase;
    if (o < kHeapSize)
        return o;
    o = a - kStackBase;
    if (o < kStacksSize)
        return kHeapSize + o;
    if (a >= g.gbase && a < g.gend && a - g.gbase < kGlobalsMax)
        return kHeapSize + kStacksSize + (a - g.gbase);
    return ~0ull;
}
struct Cell {
    uint32_t epoch;
    uint8_t slot, mask, kind, tid; // kind: 1 write, 2 atomic, 4 free
};
static_assert(sizeof(Cell) == 8);

// ---------------------------------------------------------------- synchronisation objects
struct SyncObj {
    VC vc;
    uint32_t next;
};
static SyncObj *objs;
static uint32_t nobjs, free_objs;
static constexpr uint64_t kObjBase = 0x170000000000ull;
static constexpr uint32_t kMaxObjs = 4u << 20;

static inline uint32_t *sync_cell(void *addr)
{
    uint64_t i = index_of((uint64_t)addr);
    if (i == ~0ull)
        return nullptr;
    return reinterpret_cast<uint32_t *>(kSyncShadow + i / 8 * 4);
}
// Objects outside of tracked memory (library data): a small table.
static struct {
    void *addr;
    uint32_t obj;
} other[256];
static uint32_t nother;

static SyncObj *sync_obj(void *addr, bool create)
{
    if (!objs) {
        void *p = mmap(reinterpret_cast<void *>(kObjBase), sizeof(SyncObj) * (uint64_t)kMaxObjs, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != reinterpret_cast<void *>(kObjBase))
            end_run(E_INTERNAL, "cannot map synchronisation objects");
        objs = static_cast<SyncObj *>(p);
        nobjs = 1;
    }
    uint32_t *c = sync_cell(addr);
    if (!c) {
        for (uint32_t i = 0; i < nother; i++)
            if (other[i].addr == addr) {
                c = &other[i].obj;
                break;
            }
        if (!c) {
            if (!create)
                return nullptr;
            if (nother == 256)
                nother = 0;
            other[nother].addr = addr;
            other[nother].obj = 0;
            c = &other[nother++].obj;
        }
    }
    if (!*c) {
        if (!create)
            return nullptr;
        uint32_t k;
        if (free_objs) {
            k = free_objs;
            free_objs = objs[k].next;
            memset(&objs[k].vc, 0, sizeof(VC));
        } else {
            if (nobjs >= kMaxObjs)
                end_run(E_INTERNAL, "too many synchronisation objects");
            k = nobjs++;
        }
        *c = k;
    }
    return &objs[*c];
}
static inline void vc_join(VC &a, const VC &b)
{
    for (int i = 0; i < kSlots; i++)
        a.c[i] = b.c[i] > a.c[i] ? b.c[i] : a.c[i];
}

void race_clear(uint64_t addr, uint64_t size)
{
    uint64_t i = index_of(addr);
    if (i == ~0ull)
        return;
    uint64_t n = (size + 7) / 8;
    memset(reinterpret_cast<void *>(kRaceShadow + i * 4), 0, n * 32);
    uint32_t *c = reinterpret_cast<uint32_t *>(kSyncShadow + i / 8 * 4);
    for (uint64_t k = 0; k < n; k++)
        if (c[k]) {
            objs[c[k]].next = free_objs;
            free_objs = c[k];
            c[k] = 0;
        }
}

void hb_release_addr(Thr *t, void *addr)
{
    if (!(g.flags & FL_RACE))
        return;
    vc_join(sync_obj(addr, true)->vc, t->vc);
    t->vc.c[t->slot]++;
}
void hb_acquire_addr(Thr *t, void *addr)
{
    if (!(g.flags & FL_RACE))
        return;
    SyncObj *o = sync_obj(addr, false);
    if (o)
        vc_join(t->vc, o->vc);
}

// ---------------------------------------------------------------- races
static void put(char *b, int &n, int cap, const char *t)
{
    while (*t && n < cap - 1)
        b[n++] = *t++;
    b[n] = 0;
}
static void put_num(char *b, int &n, int cap, uint64_t v, unsigned base)
{
    char t[24];
    int k = 0;
    do
        t[k++] = "0123456789abcdef"[v % base];
    while (v /= base);
    while (k && n < cap - 1)
        b[n++] = t[--k];
    b[n] = 0;
}
static void report(Thr *t, uint64_t addr, uint32_t size, uint32_t kind, uint32_t pc, const Cell &c, uint32_t cpc)
{
    Result &r = g.shm->res;
    if (r.race_found++)
        return;
    int n = 0;
    char *b = r.race_text;
    const int cap = sizeof r.race_text;
    put(b, n, cap, (kind & 4) ? "free" : (kind & 1) ? "write" : "read");
    if (kind & 2)
        put(b, n, cap, " (atomic)");
    put(b, n, cap, " of ");
    put_num(b, n, cap, size, 10);
    put(b, n, cap, " bytes at 0x");
    put_num(b, n, cap, addr, 16);
    put(b, n, cap, " by thread ");
    put_num(b, n, cap, t->tid, 10);
    put(b, n, cap, " races with an earlier ");
    put(b, n, cap, (c.kind & 4) ? "free" : (c.kind & 1) ? "write" : "read");
    if (c.kind & 2)
        put(b, n, cap, " (atomic)");
    put(b, n, cap, " by thread ");
    put_num(b, n, cap, c.tid, 10);
    r.race_pcs[0] = pc;
    r.race_pcs[1] = cpc;
    int d = t->nstack < 1024 ? t->nstack : 1024;
    for (int i = 0; i < 24 && i < d; i++)
        r.race_pcs[2 + i] = t->stack[d - 1 - i];
    hash_event(g.steps, 0xbad2);
}

static void race_granule(Thr *t, uint64_t idx, uint8_t mask, uint32_t kind, uint32_t pc, uint64_t addr, uint32_t size)
{
    Cell *c = reinterpret_cast<Cell *>(kRaceShadow + idx * 4);
    uint32_t *pcs = reinterpret_cast<uint32_t *>(kRacePcs + idx * 2);
    int put_at = -1;
    for (int i = 0; i < 4; i++) {
        Cell x = c[i];
        if (!x.mask) {
            if (put_at < 0)
                put_at = i;
            continue;
        }
        if (x.slot == t->slot) {
            if (x.epoch == t->vc.c[t->slot] && (x.mask & mask) == mask && (x.kind & 1) >= (kind & 1) &&
                ((x.kind & 2) == (kind & 2)) && !(kind & 4))
                return; // nothing new
            if ((x.mask & ~mask) == 0 && (kind & 1) >= (x.kind & 1))
                put_at = i;
            continue;
        }
        if (!(x.mask & mask))
            continue;
        if (x.epoch <= t->vc.c[x.slot]) { // happened before
            if ((x.mask & ~mask) == 0 && ((kind & 1) >= (x.kind & 1)))
                put_at = i;
            continue;
        }
        if (!((x.kind | kind) & 1))
            continue;
        if ((x.kind & kind) & 2)
            continue;
        report(t, addr, size, kind, pc, x, pcs[i]);
    }
    if (put_at < 0)
        put_at = (g.steps ^ (g.steps >> 7)) & 3;
    c[put_at] = Cell{t->vc.c[t->slot], (uint8_t)t->slot, mask, (uint8_t)kind, (uint8_t)t->tid};
    pcs[put_at] = pc;
}

static void race_check(Thr *t, uint64_t a, uint64_t n, uint32_t kind, uint32_t pc)
{
    uint64_t addr = a;
    uint32_t size = (uint32_t)n;
    while (n) {
        uint64_t i = index_of(a);
        if (i == ~0ull)
            return;
        uint32_t off = a & 7;
        uint32_t k = 8 - off < n ? 8 - off : (uint32_t)n;
        uint8_t mask = (uint8_t)(((1u << k) - 1) << off);
        race_granule(t, i & ~7ull, mask, kind, pc, addr, size);
        a += k;
        n -= k;
    }
}

void race_free(Thr *t, uint64_t a, uint64_t n)
{
    race_check(t, a, n, 1 | 4, t->nstack ? t->stack[(t->nstack < 1024 ? t->nstack : 1024) - 1] : 0);
}

static inline void access(uint64_t a, uint64_t n, uint32_t kind, uint32_t pc)
{
    Thr *t = self;
    if (!t || !g.active)
        return;
    step(t);
    if (g.flags) {
        if (a - kHeapBase < kHeapSize) {
            uint64_t w = *reinterpret_cast<uint8_t *>(kByteShadow + (a - kHeapBase) / 8);
            if (__builtin_expect(w || (a & 7) + n > 8, 0) && (g.flags & FL_MEM))
                mem_check(t, a, n, kind & 1);
        }
        if (g.flags & FL_RACE)
            race_check(t, a, n, kind, pc);
    }
}

extern "C" {
void __tsan_init()
{
}
void __tsan_func_entry(void *pc)
{
    Thr *t = self;
    if (!t)
        return;
    if (t->nstack < 1024)
        t->stack[t->nstack] = (uint32_t)(uint64_t)pc;
    t->nstack++;
}
void __tsan_func_exit()
{
    Thr *t = self;
    if (t && t->nstack > 0)
        t->nstack--;
}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void *a)                                                                                       \
    {                                                                                                                  \
        access((uint64_t)a, n, 0, PC);                                                                                 \
    }                                                                                                                  \
    void __tsan_write##n(void *a)                                                                                      \
    {                                                                                                                  \
        access((uint64_t)a, n, 1, PC);                                                                                 \
    }                                                                                                                  \
    void __tsan_unaligned_read##n(void *a)                                                                             \
    {                                                                                                                  \
        access((uint64_t)a, n, 0, PC);                                                                                 \
    }                                                                                                                  \
    void __tsan_unaligned_write##n(void *a)                                                                            \
    {                                                                                                                  \
        access((uint64_t)a, n, 1, PC);                                                                                 \
    }                                                                                                                  \
    void __tsan_volatile_read##n(void *a)                                                                              \
    {                                                                                                                  \
        access((uint64_t)a, n, 0, PC);                                                                                 \
    }                                                                                                                  \
    void __tsan_volatile_write##n(void *a)                                                                             \
    {                                                                                                                  \
        access((uint64_t)a, n, 1, PC);                                                                                 \
    }                                                                                                                  \
    void __tsan_unaligned_volatile_read##n(void *a)                                                                    \
    {                                                                                                                  \
        access((uint64_t)a, n, 0, PC);                                                                                 \
    }                                                                                                                  \
    void __tsan_unaligned_volatile_write##n(void *a)                                                                   \
    {                                                                                                                  \
        access((uint64_t)a, n, 1, PC);                                                                                 \
    }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *a, unsigned long n)
{
    access((uint64_t)a, n, 0, PC);
}
void __tsan_write_range(void *a, unsigned long n)
{
    access((uint64_t)a, n, 1, PC);
}
void __tsan_vptr_read(void **a)
{
    access((uint64_t)a, 8, 0, PC);
}
void __tsan_vptr_update(void **a, void *v)
{
    if (*a != v)
        access((uint64_t)a, 8, 1, PC);
}
void *sim_memcpy(void *d, const void *s, size_t n)
{
    if (n) {
        access((uint64_t)s, n, 0, PC);
        access((uint64_t)d, n, 1, PC);
    }
    return memcpy(d, s, n);
}
void *sim_memmove(void *d, const void *s, size_t n)
{
    if (n) {
        access((uint64_t)s, n, 0, PC);
        access((uint64_t)d, n, 1, PC);
    }
    return memmove(d, s, n);
}
void *sim_memset(void *d, int c, size_t n)
{
    if (n)
        access((uint64_t)d, n, 1, PC);
    return memset(d, c, n);
}
int sim_memcmp(const void *a, const void *b, size_t n)
{
    if (n) {
        access((uint64_t)a, n, 0, PC);
        access((uint64_t)b, n, 0, PC);
    }
    return memcmp(a, b, n);
}
}

// ---------------------------------------------------------------- atomics
enum { RLX = 0, CONSUME, ACQ, REL, ACQ_REL, SEQ };
static inline bool is_acq(int m)
{
    return m == CONSUME || m == ACQ || m == ACQ_REL || m == SEQ;
}
static inline bool is_rel(int m)
{
    return m == REL || m == ACQ_REL || m == SEQ;
}
// Scheduling point before every atomic operation; acquire effects of the value read; release effects of the write.
static inline Thr *atomic_begin(void *a, uint32_t n, bool write, uint32_t pc)
{
    Thr *t = self;
    if (!t || !g.active)
        return nullptr;
    sync_point(t, write ? 71 : 70);
    if (g.flags) {
        if (g.flags & FL_MEM)
            mem_check(t, (uint64_t)a, n, write);
        if (g.flags & FL_RACE)
            race_check(t, (uint64_t)a, n, write ? 3 : 2, pc);
    }
    return t;
}
static void acquire(Thr *t, void *a, int mo)
{
    if (!(g.flags & FL_RACE))
        return;
    SyncObj *o = sync_obj(a, false);
    if (!o)
        return;
    if (is_acq(mo))
        vc_join(t->vc, o->vc);
    else {
        if (!t->has_pend) {
            t->has_pend = true;
            memset(&t->pend_acq, 0, sizeof(VC));
        }
        vc_join(t->pend_acq, o->vc);
    }
}
static void release(Thr *t, void *a, int mo)
{
    if (!(g.flags & FL_RACE))
        return;
    if (is_rel(mo)) {
        vc_join(sync_obj(a, true)->vc, t->vc);
        t->vc.c[t->slot]++;
    } else if (t->has_rel)
        vc_join(sync_obj(a, true)->vc, t->rel_fence);
}

extern "C" {
#define ATOMIC(bits, T)                                                                                                \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo)                                                          \
    {                                                                                                                  \
        Thr *t = atomic_begin((void *)a, sizeof(T), false, PC);                                                        \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                    \
        if (t)                                                                                                         \
            acquire(t, (void *)a, mo);                                                                                 \
        return v;                                                                                                      \
    }                                                                                                                  \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo)                                                       \
    {                                                                                                                  \
        Thr *t = atomic_begin((void *)a, sizeof(T), true, PC);                                                         \
        if (t)                                                                                                         \
            release(t, (void *)a, mo);                                                                                 \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fmo)                       \
    {                                                                                                                  \
        Thr *t = atomic_begin((void *)a, sizeof(T), true, PC);                                                         \
        bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                     \
        if (t) {                                                                                                       \
            acquire(t, (void *)a, ok ? mo : fmo);                                                                      \
            if (ok)                                                                                                    \
                release(t, (void *)a, mo);                                                                             \
        }                                                                                                              \
        return ok;                                                                                                     \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fmo)                         \
    {                                                                                                                  \
        return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo);                                        \
    }                                                                                                                  \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fmo)                             \
    {                                                                                                                  \
        __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo);                                              \
        return e;                                                                                                      \
    }
#define RMW(bits, T, name, expr)                                                                                       \
    T __tsan_atomic##bits##_##name(volatile T *a, T v, int mo)                                                         \
    {                                                                                                                  \
        Thr *t = atomic_begin((void *)a, sizeof(T), true, PC);                                                         \
        T o = expr;                                                                                                    \
        if (t) {                                                                                                       \
            acquire(t, (void *)a, mo);                                                                                 \
            release(t, (void *)a, mo);                                                                                 \
        }                                                                                                              \
        return o;                                                                                                      \
    }
#define ALL(bits, T)                                                                                                   \
    ATOMIC(bits, T)                                                                                                    \
    RMW(bits, T, exchange, __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST))                                                \
    RMW(bits, T, fetch_add, __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST))                                                \
    RMW(bits, T, fetch_sub, __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST))                                                \
    RMW(bits, T, fetch_and, __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST))                                                \
    RMW(bits, T, fetch_or, __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST))                                                  \
    RMW(bits, T, fetch_xor, __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST))                                                \
    RMW(bits, T, fetch_nand, __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST))
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)

void __tsan_atomic_thread_fence(int mo)
{
    Thr *t = self;
    if (!t || !g.active)
        return;
    sync_point(t, 72);
    if (!(g.flags & FL_RACE))
        return;
    if (is_acq(mo) && t->has_pend) {
        vc_join(t->vc, t->pend_acq);
        t->has_pend = false;
    }
    if (is_rel(mo)) {
        t->rel_fence = t->vc;
        t->has_rel = true;
        t->vc.c[t->slot]++;
    }
}
void __tsan_atomic_signal_fence(int)
{
}
}

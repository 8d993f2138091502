// The heap of the simulated program: fixed addresses, deterministic reuse, byte shadow, allocation failures.
#include "rt.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace
{
constexpr uint32_t kLive = 0x51a7e11a, kDead = 0xdeadf7ee, kQuar = 0x9a7a9a7a;
struct Hdr { // directly before the user pointer
    uint64_t size;
    uint32_t state;
    uint32_t cls;
    uint32_t adj; // distance from the start of the chunk to the user pointer
    uint32_t site;
    uint64_t link; // user pointer of the next chunk in a list
};
static_assert(sizeof(Hdr) == 32);
constexpr uint64_t kHeapLimit = 400ull << 20;
constexpr int kClasses = 256;
constexpr int kSmall = 128; // classes of 16 bytes each up to 2048
struct List {
    uint64_t head, tail;
} lists[kClasses];
struct {
    uint64_t head, tail, bytes, count;
} quar;
uint64_t brk_;
bool inited;

uint64_t class_size(int c)
{
    if (c < kSmall)
        return uint64_t(c + 1) * 16;
    int k = c - kSmall; // 4 steps per power of two above 2048
    uint64_t b = 2048ull << (k / 4);
    return b + (b / 4) * (k % 4 + 1);
}
int class_of(uint64_t n)
{
    if (n <= 2048)
        return int((n + 15) / 16) - 1;
    for (int c = kSmall; c < kClasses; c++)
        if (class_size(c) >= n)
            return c;
    return -1;
}
inline Hdr *hdr(uint64_t p)
{
    return reinterpret_cast<Hdr *>(p - sizeof(Hdr));
}
void shadow_set(uint64_t addr, uint64_t len, uint8_t v)
{
    memset(reinterpret_cast<void *>(kByteShadow + (addr - kHeapBase) / 8), v, (len + 7) / 8);
}
uint8_t fill_byte()
{
    return g.shm ? uint8_t(g.shm->req.sched.seed * 37 + 0x5b) : 0;
}
} // namespace

// Live allocations per call site.
static SiteStat *site_tab;
static constexpr uint32_t kSiteTab = 1u << 16;
static int64_t live_bytes, live_count;

uint64_t site_hash(Thr *t, uint32_t *pcs)
{
    uint64_t h = 0x1234;
    int n = t->nstack < 1024 ? t->nstack : 1024;
    int k = 0;
    for (int i = n - 1; i >= 0 && k < 8; i--, k++) {
        pcs[k] = t->stack[i];
        h = hmix(h, t->stack[i]);
    }
    return h ? h : 1;
}

static uint32_t site_of(Thr *t)
{
    uint32_t pcs[8] = {0};
    uint64_t h = site_hash(t, pcs);
    uint32_t i = h & (kSiteTab - 1);
    for (uint32_t tries = 0; tries < kSiteTab; tries++, i = (i + 1) & (kSiteTab - 1)) {
        if (site_tab[i].hash == h)
            return i + 1;
        if (!site_tab[i].hash) {
            site_tab[i].hash = h;
            memcpy(site_tab[i].pcs, pcs, sizeof pcs);
            return i + 1;
        }
    }
    return 0;
}

void site_mark()
{
    Result &r = g.shm->res;
    r.marked = 1;
    r.live_bytes = live_bytes;
    r.live_count = live_count;
    r.nsites = 0;
    if (!(g.flags & FL_SITES))
        return;
    for (uint32_t i = 0; i < kSiteTab && r.nsites < kMaxSites; i++)
        if (site_tab[i].hash && (site_tab[i].live > 0 || (g.flags & FL_ALL_SITES)))
            r.sites[r.nsites++] = site_tab[i];
}

static void *map_fixed(uint64_t a, uint64_t n)
{
    void *p = mmap(reinterpret_cast<void *>(a), n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void *>(a)) {
        static const char m[] = "simulator: cannot map its memory\n";
        (void)!::write(2, m, sizeof m - 1);
        raw_exit(251);
    }
    return p;
}

void arena_init()
{
    if (inited)
        return;
    inited = true;
    map_fixed(kHeapBase, kHeapSize);
    map_fixed(kStackBase, kStacksSize);
    map_fixed(kByteShadow, kHeapSize / 8);
    map_fixed(kRaceShadow, kTracked * 4);
    map_fixed(kRacePcs, kTracked * 2);
    map_fixed(kSyncShadow, kTracked / 2);
    // fewer page faults where the heap is dense
    madvise(reinterpret_cast<void *>(kRaceShadow), kHeapLimit * 4, MADV_HUGEPAGE);
    madvise(reinterpret_cast<void *>(kRacePcs), kHeapLimit * 2, MADV_HUGEPAGE);
    for (int i = 0; i < kSlots; i++)
        mprotect(reinterpret_cast<void *>(kStackBase + i * kStackSize), 65536, PROT_NONE);
    site_tab = static_cast<SiteStat *>(map_fixed(0x160000000000ull, kSiteTab * sizeof(SiteStat)));
    brk_ = kHeapBase + 4096;
}

static void *do_alloc(size_t n, size_t align)
{
    if (!inited)
        arena_init();
    Thr *t = self;
    if (t && !t->internal && g.active) {
        g.shm->res.n_alloc++;
        if (alloc_fault(t, n)) {
            errno = ENOMEM;
            return nullptr;
        }
    }
    if (n > kHeapSize / 2) {
        errno = ENOMEM;
        return nullptr;
    }
    uint64_t extra = align > 16 ? align : 0;
    uint64_t need = n + sizeof(Hdr) + 16 + extra; // header, redzone at the end
    int c = class_of(need);
    if (c < 0) {
        errno = ENOMEM;
        return nullptr;
    }
    uint64_t chunk;
    bool reused = lists[c].head;
    uint64_t csz = class_size(c);
    if (lists[c].head) {
        uint64_t p = lists[c].head;
        lists[c].head = hdr(p)->link;
        if (!lists[c].head)
            lists[c].tail = 0;
        chunk = p - hdr(p)->adj;
    } else {
        if (brk_ + csz > kHeapBase + kHeapLimit) {
            if (t && g.active && !t->internal)
                end_run(E_LIMIT, "heap limit");
            errno = ENOMEM;
            return nullptr;
        }
        chunk = brk_;
        brk_ += csz;
    }
    uint64_t p = chunk + sizeof(Hdr);
    if (extra)
        p = (p + align - 1) & ~(uint64_t(align) - 1);
    shadow_set(chunk, csz, 0xfa);
    if (n) {
        shadow_set(p, n, 0);
        if (n & 7)
            *reinterpret_cast<uint8_t *>(kByteShadow + (p + n - kHeapBase) / 8) = n & 7;
    }
    Hdr *h = hdr(p);
    h->size = n;
    h->state = kLive;
    h->cls = c;
    h->adj = p - chunk;
    h->link = 0;
    h->site = 0;
    if (t && g.active && !t->internal) {
        live_bytes += n;
        live_count++;
        h->site = ~0u;
        if (g.flags & FL_SITES) {
            h->site = site_of(t);
            if (h->site) {
                site_tab[h->site - 1].total++;
                site_tab[h->site - 1].live++;
                site_tab[h->site - 1].bytes += n;
            }
        }
        if ((g.flags & FL_RACE) && reused)
            race_clear(p, n);
        if (n <= 65536)
            memset(reinterpret_cast<void *>(p), fill_byte(), n);
    }
    return reinterpret_cast<void *>(p);
}

static bool in_heap(uint64_t p)
{
    return p >= kHeapBase && p < kHeapBase + kHeapSize;
}

static void do_free(void *ptr, bool sized, size_t sz)
{
    if (!ptr)
        return;
    uint64_t p = reinterpret_cast<uint64_t>(ptr);
    if (!in_heap(p))
        return;
    Hdr *h = hdr(p);
    Thr *t = self;
    bool sim = t && g.active && !t->internal;
    if ((p & 15) || *reinterpret_cast<uint8_t *>(kByteShadow + (p - sizeof(Hdr) - kHeapBase) / 8) != 0xfa ||
        h->state != kLive) {
        if (sim)
            mem_error(t, h->state == kQuar || h->state == kDead ? "double free" : "invalid free", p, 0, true);
        static const char m[] = "invalid free\n";
        (void)!::write(2, m, sizeof m - 1);
        abort();
    }
    if (sim && sized && (g.flags & FL_MEM) && sz != h->size)
        mem_error(t, "deallocation with a wrong size", p, sz, true);
    if (sim && (g.flags & FL_RACE) && h->size)
        race_free(t, p, h->size);
    if (h->site) {
        live_bytes -= h->size;
        live_count--;
        if (h->site != ~0u) {
            site_tab[h->site - 1].live--;
            site_tab[h->site - 1].bytes -= h->size;
        }
    }
    h->state = kQuar;
    shadow_set(p, h->size, 0xfd);
    if (t && g.active)
        memset(ptr, 0xdb, h->size < 64 ? h->size : 64);
    h->link = 0;
    if (quar.tail)
        hdr(quar.tail)->link = p;
    else
        quar.head = p;
    quar.tail = p;
    quar.bytes += class_size(h->cls);
    quar.count++;
    while (quar.bytes > (1u << 20) || quar.count > 2048) {
        uint64_t q = quar.head;
        Hdr *qh = hdr(q);
        quar.head = qh->link;
        if (!quar.head)
            quar.tail = 0;
        quar.bytes -= class_size(qh->cls);
        quar.count--;
        qh->state = kDead;
        qh->link = 0;
        List &l = lists[qh->cls];
        if (l.tail)
            hdr(l.tail)->link = q;
        else
            l.head = q;
        l.tail = q;
    }
}

void mem_check(Thr *t, uint64_t addr, uint64_t size, bool write)
{
    if (addr - kHeapBase >= kHeapSize || !size)
        return;
    uint64_t first = addr / 8, last = (addr + size - 1) / 8;
    for (uint64_t i = first; i <= last; i++) {
        uint8_t s = *reinterpret_cast<uint8_t *>(kByteShadow + i - kHeapBase / 8);
        if (s == 0)
            continue;
        if (s < 8) {
            uint64_t end_in = (i == last) ? (addr + size - 1) % 8 : 7;
            if (end_in < s)
                continue;
        }
        mem_error(t, s == 0xfd ? "use after free" : "access outside of a heap object", addr, size, write);
    }
}

extern "C" {
void *malloc(size_t n)
{
    return do_alloc(n, 16);
}
void free(void *p)
{
    do_free(p, false, 0);
}
void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    void *p = do_alloc(n, 16);
    if (p)
        memset(p, 0, n);
    return p;
}
void *realloc(void *o, size_t n)
{
    if (!o)
        return do_alloc(n, 16);
    if (!n) {
        do_free(o, false, 0);
        return nullptr;
    }
    void *p = do_alloc(n, 16);
    if (!p)
        return nullptr;
    uint64_t os = hdr(reinterpret_cast<uint64_t>(o))->size;
    memcpy(p, o, os < n ? os : n);
    do_free(o, false, 0);
    return p;
}
void *reallocarray(void *o, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    return realloc(o, n);
}
void *memalign(size_t al, size_t n)
{
    return do_alloc(n, al);
}
void *aligned_alloc(size_t al, size_t n)
{
    return do_alloc(n, al);
}
int posix_memalign(void **out, size_t al, size_t n)
{
    void *p = do_alloc(n, al);
    if (!p)
        return ENOMEM;
    *out = p;
    return 0;
}
void *valloc(size_t n)
{
    return do_alloc(n, 4096);
}
size_t malloc_usable_size(void *p)
{
    return p ? hdr(reinterpret_cast<uint64_t>(p))->size : 0;
}
}

void operator delete(void *p, size_t n) noexcept
{
    do_free(p, true, n);
}
void operator delete[](void *p, size_t n) noexcept
{
    do_free(p, true, n);
}
void operator delete(void *p) noexcept
{
    do_free(p, false, 0);
}
void operator delete[](void *p) noexcept
{
    do_free(p, false, 0);
}

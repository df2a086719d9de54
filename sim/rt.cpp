// Deterministic simulator runtime: compiled WITHOUT instrumentation and linked into the harness executable.
// It provides the instrumentation callbacks (__tsan_*), threads, locks, OpenMP teams, the heap, the disk and the clock.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "rt_internal.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

#define HOT __attribute__((hot))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define RET ((uintptr_t)__builtin_return_address(0))

extern "C" void *__real_memcpy(void *, const void *, size_t);
extern "C" void *__real_memmove(void *, const void *, size_t);
extern "C" void *__real_memset(void *, int, size_t);
extern "C" int __real_memcmp(const void *, const void *, size_t);

static void die_msg(const char *s) { long r = syscall(SYS_write, 2, s, strlen(s)); (void)r; }

namespace sim {

// ================================================================= random
static inline uint64_t sm(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t mix(uint64_t a, uint64_t b) { uint64_t s = a ^ (b * 0xd6e8feb86659fd93ull); return sm(s); }
uint64_t Rng::next() { return sm(s); }
uint64_t Rng::below(uint64_t n) { return n ? next() % n : 0; }
int64_t Rng::range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
double Rng::unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
bool Rng::chance(double p) { return unit() < p; }
Rng Rng::fork(uint64_t salt) { return Rng(mix(next(), salt)); }

// ================================================================= state
static const int MAXT = 64;
static const uintptr_t HEAP_BASE = 0x100000000000ull;
static const uintptr_t HEAP_SIZE = 0x000100000000ull;      // 4 GB of address space
static const uintptr_t SHADOW_BASE = 0x0f0000000000ull;
static const uintptr_t SYS_BASE = 0x0e0000000000ull;
static const uintptr_t SYS_SIZE = 0x000080000000ull;
static const uintptr_t REC_BASE = 0x0d0000000000ull;
static const uintptr_t STACK_BASE = 0x0c0000000000ull;
static const uintptr_t STACK_SIZE = 4u << 20, STACK_GUARD = 64u << 10;
static const uintptr_t CELL_BASE = 0x0b0000000000ull;
static const uint64_t MAX_REC = 24u << 20;

enum State { S_READY, S_BLOCKED, S_SLEEP, S_IDLE, S_DONE };

struct Team;
struct T {
    int id;
    State state;
    int sem;
    pthread_t real;
    bool has_real, detached, joined_real;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    uint64_t local;          // this thread's own instrumented steps
    uint64_t next_pre;       // preemption when local reaches this
    size_t replay_i;
    uint32_t vc[MAXT];
    int quiet, devalloc;
    const void *waitobj;
    const char *waitwhat;
    uint64_t wake;
    bool timed;
    int64_t prio;
    uint64_t stall_until;
    uintptr_t pcs[1024];
    int depth;
    int team_size, team_id, team_level, icv;
    Team *team;
    bool worker;
};
struct Team { void (*fn)(void *); void *data; int size; int pending; T *master; };

static T g_t[MAXT];
static int g_nt = 0;                 // thread slots used so far in this run
static uint64_t g_threads = 0;       // threads created
static __thread T *self = nullptr;
static __thread int insys = 0;
static bool g_active = false;        // inside a forked run
static bool g_mt = false;            // more than one thread has existed
static uint64_t g_steps = 0;         // total instrumented steps
uint64_t steps() { return g_steps; }
static uint64_t g_switches = 0;
static uint64_t g_hash = 0xcbf29ce484222325ull, g_schedhash = 0x9ddfea08eb382d69ull;
static Options g_opt;
static uint64_t g_seed = 0, g_scheds = 0;
static Rng g_rng(0), g_srng(0);
static Strategy g_strategy = SCHED_NONE;
static double g_mean = 0;
static bool g_fair = false;
static uint64_t g_now = 1700000000000000000ull, g_now0 = 1700000000000000000ull;
static Result *R = nullptr;
static RunConfig g_cfg;
static bool g_verbose = false;
static bool g_ended = false;

void rt_parent(bool on) { insys = on ? 1 : 0; }
struct Sys { Sys() { ++insys; } ~Sys() { --insys; } };

Options &opt() { return g_opt; }
uint64_t seed() { return g_seed; }
Rng &rng() { return g_rng; }
bool verbose() { return g_verbose; }
static inline void hash_in(uint64_t v) { g_hash = (g_hash ^ v) * 0x100000001b3ull; g_hash ^= g_hash >> 29; }
void event(uint64_t h) { hash_in(h); }
void cover(uint64_t h) {
    if (!R) return;
    for (unsigned i = 0; i < R->ncover; ++i) if (R->cover[i] == h) return;
    if (R->ncover < MAX_COVER) R->cover[R->ncover++] = h;
}
void tag(const char *name, uint64_t n) {
    if (!R) return;
    for (unsigned i = 0; i < R->ntags; ++i) if (!strcmp(R->tags[i].name, name)) { R->tags[i].n += n; return; }
    if (R->ntags < MAX_TAGS) {
        snprintf(R->tags[R->ntags].name, sizeof R->tags[0].name, "%s", name);
        R->tags[R->ntags++].n = n;
    }
}
void note(const char *fmt, ...) {
    if (!R) return;
    Sys s;
    va_list ap; va_start(ap, fmt);
    char buf[1024];
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    if (R->nnotes + n + 2 < sizeof R->notes) {
        __real_memcpy(R->notes + R->nnotes, buf, n);
        R->nnotes += n;
        R->notes[R->nnotes++] = '\n';
        R->notes[R->nnotes] = 0;
    }
}
bool op_enabled(int i) {
    for (int x : g_cfg.ops_off) if (x == i) return false;
    return true;
}
void op_mark(int i) { if (R && i + 1 > (int)R->nops) R->nops = i + 1; }

static void stack_text(char *out, size_t n, const uintptr_t *pcs, int k) {
    size_t o = 0; out[0] = 0;
    for (int i = 0; i < k && o + 20 < n; ++i) o += snprintf(out + o, n - o, " 0x%lx", (unsigned long)pcs[i]);
}
static int capture(T *t, uintptr_t pc, uintptr_t *out, int max) {
    int k = 0;
    if (pc && k < max) out[k++] = pc;
    if (t) for (int d = t->depth; d > 0 && k < max; --d) if (d <= 1024) out[k++] = t->pcs[d - 1];
    return k;
}

static void fill_result() {
    if (!R) return;
    R->hash = g_hash; R->schedhash = g_schedhash; R->steps = g_steps; R->switches = g_switches;
    R->threads = g_threads; R->sim_ns = g_now - g_now0;
}
[[noreturn]] static void finish(int code) {
    fill_result();
    g_ended = true;
    _exit(code);
}
static void vviolation(const char *kind, uintptr_t pc, const char *fmt, va_list ap) {
    ++insys;
    if (R && !R->violated) {
        R->violated = 1;
        snprintf(R->kind, sizeof R->kind, "%s", kind);
        vsnprintf(R->msg, sizeof R->msg, fmt, ap);
        uintptr_t pcs[24];
        int k = capture(self, pc, pcs, 24);
        stack_text(R->stack, sizeof R->stack, pcs, k);
        R->vthread = self ? self->id : -1;
    }
    finish(1);
}
void violation(const char *kind, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vviolation(kind, RET, fmt, ap);
    __builtin_unreachable();
}
static void violation_pc(const char *kind, uintptr_t pc, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vviolation(kind, pc, fmt, ap);
}

Quiet::Quiet() { if (self) ++self->quiet; }
Quiet::~Quiet() { if (self) --self->quiet; }
int self_id() { return self ? self->id : -1; }
bool in_team() { return self && self->team_size > 1; }
int live_threads() { int n = 0; for (int i = 0; i < g_nt; ++i) if (g_t[i].state != S_DONE && g_t[i].state != S_IDLE) ++n; return n; }

// ================================================================= heap
struct Rec { uintptr_t ptr; uint64_t size; uintptr_t apcs[6]; uintptr_t fpcs[4]; int16_t atid, ftid; uint8_t state, quiet; };
static Rec *const g_rec = (Rec *)REC_BASE;
static uint8_t *const g_shadow = (uint8_t *)SHADOW_BASE;
static uintptr_t g_bump = HEAP_BASE + 4096;
static uint64_t g_nrec = 1;
static bool g_heap_init = false;
static uint64_t g_live_blocks, g_live_bytes;
static int g_reuse = 0;              // 0 never, 1 LIFO
static int g_junk = 1;               // 0 zeros, 1 pattern, 2 random
static uint64_t g_junk_s = 0x1234567;
static const uint64_t HEAP_LIMIT = 1500ull << 20;   // simulated machine memory
static AllocFault g_af;
static uint64_t g_af_seen, g_af_fired;
static uintptr_t g_sys_bump = SYS_BASE;
static std::atomic_flag g_sys_lock = ATOMIC_FLAG_INIT;
static const int NFREE = 1 << 12;
static struct FreeHead { uintptr_t head; } g_free[NFREE];   // by rounded size/16 (< 64 KB)

static void map_fixed(uintptr_t a, uintptr_t n) {
    void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)a) { die_msg("sim: cannot map fixed region\n"); _exit(99); }
}
static void heap_init() {
    g_heap_init = true;
    map_fixed(HEAP_BASE, HEAP_SIZE);
    map_fixed(SHADOW_BASE, HEAP_SIZE / 8);
    map_fixed(SYS_BASE, SYS_SIZE);
    map_fixed(REC_BASE, MAX_REC * sizeof(Rec));
    map_fixed(STACK_BASE, STACK_SIZE * (MAXT + 1));
    for (int i = 0; i <= MAXT; ++i) mprotect((void *)(STACK_BASE + STACK_SIZE * (uintptr_t)i), STACK_GUARD, PROT_NONE);
    map_fixed(CELL_BASE, 0x001000000000ull);
}
static void *sys_alloc(size_t n, size_t align = 16) {
    if (!g_heap_init) heap_init();
    while (g_sys_lock.test_and_set(std::memory_order_acquire)) {}
    uintptr_t p = (g_sys_bump + 16 + align - 1) & ~(uintptr_t)(align - 1);
    ((uint64_t *)p)[-1] = n;
    g_sys_bump = p + ((n + 15) & ~(size_t)15);
    g_sys_lock.clear(std::memory_order_release);
    if (g_sys_bump > SYS_BASE + SYS_SIZE) { die_msg("sim: sys arena full\n"); _exit(98); }
    return (void *)p;
}
static inline bool in_heap(uintptr_t p) { return p - HEAP_BASE < HEAP_SIZE; }
static inline bool in_sys(uintptr_t p) { return p - SYS_BASE < SYS_SIZE; }
static void shadow_set(uintptr_t p, size_t n, bool live) {
    uint8_t *s = g_shadow + ((p - HEAP_BASE) >> 3);
    size_t g = (n + 7) / 8;
    __real_memset(s, live ? 8 : 0xfd, g);
    if (live && (n & 7)) s[g - 1] = n & 7;
}
struct Hdr { uint32_t magic, id; uint64_t size; };
static void cells_clear(uintptr_t p, size_t n);
static void race_range(uintptr_t a, size_t n, bool w, uintptr_t pc);

static void *heap_alloc(size_t n, size_t align, uintptr_t pc) {
    if (!g_heap_init) heap_init();
    T *t = self;
    if (t) {
        if (!t->quiet && g_af.enabled && n >= g_af.min_size && (!g_af.device_only || t->devalloc > 0) &&
            (g_af.thread < 0 || g_af.thread == t->id)) {
            ++g_af_seen;
            if (g_af.fail_at && g_af_seen >= g_af.fail_at && g_af_seen < g_af.fail_at + g_af.fail_count) {
                ++g_af_fired;
                hash_in(0xfa11);
                errno = ENOMEM;
                return nullptr;
            }
        }
        if (!t->quiet) hash_in(n);
    }
    if (n > HEAP_LIMIT || g_live_bytes + n > HEAP_LIMIT || g_nrec >= MAX_REC) { errno = ENOMEM; if (t) tag("memory_limit_hit"); return nullptr; }
    size_t rn = (n + 15) & ~(size_t)15;
    if (rn == 0) rn = 16;
    uintptr_t p = 0;
    if (g_reuse && align <= 16 && rn / 16 < NFREE && g_free[rn / 16].head) {
        p = g_free[rn / 16].head;
        g_free[rn / 16].head = *(uintptr_t *)p;
    } else {
        p = (g_bump + sizeof(Hdr) + align - 1) & ~(uintptr_t)(align - 1);
        if (p + rn + 16 > HEAP_BASE + HEAP_SIZE) { errno = ENOMEM; return nullptr; }
        g_bump = p + rn + 16;
    }
    Hdr *h = (Hdr *)(p - sizeof(Hdr));
    uint64_t id = g_nrec++;
    h->magic = 0x51a110c8; h->id = (uint32_t)id; h->size = n;
    Rec &r = g_rec[id];
    r.ptr = p; r.size = n; r.state = 1; r.quiet = t ? (t->quiet > 0) : 2; r.atid = t ? t->id : -1;
    if (t) { int k = capture(t, pc, r.apcs, 6); for (; k < 6; ++k) r.apcs[k] = 0; }
    ++g_live_blocks; g_live_bytes += n;
    shadow_set(p, n, true);
    if (t && !t->quiet) {
        if (g_junk == 2) { for (size_t i = 0; i < rn; i += 8) *(uint64_t *)(p + i) = sm(g_junk_s); }
        else if (g_junk == 1) __real_memset((void *)p, 0xa5, rn);
        else if (g_junk == 3) __real_memset((void *)p, 0xff, rn);
        else __real_memset((void *)p, 0, rn);
    }
    if (g_mt && t) cells_clear(p, rn);
    return (void *)p;
}
static void describe_block(uintptr_t a, char *out, size_t n) {
    // find the block whose memory is at or before a
    uint64_t best = 0;
    for (uint64_t i = g_nrec - 1; i > 0; --i) {
        Rec &r = g_rec[i];
        if (r.ptr && a >= r.ptr - 16 && a < r.ptr + r.size + 32) { best = i; break; }
    }
    if (!best) { snprintf(out, n, "address 0x%lx in no known block", (unsigned long)a); return; }
    Rec &r = g_rec[best];
    char s1[200], s2[200];
    int k = 0; while (k < 6 && r.apcs[k]) ++k; stack_text(s1, sizeof s1, r.apcs, k);
    k = 0; while (k < 4 && r.fpcs[k]) ++k; stack_text(s2, sizeof s2, r.fpcs, k);
    snprintf(out, n, "offset %ld of %lu-byte block #%lu (%s) allocated by T%d at%s freed by T%d at%s", (long)(a - r.ptr), (unsigned long)r.size,
             (unsigned long)best, r.state == 1 ? "live" : "freed", r.atid, s1, r.state == 2 ? r.ftid : -1, s2);
}
static void heap_free(uintptr_t p, uintptr_t pc) {
    Hdr *h = (Hdr *)(p - sizeof(Hdr));
    T *t = self;
    if (!in_heap(p) || (p & 15) || h->magic != 0x51a110c8 || h->id >= g_nrec || g_rec[h->id].ptr != p) {
        char d[600]; ++insys;
        if (in_heap(p)) describe_block(p, d, sizeof d); else snprintf(d, sizeof d, "address 0x%lx not from the heap", (unsigned long)p);
        if (t) violation_pc("invalid-free", pc, "free of a pointer that is not the start of a live block: %s", d);
        _exit(97);
    }
    Rec &r = g_rec[h->id];
    if (r.state != 1) {
        char d[600]; ++insys; describe_block(p, d, sizeof d);
        if (t) violation_pc("double-free", pc, "%s", d);
        _exit(97);
    }
    if (g_mt && t && !t->quiet) race_range(p, r.size, true, pc);
    r.state = 2; r.ftid = t ? t->id : -1;
    { int k = t ? capture(t, pc, r.fpcs, 4) : 0; for (; k < 4; ++k) r.fpcs[k] = 0; }
    --g_live_blocks; g_live_bytes -= r.size;
    size_t rn = (r.size + 15) & ~(size_t)15;
    if (rn == 0) rn = 16;
    shadow_set(p, rn, false);
    if (t) __real_memset((void *)p, 0xdd, rn < 4096 ? rn : 4096);
    if (g_reuse && rn / 16 < NFREE && g_active) { *(uintptr_t *)p = g_free[rn / 16].head; g_free[rn / 16].head = p; }
}
HeapStat heap_stat() { return {g_live_blocks, g_live_bytes, g_nrec - 1}; }
uint64_t heap_mark() { return g_nrec; }
size_t heap_live_since(uint64_t mark, std::string *desc) {
    Quiet q;
    size_t n = 0;
    for (uint64_t i = mark; i < g_nrec; ++i) {
        Rec &r = g_rec[i];
        if (r.state != 1 || r.quiet) continue;
        if (desc && n < 3) {
            char s1[200], b[300]; int k = 0; while (k < 6 && r.apcs[k]) ++k; stack_text(s1, sizeof s1, r.apcs, k);
            snprintf(b, sizeof b, "[%lu bytes at%s] ", (unsigned long)r.size, s1);
            *desc += b;
        }
        ++n;
    }
    return n;
}
bool heap_valid(const void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (n == 0) return true;
    if (!in_heap(a) || !in_heap(a + n - 1)) return !in_heap(a);
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
        uint8_t s = g_shadow[g - (HEAP_BASE >> 3)];
        if (s == 0 || s > 8) return false;
    }
    uint8_t s = g_shadow[((a + n - 1) - HEAP_BASE) >> 3];
    return ((a + n - 1) & 7) < s;
}
void alloc_fault_arm(const AllocFault &f) { g_af = f; g_af.enabled = true; g_af_seen = g_af_fired = 0; }
uint64_t alloc_fault_disarm(uint64_t *fired) { g_af.enabled = false; if (fired) *fired = g_af_fired; return g_af_seen; }
DeviceAlloc::DeviceAlloc() { if (self) ++self->devalloc; }
DeviceAlloc::~DeviceAlloc() { if (self) --self->devalloc; }

static void heap_report(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    ++insys;
    if (self) ++self->quiet;
    uintptr_t bad = a;
    for (uintptr_t x = a; x < a + n; ++x) {
        if (!in_heap(x)) break;
        uint8_t s = g_shadow[(x - HEAP_BASE) >> 3];
        if (s > 8 || (x & 7) >= s) { bad = x; break; }
    }
    uint8_t s = in_heap(bad) ? g_shadow[(bad - HEAP_BASE) >> 3] : 0;
    char d[800]; describe_block(bad, d, sizeof d);
    violation_pc(s == 0xfd ? "use-after-free" : "heap-out-of-bounds", pc, "%s of %lu bytes: %s", w ? "write" : "read", (unsigned long)n, d);
}
static inline HOT void heap_check(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if (LIKELY(a - HEAP_BASE >= HEAP_SIZE)) return;
    if (LIKELY(((a & 7) + n) <= 8)) {
        uint8_t s = g_shadow[(a - HEAP_BASE) >> 3];
        if (UNLIKELY(s > 8 || (a & 7) + n > s)) heap_report(a, n, w, pc);
    } else if (UNLIKELY(!heap_valid((void *)a, n))) heap_report(a, n, w, pc);
}

// ================================================================= data races (vector clocks)
struct Cell { uint32_t clk; uint8_t tid, mask, w, at; uint64_t pc; };
struct Page { Cell c[512][4]; uint8_t rr[512]; };
static const unsigned PHASH = 1 << 18;
static struct { uintptr_t key; Page *p; } *g_pages = nullptr;
static uintptr_t g_cell_bump = CELL_BASE;

static inline Page *page_of(uintptr_t a, bool create) {
    uintptr_t key = (a >> 12) + 1;
    static uintptr_t lk; static Page *lp;
    if (lk == key && lp) return lp;
    if (!g_pages) {
        g_pages = (decltype(g_pages))g_cell_bump; g_cell_bump += (sizeof(*g_pages) * PHASH + 4095) & ~4095ull;
    }
    unsigned h = (unsigned)((key * 0x9e3779b97f4a7c15ull) >> 46) & (PHASH - 1);
    while (g_pages[h].key && g_pages[h].key != key) h = (h + 1) & (PHASH - 1);
    if (!g_pages[h].key) {
        if (!create) return nullptr;
        g_pages[h].key = key; g_pages[h].p = (Page *)g_cell_bump; g_cell_bump += (sizeof(Page) + 63) & ~63ull;
    }
    lk = key; lp = g_pages[h].p;
    return lp;
}
static void cells_clear(uintptr_t p, size_t n) {
    if (!g_pages) return;
    for (uintptr_t a = p & ~7ull; a < p + n;) {
        uintptr_t end = (a | 4095) + 1; if (end > p + n) end = p + n;
        Page *pg = page_of(a, false);
        if (pg) for (uintptr_t x = a; x < end; x += 8) __real_memset(pg->c[(x & 4095) >> 3], 0, sizeof(pg->c[0]));
        a = (a | 4095) + 1;
    }
}
struct Suppress { uintptr_t lo, hi; };
static void race_report(T *t, const Cell &c, uintptr_t a, size_t n, bool w, uintptr_t pc) {
    ++insys; ++t->quiet;
    char d[700];
    if (in_heap(a)) describe_block(a, d, sizeof d); else snprintf(d, sizeof d, "address 0x%lx (not heap)", (unsigned long)a);
    if (R) { R->race_pc[0] = pc; R->race_pc[1] = c.pc; }
    violation_pc("data-race", pc, "T%d %s at 0x%lx conflicts with an earlier unsynchronised %s by T%d at 0x%lx: %s", t->id, w ? "write" : "read",
                 (unsigned long)pc, c.w ? "write" : "read", c.tid - 1, (unsigned long)c.pc, d);
}
static inline void race_granule(T *t, uintptr_t a, uint8_t mask, bool w, bool at, uintptr_t pc) {
    Page *pg = page_of(a, true);
    unsigned gi = (a & 4095) >> 3;
    Cell *cs = pg->c[gi];
    uint32_t clk = t->vc[t->id];
    int slot = -1, same = -1;
    for (int i = 0; i < 4; ++i) {
        Cell &c = cs[i];
        if (!c.tid) { if (slot < 0) slot = i; continue; }
        int ct = c.tid - 1;
        if (ct == t->id) {
            if (c.mask == mask && c.w == w && c.at == at) same = i;
            else if (c.clk == clk && (c.mask & mask) == mask && (c.w || !w) && c.at <= at) return;   // covered
            continue;
        }
        if ((c.mask & mask) && (w || c.w) && !(at && c.at) && c.clk > t->vc[ct]) race_report(t, c, a, 0, w, pc);
        else if (c.clk <= t->vc[ct] && slot < 0 && w && (c.mask & ~mask) == 0) slot = i;   // ordered before and overwritten
    }
    if (same >= 0) slot = same;
    if (slot < 0) { // replace something ordered before us, else round robin
        for (int i = 0; i < 4; ++i) if (cs[i].tid - 1 != t->id && cs[i].clk <= t->vc[cs[i].tid - 1]) { slot = i; break; }
        if (slot < 0) slot = pg->rr[gi]++ & 3;
    }
    Cell &c = cs[slot];
    c.clk = clk; c.tid = t->id + 1; c.mask = mask; c.w = w; c.at = at; c.pc = pc;
}
static void race_access(T *t, uintptr_t a, size_t n, bool w, bool at, uintptr_t pc) {
    while (n) {
        unsigned off = a & 7; size_t k = 8 - off; if (k > n) k = n;
        race_granule(t, a, (uint8_t)(((1u << k) - 1) << off), w, at, pc);
        a += k; n -= k;
    }
}
static void race_range(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if (!g_opt.race_detect || !n) return;
    race_access(self, a, n, w, false, pc);
}
// sync variables
struct SyncVar { uintptr_t key; uint32_t vc[MAXT]; };
static const unsigned SVN_BITS = 19, SVN = 1 << SVN_BITS;
static SyncVar **g_sv = nullptr;
static SyncVar *sv_of(const void *addr) {
    if (!g_sv) g_sv = (SyncVar **)sys_alloc(sizeof(SyncVar *) * SVN);
    uintptr_t key = (uintptr_t)addr;
    unsigned h = (unsigned)((key * 0x9e3779b97f4a7c15ull) >> (64 - SVN_BITS)) & (SVN - 1);
    unsigned probes = 0;
    while (g_sv[h] && g_sv[h]->key != key) { h = (h + 1) & (SVN - 1); if (++probes > SVN / 2) { die_msg("sim: sync table full\n"); _exit(98); } }
    if (!g_sv[h]) { g_sv[h] = (SyncVar *)sys_alloc(sizeof(SyncVar)); g_sv[h]->key = key; __real_memset(g_sv[h]->vc, 0, sizeof g_sv[h]->vc); }
    return g_sv[h];
}
static inline void vc_join(uint32_t *a, const uint32_t *b) { int n = g_nt; for (int i = 0; i < n; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static void hb_acquire(const void *o) { if (g_mt && self) vc_join(self->vc, sv_of(o)->vc); }
static void hb_release(const void *o) { if (g_mt && self) { vc_join(sv_of(o)->vc, self->vc); ++self->vc[self->id]; } }

// ================================================================= scheduler
static void futex_wait(int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(int *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void sem_post_(T *t) { __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE); futex_wake(&t->sem); }
static void sem_wait_(T *t) {
    for (int i = 0; i < 200; ++i) { if (__atomic_load_n(&t->sem, __ATOMIC_ACQUIRE)) goto got; __builtin_ia32_pause(); }
    while (!__atomic_load_n(&t->sem, __ATOMIC_ACQUIRE)) futex_wait(&t->sem, 0);
got:
    __atomic_store_n(&t->sem, 0, __ATOMIC_RELAXED);
}
static uint64_t point_hash(T *t, uint64_t salt) { return mix(mix(g_scheds, (uint64_t)t->id * 1000003 + salt), t->local); }

static void draw_next(T *t) {
    if (g_cfg.has_sched) {          // explicit schedule
        t->next_pre = ~0ull;
        while (t->replay_i < g_cfg.sched.size()) {
            const SchedEntry &e = g_cfg.sched[t->replay_i];
            if (e.tid == t->id && !e.forced && e.local > t->local) { t->next_pre = e.local; break; }
            ++t->replay_i;
        }
        return;
    }
    if (g_fair) { t->next_pre = t->local + 500 + (g_srng.next() % 1000); return; }
    if (g_mean <= 0 || g_strategy == SCHED_NONE) { t->next_pre = ~0ull; return; }
    double u = g_srng.unit(); if (u < 1e-12) u = 1e-12;
    double d = -__builtin_log(u) * g_mean;
    t->next_pre = t->local + 1 + (uint64_t)d;
}
static void log_switch(T *from, T *to, bool forced) {
    ++g_switches;
    g_schedhash = mix(g_schedhash ^ from->local, (uint64_t)from->id * 64 + to->id);
    hash_in(((uint64_t)from->id << 8 | to->id) ^ from->local << 16);
    if (R) {
        if (R->nsched < MAX_SCHED) {
            SchedEntry &e = R->sched[R->nsched++];
            e.tid = from->id; e.to = to->id; e.forced = forced; e.local = from->local;
        } else R->sched_overflow = 1;
    }
}
static void deadlock() {
    ++insys;
    char buf[3000]; size_t o = 0;
    for (int i = 0; i < g_nt; ++i) {
        T &t = g_t[i];
        if (t.state == S_DONE || t.state == S_IDLE) continue;
        uintptr_t pcs[6]; int k = capture(&t, 0, pcs, 6); char st[200]; stack_text(st, sizeof st, pcs, k);
        o += snprintf(buf + o, sizeof buf - o, "T%d waits for %s 0x%lx at%s; ", t.id, t.waitwhat ? t.waitwhat : "?", (unsigned long)t.waitobj, st);
        if (o > sizeof buf - 300) break;
    }
    violation("deadlock", "no thread can run: %s", buf);
}
static T *choose(T *me, bool forced) {
    T *ready[MAXT]; int n;
retry:
    n = 0;
    for (int i = 0; i < g_nt; ++i) if (g_t[i].state == S_READY) ready[n++] = &g_t[i];
    // expired sleepers become ready
    uint64_t first = ~0ull;
    for (int i = 0; i < g_nt; ++i) if (g_t[i].state == S_SLEEP) {
        if (g_t[i].wake <= g_now) { g_t[i].state = S_READY; g_t[i].timed = true; goto retry; }
        if (g_t[i].wake < first) first = g_t[i].wake;
    }
    if (n == 0) {
        if (first == ~0ull) deadlock();
        g_now = first;            // discrete-event time: nothing else can happen before
        goto retry;
    }
    if (n == 1) return ready[0];
    if (g_cfg.has_sched) {
        for (const SchedEntry &e : g_cfg.sched)
            if (e.tid == me->id && e.local == me->local) { if (g_t[e.to].state == S_READY && e.to < g_nt) return &g_t[e.to]; break; }
        if (me->state == S_READY && !forced) return me;
        return ready[0];
    }
    if (g_fair) { for (int i = 1; i <= g_nt; ++i) { T *t = &g_t[(me->id + i) % g_nt]; if (t->state == S_READY) return t; } }
    if (g_strategy == SCHED_PCT) {
        T *b = ready[0];
        for (int i = 1; i < n; ++i) if (ready[i]->prio > b->prio) b = ready[i];
        return b;
    }
    if (g_strategy == SCHED_STALL) {
        T *ok[MAXT]; int m = 0;
        for (int i = 0; i < n; ++i) if (ready[i]->stall_until <= g_steps) ok[m++] = ready[i];
        if (m) return ok[g_srng.below(m)];
    }
    return ready[g_srng.below(n)];
}
static void switch_to(T *me, T *nxt, bool forced) {
    log_switch(me, nxt, forced);
    if (nxt == me) return;
    sem_post_(nxt);
    sem_wait_(me);
}
static void check_budget(T *me) {
    if (!g_fair && g_steps > g_opt.max_steps) { g_fair = true; if (!g_cfg.has_sched) tag("budget_fair_mode"); for (int i = 0; i < g_nt; ++i) g_t[i].next_pre = 0; }
    if (g_steps > g_opt.max_steps * 2) {
        ++insys;
        violation("no-progress", "the run did not finish within %lu steps, the second half of them under a fair schedule", (unsigned long)g_steps);
    }
}
// a possible preemption; the caller is running
static void __attribute__((noinline)) preempt(T *me) {
    check_budget(me);
    if (g_strategy == SCHED_PCT && !g_cfg.has_sched && !g_fair) me->prio = -(int64_t)g_steps;    // a priority change point
    if (g_strategy == SCHED_STALL && !g_cfg.has_sched && !g_fair && g_srng.chance(0.3)) me->stall_until = g_steps + (1ull << g_srng.below(18));
    T *nxt = (g_cfg.has_sched || g_strategy != SCHED_NONE || g_fair) ? choose(me, false) : me;
    draw_next(me);
    if (nxt != me) { tag("preemptions"); switch_to(me, nxt, false); }
}
static inline void sched_point(bool sync) {
    T *me = self;
    ++me->local; ++g_steps;
    if (sync && g_mt && !g_cfg.has_sched && !g_fair && g_strategy != SCHED_NONE) {
        if (g_strategy == SCHED_PCT) { // a higher-priority thread may have become ready
            T *n = choose(me, false);
            if (n != me) { switch_to(me, n, false); return; }
        } else if ((point_hash(me, 7) & 3) == 0) { preempt(me); return; }
    }
    if (UNLIKELY(me->local >= me->next_pre)) preempt(me);
    else if (UNLIKELY((g_steps & 0xfffff) == 0)) check_budget(me);
}
static void block(T *me, State st, const void *obj, const char *what) {
    me->waitobj = obj; me->waitwhat = what; me->state = st;
    ++me->local; ++g_steps;
    if ((g_steps & 0xff) == 0) check_budget(me);
    T *n = choose(me, true);
    switch_to(me, n, true);
    me->waitobj = nullptr; me->waitwhat = nullptr;
}
static void wake_all(const void *obj) {
    for (int i = 0; i < g_nt; ++i) if ((g_t[i].state == S_BLOCKED || g_t[i].state == S_SLEEP) && g_t[i].waitobj == obj) g_t[i].state = S_READY;
}
void yield_point() { if (self && !self->quiet) sched_point(true); }

void schedule_from_seed() {
    static const double means[] = {3, 10, 30, 100, 300, 1000, 3000, 10000, 40000};
    uint64_t s = g_srng.below(100);
    if (s < 55) g_strategy = SCHED_RANDOM; else if (s < 85) g_strategy = SCHED_PCT; else g_strategy = SCHED_STALL;
    g_mean = g_opt.mean_preempt > 0 ? g_opt.mean_preempt : means[g_srng.below(9)];
    if (g_strategy == SCHED_PCT) g_mean *= 10;
    for (int i = 0; i < MAXT; ++i) g_t[i].prio = (int64_t)(g_srng.next() >> 2);
    if (self) draw_next(self);
    static const char *tags[] = {"sched_random", "sched_pct", "sched_stall"};
    tag(tags[g_strategy]);
}
const char *schedule_name() { static const char *n[] = {"random", "pct", "stall", "none"}; return n[g_strategy]; }

// ---- threads
static pthread_key_t g_exit_key;
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static int (*real_pthread_detach)(pthread_t);

static void thread_exit_hook(void *p) {
    T *me = (T *)p;
    // runs after C++ thread_local destructors; the baton is still held
    if (self != me) return;
    hb_release(me);
    me->state = S_DONE;
    wake_all(me);
    ++me->local;
    T *n = choose(me, true);
    log_switch(me, n, true);
    self = nullptr;
    sem_post_(n);
}
// stack overflows are reported from a stack of their own
static void signal_stack(int id) {
    static void *alt[MAXT + 1];
    ++insys;
    stack_t ss; __real_memset(&ss, 0, sizeof ss);
    ss.ss_size = 64 << 10;
    if (!alt[id]) alt[id] = sys_alloc(ss.ss_size, 64);
    ss.ss_sp = alt[id];
    sigaltstack(&ss, nullptr);
    --insys;
}
static void *thread_main(void *p) {
    T *me = (T *)p;
    sem_wait_(me);
    self = me;
    signal_stack(me->id);
    pthread_setspecific(g_exit_key, me);
    me->ret = me->fn(me->arg);
    return me->ret;
}
static T *new_thread(void *(*fn)(void *), void *arg, bool worker) {
    int id = -1;
    if (g_nt < MAXT) id = g_nt++;
    else for (int k = MAXT - 1; k > 0; --k) if (g_t[k].state == S_DONE && g_t[k].joined_real && !g_t[k].worker) { id = k; break; }
    if (id < 0) violation("sim-limit", "more than %d threads alive in one run", MAXT);
    ++g_threads;
    T *t = &g_t[id];
    // a slot used again goes on counting where its last thread stopped
    int64_t prio = t->prio; uint64_t local = t->local; size_t replay_i = t->replay_i; uint32_t clock = t->vc[id];
    __real_memset(t, 0, sizeof *t);
    t->prio = prio; t->local = local; t->replay_i = replay_i; t->id = id; t->fn = fn; t->arg = arg; t->state = worker ? S_IDLE : S_READY; t->team_size = 1; t->worker = worker;
    t->vc[id] = clock + 1;
    if (self) { g_mt = true; vc_join(t->vc, self->vc); ++self->vc[self->id]; t->icv = 0; }
    draw_next(t);
    cells_clear(STACK_BASE + STACK_SIZE * (uintptr_t)id, STACK_SIZE);
    return t;
}
static int start_real(T *t, void *(*main)(void *)) {
    Sys s;
    pthread_attr_t a; pthread_attr_init(&a);
    pthread_attr_setstack(&a, (void *)(STACK_BASE + STACK_SIZE * (uintptr_t)t->id), STACK_SIZE);
    int rc = real_pthread_create(&t->real, &a, main, t);
    pthread_attr_destroy(&a);
    t->has_real = rc == 0;
    return rc;
}

// ---- OpenMP
static void *worker_main(void *p) {
    T *me = (T *)p;
    bool first = true;
    for (;;) {
        sem_wait_(me);
        self = me;
        if (first) { signal_stack(me->id); first = false; }
        Team *tm = me->team;
        tm->fn(tm->data);
        hb_release(tm);
        me->team = nullptr; me->team_size = 1; me->team_level = 0; me->depth = 0;
        if (--tm->pending == 0) wake_all(tm);
        me->state = S_IDLE;
        ++me->local; ++g_steps;
        T *n = choose(me, true);
        log_switch(me, n, true);
        self = me;
        sem_post_(n);
    }
    return nullptr;
}
static void omp_parallel(void (*fn)(void *), void *data, unsigned nth) {
    T *me = self;
    if (!g_active || !me) { fn(data); return; }
    int n = nth ? (int)nth : (me->icv > 0 ? me->icv : g_opt.omp_procs);
    if (me->team_level > 0) n = 1;
    if (n > 16) n = 16;
    int sv_size = me->team_size, sv_id = me->team_id, sv_level = me->team_level; Team *sv_team = me->team;
    Team tm{fn, data, n, n - 1, me};
    if (n > 1) {
        tag("omp_teams");
        Sys s;
        int got = 0;
        for (int i = 1; i < n; ++i) {
            T *w = nullptr;
            for (int k = 0; k < g_nt; ++k) if (g_t[k].worker && g_t[k].state == S_IDLE && !g_t[k].team) { w = &g_t[k]; break; }
            if (!w) { w = new_thread(nullptr, nullptr, true); start_real(w, worker_main); }
            w->team = &tm; w->team_id = i; w->team_size = n; w->team_level = me->team_level + 1;
            vc_join(w->vc, me->vc);
            w->state = S_READY;
            draw_next(w);
            ++got;
        }
        if (got != n - 1) violation("sim-limit", "no thread left for a team of %d", n);
        ++me->vc[me->id];
    }
    me->team = &tm; me->team_id = 0; me->team_size = n; me->team_level = sv_level + 1;
    if (n > 1) sched_point(true);
    fn(data);
    if (n > 1) {
        while (tm.pending) block(me, S_BLOCKED, &tm, "end of parallel region");
        hb_acquire(&tm);
        sched_point(true);
    }
    me->team = sv_team; me->team_id = sv_id; me->team_size = sv_size; me->team_level = sv_level;
}

// ---- clock
uint64_t now_ns() { return g_now; }
uint64_t simulated_ns() { return g_now - g_now0; }
void clock_jump(int64_t d) { g_now += d; if (d < 0) g_now0 += d; hash_in((uint64_t)d); }

// ================================================================= disk
struct Inode { std::string data; std::vector<std::string> hist; };
struct OpenFile { Inode *ino; uint64_t pos; bool rd, wr, app, used; std::string *path; };
static std::map<std::string, Inode *> *g_disk;
static OpenFile g_of[256];
static DiskPlan g_dp; static DiskSeen g_ds; static bool g_darmed;
static bool g_disk_full_now;
static void disk_init() { if (!g_disk) { Sys s; g_disk = new std::map<std::string, Inode *>; } }
void disk_arm(const DiskPlan &p) { g_dp = p; g_ds = DiskSeen(); g_darmed = true; g_disk_full_now = false; disk_init(); Sys s; for (auto &x : *g_disk) x.second->hist.clear(); }
DiskSeen disk_seen() { return g_ds; }
DiskSeen disk_disarm() { g_darmed = false; g_dp = DiskPlan(); return g_ds; }
bool disk_get(const std::string &p, std::string &out) {
    Quiet q; disk_init();
    auto it = g_disk->find(p); if (it == g_disk->end()) return false; out = it->second->data; return true;
}
void disk_put(const std::string &p, const std::string &d) { disk_init(); Sys s; Inode *&i = (*g_disk)[p]; if (!i) i = new Inode; i->data.assign(d.data(), d.size()); }
void disk_remove(const std::string &p) { disk_init(); Sys s; g_disk->erase(p); }
size_t disk_history(const std::string &p, std::vector<std::string> &out) {
    Quiet q; disk_init(); auto it = g_disk->find(p); if (it == g_disk->end()) return 0; out = it->second->hist; return out.size();
}
size_t disk_open_handles() { size_t n = 0; for (auto &o : g_of) n += o.used; return n; }
static bool is_sim_path(const char *p) { return p && !strncmp(p, "/sim/", 5); }
static OpenFile *of_of(int fd) { return g_active && fd >= 0 && fd < 256 && g_of[fd].used ? &g_of[fd] : nullptr; }
static uint64_t disk_used() { uint64_t n = 0; for (auto &x : *g_disk) n += x.second->data.size(); return n; }

static ssize_t vf_write(OpenFile *f, const char *b, size_t n) {
    if (!f->wr) { errno = EBADF; return -1; }
    if (n == 0) return 0;
    Sys s;
    size_t todo = n;
    ++g_ds.writes; hash_in(0x3000 + n);
    if (g_darmed) {
        bool hit = g_dp.write_at >= 0 && ((int64_t)g_ds.writes == g_dp.write_at || (g_dp.write_sticky && (int64_t)g_ds.writes > g_dp.write_at));
        if (hit) {
            switch (g_dp.write_kind) {
                case IO_EIO: ++g_ds.fired; tag("disk_write_eio"); errno = EIO; return -1;
                case IO_EINTR: ++g_ds.fired; tag("disk_write_eintr"); errno = EINTR; return -1;
                case IO_ENOSPC: ++g_ds.fired; tag("disk_write_enospc"); todo = (int64_t)g_ds.writes == g_dp.write_at ? (g_dp.write_len < n ? g_dp.write_len : n - 1) : 0;
                    g_dp.write_sticky = true; if (!todo) { errno = ENOSPC; return -1; } break;
                case IO_SHORT: ++g_ds.fired; tag("disk_write_short"); if (n > 1) todo = 1 + g_dp.write_len % (n - 1); break;
            }
        } else {
            if (g_dp.p_eintr > 0 && Rng(point_hash(self, g_ds.writes * 2 + 1)).chance(g_dp.p_eintr)) { ++g_ds.fired; tag("disk_write_eintr"); errno = EINTR; return -1; }
            if (g_dp.p_short > 0 && n > 1) { Rng r(point_hash(self, g_ds.writes * 2)); if (r.chance(g_dp.p_short)) { ++g_ds.fired; tag("disk_write_short"); todo = 1 + r.below(n - 1); } }
        }
        if (g_dp.capacity >= 0) {
            uint64_t end = (f->app ? f->ino->data.size() : f->pos) + todo, cur = f->ino->data.size();
            uint64_t grow = end > cur ? end - cur : 0, used = disk_used();
            uint64_t room = (uint64_t)g_dp.capacity > used ? g_dp.capacity - used : 0;
            if (grow > room) { ++g_ds.fired; tag("disk_full"); uint64_t cut = grow - room; if (cut >= todo) { errno = ENOSPC; return -1; } todo -= cut; }
        }
    }
    if (f->app) f->pos = f->ino->data.size();
    std::string &d = f->ino->data;
    if (f->pos + todo > d.size()) d.resize(f->pos + todo, '\0');
    __real_memcpy(&d[f->pos], b, todo);
    f->pos += todo;
    if (g_darmed) f->ino->hist.push_back(d);
    return (ssize_t)todo;
}
static ssize_t vf_read(OpenFile *f, char *b, size_t n) {
    if (!f->rd) { errno = EBADF; return -1; }
    ++g_ds.reads; hash_in(0x4000 + n);
    size_t todo = n;
    if (g_darmed) {
        bool hit = g_dp.read_at >= 0 && ((int64_t)g_ds.reads == g_dp.read_at || (g_dp.read_sticky && (int64_t)g_ds.reads > g_dp.read_at));
        if (hit) switch (g_dp.read_kind) {
            case IO_EIO: ++g_ds.fired; tag("disk_read_eio"); errno = EIO; return -1;
            case IO_EINTR: ++g_ds.fired; tag("disk_read_eintr"); errno = EINTR; return -1;
            case IO_SHORT: ++g_ds.fired; tag("disk_read_short"); if (n > 1) todo = 1 + g_dp.read_len % (n - 1); break;
        } else {
            if (g_dp.p_eintr > 0 && Rng(point_hash(self, g_ds.reads * 2 + 1)).chance(g_dp.p_eintr)) { ++g_ds.fired; tag("disk_read_eintr"); errno = EINTR; return -1; }
            if (g_dp.p_short > 0 && n > 1) { Rng r(point_hash(self, g_ds.reads * 2)); if (r.chance(g_dp.p_short)) { ++g_ds.fired; tag("disk_read_short"); todo = 1 + r.below(n - 1); } }
        }
    }
    std::string &d = f->ino->data;
    if (f->pos >= d.size()) return 0;
    if (todo > d.size() - f->pos) todo = d.size() - f->pos;
    if (!heap_valid(b, todo)) heap_report((uintptr_t)b, todo, true, RET);
    __real_memcpy(b, d.data() + f->pos, todo);
    f->pos += todo;
    return (ssize_t)todo;
}

// ================================================================= crash handling
static void on_signal(int sig, siginfo_t *si, void *uc) {
    uintptr_t ip = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP], sp = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RSP];
    ++insys;
    if (!g_active || g_ended) _exit(128 + sig);
    if (R && R->violated) _exit(1);
    if (sig == SIGALRM) violation("hang", "no answer within the wall-clock limit of one run");
    uintptr_t sa = (uintptr_t)si->si_addr;
    if (sig == SIGSEGV && ((sa - STACK_BASE < STACK_SIZE * (MAXT + 1) && (sa - STACK_BASE) % STACK_SIZE < STACK_GUARD) || (sa < STACK_BASE && sa > STACK_BASE - (1 << 20)))) violation("stack-overflow", "recursion without end: the stack of T%d is used up (code 0x%lx, stack pointer 0x%lx, address 0x%lx)", self ? self->id : -1, ip, sp, sa);
    violation("crash", "signal %d (%s) at address 0x%lx by 0x%lx", sig, strsignal(sig), (unsigned long)si->si_addr, ip);
}
static void on_terminate() {
    ++insys;
    char buf[900] = "std::terminate";
    std::type_info *ti = abi::__cxa_current_exception_type();
    if (ti) {
        int st = 0; char *d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
        snprintf(buf, sizeof buf, "uncaught exception of type %s", d ? d : ti->name());
        try { throw; } catch (const std::exception &e) { size_t o = strlen(buf); snprintf(buf + o, sizeof buf - o, ": %.400s", e.what()); } catch (...) {}
    }
    violation("terminate", "%s", buf);
}

// ================================================================= one run in a forked child
std::vector<Probed> probe(int n, const std::function<std::string(int)> &fn) {
    std::vector<Probed> ok(n);
    if (live_threads() != 1) violation("sim-limit", "probe with other threads alive");
    static Result *dummy = nullptr;
    if (!dummy) dummy = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    int i = 0;
    while (i < n) {
        int fd[2];
        pid_t p;
        { Sys s; if (pipe(fd)) violation("sim-limit", "pipe"); p = fork(); }
        if (p == 0) {
            { Sys s; close(fd[0]); int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2); }
            R = dummy; R->violated = 0;
            for (int k = 0; k < g_nt; ++k) if (&g_t[k] != self && g_t[k].state != S_DONE) g_t[k].state = S_DONE;
            for (; i < n; ++i) {
                g_opt.max_steps = (g_steps + 20000000) / 2;      // an item that does not end is rejected
                alarm(3);
                std::string v = fn(i);
                uint64_t len = v.size();
                Sys s;
                auto put = [&](const char *b, size_t k) { while (k) { ssize_t w = syscall(SYS_write, fd[1], b, k); if (w <= 0) _exit(9); b += w; k -= w; } };
                put((const char *)&len, 8); put(v.data(), len);
            }
            _exit(0);
        }
        Sys s;
        close(fd[1]);
        auto get = [&](char *b, size_t k) { while (k) { ssize_t w = syscall(SYS_read, fd[0], b, k); if (w <= 0) return false; b += w; k -= w; } return true; };
        uint64_t len;
        while (i < n && get((char *)&len, 8)) {
            char *b = (char *)mmap(nullptr, len + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            bool all = get(b, len);
            if (all) { --insys; { Quiet q; ok[i].value.assign(b, len); } ++insys; ok[i].ok = true; ++i; }
            munmap(b, len + 1);
            if (!all) break;
        }
        close(fd[0]);
        int st; while (waitpid(p, &st, 0) < 0) {}
        if (i < n) { ++i; tag("probe_rejected"); }
    }
    return ok;
}
static void *t0_main(void *p) {
    T *me = (T *)p;
    self = me;
    signal_stack(me->id);
    auto fn = (ScenarioFn)me->arg;
    fn();
    finish(0);
}
void run_child(ScenarioFn fn, const RunConfig &cfg, Result *res) {
    R = res;
    g_cfg = cfg;
    g_seed = cfg.seed;
    g_scheds = mix(cfg.seed, 0x5c4ed);
    g_rng = Rng(mix(cfg.seed, 1)); g_srng = Rng(mix(cfg.seed, 2));
    Rng h(mix(cfg.seed, 3));
    g_reuse = h.chance(0.35) ? 1 : 0;
    g_junk = (int)h.below(4); g_junk_s = h.next();
    g_verbose = cfg.verbose;
    struct sigaction sa; __real_memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    alarm(cfg.wall_s);
    g_active = true;
    T *t = new_thread(nullptr, (void *)fn, false);
    g_mt = false;
    if (start_real(t, t0_main) != 0) _exit(96);
    for (;;) pause();
}
void rt_init() {
    if (!g_heap_init) heap_init();
    real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    real_pthread_join = (decltype(real_pthread_join))dlsym(RTLD_NEXT, "pthread_join");
    real_pthread_detach = (decltype(real_pthread_detach))dlsym(RTLD_NEXT, "pthread_detach");
    pthread_key_create(&g_exit_key, thread_exit_hook);
    disk_init();
    ++insys; g_pages = nullptr; --insys;
}
std::vector<std::pair<std::string, std::pair<ScenarioFn, std::string>>> &scenarios() {
    static std::vector<std::pair<std::string, std::pair<ScenarioFn, std::string>>> v; return v;
}
std::vector<InitFn> &inits() { static std::vector<InitFn> v; return v; }
ScenarioReg::ScenarioReg(const char *n, ScenarioFn f, const char *p) { scenarios().push_back({n, {f, p}}); }
InitReg::InitReg(InitFn f) { inits().push_back(f); }

// ================================================================= access hook
static inline HOT void access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    T *t = self;
    if (UNLIKELY(!t)) return;
    if (UNLIKELY(t->quiet | insys)) return;
    heap_check(a, n, w, pc);
    ++g_steps;
    if (UNLIKELY(++t->local >= t->next_pre)) preempt(t);
    if (g_mt) { if (g_opt.race_detect) race_access(t, a, n, w, false, pc); }
    if (UNLIKELY((g_steps & 0xfffff) == 0)) check_budget(t);
}
static void range(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    T *t = self;
    if (!t || t->quiet || insys || !n) return;
    if (in_heap(a) && !heap_valid((void *)a, n)) heap_report(a, n, w, pc);
    g_steps += 1 + n / 64;
    t->local += 1 + n / 64;
    if (UNLIKELY(t->local >= t->next_pre)) preempt(t);
    if (g_mt && g_opt.race_detect) race_access(t, a, n, w, false, pc);
}
static inline bool on() { return self && !self->quiet && !insys; }
}  // namespace sim

using namespace sim;

// ================================================================= instrumentation callbacks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) { T *t = self; if (t) { if (t->depth < 1024) t->pcs[t->depth] = (uintptr_t)pc; ++t->depth; } }
void __tsan_func_exit(void *) { T *t = self; if (t && t->depth > 0) --t->depth; }
#define RW(N) \
    void __tsan_read##N(void *a) { access((uintptr_t)a, N, false, RET); } \
    void __tsan_write##N(void *a) { access((uintptr_t)a, N, true, RET); } \
    void __tsan_unaligned_read##N(void *a) { access((uintptr_t)a, N, false, RET); } \
    void __tsan_unaligned_write##N(void *a) { access((uintptr_t)a, N, true, RET); } \
    void __tsan_volatile_read##N(void *a) { access((uintptr_t)a, N, false, RET); } \
    void __tsan_volatile_write##N(void *a) { access((uintptr_t)a, N, true, RET); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { range((uintptr_t)a, n, false, RET); }
void __tsan_write_range(void *a, unsigned long n) { range((uintptr_t)a, n, true, RET); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access((uintptr_t)a, 8, true, RET); }
void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false, RET); }

static inline void at_pre(const void *a, size_t n, bool w, int mo, uintptr_t pc) {
    if (!on()) return;
    heap_check((uintptr_t)a, n, w, pc);
    sched_point(true);
    if (!g_mt) return;
    if (g_opt.race_detect) race_access(self, (uintptr_t)a, n, w, true, pc);
}
static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
#define ATOMIC(B, TY) \
    TY __tsan_atomic##B##_load(const volatile TY *a, int mo) { at_pre((void *)a, sizeof(TY), false, mo, RET); TY v = __atomic_load_n(a, 5); if (on() && acq(mo)) hb_acquire((void *)a); return v; } \
    void __tsan_atomic##B##_store(volatile TY *a, TY v, int mo) { at_pre((void *)a, sizeof(TY), true, mo, RET); if (on() && rel(mo)) hb_release((void *)a); __atomic_store_n(a, v, 5); } \
    TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int mo) { at_pre((void *)a, sizeof(TY), true, mo, RET); if (on()) { if (rel(mo)) hb_release((void *)a); if (acq(mo)) hb_acquire((void *)a); } return __atomic_exchange_n(a, v, 5); } \
    TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int mo) { at_pre((void *)a, sizeof(TY), true, mo, RET); if (on()) { if (rel(mo)) hb_release((void *)a); if (acq(mo)) hb_acquire((void *)a); } return __atomic_fetch_add(a, v, 5); } \
    TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int mo) { at_pre((void *)a, sizeof(TY), true, mo, RET); if (on()) { if (rel(mo)) hb_release((void *)a); if (acq(mo)) hb_acquire((void *)a); } return __atomic_fetch_sub(a, v, 5); } \
    TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int mo) { at_pre((void *)a, sizeof(TY), true, mo, RET); if (on()) { if (rel(mo)) hb_release((void *)a); if (acq(mo)) hb_acquire((void *)a); } return __atomic_fetch_and(a, v, 5); } \
    TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int mo) { at_pre((void *)a, sizeof(TY), true, mo, RET); if (on()) { if (rel(mo)) hb_release((void *)a); if (acq(mo)) hb_acquire((void *)a); } return __atomic_fetch_or(a, v, 5); } \
    TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int mo) { at_pre((void *)a, sizeof(TY), true, mo, RET); if (on()) { if (rel(mo)) hb_release((void *)a); if (acq(mo)) hb_acquire((void *)a); } return __atomic_fetch_xor(a, v, 5); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) { at_pre((void *)a, sizeof(TY), true, mo, RET); \
        bool ok = __atomic_compare_exchange_n(a, c, v, 0, 5, 5); if (on()) { if (ok && rel(mo)) hb_release((void *)a); if (acq(ok ? mo : fmo)) hb_acquire((void *)a); } return ok; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) { at_pre((void *)a, sizeof(TY), true, mo, RET); \
        bool ok = __atomic_compare_exchange_n(a, c, v, 0, 5, 5); if (on()) { if (ok && rel(mo)) hb_release((void *)a); if (acq(ok ? mo : fmo)) hb_acquire((void *)a); } return ok; } \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) { at_pre((void *)a, sizeof(TY), true, mo, RET); \
        bool ok = __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); if (on()) { if (ok && rel(mo)) hb_release((void *)a); if (acq(ok ? mo : fmo)) hb_acquire((void *)a); } return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}

// ---- memory intrinsics of the linked objects
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (on() && n) { range((uintptr_t)s, n, false, RET); range((uintptr_t)d, n, true, RET); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (on() && n) { range((uintptr_t)s, n, false, RET); range((uintptr_t)d, n, true, RET); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (on() && n) range((uintptr_t)d, n, true, RET); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (on() && n) { range((uintptr_t)a, n, false, RET); range((uintptr_t)b, n, false, RET); } return __real_memcmp(a, b, n); }

// ---- heap
static inline bool to_sys() { return insys || (g_active && !self); }
void *malloc(size_t n) { if (to_sys()) return sys_alloc(n); return heap_alloc(n, 16, RET); }
void free(void *p) {
    if (!p) return;
    uintptr_t a = (uintptr_t)p;
    if (in_sys(a)) return;
    if (to_sys() && !self) return;
    heap_free(a, RET);
}
void *calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void *p = malloc(n); if (p) __real_memset(p, 0, n); return p;
}
static size_t usable(void *p) { uintptr_t a = (uintptr_t)p; return in_sys(a) ? ((uint64_t *)p)[-1] : ((Hdr *)(a - sizeof(Hdr)))->size; }
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (n == 0) { free(p); return nullptr; }
    size_t o = usable(p);
    void *q = to_sys() ? sys_alloc(n) : heap_alloc(n, 16, RET);
    if (!q) return nullptr;
    __real_memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
void *memalign(size_t al, size_t n) { if (to_sys()) return sys_alloc(n, al < 16 ? 16 : al); return heap_alloc(n, al < 16 ? 16 : al, RET); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
void *valloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void *p) { return p ? usable(p) : 0; }

// ---- pthread
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!g_active || !self) return real_pthread_create(out, attr, fn, arg);
    sched_point(true);
    T *t = new_thread(fn, arg, false);
    int rc = start_real(t, thread_main);
    if (rc) return rc;
    *out = t->real;
    if (attr) { int d; pthread_attr_getdetachstate(attr, &d); t->detached = d == PTHREAD_CREATE_DETACHED; }
    sched_point(true);
    return 0;
}
int pthread_join(pthread_t th, void **ret) {
    if (!g_active || !self) return real_pthread_join(th, ret);
    T *t = nullptr;
    for (int i = 0; i < g_nt; ++i) if (g_t[i].has_real && !g_t[i].joined_real && g_t[i].real == th) t = &g_t[i];
    if (!t) return ESRCH;
    if (t == self) return EDEADLK;
    sched_point(true);
    while (t->state != S_DONE) block(self, S_BLOCKED, t, "join of thread");
    hb_acquire(t);
    t->joined_real = true;
    if (ret) *ret = t->ret;
    Sys s;
    return real_pthread_join(th, nullptr);
}
int pthread_detach(pthread_t th) { for (int i = 0; i < g_nt; ++i) if (g_t[i].has_real && g_t[i].real == th) g_t[i].detached = true; return 0; }

struct Mx { int owner; unsigned count; };
static inline Mx *mx(pthread_mutex_t *m) { return (Mx *)m; }
static inline bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static void mutex_alive(pthread_mutex_t *m, uintptr_t pc) { heap_check((uintptr_t)m, sizeof *m, true, pc); }
static int mutex_lock(pthread_mutex_t *m, uintptr_t pc, bool point = true) {
    if (!g_active || !self || insys) return 0;
    mutex_alive(m, pc);
    if (self->quiet) { if (mx(m)->owner) return 0; }
    else if (point) sched_point(true);
    for (;;) {
        mutex_alive(m, pc);
        if (!mx(m)->owner) break;
        if (mx(m)->owner == self->id + 1 && recursive(m)) { ++mx(m)->count; return 0; }
        block(self, S_BLOCKED, m, "mutex");
    }
    mx(m)->owner = self->id + 1; mx(m)->count = 1;
    hb_acquire(m);
    return 0;
}
static int mutex_unlock(pthread_mutex_t *m, uintptr_t pc, bool point = true) {
    if (!g_active || !self || insys) return 0;
    mutex_alive(m, pc);
    if (mx(m)->owner != self->id + 1) {
        if (self->quiet) return 0;
        violation_pc("bad-unlock", pc, "a mutex is unlocked by a thread that does not hold it (holder T%d)", mx(m)->owner - 1);
    }
    if (--mx(m)->count) return 0;
    hb_release(m);
    mx(m)->owner = 0;
    wake_all(m);
    if (point && !self->quiet) sched_point(true);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { return mutex_lock(m, RET); }
int pthread_mutex_unlock(pthread_mutex_t *m) { return mutex_unlock(m, RET); }
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!g_active || !self || insys) return 0;
    mutex_alive(m, RET);
    sched_point(true);
    if (mx(m)->owner) {
        if (mx(m)->owner == self->id + 1 && recursive(m)) { ++mx(m)->count; return 0; }
        return EBUSY;
    }
    mx(m)->owner = self->id + 1; mx(m)->count = 1; hb_acquire(m);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    __real_memset(m, 0, sizeof *m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
// reader-writer locks: owner>0 writer id+1, count = readers
struct Rw { int writer; int readers; };
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    if (!g_active || !self || insys) return 0;
    Rw *r = (Rw *)l; sched_point(true);
    while (r->writer) block(self, S_BLOCKED, l, "rwlock (read)");
    ++r->readers; hb_acquire(l); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    if (!g_active || !self || insys) return 0;
    Rw *r = (Rw *)l; sched_point(true);
    while (r->writer || r->readers) block(self, S_BLOCKED, l, "rwlock (write)");
    r->writer = self->id + 1; hb_acquire(l); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!g_active || !self) return 0; Rw *r = (Rw *)l; sched_point(true); if (r->writer) return EBUSY; ++r->readers; hb_acquire(l); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!g_active || !self) return 0; Rw *r = (Rw *)l; sched_point(true); if (r->writer || r->readers) return EBUSY; r->writer = self->id + 1; hb_acquire(l); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!g_active || !self || insys) return 0;
    Rw *r = (Rw *)l; hb_release(l);
    if (r->writer) r->writer = 0; else if (r->readers > 0) --r->readers;
    wake_all(l); sched_point(true); return 0;
}
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { __real_memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }

static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline, uintptr_t pc) {
    heap_check((uintptr_t)c, sizeof *c, true, pc);
    T *me = self;
    if (mx(m)->owner != me->id + 1) violation_pc("bad-wait", pc, "condition wait without holding the mutex");
    bool spurious = g_opt.spurious > 0 && Rng(point_hash(me, 11)).chance(g_opt.spurious);
    unsigned keep = mx(m)->count; mx(m)->count = 1;
    mutex_unlock(m, pc, false);
    int rc = 0;
    me->timed = false;
    if (spurious) { tag("spurious_wakeups"); sched_point(true); }
    else if (deadline) { me->wake = deadline; block(me, S_SLEEP, c, "timed condition"); if (me->timed) rc = ETIMEDOUT; }
    else block(me, S_BLOCKED, c, "condition");
    mutex_lock(m, pc, false);
    mx(m)->count = keep;
    return rc;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!g_active || !self) return 0; return cond_wait(c, m, 0, RET); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (!g_active || !self) return 0;
    uint64_t d = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec; return cond_wait(c, m, d ? d : 1, RET);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { return pthread_cond_timedwait(c, m, ts); }
static int cond_wake(pthread_cond_t *c, bool all, uintptr_t pc) {
    if (!g_active || !self || insys) return 0;
    heap_check((uintptr_t)c, sizeof *c, true, pc);
    sched_point(true);
    T *w[MAXT]; int n = 0;
    for (int i = 0; i < g_nt; ++i) if ((g_t[i].state == S_BLOCKED || g_t[i].state == S_SLEEP) && g_t[i].waitobj == c) w[n++] = &g_t[i];
    if (!n) return 0;
    if (all) for (int i = 0; i < n; ++i) w[i]->state = S_READY;
    else w[point_hash(self, 13) % n]->state = S_READY;
    sched_point(true);
    return 0;
}
int pthread_cond_signal(pthread_cond_t *c) { return cond_wake(c, false, RET); }
int pthread_cond_broadcast(pthread_cond_t *c) { return cond_wake(c, true, RET); }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { __real_memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }

int pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (*o == 2) { if (g_active && self && !insys) hb_acquire(o); return 0; }
    if (!g_active || !self || insys) { if (*o != 2) { *o = 1; f(); *o = 2; } return 0; }
    sched_point(true);
    while (*o == 1) block(self, S_BLOCKED, o, "once");
    if (*o == 2) { hb_acquire(o); return 0; }
    *o = 1;
    f();
    *o = 2;
    hb_release(o);
    wake_all(o);
    return 0;
}
// ---- function-local statics
int __cxa_guard_acquire(long long *g) {
    uint8_t *b = (uint8_t *)g;
    if (g_active && self && !insys && !self->quiet) {
        if (*b != 1) sched_point(true);
        while (b[1] && *b != 1) block(self, S_BLOCKED, g, "static initialisation");
    }
    if (*b == 1) { if (self && g_active) hb_acquire(g); return 0; }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long *g) { uint8_t *b = (uint8_t *)g; if (self && g_active) hb_release(g); *b = 1; b[1] = 0; if (self && g_active) wake_all(g); }
void __cxa_guard_abort(long long *g) { uint8_t *b = (uint8_t *)g; b[1] = 0; if (self && g_active) wake_all(g); }

// ---- time
int sched_yield() { if (g_active && self && !self->quiet) { T *me = self; ++me->local; ++g_steps; check_budget(me); T *n = choose(me, false); if (n == me) { for (int i = 1; i < g_nt; ++i) { T *t = &g_t[(me->id + i) % g_nt]; if (t->state == S_READY) { n = t; break; } } } if (n != me) switch_to(me, n, false); } return 0; }
static int do_sleep(uint64_t ns) {
    T *me = self; me->wake = g_now + ns; me->timed = false;
    block(me, S_SLEEP, nullptr, "sleep");
    return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *) { if (!g_active || !self) return 0; return do_sleep((uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec); }
int clock_nanosleep(clockid_t, int flags, const struct timespec *ts, struct timespec *) {
    if (!g_active || !self) return 0;
    uint64_t v = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
    if (flags & TIMER_ABSTIME) v = v > g_now ? v - g_now : 0;
    return do_sleep(v);
}
int usleep(useconds_t us) { if (!g_active || !self) return 0; return do_sleep((uint64_t)us * 1000); }
int clock_gettime(clockid_t, struct timespec *ts) { if (g_active) g_now += 1000; ts->tv_sec = g_now / 1000000000ull; ts->tv_nsec = g_now % 1000000000ull; return 0; }
int gettimeofday(struct timeval *tv, void *) { if (g_active) g_now += 1000; tv->tv_sec = g_now / 1000000000ull; tv->tv_usec = (g_now % 1000000000ull) / 1000; return 0; }
time_t time(time_t *o) { time_t t = g_now / 1000000000ull; if (o) *o = t; return t; }
clock_t clock() { return (g_now - g_now0) / 1000; }

// ---- OpenMP
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { omp_parallel(fn, data, n); }
void GOMP_barrier() { if (self && self->team_size > 1) violation("sim-limit", "GOMP_barrier is not simulated"); }
static pthread_mutex_t g_crit = PTHREAD_MUTEX_INITIALIZER, g_atom = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start() { mutex_lock(&g_crit, RET); }
void GOMP_critical_end() { mutex_unlock(&g_crit, RET); }
void GOMP_critical_name_start(void **) { mutex_lock(&g_crit, RET); }
void GOMP_critical_name_end(void **) { mutex_unlock(&g_crit, RET); }
void GOMP_atomic_start() { mutex_lock(&g_atom, RET); }
void GOMP_atomic_end() { mutex_unlock(&g_atom, RET); }
int omp_get_thread_num() { return self ? self->team_id : 0; }
int omp_get_num_threads() { return self ? self->team_size : 1; }
int omp_get_max_threads() { return self && self->icv > 0 ? self->icv : g_opt.omp_procs; }
int omp_get_num_procs() { return g_opt.omp_procs; }
void omp_set_num_threads(int n) { if (self) self->icv = n; }
int omp_in_parallel() { return self && self->team_size > 1; }
int omp_get_level() { return self ? self->team_level : 0; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { return g_now / 1e9; }

// ---- files
typedef FILE *(*fopen_t)(const char *, const char *);
static FILE *do_fopen(const char *path, const char *mode, const char *sym) {
    static fopen_t real = (fopen_t)dlsym(RTLD_NEXT, "fopen");
    if (!g_active || !self || !is_sim_path(path)) { Sys s; return real(path, mode); }
    ++g_ds.opens; hash_in(0x2000);
    if (g_darmed && g_dp.open_at >= 0 && (int64_t)g_ds.opens == g_dp.open_at) { ++g_ds.fired; tag("disk_open_fail"); errno = EIO; return nullptr; }
    Inode *ino = nullptr;
    {
        Sys s;
        auto it = g_disk->find(path);
        bool plus = strchr(mode, '+');
        if (it == g_disk->end()) {
            if (mode[0] == 'r') { errno = ENOENT; return nullptr; }
            ino = (*g_disk)[path] = new Inode;
        } else ino = it->second;
        if (mode[0] == 'w') ino->data.clear();
        FILE *f;
        { --insys; f = real("/dev/null", mode[0] == 'r' ? (plus ? "r+" : "r") : (plus ? "w+" : "w")); ++insys; }
        if (!f) return nullptr;
        int fd = fileno(f);
        if (fd >= 256) violation("handle-leak", "more than 256 files open");
        OpenFile &o = g_of[fd];
        o.ino = ino; o.pos = 0; o.used = true; o.rd = mode[0] == 'r' || plus; o.wr = mode[0] != 'r' || plus; o.app = mode[0] == 'a';
        return f;
    }
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m, "fopen64"); }
int fclose(FILE *f) {
    static int (*real)(FILE *) = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
    int fd = g_active && self ? fileno(f) : -1;
    OpenFile *o = of_of(fd);
    bool bad = false;
    if (o) {
        o->used = false;
        if (o->wr) { ++g_ds.closes; hash_in(0x5000); if (g_darmed && g_dp.close_at >= 0 && (int64_t)g_ds.closes == g_dp.close_at) { bad = true; ++g_ds.fired; tag("disk_close_fail"); } }
    }
    int rc = real(f);
    if (bad) { errno = EIO; return EOF; }
    return rc;
}
ssize_t read(int fd, void *b, size_t n) { if (OpenFile *o = of_of(fd)) return vf_read(o, (char *)b, n); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (OpenFile *o = of_of(fd)) return vf_write(o, (const char *)b, n); return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    OpenFile *o = of_of(fd);
    if (!o) return syscall(SYS_writev, fd, v, c);
    Sys s; std::string all; for (int i = 0; i < c; ++i) all.append((const char *)v[i].iov_base, v[i].iov_len);
    return vf_write(o, all.data(), all.size());
}
static off64_t do_lseek(int fd, off64_t off, int wh) {
    OpenFile *o = of_of(fd);
    if (!o) return syscall(SYS_lseek, fd, off, wh);
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o->pos : (int64_t)o->ino->data.size();
    if (base + off < 0) { errno = EINVAL; return -1; }
    return (off64_t)(o->pos = base + off);
}
off64_t lseek64(int fd, off64_t off, int wh) { return do_lseek(fd, off, wh); }
off_t lseek(int fd, off_t off, int wh) { return do_lseek(fd, off, wh); }
int fstat64(int fd, struct stat64 *st) {
    OpenFile *o = of_of(fd);
    if (!o) return syscall(SYS_newfstatat, fd, "", st, 0x1000);
    __real_memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = o->ino->data.size(); return 0;
}
int fstat(int fd, struct stat *st) { return fstat64(fd, (struct stat64 *)st); }
}

// ---- operator new: our own so that the allocating frame is known
static void *op_new(size_t n, uintptr_t pc) {
    void *p = to_sys() ? sys_alloc(n) : heap_alloc(n ? n : 1, 16, pc);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return op_new(n, RET); }
void *operator new[](size_t n) { return op_new(n, RET); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return to_sys() ? sys_alloc(n) : heap_alloc(n ? n : 1, 16, RET); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return to_sys() ? sys_alloc(n) : heap_alloc(n ? n : 1, 16, RET); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }

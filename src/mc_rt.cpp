#include "mc_rt.h"
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#define MC_ASAN 1
#else
#define MC_ASAN 0
#endif

McAlloc mc_alloc;
McSched mc_sched;
void (*mc_on_violation)(const char*) = nullptr;

void mc_violation(const char* fmt, ...) {
    char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (mc_on_violation) mc_on_violation(b);
    fprintf(stderr, "violation: %s\n", b); fflush(stderr); _exit(10);
}

/* =================== allocator =================== */
static const size_t HDR = 32;
struct Hdr { size_t size; uint64_t magic; void* base; size_t map; };
static const uint64_t LIVE = 0x4C495645u, DEAD = 0x44454144u;
/* arena mode: bump allocation, never reused within an execution, so that addresses are
 * deterministic and use after free is detectable */
static uint8_t* arena; static size_t arenaSize = (size_t)1 << 30, arenaPos; static bool arenaOn;
static std::unordered_map<void*, size_t>* liveMap;
static uint8_t* arenaState;   /* per 16 bytes: 1 = live, 2 = freed */
static size_t arenaHigh;

void mc_alloc_reset() { mc_alloc.count = 0; mc_alloc.failed = false; mc_alloc.failAt = -1; mc_alloc.failFrom = false; mc_alloc.peak = mc_alloc.live; mc_alloc.largest = 0; }
std::string mc_live_list() { std::string s; if (liveMap) for (auto& p : *liveMap) { s += std::to_string(p.second) + " "; if (s.size() > 200) break; } return s; }

static void arenaInit() {
    if (arena) return;
    arena = (uint8_t*)mmap((void*)0x600000000000ull, arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arenaState = (uint8_t*)mmap(nullptr, arenaSize / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || arenaState == MAP_FAILED) { perror("mmap"); _exit(3); }
}
static void arenaReset() { arenaInit(); memset(arenaState, 0, arenaPos / 16 + 1); arenaPos = 0; }

/* large blocks are kept for the next allocation of the same size (mapping and unmapping them would be most of the cost);
 * while kept they are poisoned */
static const size_t CACHE_MIN = (size_t)1 << 17, CACHE_MAX = (size_t)4 << 20;
struct Kept { uint8_t* b; size_t n; }; static Kept kept[24]; static int nKept;
static uint8_t* cacheTake(size_t n) {
    for (int i = 0; i < nKept; ++i) if (kept[i].n == n) {
        uint8_t* b = kept[i].b; kept[i] = kept[--nKept];
#if MC_ASAN
        ASAN_UNPOISON_MEMORY_REGION(b, n + HDR);
#endif
        return b;
    }
    return nullptr;
}
static bool cacheKeep(uint8_t* b, size_t n) {
    if (n > CACHE_MAX) return false;
    if (nKept == 24) { Kept o = kept[0]; for (int i = 1; i < nKept; ++i) kept[i - 1] = kept[i]; --nKept;
#if MC_ASAN
        ASAN_UNPOISON_MEMORY_REGION(o.b, o.n + HDR);
#endif
        free(o.b); }
    kept[nKept++] = {b, n};
#if MC_ASAN
    ASAN_POISON_MEMORY_REGION(b, n + HDR);
#endif
    return true;
}
static void* allocRaw(size_t n) {
    size_t idx = mc_alloc.count++;
    if (mc_alloc.failAt >= 0 && ((long)idx == mc_alloc.failAt || (mc_alloc.failFrom && (long)idx > mc_alloc.failAt))) { mc_alloc.failed = true; return nullptr; }
    uint8_t* p;
    if (arenaOn) {
        arenaInit();
        size_t need = (n + HDR + 16 + 15) & ~(size_t)15;
        if (arenaPos + need > arenaSize) { fprintf(stderr, "arena exhausted\n"); _exit(3); }
        p = arena + arenaPos + HDR;
        memset(arenaState + (arenaPos + HDR) / 16, 1, (n + 15) / 16);
        arenaPos += need; if (arenaPos > arenaHigh) arenaHigh = arenaPos;
        Hdr* h = (Hdr*)(p - HDR); h->base = nullptr; h->map = 0; h->size = n; h->magic = LIVE;
    } else if (mc_alloc.guard) {
        size_t m = (n + HDR + 4096 + 4095 + 16) & ~(size_t)4095;
        uint8_t* b = (uint8_t*)mmap(nullptr, m + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (b == MAP_FAILED) return nullptr;
        mprotect(b + m, 4096, PROT_NONE);
        p = b + m - ((n + 15) & ~(size_t)15);
        Hdr* h = (Hdr*)(p - HDR); h->base = b; h->map = m + 4096; h->size = n; h->magic = LIVE;
    } else {
        uint8_t* b = n >= CACHE_MIN ? cacheTake(n) : nullptr;
        if (!b) b = (uint8_t*)malloc(n + HDR);
        if (!b) return nullptr;
        p = b + HDR;
        Hdr* h = (Hdr*)b; h->base = b; h->map = 0; h->size = n; h->magic = LIVE;
#if MC_ASAN
        ASAN_POISON_MEMORY_REGION(b, HDR);
#endif
    }
    mc_alloc.live += n; ++mc_alloc.liveBlocks; if (mc_alloc.live > mc_alloc.peak) mc_alloc.peak = mc_alloc.live;
    if (n > mc_alloc.largest) mc_alloc.largest = n;
    if (!liveMap) liveMap = new std::unordered_map<void*, size_t>;
    (*liveMap)[p] = n;
    return p;
}
static void fillFresh(void* p, size_t n) {
    if (mc_alloc.fill < 0) return;
    if (n <= 2 * mc_alloc.fillMax) memset(p, mc_alloc.fill, n);
    else { memset(p, mc_alloc.fill, mc_alloc.fillMax); memset((uint8_t*)p + n - mc_alloc.fillMax, mc_alloc.fill, mc_alloc.fillMax); }
}
extern "C" void* mc_malloc(size_t n) { void* p = allocRaw(n); if (p) fillFresh(p, n); return p; }
extern "C" void* mc_calloc(size_t a, size_t b) { void* p = allocRaw(a * b); if (p) memset(p, 0, a * b); return p; }
extern "C" void mc_free(void* p) {
    if (!p) return;
    auto it = liveMap ? liveMap->find(p) : std::unordered_map<void*, size_t>::iterator();
    if (!liveMap || it == liveMap->end()) mc_violation("free of a pointer that is not a live allocation");
    size_t n = it->second; liveMap->erase(it);
    mc_alloc.live -= n; --mc_alloc.liveBlocks;
    Hdr* h = (Hdr*)((uint8_t*)p - HDR);
    if (arenaOn && (uint8_t*)p >= arena && (uint8_t*)p < arena + arenaSize) {
        h->magic = DEAD;
        memset(arenaState + ((uint8_t*)p - arena) / 16, 2, (n + 15) / 16);
        return;
    }
#if MC_ASAN
    ASAN_UNPOISON_MEMORY_REGION(h, HDR);
#endif
    if (h->map) { munmap(h->base, h->map); return; }
    if (mc_alloc.fill >= 0) memset(p, 0xDD, n < 256 ? n : 256);
    if (n >= CACHE_MIN && cacheKeep((uint8_t*)h->base, n)) return;
    free(h->base);
}
extern "C" void* mc_realloc(void* p, size_t n) {
    void* q = mc_malloc(n); if (!q) return nullptr;
    if (p) { size_t o = (*liveMap)[p]; memcpy(q, p, o < n ? o : n); mc_free(p); }
    return q;
}

/* =================== fibers =================== */
#ifdef MC_SCHED
static const int MAXF = 24;
#else
static const int MAXF = 420;     /* the library's largest thread count, twice */
#endif
static const size_t STK = 4u << 20;
enum FSt { F_FREE, F_RUN, F_MUTEX, F_COND, F_JOIN, F_DONE };
struct Mtx { int owner; uint32_t clk[MAXF]; uint64_t id; };
struct Fiber {
    void* sp = nullptr; uint8_t* stack = nullptr; FSt st = F_FREE;
    void* mutex = nullptr; void* cond = nullptr; bool timed = false, expired = false; int join = -1;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; bool joined = false;
    uint32_t vc[MAXF];
    void* fake = nullptr;
    const void* stkBottom = nullptr; size_t stkSize = 0;
};
static Fiber F[MAXF]; static int nF = 1, cur = 0;
static std::unordered_map<const void*, Mtx>* mtxs;

extern "C" void mc_switch(void** from, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

static Mtx& mtx(const void* p) {
    if (!mtxs) mtxs = new std::unordered_map<const void*, Mtx>;
    auto it = mtxs->find(p);
    if (it == mtxs->end()) { Mtx m; memset(&m, 0, sizeof m); m.owner = -1; it = mtxs->emplace(p, m).first; }
    return it->second;
}

/* ---- happens-before monitor ---- */
struct Shadow { uint32_t stamp; uint8_t wt, split; uint16_t pad; uint32_t wc; uint32_t rc[8]; };
/* 4-byte granules in a flat table over the arena; a granule that sees a partial access is split into bytes */
static Shadow* shadowFlat; static std::unordered_map<uintptr_t, Shadow>* shadowByte; static uint32_t stampNow;
static std::unordered_set<uintptr_t>* racySet;    /* granules (addr>>2) */
static std::unordered_set<uintptr_t>* racyNew;    /* found since the last commit */
static uint8_t racyBits[1 << 16]; static bool racyAny, racyGrew;
static std::unordered_map<uintptr_t, std::vector<uint32_t>>* syncVar;

/* the library's own static data lies between these (link order: mark_a, library, mark_b) */
extern "C" { extern char mc_lib_data0[], mc_lib_data1[], mc_lib_bss0[], mc_lib_bss1[]; }
static inline bool isGlobal(uintptr_t a) { return (a >= (uintptr_t)mc_lib_data0 && a < (uintptr_t)mc_lib_data1) || (a >= (uintptr_t)mc_lib_bss0 && a < (uintptr_t)mc_lib_bss1); }
static inline size_t globalIndex(uintptr_t a) { return a >= (uintptr_t)mc_lib_data0 && a < (uintptr_t)mc_lib_data1 ? a - (uintptr_t)mc_lib_data0 : a - (uintptr_t)mc_lib_bss0 + (size_t)(mc_lib_data1 - mc_lib_data0); }
static char* libSave;
__attribute__((no_sanitize_address, optimize("no-tree-loop-distribute-patterns"))) static void rawCopy(volatile char* d, const volatile char* s, size_t n) { while (n--) *d++ = *s++; }
void mc_lib_reset() {
    size_t d = mc_lib_data1 - mc_lib_data0, b = mc_lib_bss1 - mc_lib_bss0;
    if (!libSave) { libSave = (char*)mmap(nullptr, d + b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); rawCopy(libSave, mc_lib_data0, d); rawCopy(libSave + d, mc_lib_bss0, b); return; }
    rawCopy(mc_lib_data0, libSave, d); rawCopy(mc_lib_bss0, libSave + d, b);
}
__attribute__((constructor)) static void libSaveInit() { mc_lib_reset(); }
/* ---- the machine the library sees ---- */
McMachine mc_machine;
extern "C" long mc_sysconf(int n) { return n == _SC_NPROCESSORS_ONLN && mc_machine.synthetic ? mc_machine.processors : sysconf(n); }
extern "C" FILE* mc_fopen(const char* f, const char* m) {
    if (!mc_machine.synthetic || strcmp(f, "/proc/cpuinfo")) return fopen(f, m);
    return mc_machine.cpuinfo.empty() ? nullptr : fmemopen((void*)mc_machine.cpuinfo.data(), mc_machine.cpuinfo.size(), "r");
}
static bool inArena(uintptr_t a) { return arena && a >= (uintptr_t)arena && a < (uintptr_t)arena + arenaSize; }
static void markRacy(uintptr_t g) {
    if (!racyNew) racyNew = new std::unordered_set<uintptr_t>;
    if (racySet && racySet->count(g)) return;
    if (racyNew->insert(g).second) racyGrew = true;
}
static void racyClear() { if (racySet) racySet->clear(); if (racyNew) racyNew->clear(); racyGrew = false; }
static void racyCommit() { if (!racySet) racySet = new std::unordered_set<uintptr_t>; if (racyNew) { racySet->insert(racyNew->begin(), racyNew->end()); racyNew->clear(); } racyGrew = false;  memset(racyBits, 0, sizeof racyBits); racyAny = false; if (racySet) for (auto g : *racySet) { racyBits[g & 0xFFFF] = 1; racyAny = true; } }
static bool hbOne(Shadow& s, uintptr_t g, bool w) {
    bool raced = false;
    if (s.stamp != stampNow) { memset(&s, 0, sizeof s); s.stamp = stampNow; s.wt = 255; }
    Fiber& f = F[cur];
    if (s.wt != 255 && s.wt != cur && s.wc > f.vc[s.wt]) { markRacy(g); raced = true; }
    if (w) {
        for (int t = 0; t < 8; ++t) if (t != cur && s.rc[t] > f.vc[t]) { markRacy(g); raced = true; }
        s.wt = (uint8_t)cur; s.wc = f.vc[cur];
    } else if (cur < 8) s.rc[cur] = f.vc[cur];
    return raced;
}
static bool hbAccess(uintptr_t a, bool w, size_t n = 1) {
    if (!shadowByte) shadowByte = new std::unordered_map<uintptr_t, Shadow>;
    bool raced = false; uintptr_t e = a + n;
    if (isGlobal(a)) {
        static Shadow* g; if (!g) g = (Shadow*)mmap(nullptr, (globalIndex((uintptr_t)mc_lib_bss1 - 1) + 64) * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        for (uintptr_t b = a; b < e && isGlobal(b); ++b) raced |= hbOne(g[globalIndex(b)], b >> 2, w);
        return raced;
    }
    for (uintptr_t g = a & ~(uintptr_t)3; g < e; g += 4) {
        bool whole = g >= a && g + 4 <= e;
        if (inArena(g)) {
            if (!shadowFlat) { shadowFlat = (Shadow*)mmap(nullptr, arenaSize / 4 * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (shadowFlat == MAP_FAILED) { perror("mmap"); _exit(3); } }
            Shadow& s = shadowFlat[(g - (uintptr_t)arena) >> 2];
            if (s.stamp != stampNow) { memset(&s, 0, sizeof s); s.stamp = stampNow; s.wt = 255; }
            if (!s.split) { if (whole) { raced |= hbOne(s, g >> 2, w); continue; } for (int k = 0; k < 4; ++k) { Shadow& q = (*shadowByte)[g + k]; q = s; } s.split = 1; }
        }
        for (uintptr_t b = std::max(a, g); b < std::min(e, g + 4); ++b) raced |= hbOne((*shadowByte)[b], g >> 2, w);
    }
    return raced;
}
static void vcJoin(uint32_t* d, const uint32_t* s) { for (int i = 0; i < MAXF; ++i) if (s[i] > d[i]) d[i] = s[i]; }

/* ---- schedule ---- */
struct Pt { uint16_t n, chosen; uint8_t cost[MAXF * 2]; };   /* alternatives at this point */
static std::vector<McDev> prefix; static size_t prefixPos;
static std::vector<McDev> taken;                         /* deviations of this execution */
struct RPt { uint32_t idx; uint16_t n; uint32_t costMask; uint32_t allow; };  /* recorded points with >1 alternatives */
static std::vector<RPt> recorded;
static uint32_t pointNo; static int budget; static bool recording;

std::string mc_schedule_str() {
    std::string s; for (auto& d : taken) { if (!s.empty()) s += ","; s += std::to_string(d.point) + "/" + std::to_string(d.choice); }
    if (racySet && !racySet->empty() && racySet->size() <= 120) { s += ";r"; std::vector<uintptr_t> v(racySet->begin(), racySet->end()); std::sort(v.begin(), v.end()); char b[32]; for (auto g : v) { snprintf(b, sizeof b, "%zx.", (size_t)(g - ((uintptr_t)arena >> 2))); s += b; } }
    return s;
}
const McSchedule& mc_taken() { return taken; }
static std::vector<uintptr_t> racyGiven; static bool racyHave;
McSchedule mc_parse_schedule(const std::string& s) {
    McSchedule r; size_t i = 0, e = s.find(";r");
    if (e != std::string::npos) { racyHave = true; racyGiven.clear(); const char* p = s.c_str() + e + 2; while (*p) { char* q; racyGiven.push_back(strtoul(p, &q, 16)); p = *q ? q + 1 : q; } }
    while (i < s.size() && s[i] != ';') { McDev d; d.point = (uint32_t)strtoul(s.c_str() + i, nullptr, 10); i = s.find('/', i) + 1; d.choice = (uint16_t)strtoul(s.c_str() + i, nullptr, 10); r.push_back(d); i = s.find(',', i); if (i == std::string::npos) break; ++i; }
    return r;
}
/* choose one of n alternatives; costMask bit k: alternative k costs one deviation */
static bool focusMode, memPoint;     /* in focus mode threads are switched only at memory accesses; timers expire anywhere */
static unsigned choose(uint32_t p, unsigned n, uint32_t costMask, unsigned firstTimer = 64) {
    if (n <= 1 || !mc_sched.explore) return 0;
    unsigned c = 0;
    if (prefixPos < prefix.size() && prefix[prefixPos].point == p) {
        c = prefix[prefixPos].choice; ++prefixPos;
        if (c >= n) { fprintf(stderr, "replay divergence at point %u\n", p); _exit(4); }
        if ((costMask >> c) & 1) --budget;
    } else if (prefixPos >= prefix.size()) {
        bool any = false;
        for (unsigned k = 1; k < n; ++k) if (!((costMask >> k) & 1) || budget > 0) any = true;
        if (any) recorded.push_back({p, (uint16_t)n, costMask, !focusMode || memPoint ? ~0u : firstTimer < 32 ? ~0u << firstTimer : 0});
    }
    if (c) taken.push_back({p, (uint16_t)c});
    return c;
}

static void startFiber();
static void switchTo(int t) {
    if (t == cur) return;
    int from = cur; cur = t; ++mc_sched.switches;
#if MC_ASAN
    if (!F[from].stkBottom && from == 0) { }
    __sanitizer_start_switch_fiber(F[from].st == F_DONE ? nullptr : &F[from].fake, F[t].stkBottom, F[t].stkSize);
#endif
    mc_switch(&F[from].sp, F[t].sp);
#if MC_ASAN
    const void* ob; size_t os;
    __sanitizer_finish_switch_fiber(F[cur].fake, &ob, &os);
    if (!F[0].stkBottom) { F[0].stkBottom = ob; F[0].stkSize = os; }
#endif
}
static bool enabledF(int i) {
    Fiber& f = F[i];
    switch (f.st) {
    case F_RUN: return true;
    case F_MUTEX: return mtx(f.mutex).owner < 0;
    case F_JOIN: return F[f.join].st == F_DONE;
    default: return false;
    }
}
static void reschedule(bool curEnabled) {
    int alt[MAXF * 2], n = 0; uint32_t cost = 0;
    if (++mc_sched.steps > mc_sched.maxSteps) mc_violation("no termination: %llu scheduling steps", (unsigned long long)mc_sched.steps);
    uint32_t pt = pointNo++;    /* numbering must not depend on the remaining budget */
    if (curEnabled) {
        if (!mc_sched.explore || (budget <= 0 && prefixPos >= prefix.size())) { return; }
        alt[n++] = cur;
    }
    for (int i = 0; i < nF; ++i) if (i != cur && enabledF(i)) { if (n && (curEnabled || !mc_sched.freeBlock)) cost |= n < 32 ? 1u << n : 0; alt[n++] = i; }
    if (!curEnabled && n == 0 && enabledF(cur)) alt[n++] = cur;
    else if (!curEnabled && enabledF(cur) && F[cur].st != F_RUN) { if (n && !mc_sched.freeBlock) cost |= n < 32 ? 1u << n : 0; alt[n++] = cur; }
    int normal = n;
    for (int i = 0; i < nF; ++i) if (F[i].st == F_COND && (F[i].timed || mc_sched.spurious)) {
        if (!F[i].timed && !n) continue;
        if (n) cost |= n < 32 ? 1u << n : 0;
        alt[n++] = i | 0x4000;
    }
    if (!n) {
        std::string s; for (int i = 0; i < nF; ++i) s += F[i].st == F_MUTEX ? "M" : F[i].st == F_COND ? "C" : F[i].st == F_JOIN ? "J" : F[i].st == F_DONE ? "-" : "?";
        mc_violation("deadlock: no thread can run (thread states %s)", s.c_str());
    }
    int a = alt[choose(pt, (unsigned)n, cost, (unsigned)normal)];
    int t = a & 0x3FFF;
    if (a & 0x4000) { /* timer expiry or spurious wake-up */
        if (F[t].timed) ++mc_sched.timeouts;
        F[t].expired = F[t].timed; F[t].st = F_MUTEX; F[t].cond = nullptr; F[t].timed = false;
        if (!enabledF(t)) { reschedule(curEnabled); return; }
    }
    memPoint = false;
    if (t != cur) switchTo(t);
}
static void point() { reschedule(true); }
static void mpoint() { memPoint = true; reschedule(true); memPoint = false; }
/* block the current fiber until enabledF(cur) */
static void block() { do { reschedule(false); } while (!enabledF(cur)); }

static void fiberMain() {
#if MC_ASAN
    const void* ob; size_t os;
    __sanitizer_finish_switch_fiber(nullptr, &ob, &os);
    if (!F[0].stkBottom) { F[0].stkBottom = ob; F[0].stkSize = os; }
#endif
    int me = cur;
    F[me].ret = F[me].fn(F[me].arg);
    F[me].st = F_DONE; ++F[me].vc[me];
    reschedule(false);
    abort();
}
static void startFiber() {}

extern "C" int mc_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    long idx = mc_sched.creates++;
    if (idx == mc_sched.failCreate) { mc_sched.createFailed = true; return EAGAIN; }
    int i = 1; while (i < nF && !(F[i].st == F_FREE || (F[i].st == F_DONE && F[i].joined))) ++i;
    if (i >= MAXF) { fprintf(stderr, "too many fibers\n"); _exit(3); }
    if (i == nF) ++nF;
    Fiber& f = F[i];
    if (!f.stack) { f.stack = (uint8_t*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(f.stack, 4096, PROT_NONE); }
    f.fn = fn; f.arg = arg; f.joined = false; f.st = F_RUN; f.timed = false; f.expired = false; f.fake = nullptr;
    f.stkBottom = f.stack; f.stkSize = STK;
#if MC_ASAN
    ASAN_UNPOISON_MEMORY_REGION(f.stack + 4096, STK - 4096);
#endif
    uint64_t* sp = (uint64_t*)(f.stack + STK - 64);
    *--sp = 0; *--sp = (uint64_t)(void*)fiberMain;
    for (int k = 0; k < 6; ++k) *--sp = 0;
    f.sp = sp;
    uint32_t keep = f.vc[i]; memcpy(f.vc, F[cur].vc, sizeof f.vc); f.vc[i] = (keep > f.vc[i] ? keep : f.vc[i]) + 1; ++F[cur].vc[cur];
    *t = (pthread_t)(uintptr_t)(i + 1000);
    point();
    return 0;
}
extern "C" int mc_pthread_join(pthread_t t, void** ret) {
    int i = (int)(uintptr_t)t - 1000;
    if (i <= 0 || i >= nF || F[i].st == F_FREE || F[i].joined) mc_violation("join of an invalid thread");
    if (F[i].st != F_DONE) { F[cur].st = F_JOIN; F[cur].join = i; block(); F[cur].st = F_RUN; }
    vcJoin(F[cur].vc, F[i].vc); if (ret) *ret = F[i].ret; F[i].joined = true;
    return 0;
}
extern "C" int mc_pthread_detach(pthread_t t) { F[(int)(uintptr_t)t - 1000].joined = true; return 0; }
extern "C" pthread_t mc_pthread_self(void) { return (pthread_t)(uintptr_t)(cur + 1000); }

static void acquired(const void* m) { Mtx& x = mtx(m); x.owner = cur; vcJoin(F[cur].vc, x.clk); }
static void released(const void* m) { Mtx& x = mtx(m); memcpy(x.clk, F[cur].vc, sizeof x.clk); ++F[cur].vc[cur]; x.owner = -1; }

extern "C" int mc_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { memset(m, 0, sizeof *m); Mtx& x = mtx(m); memset(&x, 0, sizeof x); x.owner = -1; return 0; }
extern "C" int mc_pthread_mutex_destroy(pthread_mutex_t* m) { if (mtx(m).owner >= 0) mc_violation("mutex destroyed while locked"); mtxs->erase(m); return 0; }
extern "C" int mc_pthread_mutex_lock(pthread_mutex_t* m) {
    point();
    if (mtx(m).owner == cur) mc_violation("deadlock: mutex locked twice by one thread");
    if (mtx(m).owner >= 0) { F[cur].st = F_MUTEX; F[cur].mutex = m; block(); F[cur].st = F_RUN; }
    acquired(m);
    return 0;
}
extern "C" int mc_pthread_mutex_trylock(pthread_mutex_t* m) { point(); if (mtx(m).owner >= 0) return EBUSY; acquired(m); return 0; }
extern "C" int mc_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (mtx(m).owner != cur) mc_violation("mutex unlocked by a thread that does not hold it");
    released(m);
    point();
    return 0;
}
extern "C" int mc_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
extern "C" int mc_pthread_cond_destroy(pthread_cond_t* c) {
    for (int i = 0; i < nF; ++i) if (F[i].st == F_COND && F[i].cond == c) mc_violation("condition variable destroyed with a waiter");
    return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    if (mtx(m).owner != cur) mc_violation("condition wait without the mutex");
    if (mc_sched.explore) point();      /* between testing the predicate and waiting: matters when it is changed without the mutex */
    released(m);
    if (timed && !mc_sched.explore) {
        ++mc_sched.timedWaits;
        uint64_t k = mc_sched.timedWaits - 1;
        if (k < 64 && ((mc_sched.timerMask >> k) & 1)) { ++mc_sched.timeouts; acquired(m); return ETIMEDOUT; }
    }
    F[cur].st = F_COND; F[cur].cond = c; F[cur].mutex = m; F[cur].timed = timed; F[cur].expired = false;
    block();
    F[cur].st = F_RUN; F[cur].cond = nullptr; F[cur].timed = false;
    acquired(m);
    return F[cur].expired ? ETIMEDOUT : 0;
}
extern "C" int mc_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, false); }
extern "C" int mc_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return condWait(c, m, true); }
extern "C" int mc_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return condWait(c, m, true); }
static void wake(int i) { F[i].st = F_MUTEX; F[i].cond = nullptr; F[i].timed = false; }
extern "C" int mc_pthread_cond_signal(pthread_cond_t* c) {
    int w[MAXF], n = 0;
    for (int i = 0; i < nF; ++i) if (F[i].st == F_COND && F[i].cond == c) w[n++] = i;
    if (n) { unsigned k = n > 1 ? choose(pointNo++, (unsigned)n, mc_sched.freeBlock ? 0 : 0xFFFFFFFEu) : 0; wake(w[k]); }
    return 0;
}
extern "C" int mc_pthread_cond_broadcast(pthread_cond_t* c) {
    for (int i = 0; i < nF; ++i) if (F[i].st == F_COND && F[i].cond == c) wake(i);
    return 0;
}
extern "C" int mc_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = 1000; tv->tv_usec = 0; return 0; }
extern "C" int mc_sched_yield(void) { point(); return 0; }

/* the other threads run until all of them wait */
void mc_run_others() {
    if (mc_sched.explore) { point(); return; }
    for (bool any = true; any;) { any = false; for (int i = 0; i < nF; ++i) if (i != cur && enabledF(i)) { any = true; switchTo(i); } }
}
int mc_live_threads() { int n = 0; for (int i = 1; i < nF; ++i) if (F[i].st != F_FREE && !(F[i].st == F_DONE && F[i].joined)) ++n; return n; }
void mc_sched_check_idle() { if (mc_live_threads()) mc_violation("%d threads were not joined", mc_live_threads()); }
void mc_reset_threads() { for (int i = 1; i < nF; ++i) F[i].st = F_FREE; nF = 1; cur = 0; if (mtxs) mtxs->clear(); for (auto& f : F) memset(f.vc, 0, sizeof f.vc); F[0].st = F_RUN; F[0].vc[0] = 1; mc_sched.steps = 0; mc_sched.creates = 0; mc_sched.createFailed = false; }
__attribute__((constructor)) static void initMain() { F[0].st = F_RUN; F[0].vc[0] = 1; }

/* ---- compiler instrumentation hooks (sources built with -fsanitize=thread, no libtsan) ---- */
#define NOI extern "C" __attribute__((noinline))
static inline void access(const void* p, bool w, size_t n = 1) {
    uintptr_t a = (uintptr_t)p;
    if (!inArena(a)) { if (a >= (uintptr_t)mc_lib_bss1 || !isGlobal(a)) return; }      /* mostly the stack */
    else if (arenaState[(a - (uintptr_t)arena) >> 4] != 1) mc_violation("%s memory that is %s", w ? "write to" : "read of", arenaState[(a - (uintptr_t)arena) >> 4] == 2 ? "freed" : "outside any allocation");
    if (racyAny && mc_sched.memPoints) { uintptr_t g = a >> 2, h = (a + n - 1) >> 2; if ((racyBits[g & 0xFFFF] && racySet->count(g)) || (h != g && racyBits[h & 0xFFFF] && racySet->count(h))) mpoint(); }
    if (mc_sched.detect) hbAccess(a, w, n);
}
NOI void __tsan_init() {}
NOI void __tsan_func_entry(void*) {}
NOI void __tsan_func_exit() {}
void mc_point() { point(); }
bool mc_inside_explore() { return mc_sched.explore; }
void mc_touch(const void* p, bool w, const char* what, bool pt) {
    if (pt) point();
    uintptr_t a = (uintptr_t)p;
    if (inArena(a) && arenaState[(a - (uintptr_t)arena) >> 4] != 1) mc_violation("%s: memory is not allocated any more", what);
    if (mc_sched.detect && hbAccess(a, w)) mc_violation("%s: %s is not ordered after the other thread's access (data race)", what, w ? "write" : "read");
}
#define RW(n) NOI void __tsan_read##n(void* p) { access(p, false, n); } NOI void __tsan_write##n(void* p) { access(p, true, n); } \
  NOI void __tsan_unaligned_read##n(void* p) { access(p, false, n); } NOI void __tsan_unaligned_write##n(void* p) { access(p, true, n); } \
  NOI void __tsan_volatile_read##n(void* p) { access(p, false, n); } NOI void __tsan_volatile_write##n(void* p) { access(p, true, n); } \
  NOI void __tsan_unaligned_volatile_read##n(void* p) { access(p, false, n); } NOI void __tsan_unaligned_volatile_write##n(void* p) { access(p, true, n); } \
  NOI void __tsan_read_write##n(void* p) { access(p, true, n); } NOI void __tsan_unaligned_read_write##n(void* p) { access(p, true, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
NOI void __tsan_read_range(void* p, unsigned long n) { if (n) access(p, false, n); }
NOI void __tsan_write_range(void* p, unsigned long n) { if (n) access(p, true, n); }
NOI void __tsan_vptr_update(void*, void*) {}
NOI void __tsan_vptr_read(void*) {}
static void atomicPoint(const void* p) {
    uintptr_t a = (uintptr_t)p;
    if (inArena(a) && arenaState[(a - (uintptr_t)arena) >> 4] != 1) mc_violation("atomic access to freed memory");
    mpoint();
    if (!syncVar) syncVar = new std::unordered_map<uintptr_t, std::vector<uint32_t>>;
    auto& v = (*syncVar)[a]; v.resize(MAXF);
    vcJoin(F[cur].vc, v.data()); std::copy(F[cur].vc, F[cur].vc + MAXF, v.begin()); ++F[cur].vc[cur];
}
#define AT(B, T) \
NOI T __tsan_atomic##B##_load(const volatile T* p, int) { atomicPoint((const void*)p); return *p; } \
NOI void __tsan_atomic##B##_store(volatile T* p, T v, int) { atomicPoint((const void*)p); *p = v; } \
NOI T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { atomicPoint((const void*)p); T o = *p; *p = v; return o; } \
NOI T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { atomicPoint((const void*)p); T o = *p; *p = (T)(o + v); return o; } \
NOI T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { atomicPoint((const void*)p); T o = *p; *p = (T)(o - v); return o; } \
NOI T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { atomicPoint((const void*)p); T o = *p; *p = (T)(o & v); return o; } \
NOI T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { atomicPoint((const void*)p); T o = *p; *p = (T)(o | v); return o; } \
NOI T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { atomicPoint((const void*)p); T o = *p; *p = (T)(o ^ v); return o; } \
NOI int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atomicPoint((const void*)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
NOI int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atomicPoint((const void*)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
NOI T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atomicPoint((const void*)p); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
NOI void __tsan_atomic_thread_fence(int) { point(); }
NOI void __tsan_atomic_signal_fence(int) {}
static void rangeAccess(const void* p, size_t n, bool w) {
    uintptr_t a = (uintptr_t)p; if (!n || (!inArena(a) && !isGlobal(a))) return;
    access((void*)a, w, mc_sched.detect ? n : 1); access((void*)(a + n - 1), w);
}
extern "C" void* mc_memcpy(void* d, const void* s, size_t n) { rangeAccess(s, n, false); rangeAccess(d, n, true); return memcpy(d, s, n); }
extern "C" void* mc_memmove(void* d, const void* s, size_t n) { rangeAccess(s, n, false); rangeAccess(d, n, true); return memmove(d, s, n); }
extern "C" void* mc_memset(void* d, int c, size_t n) { rangeAccess(d, n, true); return memset(d, c, n); }

/* =================== explorer =================== */
static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void execOnce(const McExplore& x, const McSchedule& pre, const std::function<void()>& body, bool detect, int bound) {
    mc_reset_threads();
    if (x.useArena) { arenaOn = true; arenaReset(); if (liveMap) liveMap->clear(); mc_alloc.live = mc_alloc.liveBlocks = 0; }
    mc_alloc_reset(); mc_lib_reset();
    prefix = pre; prefixPos = 0; taken.clear(); recorded.clear(); pointNo = 0; budget = bound;
    mc_sched.explore = true; mc_sched.freeBlock = x.freeBlock; mc_sched.spurious = x.spurious; mc_sched.memPoints = x.memPoints; mc_sched.detect = detect;
    mc_sched.switches = mc_sched.timeouts = 0;
    if (detect) { ++stampNow; if (syncVar) syncVar->clear(); }
    body();
    mc_sched_check_idle();
    mc_sched.explore = false; mc_sched.detect = false;
    if (prefixPos < prefix.size()) { fprintf(stderr, "replay divergence: schedule not used up (%zu of %zu)\n", prefixPos, prefix.size()); _exit(4); }
    if (x.useArena) arenaOn = false;
}
/* Deviations in prefix count against the bound through choose(). */
void mc_explore(McExplore& x, const std::function<void()>& body) {
    focusMode = false;
    double t0 = nowS();
    racyClear(); racyCommit();
    /* discovery: find racy locations on the default schedule and all single-deviation schedules
     * (sampled evenly down to a fixed number), until no new one appears */
    if (x.memPoints) {
        for (unsigned round = 0; round < 6; ++round) {
            racyGrew = false; ++x.rounds;
            execOnce(x, {}, body, true, 1);
            std::vector<RPt> pts = recorded;
            size_t maxD = 160, tot = 0; for (auto& p : pts) tot += p.n - 1u;
            size_t step = tot / maxD + 1, k = 0;
            for (auto& p : pts) for (uint16_t c = 1; c < p.n; ++c) if (k++ % step == 0) execOnce(x, {{p.idx, c}}, body, true, 1);
            if (!racyGrew) break;
            racyCommit();
        }
        x.racy = racySet ? racySet->size() : 0;
    }
    focusMode = x.focus; const int bound0 = x.bound;
    /* exploration: depth-first over deviations */
    for (unsigned round = 0;; ++round) {
    bool again = false; std::vector<McSchedule> stack; x.bound = bound0;
    execOnce(x, {}, body, x.monitor, x.bound);
    {   double a = 0; for (auto& p : recorded) for (unsigned c = 1; c < p.n; ++c) a += (p.allow >> c) & 1;
        auto expect = [&](int b) { double e = 1; for (int k = 1; k <= b; ++k) e *= a / k; return e; };
        while (x.bound > 1 && expect(x.bound) > x.budget) --x.bound; }
    if (x.shard == 0) { ++x.execs; x.points += pointNo; }
    x.maxPoints = std::max<uint64_t>(x.maxPoints, pointNo);
    {   /* replay once more: identical points, or the harness is not deterministic */
        auto r0 = recorded; uint32_t p0 = pointNo; execOnce(x, {}, body, x.monitor, x.bound);
        bool same = p0 == pointNo && r0.size() == recorded.size();
        for (size_t i = 0; same && i < r0.size(); ++i) same = r0[i].idx == recorded[i].idx && r0[i].n == recorded[i].n;
        if (!same) { fprintf(stderr, "replay divergence: default schedule differs when repeated (%u/%u points)\n", p0, pointNo); _exit(4); }
    }
    {   unsigned k = 0;
        for (auto& p : recorded) for (uint16_t c = 1; c < p.n; ++c) {
            if (!((p.allow >> c) & 1) || (x.bound <= 0 && ((p.costMask >> c) & 1))) continue;
            if (k++ % x.nshards == x.shard) stack.push_back({{p.idx, c}});
        } }
    std::reverse(stack.begin(), stack.end());
    while (!stack.empty()) {
        if (x.execs >= x.maxExecs || nowS() - t0 > x.maxSeconds) { x.complete = false; break; }
        McSchedule s = std::move(stack.back()); stack.pop_back();
        execOnce(x, s, body, x.monitor, x.bound);
        ++x.execs; ++x.devExecs; x.points += pointNo; x.maxPoints = std::max<uint64_t>(x.maxPoints, pointNo); x.timeouts += mc_sched.timeouts; x.switches += mc_sched.switches;
        if (racyGrew && round < 12) { racyCommit(); x.racy = racySet->size(); again = true; break; }
        int left = budget; /* remaining after all prefix deviations */
        for (auto it = recorded.rbegin(); it != recorded.rend(); ++it) {
            for (uint16_t c = it->n; c-- > 1;) {
                if (!((it->allow >> c) & 1) || (((it->costMask >> c) & 1) && left <= 0)) continue;
                McSchedule n = s; n.push_back({it->idx, c}); stack.push_back(std::move(n));
            }
        }
    }
    if (!again) break; ++x.rounds;
    }
}
void mc_run_one(const McExplore& x, const McSchedule& s, const std::function<void()>& body) {
    /* the racy set decides where points are: rebuild it exactly as mc_explore does */
    McExplore y = x; y.bound = 0; y.maxExecs = 0;
    racyClear(); racyCommit();
    if (racyHave) { arenaInit(); for (auto g : racyGiven) racySet->insert(g + ((uintptr_t)arena >> 2)); racyCommit(); }
    else if (x.memPoints) for (unsigned round = 0; round < 6; ++round) {
        racyGrew = false;
        execOnce(x, {}, body, true, 1);
        std::vector<RPt> pts = recorded; size_t maxD = 160, tot = 0; for (auto& p : pts) tot += p.n - 1u;
        size_t step = tot / maxD + 1, k = 0;
        for (auto& p : pts) for (uint16_t c = 1; c < p.n; ++c) if (k++ % step == 0) execOnce(x, {{p.idx, c}}, body, true, 1);
        if (!racyGrew) break;
        racyCommit();
    }
    execOnce(x, s, body, x.monitor, x.bound);
}

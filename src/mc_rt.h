/* Controlled runtime for the library under test: cooperative fibers behind the pthread API, a
 * deviation-bounded schedule explorer, a deterministic checked allocator with fault injection,
 * and a happens-before monitor that promotes racy locations to scheduling points. */
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

/* ---- allocator ---- */
extern "C" { void* mc_malloc(size_t); void* mc_calloc(size_t, size_t); void* mc_realloc(void*, size_t); void mc_free(void*); }
struct McAlloc {
    size_t live = 0, peak = 0, count = 0, liveBlocks = 0;   /* bytes live, peak, allocations since reset */
    bool failFrom = false;                  /* every allocation from failAt on fails */
    long failAt = -1;                       /* index (0-based, since reset) of the allocation that fails; -1 none */
    bool failed = false;
    int fill = 0xAA;                        /* fresh memory pattern; -1 leaves it */
    size_t fillMax = 1 << 16;               /* at most this many bytes are filled at each end */
    bool guard = false;                     /* right-align blocks against an unmapped page */
    size_t largest = 0;
};
extern McAlloc mc_alloc;
void mc_alloc_reset();                      /* counters only (keeps live) */
std::string mc_live_list();

/* ---- environment ---- */
struct McMachine { bool synthetic = false; long processors = 1; std::string cpuinfo; };     /* empty: the file does not exist */
extern McMachine mc_machine;
void mc_lib_reset();                        /* the library's static data as at program start */

/* ---- scheduler ---- */
struct McSched {
    int bound = 0;                          /* deviations allowed after the prefix */
    bool freeBlock = false;                 /* choosing another thread at a blocking point is free */
    bool spurious = false;                  /* spurious wake-ups are deviations */
    bool memPoints = true;                  /* racy locations are scheduling points */
    bool detect = false;                    /* run the happens-before monitor */
    bool explore = false;
    long failCreate = -1;                   /* index of the pthread_create that fails */
    long creates = 0; bool createFailed = false;
    u_int64_t maxSteps = 3000000;
    /* without exploration: timed wait number k (since the harness cleared timedWaits) expires when bit k is set */
    uint64_t timerMask = 0, timedWaits = 0;
    /* per execution */
    u_int64_t steps = 0, switches = 0, timeouts = 0;
};
extern McSched mc_sched;

struct McDev { uint32_t point; uint16_t choice; };
typedef std::vector<McDev> McSchedule;
std::string mc_schedule_str();              /* of the current / last execution */
const McSchedule& mc_taken();               /* deviations of the current / last execution */
McSchedule mc_parse_schedule(const std::string&);

struct McExplore {
    int bound = 1; bool freeBlock = false, spurious = false, memPoints = true;
    bool useArena = true;
    bool monitor = false;                   /* keep the happens-before monitor on in every execution */
    unsigned shard = 0, nshards = 1;
    uint64_t maxExecs = ~0ull; double maxSeconds = 1e9;
    bool focus = false;                     /* threads are switched at shared memory accesses and atomics only; timers expire anywhere */
    double budget = 1e30;                   /* the bound is lowered (not below 1) until the expected number of executions fits */
    /* results */
    uint64_t execs = 0, points = 0, maxPoints = 0, devExecs = 0, racy = 0, rounds = 0, timeouts = 0, switches = 0;
    bool complete = true;
};
/* Runs body under every schedule within the bound.  body must leave no fiber running. */
void mc_explore(McExplore&, const std::function<void()>& body);
/* One execution under a given schedule (deviations), with everything else default. */
void mc_run_one(const McExplore&, const McSchedule&, const std::function<void()>& body);
/* harness access to data that the code under test must order: a race here is a violation
 * (only while the monitor is on); also a scheduling point when asked */
void mc_touch(const void* p, bool write, const char* what, bool pointToo = false);
bool mc_inside_explore();
void mc_point();
void mc_run_others();                       /* outside exploration: the other threads run until all of them wait */
void mc_sched_check_idle();                 /* fails when threads are left over */
int  mc_live_threads();
void mc_reset_threads();

extern void (*mc_on_violation)(const char* msg);
[[noreturn]] void mc_violation(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

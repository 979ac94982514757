/* Case enumerator: a harness walks families of cases exhaustively; each shard runs its share.
 * Before a case runs, its family, index and description go to a shared state file, so that the
 * driver knows what was running when a worker crashes, hangs or reports a violation. */
#pragma once
#include "mc_rt.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <map>
#include <string>
#include <vector>
#include <algorithm>

struct McState { volatile uint64_t seq; volatile uint64_t idx; char fam[64]; char desc[3000]; char msg[2048]; char sched[4096]; volatile int failed; };
static McState* mcS;
static unsigned mcShard = 0, mcShards = 1; static bool mcThorough = false, mcVerbose = false;
static std::string mcOnlyFam, mcRun, mcProp, mcJob, mcFile; static uint64_t mcOnlyIdx; static bool mcOnly = false;
static std::string mcReplaySched; static bool mcHaveSched = false;
static double mcDeadline = 1e18; static bool mcCapped = false;
static uint64_t* mcHash; static const size_t MC_HASHN = (size_t)1 << 24; static uint64_t mcNewStates = 0;
static std::map<std::string, uint64_t> mcCounters, mcFams; static std::vector<std::string> mcSamples;
static double mcNow() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

[[noreturn]] __attribute__((format(printf, 1, 2))) static void mcFail(const char* fmt, ...) {
    va_list a; va_start(a, fmt); if (mcS) vsnprintf(mcS->msg, sizeof mcS->msg, fmt, a); va_end(a);
    if (mcS) { mcS->failed = 1; snprintf(mcS->sched, sizeof mcS->sched, "%s", mc_schedule_str().c_str());
        fprintf(stderr, "FAIL %s:%llu [%s] sched=%s: %s\n", mcS->fam, (unsigned long long)mcS->idx, mcS->desc, mcS->sched, mcS->msg); }
    fflush(stderr); _exit(10);
}
static void mcOnViolation(const char* m) { mcFail("%s", m); }
#define MC_CHECK(c, ...) do { if (!(c)) mcFail(__VA_ARGS__); } while (0)
static void mcCount(const char* k, uint64_t n = 1) { mcCounters[k] += n; }
static void mcMax(const char* k, uint64_t n) { uint64_t& v = mcCounters[std::string("max:") + k]; if (n > v) v = n; }
static inline uint64_t mcMix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xBF58476D1CE4E5B9ull; return h ^ (h >> 29); }
static uint64_t mcHashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; } return h ^ (h >> 31); }
/* counts a state once over all shards of a run (exact up to 64-bit hash collisions) */
static bool mcNewState(uint64_t h) {
    if (!h) h = 1;
    if (!mcHash) return true;
    size_t i = (h * 0x9E3779B97F4A7C15ull) >> 40;
    for (size_t k = 0; k < 64; ++k, i = (i + 1) & (MC_HASHN - 1)) {
        uint64_t v = __atomic_load_n(&mcHash[i], __ATOMIC_RELAXED);
        if (v == h) return false;
        if (!v) { uint64_t e = 0; if (__atomic_compare_exchange_n(&mcHash[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { ++mcNewStates; return true; } if (e == h) return false; }
    }
    ++mcCounters["statesUncounted"]; return true;
}
static std::map<std::string, double> mcTimes; static std::string mcTimeFam; static double mcTimeLast;
static void mcTime(const std::string& f) { double n = mcNow(); if (!mcTimeFam.empty()) mcTimes[mcTimeFam] += n - mcTimeLast; mcTimeFam = f; mcTimeLast = n; }
struct Fam {
    std::string name; uint64_t i = 0, lim;
    explicit Fam(const std::string& n) : name(n) {}
    /* cheap test before building a case: false (and counted) when the next index is not ours */
    bool mine() {
        bool m = mcOnly ? mcOnlyFam == name && i == mcOnlyIdx : (i * 2654435761u >> 3) % mcShards == mcShard && !mcCapped;
        if (!m) ++i;
        return m;
    }
    void skip() { ++i; }     /* the index denotes no legal case */
    __attribute__((format(printf, 2, 3))) bool next(const char* fmt, ...) {
        uint64_t k = i++;
        if (mcOnly) { if (mcOnlyFam != name || k != mcOnlyIdx) return false; }
        else {
            if ((k * 2654435761u >> 3) % mcShards != mcShard) return false;
            if (mcCapped) return false;
            if ((k & 15) == 0 || !mcS || true) { if (mcNow() > mcDeadline) { mcCapped = true; return false; } }
        }
        if (mcS) { va_list a; va_start(a, fmt); vsnprintf(mcS->desc, sizeof mcS->desc, fmt, a); va_end(a);
            strncpy(mcS->fam, name.c_str(), sizeof mcS->fam - 1); mcS->idx = k; ++mcS->seq;
            if (mcVerbose) fprintf(stderr, "case %s:%llu %s\n", name.c_str(), (unsigned long long)k, mcS->desc);
            static std::map<std::string, int> sampled;
            int& n = sampled[name]; if (n < 2 && mcSamples.size() < 40) { ++n; mcSamples.push_back(name + ":" + std::to_string(k) + " " + mcS->desc); }
        }
        ++mcFams[name]; mcTime(name);
        return true;
    }
};
static int mcPatience = 1;      /* for harnesses whose cases are long */
static void mcTick(int) {
    static uint64_t last = ~0ull; static int same = 0;
    if (!mcS) return;
    if (mcS->seq == last) { if (++same >= (mcOnly ? 150 : 60) * mcPatience) { static const char m[] = "no progress: one case used more CPU time than allowed (hang)"; memcpy(mcS->msg, m, sizeof m); mcS->failed = 2; _exit(11); } }
    else { last = mcS->seq; same = 0; }
}
static std::string mcEsc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void mcInit(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--prop") mcProp = val();
        else if (a == "--job") mcJob = mcFile = val();
        else if (a == "--jobname") mcJob = val();   /* after --job: files under one name, behaviour of another */
        else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%u/%u", &mcShard, &mcShards); }
        else if (a == "--run") mcRun = val();
        else if (a == "--tier") mcThorough = val() == "thorough";
        else if (a == "--only") { std::string v = val(); size_t c = v.rfind(':'); mcOnly = true; mcOnlyFam = v.substr(0, c); mcOnlyIdx = strtoull(v.c_str() + c + 1, nullptr, 10); }
        else if (a == "--sched") { mcReplaySched = val(); mcHaveSched = true; }
        else if (a == "--deadline") mcDeadline = mcNow() + atof(val().c_str());
        else if (a == "-v") mcVerbose = true;
    }
    mc_on_violation = mcOnViolation;
    if (!mcRun.empty()) {
        std::string f = mcRun + "/" + mcFile + "." + (mcOnly ? "replay" : std::to_string(mcShard)) + ".state";
        int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(McState))) { perror("state"); _exit(3); }
        mcS = (McState*)mmap(nullptr, sizeof(McState), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
        if (!mcOnly) {
            f = mcRun + "/hash"; fd = open(f.c_str(), O_RDWR | O_CREAT, 0644);
            if (fd < 0 || ftruncate(fd, MC_HASHN * 8)) { perror("hash"); _exit(3); }
            mcHash = (uint64_t*)mmap(nullptr, MC_HASHN * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
        }
    } else mcS = (McState*)calloc(1, sizeof(McState));
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = mcTick; sa.sa_flags = SA_RESTART | SA_ONSTACK;
    static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval tv = {{1, 0}, {1, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);
}
static int mcFinish() {
    mcTime("");
    if (mcRun.empty() || mcOnly) {
        for (auto& f : mcFams) fprintf(stderr, "%-28s %llu\n", f.first.c_str(), (unsigned long long)f.second);
        for (auto& f : mcCounters) fprintf(stderr, "  %-26s %llu\n", f.first.c_str(), (unsigned long long)f.second);
        if (mcOnly && mcFams.empty()) { fprintf(stderr, "no such case\n"); return 5; }
        return 0;
    }
    std::string f = mcRun + "/" + mcFile + "." + std::to_string(mcShard) + ".json";
    FILE* o = fopen(f.c_str(), "w"); if (!o) { perror("stats"); _exit(3); }
    fprintf(o, "{\"capped\":%s,\"states\":%llu,\"families\":{", mcCapped ? "true" : "false", (unsigned long long)mcNewStates);
    bool first = true; for (auto& k : mcFams) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second); first = false; }
    fprintf(o, "},\"counters\":{"); first = true;
    for (auto& k : mcCounters) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second); first = false; }
    fprintf(o, "},\"times\":{"); first = true;
    for (auto& k : mcTimes) { fprintf(o, "%s\"%s\":%.2f", first ? "" : ",", k.first.c_str(), k.second); first = false; }
    fprintf(o, "},\"samples\":["); first = true;
    for (auto& s : mcSamples) { fprintf(o, "%s\"%s\"", first ? "" : ",", mcEsc(s).c_str()); first = false; }
    fprintf(o, "]}\n"); fclose(o);
    return 0;
}

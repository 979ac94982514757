/* C10: the thread pool under every interleaving within the bound. */
#include "mc_case.h"
extern "C" {
#include "fl2_pool.h"
}
struct Rec { long ran[8]; long index[8]; long data[8]; FL2POOL_ctx* inner; Rec* innerRec; int innerN; };
static Rec* newRec() { Rec* r = (Rec*)mc_malloc(sizeof(Rec)); memset(r, 0, sizeof *r); return r; }
static int slowJobs; static uint64_t outcome;
static void job(void* o, ptrdiff_t n) {
    Rec* r = (Rec*)o;
    if (n < 0 || n >= 8) mc_violation("job got index %ld", (long)n);
    if (slowJobs) mc_point();
    mc_touch(&r->ran[n], true, "job start"); ++r->ran[n];
    if (slowJobs > 1) mc_point();
    mc_touch(&r->data[n], true, "job data"); r->data[n] = 100 + n;
    outcome = mcMix(outcome, (uint64_t)n * 31 + 7);
}
static void check(Rec* r, int first, int end, const char* when) {
    for (int i = 0; i < 8; ++i) {
        mc_touch(&r->ran[i], false, "caller reading a job's result after the wait");
        mc_touch(&r->data[i], false, "caller reading a job's result after the wait");
        long want = i >= first && i < end;
        if (r->ran[i] != want) mc_violation("%s: job %d ran %ld times, expected %ld", when, i, r->ran[i], want);
        if (r->data[i] != (want ? 100 + i : 0)) mc_violation("%s: job %d has not finished", when, i);
    }
}
/* nested use, as the asynchronous compression thread does */
static void outerJob(void* o, ptrdiff_t n) {
    Rec* r = (Rec*)o;
    FL2POOL_addRange(r->inner, job, r->innerRec, 1, r->innerN);
    job(r->innerRec, 0);
    FL2POOL_waitAll(r->inner, 0);
    check(r->innerRec, 0, r->innerN < 1 ? 1 : r->innerN, "inner wait returned");
    mc_touch(&r->ran[n], true, "job start"); ++r->ran[n];
    mc_touch(&r->data[n], true, "job data"); r->data[n] = 100 + n;
}
enum Op { A1, A2, A3, AR0, W, T, END };   /* add one / two / three / empty range, wait, timed wait */
static const char* opName[] = {"add(1)", "addRange(1,3)", "addRange(0,3)", "addRange(1,1)", "wait", "timedwait"};
static void runSeq(int threads, const std::vector<int>& ops) {
    outcome = 1;
    FL2POOL_ctx* p = FL2POOL_create((size_t)threads);
    if (!p) mc_violation("FL2POOL_create failed");
    Rec* r = newRec(); int first = 0, end = 0; bool pending = false; int timeouts = 0;
    std::vector<Rec*> all; all.push_back(r);
    for (int op : ops) {
        if (op <= AR0) {
            if (pending) { FL2POOL_waitAll(p, 0); check(r, first, end, "untimed wait returned"); pending = false; }
            r = newRec(); all.push_back(r);
            if (op == A1) { first = 1; end = 2; FL2POOL_add(p, job, r, 1); }
            else { first = op == A3 ? 0 : 1; end = op == A2 ? 3 : op == A3 ? 3 : 1; FL2POOL_addRange(p, job, r, first, end); }
            pending = true;
        } else if (op == W) { FL2POOL_waitAll(p, 0); check(r, first, end, "untimed wait returned"); pending = false; }
        else {
            int res = FL2POOL_waitAll(p, 5);
            outcome = mcMix(outcome, 1000 + (res != 0));
            if (!res) { check(r, first, end, "timed wait reported completion"); pending = false; }
            else { if (!pending) mc_violation("timed wait reports unfinished work although nothing is pending"); ++timeouts; }
        }
    }
    FL2POOL_free(p);
    for (Rec* q : all) for (int i = 0; i < 8; ++i) { mc_touch(&q->ran[i], false, "caller after free"); if (q->ran[i] > 1) mc_violation("job %d ran %ld times", i, q->ran[i]); if (q->ran[i] && q->data[i] != 100 + i) mc_violation("free returned while job %d was running", i); }
    mc_sched_check_idle();
    for (Rec* q : all) mc_free(q);
    if (mc_alloc.live) mc_violation("pool memory leaked: %zu bytes", mc_alloc.live);
    outcome = mcMix(outcome, (uint64_t)threads);
    mcNewState(outcome ^ mcHashBytes(ops.data(), ops.size() * 4));
}
static void runNested(int inner, int innerN, int timed) {
    outcome = 2;
    FL2POOL_ctx* a = FL2POOL_create(1); FL2POOL_ctx* b = FL2POOL_create((size_t)inner);
    for (int round = 0; round < 2; ++round) {
        Rec* r = newRec(); r->inner = b; r->innerRec = newRec(); r->innerN = innerN;
        FL2POOL_add(a, outerJob, r, 3);
        int res = 1;
        for (int t = 0; t < timed && res; ++t) { res = FL2POOL_waitAll(a, 5); outcome = mcMix(outcome, (uint64_t)res + 5); }
        if (res) FL2POOL_waitAll(a, 0);
        check(r, 3, 4, "wait for the outer job returned");
        check(r->innerRec, 0, innerN < 1 ? 1 : innerN, "wait for the outer job returned");
        mc_free(r->innerRec); mc_free(r);
    }
    FL2POOL_free(b); FL2POOL_free(a);
    mcNewState(outcome);
}
static void explore(int bound, bool spurious, const std::function<void()>& body) {
    McExplore x; x.bound = bound; x.freeBlock = true; x.spurious = spurious; x.monitor = true;
    if (mcHaveSched) { mc_run_one(x, mc_parse_schedule(mcReplaySched), body); return; }
    mc_explore(x, body);
    mcCount("executions", x.execs); mcCount("transitions", x.points); mcCount("timer expiries", x.timeouts); mcMax("points per execution", x.maxPoints); mcMax("racy locations", x.racy);
}
int main(int argc, char** argv) {
    mcInit(argc, argv);
    { Fam f("nested");
      for (int inner = 1; inner <= 2; ++inner) for (int n = 1; n <= 3; ++n) for (int timed = 0; timed <= 2; ++timed)
        if (f.next("outer pool of 1, inner pool of %d, range 1..%d, %d timed waits", inner, n, timed)) { slowJobs = 0; explore(mcThorough ? 2 : 1, false, [&] { runNested(inner, n, timed); }); } }
    for (int pass = 0; pass < 2; ++pass) {
        Fam f(pass ? "spurious" : "seq");
        int maxLen = pass ? 2 : 3;
        for (int len = 1; len <= maxLen; ++len) {
            int total = 1; for (int i = 0; i < len; ++i) total *= END;
            for (int threads = 1; threads <= 3; ++threads) for (int slow = 0; slow <= 2; ++slow) for (int k = 0; k < total; ++k) {
                std::vector<int> ops; int v = k; for (int i = 0; i < len; ++i) { ops.push_back(v % END); v /= END; }
                if (slow == 2 && len > 2) continue;
                std::string d; for (int o : ops) { d += opName[o]; d += " "; }
                int bound = len == 1 ? (threads == 3 ? 3 : 4) : len == 2 ? (threads == 3 ? 2 : 3) : (threads == 1 ? 2 : 1);
                if (slow) --bound;
                if (pass) bound = len == 1 ? 2 : 1;
                if (mcThorough) ++bound;
                if (f.next("%d threads, slow %d, bound %d: %s", threads, slow, bound, d.c_str())) { slowJobs = slow; explore(bound, pass == 1, [&] { runSeq(threads, ops); }); }
            }
        }
    }
    return mcFinish();
}

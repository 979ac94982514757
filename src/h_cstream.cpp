/* Streaming compression: C06 (round trip of every call sequence), C07 (flush), C19 (progress and
 * remaining output), C11 (timers and the extreme schedules of the background thread).
 * Sequences of documented calls are enumerated to a depth over an alphabet that covers every
 * function, input size class and output mode; the deliverables are checked after every call. */
#include "cstream.h"
static void runSeq(const Cfg& c, int kind, const std::vector<Op>& ops, uint64_t timers = 0, Out fin = BIG) {
    mc_sched.timerMask = timers; mc_sched.timedWaits = 0;
    Sess S(c.p, c.dual, c.timeout, c.early, kind);
    for (auto& o : ops) if (!doOp(S, o)) { mcCount("sequences cut as illegal"); break; }
    if (!S.done) S.end(fin);
    mcCount("sequences");
}
static void famSeq(const char* name, const std::vector<Op>& al, unsigned depth, const std::vector<Cfg>& cs, std::vector<int> kinds) {
    Fam f(name);
    for (auto& c : cs) for (int kind : kinds) for (unsigned len = 1; len <= depth; ++len) {
        uint64_t total = 1; for (unsigned i = 0; i < len; ++i) total *= al.size();
        for (uint64_t k = 0; k < total; ++k) {
            if (!f.mine()) continue;
            std::vector<Op> ops; uint64_t v = k; for (unsigned i = 0; i < len; ++i) { ops.push_back(al[v % al.size()]); v /= al.size(); }
            std::string d; for (auto& o : ops) d += opStr(o);
            Out fin = (Out)(k % 3);
            if (!f.next("%s; data %d: %send(%s)", c.n, kind, d.c_str(), outName[fin])) continue;
            runSeq(c, kind, ops, 0, fin);
        }
    }
}
/* constant step sizes for input and output */
static void famSteps() {
    Fam f("steps");
    static const size_t steps[] = {1, 2, 3, 7, 15, 16, 17, 100, 255, 511, 512, 513, 1000, 2047, 3583, 3584, 3585, 4079, 4080, 4081, 4095, 4096, 4097, 5000, 8191, 8192, 20000};
    for (auto& c : cfgs()) for (size_t st : steps) for (size_t total : {(size_t)1, (size_t)4096, (size_t)9001, (size_t)13000}) for (size_t os : {(size_t)0, (size_t)1, (size_t)13, (size_t)600, (size_t)60000}) for (int kind = 0; kind < 3; ++kind) {
        if (kind && st % 3 != 1) continue;
        if (!f.mine()) continue;
        if (!f.next("%s; data %d: %zu bytes in steps of %zu, output of %zu per call (0: internal buffers)", c.n, kind, total, st, os)) continue;
        mc_sched.timerMask = 0; mc_sched.timedWaits = 0;
        Sess S(c.p, c.dual, c.timeout, c.early, kind); unsigned idle = 0, calls = 0;
        FL2_inBuffer in = {nullptr, 0, 0}; size_t given = 0;
        while (S.fed < total) {
            if (in.pos == in.size) { size_t n = std::min(st, total - given); in = S.ib(S.src() + given, n); given += n; }
            FL2_outBuffer o = S.obn(os); size_t ip = in.pos;
            size_t r = FL2_compressStream(S.s, os ? &o : nullptr, &in); S.fed += in.pos - ip; if (os) S.take(o, "FL2_compressStream");
            if (S.timedOut(r)) { S.wait(); continue; } if (r > 1) S.fail("FL2_compressStream", r);
            S.observe("FL2_compressStream");
            if (!os && r) S.next();
            if (ip == in.pos && o.pos == S.oPre && os) { if (++idle > 3) mcFail("no progress in %u calls with output space %zu", idle, os); } else idle = 0;
            if (++calls > 1000 + 4 * total) mcFail("compressing does not finish");
        }
        for (unsigned k = 0;; ++k) {
            FL2_outBuffer o = S.obn(os); size_t r = FL2_endStream(S.s, os ? &o : nullptr); if (os) S.take(o, "FL2_endStream");
            if (S.timedOut(r)) { S.wait(); continue; } if (r > 1) S.fail("FL2_endStream", r);
            { unsigned long long q; FL2_getCStreamProgress(S.s, &q); size_t rem = FL2_remainingOutputSize(S.s); if ((!FL2_isError(rem) && S.out.size() + rem > q) || !r) S.ended = true; }
            S.observe("FL2_endStream");
            if (!r) break;
            if (!os) S.next();
            if (k > 200 + 2 * total) mcFail("ending does not finish");
        }
        S.done = true; S.verify(); mcCount("sequences");
    }
}
/* flush position near the end of the dictionary, then a few more bytes: little room in the match table */
static void famTail() {
    Fam f("tail");
    for (auto& c : cfgs()) for (size_t back = 0; back <= 40; ++back) for (size_t more = 0; more <= back && more <= 12; ++more) for (int kind = 0; kind < 3; ++kind) for (int e = 0; e < 2; ++e) {
        if (!f.mine()) continue;
        if (!f.next("%s; data %d: flush %zu bytes before the dictionary is full, then %zu bytes, %s", c.n, kind, back, more, e ? "flush, end" : "end")) continue;
        std::vector<Op> ops = {{'C', c.p.dict - back, BIG}, {'F', 0, BIG}, {'C', more, BIG}}; if (e) ops.push_back({'F', 0, FIVE});
        runSeq(c, kind, ops, 0, e ? NONE : BIG);
    }
}
/* blocks of every kind with the real parameter defaults, several dictionaries long, all flush positions on a grid */
static void famFlushGrid() {
    Fam f("flush grid");
    for (auto& c : cfgs()) for (size_t a = 0; a <= 9000; a += mcThorough ? 101 : 307) for (size_t b : {(size_t)0, (size_t)1, (size_t)500, (size_t)3600, (size_t)4100}) for (int kind = 0; kind < 2; ++kind) for (int m = 0; m < 3; ++m) {
        if (!f.mine()) continue;
        if (!f.next("%s; data %d: %zu bytes, flush(%s), %zu bytes, flush, end", c.n, kind, a, outName[m], b)) continue;
        runSeq(c, kind, {{'C', a, (Out)(m ? m : 0)}, {'F', 0, (Out)m}, {'C', b, FIVE}, {'F', 0, BIG}}, 0, (Out)m);
    }
}
/* every expiry pattern of the timer, with the background thread running as late or as early as possible */
static void famTimers() {
    Fam f("timers");
    std::vector<std::vector<Op>> sc = {
        {{'C', 100, BIG}, {'F', 0, BIG}, {'C', 50, BIG}}, {{'C', D + 100, BIG}}, {{'C', 2 * D + 700, FIVE}}, {{'C', 3 * D, NONE}, {'F', 0, NONE}}, {{'A', 0, BIG}, {'A', 0, BIG}, {'N', 0, BIG}, {'G', 100, BIG}},
        {{'A', 1, BIG}, {'F', 0, FIVE}, {'A', 0, BIG}, {'N', 1, BIG}}, {{'C', D, BIG}, {'C', D, BIG}, {'O', 9, BIG}, {'C', 700, BIG}}, {{'C', 900, BIG}, {'f', 0, BIG}, {'f', 0, BIG}, {'C', 900, BIG}}, {{'C', D - 1, BIG}, {'e', 0, FIVE}, {'E', 0, BIG}, {'R', 0, BIG}, {'C', 30, BIG}},
        {{'C', D, NONE}, {'N', 0, NONE}, {'C', D, BIG}, {'W', 0, BIG}, {'O', 99999, BIG}, {'G', 7, BIG}}, {{'C', D + 1, BIG}, {'R', 0, BIG}, {'C', D + 1, BIG}}, {{'I', 3, BIG}, {'C', 5000, BIG}, {'I', 3, BIG}} };
    std::vector<Cfg> cs; for (int dual = 0; dual < 2; ++dual) for (int early = 0; early < 2; ++early) for (int ov : {0, 2}) for (unsigned t : {1u, 2u}) { static char nm[16][64]; static int k = 0; snprintf(nm[k], 64, "%s buffer, overlap %d, %u threads, %s", dual ? "dual" : "single", ov, t, early ? "early" : "late"); cs.push_back(cfg(nm[k++], t == 2 ? 1 : 0, ov, ov ? 4 : 1, t, dual, early, 1)); }
    unsigned bits = mcThorough ? 10 : 7;
    for (auto& c : cs) for (size_t i = 0; i < sc.size(); ++i) for (uint64_t m = 0; m < (1u << bits); ++m) for (int kind = 0; kind < 2; ++kind) {
        if (kind && m > 3) continue;
        if (!f.mine()) continue;
        std::string d; for (auto& o : sc[i]) d += opStr(o);
        if (!f.next("%s; data %d: %stimer pattern %llx", c.n, kind, d.c_str(), (unsigned long long)m)) continue;
        runSeq(c, kind, sc[i], m, (Out)(m % 3)); mcMax("timed waits", mc_sched.timedWaits);
    }
}
/* the real constants: minimum dictionary of 1 MiB, slices and chunks of their real sizes */
static std::vector<Cfg> realCfgs() {
    return { cfg("single", 0, 2, 4, 1, 0, false), cfg("dual, no overlap, late", 1, 0, 1, 2, 1, false), cfg("dual, 3 threads, early", 2, 14, 2, 3, 1, true), cfg("timeout set, raw", 0, 5, 0, 1, 0, false, 1, 1),
             cfg("odd size, lp 2", 0, 0, 1, 2, 0, false, 0, 0, 0, D + 4099, 1), cfg("2 MiB, 9 threads", 1, 3, 2, 9, 0, false, 0, 0, -1, 2 * D) };
}
static void realMain() {
    D = 1 << 20; FED_MAX = 8 * D; COPY = 77777; outSize[BIG] = 400000; outSize[FIVE] = 4999;
    IB = new GuardBuf(3 * D); OB = new GuardBuf(FED_MAX + 500000); DC = FL2_createDCtx();
    /* text at which matches of all distances exist, with stretches of noise longer than a chunk; runs of one byte with marks */
    size_t n = FED_MAX + ROT + 4096;
    Bytes b = text(n, 3); for (size_t i = 300000; i + 150000 < n; i += 900000) { Bytes r = noise(140000, (u32)i); memcpy(&b[i], r.data(), r.size()); }
    for (size_t i = D; i + 3000 < n; i += 65536 * 3 - 7) memcpy(&b[i], &b[i - D + 5 + (i >> 10) % 100], 3000);
    SRC[0] = b; SRC[1] = noise(n, 5); SRC[2].assign(n, 0); for (size_t i = 0; i < n; i += 33333) SRC[2][i] = (u8)(i / 33333);
    std::vector<Cfg> cs = realCfgs();
    if (mcProp != "C06" && !mcThorough) cs = mcProp == "C07" ? std::vector<Cfg>{cs[0], cs[2], cs[3]} : std::vector<Cfg>{cs[1], cs[4]};
    std::vector<Op> al = {{'C', 1000, BIG}, {'C', 70001, FIVE}, {'C', D + 3, NONE}, {'C', 2 * D + 70000, BIG}, {'G', 300000, BIG}, {'A', 0, BIG}, {'A', 1, BIG}, {'N', 1, BIG}, {'O', 3000, BIG}, {'F', 0, FIVE}, {'f', 0, BIG}, {'E', 0, BIG}, {'R', 0, BIG}};
    std::vector<Op> core = {{'C', 1, BIG}, {'A', 0, BIG}, {'C', D - 5, FIVE}, {'f', 0, BIG}};
    famSeq("real size sequences", al, mcThorough ? 3 : 2, cs, mcThorough ? std::vector<int>{0, 1, 2} : std::vector<int>{0});
    famSeq("real size core sequences", core, mcThorough ? 5 : 4, cs, {2});
    if (!mcThorough) famSeq("real size incompressible", {{'C', 1000, BIG}, {'C', D + 70000, FIVE}, {'A', 1, BIG}, {'f', 0, BIG}}, 2, cs, {1});
    Fam f("real size tail");
    for (auto& c : cs) for (size_t back = 0; back <= 40; back += mcThorough ? 1 : 5) for (size_t more = 0; more <= back; more += 3) for (int kind : {0, 2}) {
        if (!f.mine() || !f.next("%s; data %d: flush %zu bytes before the dictionary is full, then %zu bytes, end", c.n, kind, back, more)) continue;
        runSeq(c, kind, {{'C', c.p.dict - back, BIG}, {'F', 0, BIG}, {'C', more, BIG}}, 0, FIVE);
    }
}
int main(int argc, char** argv) {
    mcInit(argc, argv);
    if (mcJob == "real") { realMain(); mcCount("transitions", nOps); return mcFinish(); }
    IB = new GuardBuf(1 << 18); OB = new GuardBuf(1 << 18); DC = FL2_createDCtx();
    for (int k = 0; k < 3; ++k) {
        Bytes b; if (k == 0) { b = text(90000, 3); for (size_t i = 3000; i + 700 < b.size(); i += 5000) { Bytes n = noise(600, (u32)i); memcpy(&b[i], n.data(), 600); } } else if (k == 1) b = noise(90000, 5); else { b.assign(90000, 0); for (size_t i = 0; i < b.size(); i += 333) b[i] = (u8)(i / 333); }
        SRC[k] = b;
    }
    std::vector<Op> full; for (size_t n : {(size_t)0, (size_t)1, (size_t)100, D - 1, D, D + 1, 2 * D + 700}) for (Out m : {BIG, NONE, FIVE}) { if (n == D - 1 && m == NONE) continue; full.push_back({'C', n, m}); }
    for (Op o : {Op{'C', 1000, ZERO}, Op{'G', 0, BIG}, Op{'G', 1, BIG}, Op{'A', 0, BIG}, Op{'A', 1, BIG}, Op{'N', 0, BIG}, Op{'N', 1, BIG}, Op{'O', 3, BIG}, Op{'O', 50000, BIG}, Op{'F', 0, BIG}, Op{'F', 0, NONE}, Op{'F', 0, FIVE}, Op{'f', 0, FIVE}, Op{'I', 12, BIG}, Op{'e', 0, FIVE}, Op{'E', 0, BIG}, Op{'W', 0, BIG}, Op{'L', 0, BIG}, Op{'L', 1, BIG}, Op{'R', 0, BIG}}) full.push_back(o);
    std::vector<Op> core = {{'C', 1, BIG}, {'C', 1500, FIVE}, {'C', D + 3, NONE}, {'A', 0, BIG}, {'G', 0, BIG}, {'G', 1200, BIG}, {'N', 0, BIG}, {'N', 1, BIG}, {'O', 3, BIG}, {'F', 0, NONE}, {'f', 0, BIG}, {'L', 0, BIG}};
    bool deep = mcThorough;
    if (mcJob == "timers") famTimers();
    else if (mcJob == "steps") { famSteps(); famTail(); famFlushGrid(); }
    else { famSeq("sequences", full, deep ? 3 : 2, cfgs(), {0, 1}); std::vector<Cfg> cc = cfgs(); if (mcProp != "C06" && !deep) { std::vector<Cfg> h; for (size_t i = 0; i < cc.size(); ++i) if (mcProp == "C07" ? i % 2 == 0 : i == 0 || i == 4 || i == 6 || i == 7) h.push_back(cc[i]); cc = h; } famSeq("core sequences", core, deep ? 5 : 4, cc, {0}); }
    mcCount("transitions", nOps);
    return mcFinish();
}

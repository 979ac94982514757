/* C05 (streaming decompression), C18 (memory limit of MT streams), C19 (decompression progress):
 * every division of input and output of a set of streams, thread counts, memory limits, trailing data. */
#include "lib.h"
#include "streams.h"

static GuardBuf *IB, *OB;
static FL2_DStream* DS[5];
static uint64_t nCalls;

struct Ref { Bytes s, data; size_t total; u8 prop; size_t dict; };
static Ref mk(const Bytes& s) {
    Ref r; RefStream R = refStream(s.data(), s.size());
    if (R.info.st != RefInfo::OK) { fprintf(stderr, "harness: bad base stream: %s\n", R.info.why); _exit(3); }
    r.s = s; r.data = R.info.out; r.total = R.total; r.prop = R.prop; r.dict = (size_t)refDictSize(R.prop); return r;
}
/* One decompression.  in/out piece sizes come from callbacks; trail bytes follow the stream. */
struct Run {
    unsigned threads = 1; bool withProp = false; size_t trail = 0; size_t memLimit = ~(size_t)0; bool freshObj = false;
    unsigned idleMask = 0;   /* bit k: an idle call (no input, no output space) before call k */
    bool keepRest = false;   /* hand the unread rest of a piece over again together with the next piece */
    size_t pre = 0;          /* every piece and output buffer starts at this position of its buffer, after other data */
};
static void runOne(const Ref& R, const std::function<size_t(size_t)>& inPiece, const std::function<size_t(size_t)>& outPiece, const Run& o) {
    Bytes s(R.s.begin(), R.s.end()); for (size_t i = 0; i < o.trail; ++i) s.push_back(o.trail & 1 ? (u8)(i * 37 + 1) : (u8)0);
    size_t base = mc_alloc.live;
    unsigned t = o.threads; FL2_DStream* d = DS[t];
    if (o.freshObj && d) { FL2_freeDStream(d); d = nullptr; base = mc_alloc.live; }
    if (!d) { d = FL2_createDStreamMt(t); if (!d) mcFail("create failed"); }
    DS[t] = d;
    size_t base2 = mc_alloc.live;
    mc_alloc_reset();
    FL2_setDStreamMemoryLimitMt(d, o.memLimit);
    size_t e = o.withProp ? FL2_initDStream_withProp(d, s[0]) : FL2_initDStream(d);
    if (FL2_isError(e)) mcFail("init: %s", errName(e));
    size_t start = o.withProp ? 1 : 0, fed = start, total = R.total, n = R.data.size();
    size_t idx = 0, oidx = 0, call = 0, idle = 0; u64 prog = 0; size_t got = 0; Bytes out; out.reserve(n + 64);
    static u8 dummy[1];
    FL2_inBuffer in = {dummy, 0, 0}; FL2_outBuffer ob = {dummy, 0, 0}; bool haveOut = false;
    for (;;) {
        if (in.pos == in.size || (o.keepRest && in.pos < in.size && fed < s.size())) {
            size_t rest = in.size - in.pos, want = fed < s.size() ? std::min(inPiece(idx++), s.size() - fed) : 0;
            size_t from = fed - rest; Bytes pc(o.pre, 0xEE); pc.insert(pc.end(), s.data() + from, s.data() + from + rest + want);
            in.src = IB->put(pc.data(), pc.size()); in.size = pc.size(); in.pos = o.pre; fed += want;
        }
        if (!haveOut || ob.pos == ob.size) { size_t w = outPiece(oidx++); ob.dst = OB->get(w + o.pre); memset(ob.dst, 0xDD, o.pre); ob.size = w + o.pre; ob.pos = o.pre; haveOut = true; }
        if (call < 8 && (o.idleMask >> call & 1)) {
            FL2_inBuffer i2 = {in.src, in.pos, in.pos}; FL2_outBuffer o2 = {ob.dst, ob.pos, ob.pos};
            size_t c = FL2_decompressStream(d, &o2, &i2); ++nCalls;
            if (FL2_isError(c)) mcFail("a call without input or output space: %s", errName(c));
            if (i2.pos != in.pos || o2.pos != ob.pos) mcFail("a call without input or output space moved the positions");
            if (c == 0 && !(got == n && fed - (in.size - in.pos) == total)) mcFail("an idle call reported completion");
            if (c == 0) { if (FL2_getDStreamProgress(d) != n) mcFail("progress at the end"); return; }
        }
        size_t ip = in.pos, op = ob.pos;
        size_t c = FL2_decompressStream(d, &ob, &in); ++call; ++nCalls;
        OB->check("streaming decompression");
        if (FL2_isError(c)) mcFail("valid stream: error %s after %zu bytes in, %zu of %zu out", errName(c), fed - (in.size - in.pos), got + ob.pos - op, n);
        if (in.pos > in.size || (in.pos < ip)) mcFail("input position moved from %zu to %zu (size %zu)", ip, in.pos, in.size);
        if (ob.pos > ob.size || ob.pos < op) mcFail("output position moved from %zu to %zu (size %zu)", op, ob.pos, ob.size);
        size_t k = ob.pos - op; if (got + k > n || (k && memcmp(R.data.data() + got, (u8*)ob.dst + op, k))) mcFail("wrong data after %zu bytes", got);
        for (size_t i = 0; i < o.pre; ++i) if (((u8*)ob.dst)[i] != 0xDD) mcFail("output before the position given was overwritten");
        got += k;
        size_t used = fed - (in.size - in.pos);
        if (used > total) mcFail("read %zu bytes of input, the stream has %zu", used, total);
        u64 p = FL2_getDStreamProgress(d);
        if (p < prog) mcFail("progress went from %llu back to %llu", (unsigned long long)prog, (unsigned long long)p);
        if (p < got) mcFail("progress %llu is behind the %zu bytes delivered", (unsigned long long)p, got);
        if (p > n) mcFail("progress %llu exceeds the content, %zu", (unsigned long long)p, n);
        prog = p;
        mcNewState(mcMix(mcMix(mcMix((u64)(uintptr_t)&R ^ used * 1000003, got), c), t));
        if (c == 0) {
            if (got != n) mcFail("completion reported with %zu of %zu bytes delivered", got, n);
            if (used != total) mcFail("completion reported with %zu of %zu bytes of input read", used, total);
            if (p != n) mcFail("progress at the end is %llu, the content has %zu bytes", (unsigned long long)p, n);
            break;
        }
        if (c != 1) mcFail("return value %zu", c);
        if (used == total && got == n && (R.prop & 0x80)) mcFail("stream with hash read and all output delivered, but completion not reported");
        if (in.pos == ip && ob.pos == op) { if (++idle > 2 && fed == s.size() && ob.pos < ob.size) mcFail("no progress with all input and output space available (%zu read, %zu delivered)", used, got); }
        else idle = 0;
        if (call > 200 + 12 * (s.size() + n)) mcFail("does not finish");
    }
    if (o.memLimit != ~(size_t)0 && t > 1) {
        size_t dictBuf = (R.dict + 0xFFF) & ~(size_t)0xFFF; size_t used = mc_alloc.peak - base2;
        if (used > o.memLimit + dictBuf + 1024) mcFail("allocated %zu bytes during decompression, limit %zu", used, o.memLimit);
        if (o.memLimit >= (R.dict + R.dict / 6) * 2 && used > o.memLimit) mcCount("single-thread fallbacks");
        mcMax("bytes allocated", used);
    }
    (void)base;
}
static std::function<size_t(size_t)> all() { return [](size_t) { return (size_t)1 << 20; }; }
static std::function<size_t(size_t)> steps(size_t k) { return [k](size_t) { return k; }; }
static std::function<size_t(size_t)> cuts(std::vector<size_t> c) { return [c](size_t i) { return i < c.size() ? c[i] : (size_t)1 << 20; }; }
static const unsigned TH[] = {1, 2, 3};
static std::vector<std::pair<std::string, Ref>> base() { static std::vector<std::pair<std::string, Ref>> r; if (r.empty()) for (auto& b : bases(true)) r.push_back({b.first, mk(b.second)}); return r; }
static bool mcSmall;
static const size_t OMAX = 1 << 16;
static std::function<size_t(size_t)> outAll() { return steps(OMAX); }

/* every composition of the input of the shortest streams */
static void famComp() {
    Fam f("comp");
    for (auto& b : base()) { const Ref& R = b.second; size_t n = R.total; if (n > (mcThorough ? 20 : 16)) continue;
        for (unsigned t : TH) for (int tr = 0; tr < 2; ++tr) for (size_t os : {(size_t)0, (size_t)1, (size_t)3}) {
            if (n > 14 && (tr || os == 3) && !mcThorough) continue;
            size_t len = n; for (uint64_t m = 0; m < (1ull << (len - 1)); ++m) {
                if (!f.mine()) continue;
                if (!f.next("%s, %u threads, %d bytes trailing, output step %zu, input cut mask %llx", b.first.c_str(), t, tr * 3, os, (unsigned long long)m)) continue;
                std::vector<size_t> c; size_t last = 0; for (size_t i = 0; i + 1 < len; ++i) if (m >> i & 1) { c.push_back(i + 1 - last); last = i + 1; }
                if (tr) c.push_back(len - last + 1);
                Run o; o.threads = t; o.trail = tr * 3; o.keepRest = m & 1; o.pre = (m >> 1 & 1) * 9; runOne(R, cuts(c), os ? steps(os) : outAll(), o);
            } }
    }
}
/* every pair of split points */
static void famSplit() {
    Fam f("split");
    for (auto& b : base()) { const Ref& R = b.second; size_t n = R.total; bool big = n > 300;
        for (unsigned t : TH) for (int tr = 0; tr < 2; ++tr) for (size_t i = 1; i < n; ++i) { if (big && i > 30 && i + 40 < n && i % 256 > 22 && i % 256 < 230) continue;
            for (size_t j = i; j < n; ++j) { if (big && j > i + 40 && j + 40 < n) continue; if (!f.mine()) continue;
                if (!f.next("%s, %u threads, trailing %d, input cut at %zu and %zu", b.first.c_str(), t, tr * 25, i, j)) continue;
                Run o; o.threads = t; o.trail = tr * 25; o.withProp = j & 1; o.pre = ((i ^ j) >> 1 & 1) * 9;
                if (o.withProp) { if (i < 2) runOne(R, cuts({j}), outAll(), o); else runOne(R, cuts({i - 1, j - i + (j == i)}), outAll(), o); }
                else runOne(R, cuts({i, j - i + (j == i)}), outAll(), o); } }
    }
    Fam g("inout");
    for (auto& b : base()) { const Ref& R = b.second; size_t n = R.total, m = R.data.size();
        for (unsigned t : TH) for (size_t i = 1; i < n; ++i) { if (n > 300 && i > 30 && i + 40 < n) continue;
            for (size_t j = 1; j <= m; ++j) { if (m > 200 && j > 20 && j + 30 < m) continue; if (!g.mine()) continue;
                if (!g.next("%s, %u threads, input cut at %zu, output cut at %zu", b.first.c_str(), t, i, j)) continue;
                Run o; o.threads = t; o.trail = (i + j) % 3 * 11; o.pre = ((i ^ j) & 1) * 9; runOne(R, cuts({i}), [j](size_t k) { return k ? OMAX : j; }, o); } } }
}
static void famSteps() {
    Fam f("steps");
    for (auto& b : base()) { const Ref& R = b.second; bool big = R.total > 300;
        for (unsigned t : TH) for (size_t is = 1; is <= 64; ++is) for (size_t os = 1; os <= 64; ++os) {
            if (big && !(os == 1 || os % 16 == 0 || is == 1 || is == 20 || is == 21)) continue;
            if (!f.mine()) continue;
            if (!f.next("%s, %u threads, input step %zu, output step %zu", b.first.c_str(), t, is, os)) continue;
            Run o; o.threads = t; o.trail = is % 3 * 7; o.keepRest = is & 1; o.pre = ((is >> 1 ^ os) & 1) * 9; runOne(R, steps(is), steps(os), o); } }
    Fam g("idle");
    for (auto& b : base()) { const Ref& R = b.second; if (R.total > 300) continue;
        for (unsigned t : TH) for (unsigned m = 1; m < 256; ++m) for (size_t is : {(size_t)1, (size_t)5, (size_t)0}) { if (!g.mine()) continue;
            if (!g.next("%s, %u threads, idle calls %02x, input step %zu", b.first.c_str(), t, m, is)) continue;
            Run o; o.threads = t; o.idleMask = m; o.pre = (m >> 2 & 1) * 9; runOne(R, is ? steps(is) : all(), m & 1 ? steps(4) : outAll(), o); } }
}
/* chunk boundaries at every offset around the end of the input nodes of MT decoding (0x100 bytes in the
 * model-checking build): the first chunk is stored and ends at offset off */
static Ref nodeStream(int off, int kind, u8 prop) {
    RefEnc e; setProps(e, 3, 0, 2); Bytes h((size_t)std::max(off, 64)); u32 x = 77; for (auto& v : h) { x = x * 1664525 + 1013904223; v = (u8)(x >> 24); }
    e.stored(h.data(), (size_t)off - 3, true);
    auto lz = [&](int mode) { e.begin((unsigned)mode); for (int i = 0; i < 9; ++i) e.literal((u8)(i * 29 + off)); e.match(5, 40); e.literal(1); e.end(); };
    if (kind == 0) {}
    else if (kind == 1) lz(2);
    else if (kind == 2) { lz(3); lz(3); }
    else if (kind == 3) { lz(3); e.stored(h.data(), 7, false); lz(3); }
    else if (kind == 4) { lz(3); e.begin(0); e.match(1, 300 - 27); e.end(); e.begin(3); for (int i = 0; i < 250; ++i) e.literal(h[i % off]); e.end(); lz(3); }
    else { e.stored(h.data(), (size_t)off - 3, true); lz(2); lz(3); lz(3); lz(3); }
    e.eos(); return mk(e.stream(prop));
}
static void famNode() {
    Fam f("node");
    std::vector<int> offs; for (int o = 210; o <= 262; ++o) offs.push_back(o); for (int o = 460; o <= 520; o += mcThorough ? 1 : 3) offs.push_back(o); for (int o : {4, 20, 100, 600, 1000}) offs.push_back(o);
    for (int off : offs) for (int kind = 0; kind < 6; ++kind) { u8 prop = (u8)((kind & 1 ? 0x80 : 0));
        std::vector<size_t> ins = {0, 1, 2, 3, 7, 19, 20, 21, 64, 255, 256, 257}; if (mcThorough) for (size_t k = 4; k < 70; ++k) ins.push_back(k);
        for (unsigned t : {2u, 3u, 4u}) for (size_t is : ins) for (size_t os : {(size_t)0, (size_t)13}) for (int tr : {0, 30, 700}) for (size_t pre : {(size_t)0, (size_t)9}) { if (pre && (os || tr == 700) && !mcThorough) continue;
            if (!f.mine()) continue;
            if (!f.next("first chunk ends at %d, kind %d, %u threads, input step %zu, output step %zu, trailing %d, start position %zu", off, kind, t, is, os, tr, pre)) continue;
            Ref R = nodeStream(off, kind, prop); Run o; o.threads = t; o.trail = tr; o.keepRest = is & 1; o.pre = pre; runOne(R, is ? steps(is) : all(), os ? steps(os) : outAll(), o); }
        for (unsigned t : {2u, 3u}) { Ref R = nodeStream(off, kind, prop); for (size_t i = 200; i < 300 && i < R.total; ++i) { if (!f.mine()) continue;
            if (!f.next("first chunk ends at %d, kind %d, %u threads, input cut at %zu", off, kind, t, i)) continue; Run o; o.threads = t; o.trail = 30; o.pre = (i & 1) * 9; runOne(R, cuts({i}), outAll(), o); } } }
}
/* memory limits: every limit around each allocation total */
static Ref limitStream(int kind) {
    RefEnc e; setProps(e, 3, 0, 2); u32 x = 3; Bytes h(4096); for (auto& v : h) { x = x * 1664525 + 1013904223; v = (u8)(x >> 24); }
    for (int b = 0; b < 6; ++b) {
        if (kind == 0) { e.begin(3); for (int i = 0; i < 30; ++i) e.literal(h[b * 40 + i]); for (int i = 0; i < 12; ++i) e.match(30, 273); e.end(); }
        else if (kind == 1) { e.begin(3); for (int i = 0; i < 900; ++i) e.literal(h[b * 40 + i]); e.end(); e.stored(h.data(), 1500, false); }
        else if (kind == 2) { e.begin(3); e.literal(h[b]); e.end(); e.stored(h.data() + b, b == 3 ? 4000 : 700, false); e.begin(0); e.match(3, 50); e.end(); }
        else { e.begin(3); for (int i = 0; i < 5; ++i) e.literal(h[b]); for (int i = 0; i < 40; ++i) e.match(1 + i % 5, 273); e.end(); }
    }
    e.eos(); return mk(e.stream(kind & 1 ? 0x80 : 0));
}
static void famLimit() {
    Fam f("limit");
    for (int kind = 0; kind < 4; ++kind) { Ref R = limitStream(kind);
        for (unsigned t : {2u, 3u, 4u}) for (size_t lim = 0; lim < 60000; lim += (lim < 9400 ? 1175 : lim < 30000 ? (mcThorough ? 8 : 40) : 1000)) for (size_t is : {(size_t)0, (size_t)1, (size_t)13, (size_t)300, (size_t)1000}) for (size_t os : {(size_t)0, (size_t)9, (size_t)1000}) {
            if (is == 1 && os == 9 && !mcThorough) continue;
            if (!f.mine()) continue;
            if (!f.next("stream %d, %u threads, limit %zu, input step %zu, output step %zu", kind, t, lim, is, os)) continue;
            Run o; o.threads = t; o.memLimit = lim; o.trail = is % 2 * 9; o.freshObj = (lim / 8) & 1; o.pre = (lim / 16 & 1) * 9; runOne(R, is ? steps(is) : all(), os ? steps(os) : outAll(), o); } }
    /* small change around each boundary found by the node size */
    Fam g("limit1");
    for (int kind = 0; kind < 4; ++kind) { Ref R = limitStream(kind); for (size_t lim = 9555; lim < 9555 + (mcThorough ? 12000 : 1500); ++lim) { if (!g.mine()) continue;
        if (!g.next("stream %d, 2 threads, limit %zu", kind, lim)) continue; Run o; o.threads = 2; o.memLimit = lim; o.trail = 25; o.pre = (lim & 1) * 9; runOne(R, all(), outAll(), o); } }
}
/* several streams in one input, each started anew */
static void famMulti() {
    Fam f("multi");
    auto B = base();
    for (size_t a = 0; a < B.size(); ++a) for (size_t b = 0; b < B.size(); ++b) for (unsigned t : TH) for (size_t is : {(size_t)0, (size_t)1, (size_t)6, (size_t)21}) for (size_t os : {(size_t)0, (size_t)3}) {
        if (!f.mine()) continue;
        if (!f.next("%s then %s, %u threads, input step %zu, output step %zu", B[a].first.c_str(), B[b].first.c_str(), t, is, os)) continue;
        Bytes s = B[a].second.s; size_t n1 = s.size(); s.insert(s.end(), B[b].second.s.begin(), B[b].second.s.end());
        FL2_DStream* d = DS[t]; if (!d) d = DS[t] = FL2_createDStreamMt(t);
        FL2_setDStreamMemoryLimitMt(d, 1 << 29);
        size_t pos = 0;
        for (int k = 0; k < 2; ++k) {
            const Ref& R = B[k ? b : a].second; FL2_initDStream(d); Bytes out; size_t end = k ? s.size() : n1; unsigned calls = 0;
            for (;;) {
                size_t n = is ? std::min(is, s.size() - pos) : s.size() - pos; FL2_inBuffer in = {IB->put(s.data() + pos, n), n, 0};
                size_t on = os ? os : OMAX; FL2_outBuffer ob = {OB->get(on), on, 0};
                size_t c = FL2_decompressStream(d, &ob, &in); ++nCalls; pos += in.pos; OB->check("decompressStream");
                if (FL2_isError(c)) mcFail("stream %d: %s", k, errName(c));
                out.insert(out.end(), (u8*)ob.dst, (u8*)ob.dst + ob.pos);
                if (c == 0) break;
                if (++calls > 60 + 4 * (s.size() + R.data.size())) mcFail("stream %d does not finish", k);
            }
            if (pos != end) mcFail("stream %d: input position %zu after completion, the stream ends at %zu", k, pos, end);
            if (out != R.data) mcFail("stream %d: wrong data", k);
        }
    }
}
int main(int argc, char** argv) {
    mcInit(argc, argv);
    IB = new GuardBuf(1 << 17); OB = new GuardBuf(1 << 17);
    if (mcProp == "C18") famLimit();
    else if (mcProp == "C19") { famSplit(); famSteps(); famNode(); }
    else {
        if (mcJob == "node") { famNode(); famLimit(); famMulti(); famSteps(); }
        else { famComp(); famSplit(); famSteps(); famMulti(); }
    }
    mcCount("transitions", nCalls);
    return mcFinish();
}

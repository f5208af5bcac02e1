// Runs scripts on the real audio buffer; with -DCONC producer and consumer are threads under the deterministic scheduler, one process per scenario.
// reset <fmt U8P|S16P|FLTP> <channels> <rate> <samples> <out> [sched...] | add <n> <s> <u> | get | release | out <n> | bulk <k> <n> <s> <u> <pos>
// CONC: w add|wait ..., c get|release|wait ...
#include "vf.hh"
#include "AudioCircularBuffer.hh"
#include "Utils.hh"
#include <unistd.h>
#include <sys/wait.h>
#include <deque>
#ifdef CONC
#include "sched/sched.hh"
#include <thread>
#endif
using namespace vf;
static AudioCircularBuffer* b; static int rate, chn, bps, outN, gap; static FILE* out; static Frame* held;
static void emit(const Ev& e) { fputs((e.s + "}\n").c_str(), out); fflush(out); }
struct In { long v; unsigned n; std::vector<unsigned char> d[MAX_CHANNELS]; }; static std::deque<In> ins; static long v; static uint64_t rnd = 88172645463325252ULL;
static unsigned char nz() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return 1 + (rnd >> 20) % 255; } // bytes that are never silence
static const std::chrono::system_clock::time_point base = std::chrono::system_clock::time_point(std::chrono::seconds(1000000000));
static Ev& obs(Ev& e) { return e.k("n", b->getElements()).k("free", b->getFreeSamples()).b("full", b->isFull()).k("lost", b->getLostBlocs()); }
static void fill(unsigned n, long s, long u) { // the next input
    v++; PlanarAudioFrame* f = dynamic_cast<PlanarAudioFrame*>(b->getRear()); if (!f) bad("no input frame"); In in; in.v = v; in.n = n;
    for (int c = 0; c < chn; c++) { in.d[c].resize(n * bps); for (auto& x : in.d[c]) x = nz(); if (n && !c) in.d[0][0] = 1 + v % 250; memcpy(f->getPlanarDataBuf()[c], in.d[c].data(), n * bps); }
    f->setSamples(n); f->setLength(n * bps); f->setPresentationTime(std::chrono::microseconds(s * 1000000LL + u)); f->setOriginTime(base + std::chrono::seconds(v));
    ins.push_back(in); if (ins.size() > 600) ins.pop_front();
}
static bool ids(const std::vector<int>& r) { return r.empty() || (r.size() == 2 && r[0] == 11 && r[1] == 12); }
static size_t agree(const In& in, unsigned j, const unsigned char* p, size_t max) { size_t k = 0; while (k < max && j + k < in.n && !memcmp(&in.d[0][(j + k) * bps], p + k * bps, bps)) k++; return k; }
static long lv, lv0; static unsigned lj, lj0; static bool again; // where the output was
static void decode(Ev& e, Frame* f0) { // what the output is made of
    PlanarAudioFrame* f = dynamic_cast<PlanarAudioFrame*>(f0); e.b("null", !f); if (!f) return;
    if (again) { lv = lv0; lj = lj0; } lv0 = lv; lj0 = lj; again = true;
    unsigned n = f->getSamples(); const unsigned char* p = f->getPlanarDataBuf()[0]; std::string runs = "["; bool same = true;
    for (unsigned i = 0; i < n;) {
        const unsigned char* q = p + i * bps; size_t len = 0; long rv = -1; unsigned rj = 0; bool z = true; for (int x = 0; x < bps; x++) z = z && !q[x];
        if (z) { rv = 0; while (i + len < n) { for (int x = 0; x < bps; x++) if (q[len * bps + x]) z = false; if (!z) break; len++; } for (int c = 1; c < chn; c++) for (size_t k = 0; k < len * bps; k++) same = same && !f->getPlanarDataBuf()[c][i * bps + k]; }
        else {
            const In* best = nullptr; auto tryat = [&](const In& in, unsigned j) { size_t k = agree(in, j, q, std::min<size_t>(n - i, 40)); if (k > len) { len = k; best = &in; rj = j; } };
            for (auto& in : ins) if (in.v == lv) tryat(in, lj);
            for (auto& in : ins) if (in.v > lv) tryat(in, 0);
            if (!len) for (auto& in : ins) for (unsigned j = 0; j < in.n; j++) tryat(in, j);
            if (best) { rv = best->v; len = agree(*best, rj, q, n - i); for (int c = 1; c < chn; c++) same = same && !memcmp(f->getPlanarDataBuf()[c] + i * bps, &best->d[c][rj * bps], len * bps); lv = rv; lj = rj + len; }
            else len = 1;
        }
        runs += (runs.size() > 1 ? "," : "") + std::string("{\"v\":") + std::to_string(rv) + ",\"j\":" + std::to_string(rj) + ",\"n\":" + std::to_string(len) + "}"; i += len;
    }
    long long ts = f->getPresentationTime().count(), og = std::chrono::duration_cast<std::chrono::nanoseconds>(f->getOriginTime() - base).count();
    long long om = og / 1000 - (og % 1000 < 0), os = om / 1000000 - (om % 1000000 < 0);
    e.k("s", ts / 1000000).k("u", ts % 1000000).k("os", os).k("ou", om - os * 1000000).raw("runs", runs + "]").b("same", same).b("len", (int)f->getSamples() == outN && (int)f->getLength() == outN * bps && (int)f->getChannels() == chn && (int)f->getSampleRate() == rate);
}
static int gcd(int a, int c) { return c ? gcd(c, a % c) : a; }
static void make(const std::vector<std::string>& w) {
    std::string k = w[1]; SampleFmt fmt = k == "U8P" ? U8P : k == "S16P" ? S16P : FLTP; bps = k == "U8P" ? 1 : k == "S16P" ? 2 : 4; chn = atoi(w[2].c_str()); rate = atoi(w[3].c_str()); gap = atoi(w[4].c_str()); outN = atoi(w[5].c_str());
    ConnectionData c; c.wFilterId = 7; c.writerId = 1; for (int i = 1; i <= 2; i++) { ReaderData r; r.rFilterId = 10 + i; r.readerId = i; c.readers.push_back(r); }
    b = AudioCircularBuffer::createNew(c, chn, rate, gap, fmt); if (!b) bad("no buffer"); b->setOutputFrameSamples(outN);
    int g = gcd(1000000, rate); Ev e("reset"); emit(obs(e.k("rate", rate).k("num", 1000000 / g).k("den", rate / g).k("out", outN).k("gap", gap).k("cap", b->getFreeSamples()).b("conc", w.size() > 6)));
}
#ifndef CONC
int main(int argc, char** argv) {
    Script sc; sc.open(argv[1]); out = fopen(argv[2], "w"); if (!out) return 3;
    while (sc.next()) {
        Ev e(sc.op().c_str());
        if (sc.is("reset")) { delete b; held = nullptr; ins.clear(); v = lv = lj = 0; again = false; make(sc.w); continue; }
        else if (sc.is("add")) { int n = sc.num(); long s = sc.num(), u = sc.num(); fill(n, s, u); std::vector<int> r = b->addFrame(); e.k("v", v).k("k", n).k("s", s).k("u", u).b("ids", ids(r)); }
        else if (sc.is("get")) { Frame* f = b->getFront(); if (f) held = f; decode(e, f); }
        else if (sc.is("fget")) { if (!held) continue; e = Ev("get"); decode(e, b->forceGetFront()); }
        else if (sc.is("release")) { held = nullptr; again = false; e.b("w", b->removeFrame() == 7); }
        else if (sc.is("out")) { if (held) continue; outN = sc.num(); b->setOutputFrameSamples(outN); e.k("k", outN); }
        else if (sc.is("bulk")) { long k = sc.num(), n = sc.num(), s = sc.num(), u = sc.num(), pos = sc.num(); bool ok = true; std::vector<unsigned char> d(n * bps); for (auto& x : d) x = nz();
            for (long i = 0; i < k && ok; i++) { PlanarAudioFrame* f = dynamic_cast<PlanarAudioFrame*>(b->getRear()); auto ts = std::chrono::microseconds(s * 1000000LL + u + (pos + i * n) * 1000000LL / rate);
                d[0] = 1 + i % 255; memcpy(f->getPlanarDataBuf()[0], d.data(), n * bps); f->setSamples(n); f->setPresentationTime(ts); f->setOriginTime(base + std::chrono::seconds(v)); b->addFrame();
                PlanarAudioFrame* o = dynamic_cast<PlanarAudioFrame*>(b->getFront()); ok = o && o->getPresentationTime() == ts && !memcmp(o->getPlanarDataBuf()[0], d.data(), n * bps); b->removeFrame(); }
            e.k("k", k).k("each", n).b("ok", ok); }
        else bad("op " + sc.op());
        emit(obs(e));
    }
    delete b; return 0;
}
#else
static std::vector<std::vector<std::string>> ops; static std::vector<std::string> head;
static long long N(const std::vector<std::string>& w, size_t i) { if (i >= w.size()) bad("missing argument"); return atoll(w[i].c_str()); }
static void conc() {
    sched::Params P; P.seed = N(head, 6); P.strategy = N(head, 7); P.pMem = N(head, 8); P.pSync = N(head, 9); P.pTime = N(head, 10); P.changes = N(head, 11); P.length = N(head, 12);
    sched::start(P); make(head); bool* done = new bool(false);
    std::thread prod([&] {
        for (auto& o : ops) if (o[0] == "w") {
            if (o[1] == "wait") { sched::sleepUs(N(o, 2)); continue; }
            int n = N(o, 2); while (b->getFreeSamples() < N(o, 5)) sched::sleepUs(300); // there is room for the frame and the silence before it
            fill(n, N(o, 3), N(o, 4)); emit(Ev("AddCall").k("v", v).k("k", n).k("s", N(o, 3)).k("u", N(o, 4))); b->addFrame(); emit(Ev("AddRet"));
        }
    });
    std::thread cons([&] {
        std::vector<std::vector<std::string>> mine; for (auto& o : ops) if (o[0] == "c") mine.push_back(o); size_t i = 0; int idle = 0;
        while (idle < 3) {
            std::vector<std::string> o = mine.empty() ? std::vector<std::string>{"c", "get"} : mine[i++ % mine.size()];
            if (o[1] == "wait") sched::sleepUs(N(o, 2));
            else if (o[1] == "qry") { b->getElements(); b->isFull(); }
            else { for (int t = 0; t < (o[1] == "get2" ? 2 : 1); t++) { emit(Ev("GetCall")); bool last = *done; Frame* f = b->getFront(); Ev e("GetRet"); decode(e, f); emit(e); held = f; idle = f ? 0 : last ? idle + 1 : 0; if (!f) { sched::sleepUs(200); break; } }
                if (held) { sched::yield(); emit(Ev("RelCall")); b->removeFrame(); held = nullptr; again = false; } }
        }
    });
    prod.join(); *done = true; cons.join();
    Ev e("End"); emit(obs(e)); delete b; _exit(0);
}
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    Script s; s.open(argv[1]); FILE* f = fopen(argv[2], "w"); if (!f) return 3; fclose(f); out = fopen(argv[2], "a");
    auto flush = [&]() { if (head.empty()) return; fflush(out); pid_t p = fork(); if (p == 0) conc(); int st; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return; exit(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st)); };
    while (s.next()) { if (s.is("reset")) { flush(); head = s.w; ops.clear(); } else ops.push_back(s.w); }
    flush(); return 0;
}
#endif

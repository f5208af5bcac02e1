// Runs scripts on the real shared memory filter. The filter's own mapping of the control page is kept inaccessible: every access of the
// filter to it is single-stepped, so that each store is seen and the external reader can act between any two of them.
#include "vid.hh"
#include "SlicedVideoFrameQueue.hh"
#include "modules/sharedMemory/SharedMemory.hh"
#include <sys/mman.h>
#include <sys/shm.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
using namespace vf; using namespace vid;
static Out out; static Script sc;
struct Unit { long v; std::string kind; std::vector<unsigned char> bytes; int pix, w, h; long long ts; bool good; std::vector<unsigned char> body; };
static std::map<long, Unit> units; static std::vector<Unit> todo; static bool sliced; static unsigned seqNo;
// a source of units of raw or coded video, one by one or as the slices of a picture
struct S : HeadFilter {
    StreamInfo si; bool raw; unsigned cap = 4; SlicedVideoFrameQueue* sq = nullptr;
    S(bool raw_, PixType p) : HeadFilter(1), si(VIDEO), raw(raw_) { si.video.codec = raw ? RAW : H264; si.video.pixelFormat = p; }
    struct UQ : VideoFrameQueue { UQ(ConnectionData c, const StreamInfo* si, unsigned n, bool raw, size_t len) : VideoFrameQueue(c, si, n) { for (unsigned i = 0; i < n; i++) frames[i] = InterleavedVideoFrame::createNew(raw ? RAW : H264, len); } };
    FrameQueue* allocQueue(ConnectionData c) { if (sliced) return SlicedVideoFrameQueue::createNew(c, &si, 40, 4096); return new UQ(c, &si, cap, raw, raw && todo.empty() ? 1920 * 1080 * 4 : 4096); }
    void doGetState(Jzon::Object&) {} bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
    bool doProcessFrame(std::map<int, Frame*>& d, int& ret) {
        ret = 0; if (d.empty() || todo.empty()) return false; Frame* f = d.begin()->second; Unit& u = todo[0];
        if (SlicedVideoFrame* p = dynamic_cast<SlicedVideoFrame*>(f)) { for (auto& x : todo) p->setSlice(x.bytes.data(), x.bytes.size()); p->setSize(u.w, u.h); }
        else { InterleavedVideoFrame* v = dynamic_cast<InterleavedVideoFrame*>(f); memcpy(v->getDataBuf(), u.bytes.data(), u.bytes.size()); v->setLength(u.bytes.size()); v->setSize(u.w, u.h); v->setPixelFormat((PixType)u.pix); }
        f->setPresentationTime(std::chrono::microseconds(u.ts)); f->setDecodeTime(std::chrono::microseconds(u.ts + 1)); f->setConsumed(true); return true;
    }
};
struct Fwd { int n = 0; bool ok = true; }; static Fwd fwd; static long expect; static std::chrono::system_clock::time_point ta, tb;
struct Snk : TailFilter {
    Snk() : TailFilter(1) { setSync(false); } void doGetState(Jzon::Object&) {} bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; }
    bool doProcessFrame(std::map<int, Frame*>& o, std::vector<int> nw, int& ret) { ret = 0;
        for (int r : nw) { VideoFrame* f = dynamic_cast<VideoFrame*>(o[r]); Unit& u = units[expect]; fwd.n++;
            fwd.ok = fwd.ok && f && f->getLength() == u.bytes.size() && !memcmp(f->getDataBuf(), u.bytes.data(), u.bytes.size()) && f->getWidth() == u.w && f->getHeight() == u.h && f->getPixelFormat() == u.pix && f->getPresentationTime().count() == u.ts && f->getDecodeTime().count() == u.ts + 1 && f->getSequenceNumber() == seqNo && ta <= f->getOriginTime() && f->getOriginTime() <= tb; }
        return true; }
};
static SharedMemory* m; static S* src; static Snk* sink; static bool raw;
// ---- the region as the external reader maps it, and the filter's mapping
static unsigned char *mine, *its; static long accesses, takeAt = -1; static unsigned char last[4096]; static std::string published; static bool watching;
static unsigned u16(int o) { return mine[o] | mine[o + 1] << 8; } static long long u32(int o) { unsigned x; memcpy(&x, mine + o, 4); return x; }
static std::string region() { // what a reader would get: header and the units the data is made of
    long long len = u32(20); std::string ids = "["; std::vector<long> v;
    const unsigned char* d = mine + HEADER_SIZE;
    if (len < 0 || len > SHMSIZE - HEADER_SIZE) v.push_back(-1);
    else if (raw) { long id = -1; for (auto& u : units) if ((long long)u.second.bytes.size() == len && !memcmp(d, u.second.bytes.data(), len)) id = u.first; v.push_back(id); }
    else for (long long i = 0; i < len;) {
        if (i + 4 > len || memcmp(d + i, "\0\0\0\1", 4)) { v.push_back(-1); break; }
        i += 4; long id = -1; size_t n = 0; for (auto& u : units) if (u.second.good && i + (long long)u.second.body.size() <= len && !memcmp(d + i, u.second.body.data(), u.second.body.size())) { id = u.first; n = u.second.body.size(); }
        v.push_back(id); if (id < 0) break; i += n; }
    for (size_t i = 0; i < v.size(); i++) ids += (i ? "," : "") + std::to_string(v[i]);
    Ev e(""); e.s = "\"seq\":" + std::to_string(u16(2)); e.k("pf", u16(4)).k("codec", u16(6)).k("h", u16(8)).k("w", u16(10)).k("sec", u32(12)).k("usec", u32(16)).k("len", len).raw("ids", ids + "]"); return e.s;
}
static void take() { // the external reader: reads what is marked readable and gives it back
    if (mine[0] != CHAR_READING) return; Ev e("took"); e.b("same", region() == published); mine[0] = CHAR_WRITING; memcpy(last, mine, 4096); out.put(e);
}
static void onSegv(int, siginfo_t* si, void* c) {
    unsigned char* a = (unsigned char*)si->si_addr;
    if (!its || a < its || a >= its + 4096) { signal(SIGSEGV, SIG_DFL); return; }
    if (takeAt >= 0 && accesses++ == takeAt) { takeAt = -1; take(); }
    memcpy(last, mine, 4096); mprotect(its, 4096, PROT_READ | PROT_WRITE); ((ucontext_t*)c)->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void look() { // after an access of the filter
    if (!memcmp(last, mine, 4096)) return;
    bool was = last[0] == CHAR_READING, is = mine[0] == CHAR_READING;
    if (!was && is) { published = region(); Ev e("pub"); e.s = "{\"op\":\"pub\"," + published; out.put(e); }
    else out.put(Ev("store").b("readable", was));
    memcpy(last, mine, 4096);
}
static void onTrap(int, siginfo_t*, void* c) { ((ucontext_t*)c)->uc_mcontext.gregs[REG_EFL] &= ~0x100ULL; look(); mprotect(its, 4096, PROT_NONE); }
static void protect(bool on) { if (its) mprotect(its, 4096, on ? PROT_NONE : PROT_READ | PROT_WRITE); }
static unsigned char* mapping(size_t id) { std::ifstream f("/proc/self/maps"); std::string l; while (std::getline(f, l)) if (l.find("/SYSV") != std::string::npos) { std::istringstream is(l); std::string r, p, o, d; size_t ino; is >> r >> p >> o >> d >> ino; if (ino == id) return (unsigned char*)strtoull(r.c_str(), 0, 16); } return nullptr; }
static void clean() { protect(false); if (m) { its = nullptr; delete src; delete m; delete sink; if (mine) shmdt(mine); } m = nullptr; src = nullptr; sink = nullptr; mine = nullptr; units.clear(); todo.clear(); seqNo = 0; }
static Unit unit(long v, const std::string& kind, int w, int h, int pix, long long ts) {
    Unit u; u.v = v; u.kind = kind; u.w = w; u.h = h; u.pix = pix; u.ts = ts; u.good = true; auto put = [&](std::initializer_list<int> x) { for (int b : x) u.bytes.push_back(b); };
    if (kind == "raw" || kind == "big" || kind == "full") { size_t n = kind == "raw" ? 10 + v % 50 : kind == "big" ? 1920 * 1080 * 4 : 1920 * 1080 * 3; u.bytes.resize(n); for (size_t i = 0; i < n; i++) u.bytes[i] = v * 7 + i * 3; return u; }
    static const std::map<std::string, int> types = {{"AUD", 9}, {"SPS", 0x67}, {"PPS", 0x68}, {"SEI", 6}, {"IDR", 0x65}, {"NON", 0x41}, {"OTH", 12}, {"DPA", 2}};
    std::string k = kind; bool shrt = false; if (k.back() == '3') { shrt = true; k.pop_back(); }
    if (k == "BAD") { put({5, 6, 7, 8, 0x65, 9}); u.good = false; }
    else if (k == "EMP") { if (shrt) put({0, 0, 1}); else put({0, 0, 0, 1}); u.good = false; }
    else { if (shrt) put({0, 0, 1}); else put({0, 0, 0, 1}); size_t st = u.bytes.size(); u.bytes.push_back(types.at(k)); if (k == "AUD") u.bytes.push_back(0xf0); else { char b[24]; snprintf(b, sizeof b, "%ld.", v); for (char* c = b; *c; c++) u.bytes.push_back(*c); for (int i = 0; i < v % 30; i++) u.bytes.push_back(0x80 | (v + i)); } u.body.assign(u.bytes.begin() + st, u.bytes.end()); u.good = k != "AUD" && k != "OTH" && k != "DPA"; }
    return u;
}
static void process(const Unit& u, long long at) { // one unit through the filter, the reader acting before its access number at
    expect = u.v; fwd = Fwd(); accesses = 0; takeAt = at; int ret = 0;
    out.put(Ev("begin").k("v", u.v).t("kind", u.kind.back() == '3' ? u.kind.substr(0, 3) : u.kind).k("seq", seqNo).k("w", u.w).k("h", u.h).k("pix", u.pix).k("sec", u.ts / 1000000).k("usec", u.ts % 1000000).k("len", u.bytes.size()).k("body", u.body.size()));
    memcpy(last, mine, 4096); protect(true); m->processFrame(ret); protect(false); takeAt = -1; sink->processFrame(ret);
    out.put(Ev("end").k("fwd", fwd.n).b("ok", fwd.ok).b("readable", mine[0] == CHAR_READING).b("same", mine[0] != CHAR_READING || region() == published));
}
int main(int argc, char** argv) {
    sc.open(argv[1]); out.open(argv[2]); long v = 0; std::vector<std::pair<Unit, long long>> wait;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO | SA_NODEFER; sa.sa_sigaction = onSegv; sigaction(SIGSEGV, &sa, 0); sa.sa_sigaction = onTrap; sigaction(SIGTRAP, &sa, 0);
    unsigned key = 200000 + getpid() % 1000000;
    auto kick = [&]() { ta = std::chrono::high_resolution_clock::now(); int ret; src->processFrame(ret); tb = std::chrono::high_resolution_clock::now(); };
    while (sc.next()) {
        if (sc.is("reset")) { clean(); v = 0; std::string k = sc.str(); raw = k[0] == 'r'; sliced = k == "sliced"; wait.clear();
            while (!(m = SharedMemory::createNew(key, raw ? RAW : H264))) key++;
            m->setId(100); src = new S(raw, RGB32); src->setId(1); sink = new Snk(); sink->setId(200);
            if (k != "rawbig") todo.push_back(Unit()); // small frames
            bool early = m->connectOneToOne(sink); // without input it does not know what its output is
            if (!src->connectOneToOne(m) || !m->connectOneToOne(sink)) bad("connect"); todo.clear();
            unsigned char* theirs = mapping(m->getSharedMemoryID()); mine = (unsigned char*)shmat(m->getSharedMemoryID(), 0, 0); its = theirs; if (mine == (void*)-1 || !its || its == mine) bad("mapping"); shmctl(m->getSharedMemoryID(), IPC_RMID, 0); // it is gone with its last mapping, whatever happens
            Jzon::Object st; m->getState(st); out.put(Ev("reset").b("raw", raw).b("readable", mine[0] == CHAR_READING).b("early", early).b("id", (size_t)st.Get("memoryId").ToInt() == m->getSharedMemoryID()));
        } else if (sc.is("take")) take();
        else if (sc.is("u")) { // u kind w h pix ts at
            std::string k = sc.str(); int w = sc.num(), h = sc.num(), p = sc.num(); long long ts = sc.num(), at = sc.num(); Unit u = unit(++v, k, w, h, p, ts); units[v] = u;
            if (!sliced) { todo = {u}; kick(); process(units[v], at); seqNo++; }
            else { u.pix = units[v].pix = -1; u.h = units[v].h = wait.empty() ? h : wait[0].first.h; u.w = units[v].w = wait.empty() ? w : wait[0].first.w; u.ts = units[v].ts = wait.empty() ? ts : wait[0].first.ts; wait.push_back({u, at}); }
        } else if (sc.is("pic")) { if (wait.empty()) continue; todo.clear(); for (auto& x : wait) todo.push_back(x.first); kick(); for (auto& x : wait) process(units[x.first.v], x.second); wait.clear(); seqNo++;
        } else bad("op " + sc.op());
    }
    clean(); return 0;
}

// Mock filters of every kind on the real BaseFilter machinery, with a counted queue of the real class.
#pragma once
#include "vf.hh"
#include "sched/sched.hh"
#include "Filter.hh"
#include "AVFramedQueue.hh"
#include <memory>
#include <functional>
namespace mf {
struct DF : Frame { // frame whose content is a function of one number
    unsigned char buf[64]; unsigned char* pl[1]; unsigned len = 0;
    DF() { memset(buf, 0, sizeof buf); pl[0] = buf; originTime = std::chrono::system_clock::time_point(std::chrono::microseconds(0)); sequenceNumber = 0; presentationTime = std::chrono::microseconds(0); consumed = false; }
    unsigned char* getDataBuf() { return buf; } unsigned char** getPlanarDataBuf() { return pl; }
    unsigned getLength() { return len; } unsigned getMaxLength() { return 64; } void setLength(unsigned l) { len = l; } bool isPlanar() { return false; }
};
inline void fillFrame(Frame* f, long v, long long ts) { f->setLength(8 + v % 40); for (unsigned i = 0; i < f->getLength(); i++) f->getDataBuf()[i] = (unsigned char)(v * 13 + i); memcpy(f->getDataBuf(), &v, 4); f->setPresentationTime(std::chrono::microseconds(ts)); }
inline long content(Frame* f) { if (!f) return -3; int v; memcpy(&v, f->getDataBuf(), 4); if (f->getLength() == 0) return 0; if (f->getLength() != (unsigned)(8 + v % 40)) return -1; for (unsigned i = 4; i < f->getLength(); i++) if (f->getDataBuf()[i] != (unsigned char)(v * 13 + i)) return -2; return v; }
extern int liveQueues; extern std::chrono::system_clock::time_point t0;
inline long long org(Frame* f) { return std::chrono::duration_cast<std::chrono::microseconds>(f->getOriginTime() - t0).count(); }
struct CQ : AVFramedQueue {
    long serial; static std::map<Frame*, CQ*>& owner() { static std::map<Frame*, CQ*> m; return m; } static std::function<void(CQ*, bool)>& watch() { static std::function<void(CQ*, bool)> f; return f; }
    CQ(ConnectionData c, unsigned max) : AVFramedQueue(c, nullptr, max) { static long n; serial = ++n; for (unsigned i = 0; i < max; i++) { frames[i] = new DF(); owner()[frames[i]] = this; } __atomic_add_fetch(&liveQueues, 1, __ATOMIC_SEQ_CST); if (watch()) watch()(this, true); }
    ~CQ() { if (watch()) watch()(this, false); for (unsigned i = 0; i < max; i++) owner().erase(frames[i]); __atomic_sub_fetch(&liveQueues, 1, __ATOMIC_SEQ_CST); }
};
struct Core { // what a filter is asked to do and what it was given
    bool refR = false, refW = false, refQ = false; unsigned cap = 4; int kind = 0;
    std::map<int, long long> produce; int retv = 0; long long busy = 0; long* counter = nullptr;
    bool called = false; std::vector<int> outs, news; std::vector<long> evs; std::string ins, prod; bool hasNews = false;
    std::function<void(Core&, std::map<int, Frame*>&, std::vector<int>&, std::map<int, Frame*>&)> hook; // replaces the scripted processing
    void clear() { called = hasNews = false; outs.clear(); news.clear(); evs.clear(); ins = prod = ""; }
    bool proc(std::map<int, Frame*> o, std::map<int, Frame*> d, const std::vector<int>* n, int* ret) {
        called = true;
        if (hook) { std::vector<int> nn; if (n) nn = *n; else for (auto& x : o) if (x.second->getConsumed()) nn.push_back(x.first); hook(*this, o, nn, d); if (ret) *ret = retv; bool any = false; for (auto& x : d) any = any || x.second->getConsumed(); return any; }
        for (auto& x : o) { if (!ins.empty()) ins += ","; ins += vf::Ev("in").k("r", x.first).b("nw", x.second->getConsumed()).k("v", content(x.second)).k("ts", x.second->getPresentationTime().count()).k("org", org(x.second)).k("seq", x.second->getSequenceNumber()).s.substr(0) + "}"; }
        if (n) { news = *n; hasNews = true; }
        bool any = false;
        for (auto& x : d) { outs.push_back(x.first);
            if (produce.count(x.first)) { long v = ++*counter; fillFrame(x.second, v, produce[x.first]); x.second->setConsumed(true); if (kind == 'O' && !o.empty()) { x.second->setOriginTime(o.begin()->second->getOriginTime()); x.second->setSequenceNumber(o.begin()->second->getSequenceNumber()); } any = true; if (!prod.empty()) prod += ","; prod += vf::Ev("out").k("w", x.first).k("v", v).k("ts", produce[x.first]).s + "}"; } }
        if (ret) *ret = retv;
        return any;
    }
};
struct Any { Core c; virtual BaseFilter* f() = 0; virtual ~Any() {} virtual void sync(bool) = 0; };
#define MF_EV(self) for (const char* n : {"a", "b"}) eventMap[n] = [this](Jzon::Node* p) -> bool { c.evs.push_back(p ? p->Get("n").ToInt() : -1); return p && p->Get("n").ToInt() % 5 != 0; }
#define MF_R bool specificReaderConfig(int, FrameQueue*) { return !c.refR; } bool specificReaderDelete(int) { return true; }
#define MF_W bool specificWriterConfig(int) { return !c.refW; } bool specificWriterDelete(int) { return true; } FrameQueue* allocQueue(ConnectionData d) { return c.refQ ? nullptr : new CQ(d, c.cap); }
#define MF_C void doGetState(Jzon::Object&) {} BaseFilter* f() { return this; } void sync(bool s) { setSync(s); }
struct H : Any, HeadFilter { H(FilterRole r, bool p, unsigned w) : HeadFilter(w, r, p) { MF_EV(); } MF_W MF_C bool doProcessFrame(std::map<int, Frame*>& d, int& ret) { return c.proc({}, d, nullptr, &ret); } };
struct O : Any, OneToOneFilter { O(FilterRole r, bool p) : OneToOneFilter(r, p) { MF_EV(); } MF_R MF_W MF_C bool doProcessFrame(Frame* o, Frame* d) { return c.proc({{1, o}}, {{1, d}}, nullptr, nullptr); } };
struct M : Any, OneToManyFilter { M(FilterRole r, bool p, unsigned w) : OneToManyFilter(w, r, p) { MF_EV(); } MF_R MF_W MF_C bool doProcessFrame(Frame* o, std::map<int, Frame*>& d) { return c.proc({{1, o}}, d, nullptr, nullptr); } };
struct N : Any, ManyToOneFilter { N(FilterRole r, bool p, unsigned rd) : ManyToOneFilter(rd, r, p) { MF_EV(); } MF_R MF_W MF_C bool doProcessFrame(std::map<int, Frame*>& o, Frame* d, std::vector<int> n) { return c.proc(o, {{1, d}}, &n, nullptr); } };
struct T : Any, TailFilter { T(FilterRole r, bool p, unsigned rd) : TailFilter(rd, r, p) { MF_EV(); } MF_R MF_C bool doProcessFrame(std::map<int, Frame*>& o, std::vector<int> n, int& ret) { c.proc(o, {}, &n, &ret); return true; } };
struct Peek : BaseFilter { // ids of the writers of a filter, queues of its readers
    static std::vector<long> rqs(BaseFilter* f) { std::lock_guard<std::mutex> g(f->*(&Peek::mtx)); std::vector<long> v; for (auto& x : f->*(&Peek::readers)) if (x.second && x.second->isConnected()) if (CQ* q = dynamic_cast<CQ*>(x.second->getQueue())) v.push_back(q->serial); return v; }
    static std::vector<int> wids(BaseFilter* f) { std::lock_guard<std::mutex> g(f->*(&Peek::mtx)); std::vector<int> v; for (auto& x : f->*(&Peek::writers)) v.push_back(x.first); return v; }
    static std::vector<int> rids(BaseFilter* f) { std::lock_guard<std::mutex> g(f->*(&Peek::mtx)); std::vector<int> v; for (auto& x : f->*(&Peek::readers)) v.push_back(x.first); return v; }
};
inline Any* make(char k, FilterRole role, bool per, unsigned mr, unsigned mw) {
    Any* a = nullptr; int kk = k;
    switch (k) { case 'H': a = new H(role, per, mw); break; case 'O': a = new O(role, per); break; case 'M': a = new M(role, per, mw); break; case 'N': a = new N(role, per, mr); break; case 'T': a = new T(role, per, mr); break; default: vf::bad("kind"); }
    a->c.kind = kk; return a;
}
}

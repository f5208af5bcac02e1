// A Reader shared by several consumers on a real queue. One forked process per scenario.
// reset seq <max> <consumers> | ops: add, get c, rem c, join c, leave c, wdisc, qry
// reset conc <max> <sched...> | prod <n> <gap us> | cons <c> <join 0/1> <start us> <poll us> <hold us> <leave after n frames, 0 never> <leave holding 0/1>
#include "vf.hh"
#include "sched/sched.hh"
#include "AVFramedQueue.hh"
#include "IOInterface.hh"
#include "content.hh"
#include <unistd.h>
#include <sys/wait.h>
#include <thread>
using namespace vf;
static FILE* out; static std::vector<std::vector<std::string>> ops; static std::vector<std::string> head;
static void emit(const Ev& e) { fputs((e.s + "}\n").c_str(), out); fflush(out); }
static long long N(const std::vector<std::string>& w, size_t i) { if (i >= w.size()) bad("missing argument of " + w[0]); return atoll(w[i].c_str()); }
static FrameQueue* mkq(int max) {
    ConnectionData c; c.wFilterId = 7; c.writerId = 1; ReaderData r; r.rFilterId = 1; r.readerId = 1; c.readers.push_back(r);
    StreamInfo* si = new StreamInfo(AUDIO); si->audio.codec = AAC; si->audio.channels = 1; si->audio.sampleRate = 8000; si->audio.sampleFormat = S16;
    return AudioFrameQueue::createNew(c, si, max);
}
static std::string ids(FrameQueue* q) { std::string s = "["; for (auto& r : q->getCData().readers) s += (s.size() > 1 ? "," : "") + std::to_string(r.rFilterId); return s + "]"; }
static void seq() {
    sched::Params P; sched::start(P);
    int max = N(head, 2), nc = N(head, 3);
    FrameQueue* q = mkq(max); Writer* w = new Writer(); auto r = std::make_shared<Reader>();
    w->setQueue(q); if (!w->connect(r)) bad("connect"); // consumer 1
    for (int c = 2; c <= nc; c++) r->addReader(c, c);
    emit(Ev("reset").k("max", max).k("nc", nc));
    long v = 0; bool wup = true, rup = true; std::map<int, bool> holds;
    for (auto& o : ops) {
        Ev e(o[0].c_str()); int c = o.size() > 1 ? N(o, 1) : 0; e.k("c", c);
        if (o[0] == "add") { Frame* f = wup && rup ? w->getFrame() : nullptr; if (f) { writeFrame(f, ++v); w->addFrame(); } e.b("ok", f).k("v", v); }
        else if (o[0] == "get") { bool nw = false; Frame* f = r->getFrame(c, nw); if (nw) holds[c] = true; e.b("null", !f).b("nw", nw).k("v", readFrame(f)); }
        else if (o[0] == "rem" && rup && !holds[c] && r->getQueueElements() > 0 && ids(r->getQueue()).find(std::to_string(c)) != std::string::npos) continue; // consumers release what they got
        else if (o[0] == "rem") { holds[c] = false; int x = r->removeFrame(c); e.k("w", x); }
        else if (o[0] == "join") { r->addReader(c, c); }
        else if (o[0] == "leave") { holds[c] = false; bool b = r->disconnect(c); e.b("r", b); }
        else if (o[0] == "wdisc") { bool b = wup && w->disconnect(); wup = false; e.b("r", b); }
        else if (o[0] == "qry") {}
        else bad("op " + o[0]);
        rup = r->getQueue() != nullptr;
        e.b("conn", r->isConnected()).b("att", rup).k("n", r->getQueueElements()).k("lost", r->getLostBlocs());
        if (rup) { auto t = r->getCurrentTime(); e.b("full", r->isFull()).k("cur", t == NO_DTS ? 0 : t.count() / 1000).raw("ids", ids(r->getQueue())); }
        emit(e);
    }
    r.reset(); delete w;
    emit(Ev("end"));
    _exit(0);
}
static void conc() {
    sched::Params P; int max = N(head, 2); P.seed = N(head, 3); P.strategy = N(head, 4); P.pMem = N(head, 5); P.pSync = N(head, 6); P.pTime = N(head, 7); P.changes = N(head, 8); P.length = N(head, 9);
    sched::start(P);
    FrameQueue* q = mkq(max); Writer* w = new Writer(); auto r = std::make_shared<Reader>();
    w->setQueue(q); if (!w->connect(r)) bad("connect");
    emit(Ev("reset"));
    volatile bool* done = new bool(false);
    std::vector<std::thread> th; std::thread prod; long total = 0;
    for (auto& o : ops) if (o[0] == "cons" && N(o, 2) == 0 && N(o, 1) != 1) { emit(Ev("JoinCall").k("c", N(o, 1))); r->addReader(N(o, 1), N(o, 1)); emit(Ev("JoinRet").k("c", N(o, 1))); }
    emit(Ev("JoinCall").k("c", 1)); emit(Ev("JoinRet").k("c", 1));
    for (auto& o : ops) if (o[0] == "cons") {
        int c = N(o, 1), join = N(o, 2), start = N(o, 3), poll = N(o, 4), hold = N(o, 5), leave = N(o, 6), holding = N(o, 7);
        th.push_back(std::thread([=] {
            sched::sleepUs(start);
            if (join) { emit(Ev("JoinCall").k("c", c)); r->addReader(c, c); emit(Ev("JoinRet").k("c", c)); }
            int n = 0;
            while (!*done) {
                bool nw = false; Frame* f = r->getFrame(c, nw);
                if (!f) { emit(Ev("Null").k("c", c)); break; }
                if (nw) {
                    long v = readFrame(f); emit(Ev("Got").k("c", c).k("v", v)); n++;
                    if (hold) sched::sleepUs(hold); else sched::yield();
                    emit(Ev("RemCall").k("c", c).k("v", readFrame(f)));
                    if (leave && n == leave && holding) { emit(Ev("LeaveCall").k("c", c)); r->disconnect(c); emit(Ev("LeaveRet").k("c", c)); return; }
                    r->removeFrame(c);
                    r->getCurrentTime(); r->isFull(); r->getQueueElements();
                } else { r->getCurrentTime(); sched::sleepUs(poll); }
                if (leave && n == leave) { emit(Ev("LeaveCall").k("c", c)); r->disconnect(c); emit(Ev("LeaveRet").k("c", c)); return; }
            }
        }));
    } else if (o[0] == "prod") {
        int n = N(o, 1), gap = N(o, 2); total = n;
        prod = std::thread([=] {
            for (int i = 1; i <= n;) {
                if (!w->isConnected()) return;
                Frame* f = w->getFrame();
                if (f) { writeFrame(f, i); emit(Ev("Put").k("v", i)); w->addFrame(); i++; }
                if (gap || !f) sched::sleepUs(gap ? gap : 500);
            }
        });
    }
    prod.join(); sched::sleepUs(400000); emit(Ev("Quiet").k("total", total)); *done = true;
    for (auto& t : th) t.join();
    r.reset(); delete w;
    emit(Ev("End"));
    _exit(0);
}
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    Script s; s.open(argv[1]); FILE* f = fopen(argv[2], "w"); if (!f) return 3; fclose(f);
    out = fopen(argv[2], "a");
    auto flush = [&]() {
        if (head.empty()) return;
        fflush(out); pid_t p = fork();
        if (p == 0) { if (head[1] == "seq") seq(); else conc(); }
        int st; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
        exit(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
    };
    while (s.next()) { if (s.is("reset")) { flush(); head = s.w; ops.clear(); } else ops.push_back(s.w); }
    flush(); return 0;
}

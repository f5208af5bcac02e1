// A real frame queue between one producer and one consumer running at the same time under the controlled scheduler; one process per scenario.
// reset <kind> <max> <sched params 7> | p <op>... | c <op>...   producer: f force and add, a add if there is room, s<us> sleep; consumer: g get (and remove), l look only, n count, o look at the last taken, s<us> sleep
#include "vf.hh"
#include "sched/sched.hh"
#include "AVFramedQueue.hh"
#include <unistd.h>
#include <sys/wait.h>
#include <thread>
using namespace vf;
static FILE* out; static std::vector<std::string> head, ps, cs; static FrameQueue* q;
static void emit(const Ev& e) { fputs((e.s + "}\n").c_str(), out); fflush(out); }
static void put(Frame* f, long v) { f->setLength(64); unsigned char* b = f->getDataBuf(); for (int k = 0; k < 4; k++) { memset(b + k * 16, (v + k) & 255, 16); sched::yield(); } f->setSequenceNumber(v); }
static long get(Frame* f) { if (!f) return 0; unsigned char* b = f->getDataBuf(); long v = f->getSequenceNumber(); if (v == 0) return 0; for (int k = 0; k < 4; k++) { for (int i = 0; i < 16; i++) if (b[k * 16 + i] != ((v + k) & 255)) return -1; sched::yield(); } return f->getSequenceNumber() == (size_t)v ? v : -2; }
static void sleepOp(const std::string& o) { sched::sleepUs(atoi(o.c_str() + 1)); }
static void producer() {
    long v = 0;
    for (auto& o : ps) { if (o[0] == 's') { sleepOp(o); continue; }
        emit(Ev("RearCall").b("force", o[0] == 'f')); Frame* f = o[0] == 'f' ? q->forceGetRear() : q->getRear(); emit(Ev("RearRet").b("force", o[0] == 'f').b("got", f).k("lost", q->getLostBlocs()));
        if (!f) continue;
        put(f, ++v); emit(Ev("AddCall").k("v", v)); auto ids = q->addFrame(); emit(Ev("AddRet").k("ids", ids.size())); }
}
static void consumer() {
    for (auto& o : cs) { if (o[0] == 's') { sleepOp(o); continue; }
        if (o[0] == 'n') { emit(Ev("CountCall")); unsigned n = q->getElements(); emit(Ev("Count").k("n", n)); continue; }
        if (o[0] == 'u') { emit(Ev("CountCall")); bool u = q->isFull(); emit(Ev("Full").b("u", u)); continue; }
        if (o[0] == 'o') { emit(Ev("Last").k("v", get(q->forceGetFront()))); continue; }
        emit(Ev("FrontCall")); Frame* f = q->getFront(); long a = get(f); emit(Ev("Front").k("v", f ? a : 0).b("none", !f));
        if (!f || o[0] == 'l') continue;
        long b = get(f); emit(Ev("RemCall").k("v", b)); int w = q->removeFrame(); emit(Ev("RemRet").k("w", w)); }
}
static void scenario() {
    sched::Params P; P.seed = atoll(head[3].c_str()); P.strategy = atoi(head[4].c_str()); P.pMem = atoi(head[5].c_str()); P.pSync = atoi(head[6].c_str()); P.pTime = atoi(head[7].c_str()); P.changes = atoi(head[8].c_str()); P.length = atoi(head[9].c_str());
    int max = atoi(head[2].c_str()); ConnectionData c; c.wFilterId = 7; c.writerId = 1; ReaderData r; r.rFilterId = 11; r.readerId = 1; c.readers.push_back(r);
    StreamInfo* si = new StreamInfo(head[1] == "video" ? VIDEO : AUDIO);
    if (head[1] == "video") { si->video.codec = VP8; q = VideoFrameQueue::createNew(c, si, max); } else { si->audio.codec = AAC; si->audio.channels = 2; si->audio.sampleRate = 8000; si->audio.sampleFormat = S16; q = AudioFrameQueue::createNew(c, si, max); }
    if (!q) bad("queue");
    emit(Ev("reset").k("max", max)); sched::start(P);
    std::thread a(producer), b(consumer); a.join(); b.join();
    emit(Ev("end").k("n", q->getElements()).k("lost", q->getLostBlocs())); sched::stop(); fflush(out); _exit(0);
}
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    Script s; s.open(argv[1]); FILE* f = fopen(argv[2], "w"); if (!f) return 3; fclose(f);
    out = fopen(argv[2], "a");
    auto flush = [&]() { if (head.empty()) return; fflush(out); pid_t p = fork(); if (p == 0) scenario(); int st; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return; exit(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st)); };
    while (s.next()) { if (s.is("reset")) { flush(); head = s.w; ps.clear(); cs.clear(); } else if (s.is("p")) { while (s.more()) ps.push_back(s.str()); } else if (s.is("c")) { while (s.more()) cs.push_back(s.str()); } else bad("op " + s.line); }
    flush(); return 0;
}

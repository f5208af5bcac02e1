// A whole running pipeline: the real manager, pool, filters and queues with mock processing, while paths come and go; one process per scenario.
// reset <threads> <sched params 7> | filter <id> <type> <cap> <busy us> <period us> | path <id> <org> <dst> <w> <rd> <mid>... | rmpath <id> | rmfilter <id> | sleep <us> | quiet | state
#include "mock_modules.hh"
#include "PipelineManager.hh"
#include <unistd.h>
#include <sys/wait.h>
using namespace vf; using namespace mf;
namespace mf { int liveQueues; std::chrono::system_clock::time_point t0; }
static FILE* out; static std::vector<std::vector<std::string>> ops; static std::vector<std::string> head; static bool hushed; static PipelineManager* pm;
static void emit(const Ev& e) { fputs((Out::clamped(e.s) + ",\"t\":" + std::to_string((long long)sched::nowUs()) + "}\n").c_str(), out); fflush(out); }
namespace pmx {
long made, gone; std::map<BaseFilter*, Any*> mocks; static std::map<int, long> ctr;
struct Conf { int cap, busy, period; }; static std::map<int, Conf> conf; static Conf next;
static long long ts(Frame* f) { return f->getPresentationTime().count(); }
static long serial(Frame* f) { auto& o = CQ::owner(); auto i = o.find(f); return i == o.end() ? -1 : i->second->serial; }
static std::map<int, bool> shown; static std::map<long, long> told;
void enter(Any* a) { int f = a->f()->getId(); shown[f] = !(hushed && a->c.kind == 'H'); if (shown[f]) emit(Ev("Begin").k("f", f)); }
void leave(Any* a) { int f = a->f()->getId(); if (shown[f]) emit(Ev("End").k("f", f)); }
void proc(Any* a, Core& c, std::map<int, Frame*>& o, std::vector<int>& nw, std::map<int, Frame*>& d) {
    int id = a->f()->getId(); Conf k = conf[id]; std::map<int, long> was; long fwd = 0;
    for (auto& x : o) { bool n = c.kind == 'O' || c.kind == 'M' || std::count(nw.begin(), nw.end(), x.first) > 0; long v = was[x.first] = content(x.second); emit(Ev(n ? "R" : "O").k("f", id).k("q", serial(x.second)).k("v", v).k("ts", ts(x.second))); if (n && !fwd) fwd = v; }
    if (k.busy > 0) sched::sleepUs(k.busy); else sched::yield();
    for (auto& x : o) if (content(x.second) != was[x.first]) emit(Ev("Torn").k("f", id).k("q", serial(x.second)));
    if (c.kind == 'H') { c.retv = k.period; if (hushed || !shown[id]) { for (auto& x : d) { CQ* q = CQ::owner()[x.second]; if ((long)q->getLostBlocs() != told[q->serial]) { told[q->serial] = q->getLostBlocs(); emit(Ev(shown[id] ? "L" : "D").k("f", id).k("q", q->serial).k("lo", q->getLostBlocs())); } } return; } fwd = id * 100000 + ++ctr[id]; }
    for (auto& x : d) { CQ* q = CQ::owner()[x.second]; long long t = sched::nowUs() % 1000000; fillFrame(x.second, fwd, t); x.second->setConsumed(true); told[q->serial] = q->getLostBlocs(); emit(Ev("W").k("f", id).k("q", q->serial).k("v", fwd).k("ts", t).k("lo", q->getLostBlocs())); }
}
void born(Any* a) { made++; mocks[a->f()] = a; a->c.cap = next.cap; a->c.kind = dynamic_cast<H*>(a) ? 'H' : dynamic_cast<O*>(a) ? 'O' : dynamic_cast<M*>(a) ? 'M' : dynamic_cast<N*>(a) ? 'N' : 'T';
    a->c.hook = [a](Core& c, std::map<int, Frame*>& o, std::vector<int>& nw, std::map<int, Frame*>& d) { proc(a, c, o, nw, d); }; }
void dead(Any* a) { gone++; mocks.erase(a->f()); }
}
static void queue(CQ* q, bool made) { ConnectionData c = q->getCData(); Ev e(made ? "NewQ" : "DelQ"); e.k("q", q->serial); if (made) e.k("w", c.wFilterId).k("r", c.readers.front().rFilterId).k("cap", q->getMaxFrames()); emit(e); }
static void idle(int64_t a, int64_t b) { static int64_t last; if (b - last < 4000) return; last = b; fprintf(out, "{\"op\":\"Idle\",\"t\":%lld,\"to\":%lld}\n", (long long)a, (long long)b); fflush(out); }
static void ret(Ev e) { // what is there now
    std::string fs, mem; for (auto& x : pm->getFilters()) { fs += (fs.empty() ? "" : ",") + std::to_string(x.first); for (long q : Peek::rqs(x.second)) mem += (mem.empty() ? "[" : ",[") + std::to_string(x.first) + "," + std::to_string(q) + "]"; }
    emit(e.raw("fs", "[" + fs + "]").raw("mem", "[" + mem + "]"));
}
static void scenario() {
    sched::Params P; P.seed = atoll(head[2].c_str()); P.strategy = atoi(head[3].c_str()); P.pMem = atoi(head[4].c_str()); P.pSync = atoi(head[5].c_str()); P.pTime = atoi(head[6].c_str()); P.changes = atoi(head[7].c_str()); P.length = atoi(head[8].c_str()); P.maxSteps = 60000000; P.maxVirtualMs = 10000000;
    long long b = 12000; for (auto& o : ops) if (o[0] == "filter") b += std::max(1000, atoi(o[5].c_str())) + 2 * atoi(o[4].c_str());
    emit(Ev("reset").k("bound", b));
    sched::start(P); t0 = std::chrono::system_clock::now(); sched::onIdle = idle; CQ::watch() = queue; pm = PipelineManager::getInstance(atoi(head[1].c_str()));
    for (auto& o : ops) { auto num = [&](int k) { return atoi(o[k].c_str()); };
        if (o[0] == "filter") { int id = num(1); pmx::next = {num(3), num(4), num(5)}; pmx::conf[id] = pmx::next; Jzon::Object p, r; p.Add("id", id); p.Add("type", o[2]); char k = 0; emit(Ev("Call").t("k", "filter").a("fs", std::vector<int>{id}));
            pm->createFilterEvent(&p, r); bool ok = r.Has("error") && r.Get("error").IsNull(); for (auto& m : pmx::mocks) if (m.first->getId() == id) k = m.second->c.kind; ret(Ev("Ret").t("k", "filter").b("ok", ok).k("id", id).t("kind", std::string(1, k)));
        } else if (o[0] == "path") { std::vector<int> mids, fs{num(2), num(3)}; for (size_t i = 6; i < o.size(); i++) { mids.push_back(num(i)); fs.push_back(num(i)); }
            emit(Ev("Call").t("k", "path").a("fs", fs)); bool ok = pm->createPath(num(1), num(2), num(3), num(4), num(5), mids); if (ok && !pm->connectPath(num(1))) { ok = false; pm->removePath(num(1)); } ret(Ev("Ret").t("k", "path").b("ok", ok));
        } else if (o[0] == "rmpath") { std::vector<int> fs; Path* p = pm->getPath(num(1)); if (p) { fs = p->getFilters(); fs.push_back(p->getOriginFilterID()); fs.push_back(p->getDestinationFilterID()); }
            emit(Ev("Call").t("k", "rmpath").a("fs", fs)); bool ok = pm->removePath(num(1)); ret(Ev("Ret").t("k", "rmpath").b("ok", ok));
        } else if (o[0] == "rmfilter") { emit(Ev("Call").t("k", "rmfilter").a("fs", std::vector<int>{num(1)})); bool ok = pm->removeFilter(num(1)); ret(Ev("Ret").t("k", "rmfilter").b("ok", ok));
        } else if (o[0] == "sleep") sched::sleepUs(num(1));
        else if (o[0] == "state") { Jzon::Object r; pm->getStateEvent(nullptr, r); }
        else if (o[0] == "hush") { hushed = true; emit(Ev("Hush")); }
        else if (o[0] == "quiet") { hushed = true; emit(Ev("Hush")); sched::sleepUs(12 * b); ret(Ev("Quiet")); hushed = false; }
        else bad("op " + o[0]); }
    emit(Ev("Down")); PipelineManager::destroyInstance();
    emit(Ev("end").k("alive", pmx::made - pmx::gone).k("live", liveQueues));
    _exit(0);
}
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    Script s; s.open(argv[1]); FILE* f = fopen(argv[2], "w"); if (!f) return 3; fclose(f);
    out = fopen(argv[2], "a");
    auto flush = [&]() { if (head.empty()) return; fflush(out); pid_t p = fork(); if (p == 0) scenario(); int st; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return; exit(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st)); };
    while (s.next()) { if (s.is("reset")) { flush(); head = s.w; ops.clear(); } else ops.push_back(s.w); }
    flush(); return 0;
}

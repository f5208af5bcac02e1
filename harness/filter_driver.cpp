// Filters connected, shared, disconnected and run by a script under a virtual clock (single threaded, one process per scenario).
// reset | F id kind(HOMNT) server periodic frameTimeUs sync maxR maxW cap | conn a b wid rid | refuse f r|w|q 0|1 | share a b rida ridb
// discw f wid | discr f rid | run f ret [w:ts ...] | ev f action n delayMs tsMs(relative) | adv ms | del f
#include "filters.hh"
#include <unistd.h>
#include <sys/wait.h>
using namespace vf; using namespace mf;
namespace mf { int liveQueues; std::chrono::system_clock::time_point t0; }
static FILE* out; static std::vector<std::vector<std::string>> ops;
static void emit(const Ev& e) { fputs((e.s + "}\n").c_str(), out); fflush(out); }
static long long N_(const std::vector<std::string>& w, size_t i) { if (i >= w.size()) bad("missing argument of " + w[0]); return atoll(w[i].c_str()); }
static void scenario() {
    sched::Params P; sched::start(P); t0 = std::chrono::system_clock::now();
    auto now = [] { return (long long)std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now() - t0).count(); };
    std::map<int, Any*> fs; long counter = 0; emit(Ev("reset"));
    auto F = [&](const std::vector<std::string>& o, size_t i) -> Any* { int id = N_(o, i); if (!fs.count(id)) bad("no filter " + o[i]); return fs[id]; };
    for (auto& o : ops) {
        Ev e(o[0].c_str()); const std::string& op = o[0]; for (auto& x : fs) x.second->c.evs.clear();
        if (op == "F") {
            int id = N_(o, 1); Any* a = make(o[2][0], N_(o, 3) ? SERVER : REGULAR, N_(o, 4), N_(o, 7), N_(o, 8));
            a->f()->setId(id); a->f()->setFrameTime(std::chrono::microseconds(N_(o, 5))); a->sync(N_(o, 6)); a->c.cap = N_(o, 9); a->c.counter = &counter; fs[id] = a;
            e.k("f", id).t("kind", o[2]).b("server", N_(o, 3)).b("per", N_(o, 4)).k("ft", N_(o, 5)).b("sync", N_(o, 6)).k("mr", a->f()->getMaxReaders()).k("mw", a->f()->getMaxWriters()).k("cap", N_(o, 9));
        } else if (op == "conn") { bool r = F(o, 1)->f()->connectManyToMany(F(o, 2)->f(), N_(o, 4), N_(o, 3)); 
            e.k("t", now()).k("a", N_(o, 1)).k("b", N_(o, 2)).k("w", N_(o, 3)).k("rd", N_(o, 4)).b("r", r).a("evsA", F(o, 1)->c.evs).a("evsB", F(o, 2)->c.evs); F(o, 1)->c.evs.clear(); F(o, 2)->c.evs.clear();
        } else if (op == "refuse") { Core& c = F(o, 1)->c; (o[2] == "r" ? c.refR : o[2] == "w" ? c.refW : c.refQ) = N_(o, 3); e.k("f", N_(o, 1)).t("what", o[2]).b("on", N_(o, 3));
        } else if (op == "share") { bool r = F(o, 1)->f()->shareReader(F(o, 2)->f(), N_(o, 4), N_(o, 3)); e.k("a", N_(o, 1)).k("b", N_(o, 2)).k("ra", N_(o, 3)).k("rb", N_(o, 4)).b("r", r);
        } else if (op == "discw") { bool r = F(o, 1)->f()->disconnectWriter(N_(o, 2)); e.k("f", N_(o, 1)).k("w", N_(o, 2)).b("r", r);
        } else if (op == "discr") { bool r = F(o, 1)->f()->disconnectReader(N_(o, 2)); e.k("f", N_(o, 1)).k("rd", N_(o, 2)).b("r", r);
        } else if (op == "run") {
            Any* a = F(o, 1); a->c.clear(); a->c.produce.clear(); a->c.retv = N_(o, 2);
            for (size_t i = 3; i < o.size(); i++) a->c.produce[atoi(o[i].c_str())] = atoll(o[i].c_str() + o[i].find(':') + 1);
            long long tb = now(); int ret = 0; auto en = a->f()->processFrame(ret);
            e.k("f", N_(o, 1)).k("tb", tb).k("t", now()).k("ret", ret).k("asked", a->c.retv).b("called", a->c.called).raw("ins", "[" + a->c.ins + "]").a("outs", a->c.outs).raw("prod", "[" + a->c.prod + "]").a("en", en).a("evs", a->c.evs);
            if (a->c.hasNews) e.a("news", a->c.news);
        } else if (op == "ev") {
            Any* a = F(o, 1); a->c.evs.clear(); Jzon::Object root, par; if (o[2] != "-") root.Add("action", o[2]); par.Add("n", (int)N_(o, 3)); root.Add("params", par);
            long long ts = now() + N_(o, 5) * 1000 + N_(o, 3) - 500; Event ev(root, t0 + std::chrono::microseconds(ts), N_(o, 4)); a->f()->pushEvent(ev);
            e.k("f", N_(o, 1)).t("act", o[2]).k("n", N_(o, 3)).k("delay", N_(o, 4)).k("ts", ts).a("evs", a->c.evs); a->c.evs.clear();
        } else if (op == "adv") { sched::advance(N_(o, 1) * 1000); e.k("ms", N_(o, 1)).k("t", now());
        } else if (op == "del") { Any* a = F(o, 1); fs.erase(N_(o, 1)); delete a; e.k("f", N_(o, 1));
        } else bad("op " + op);
        std::string rc, wc;
        for (auto& x : fs) for (int i = 1; i <= 4; i++) {
            if (x.second->f()->isRConnected(i)) rc += (rc.empty() ? "[" : ",[") + std::to_string(x.first) + "," + std::to_string(i) + "]";
            if (x.second->f()->isWConnected(i)) wc += (wc.empty() ? "[" : ",[") + std::to_string(x.first) + "," + std::to_string(i) + "]";
        }
        e.raw("rc", "[" + rc + "]").raw("wc", "[" + wc + "]").k("live", liveQueues);
        emit(e);
    }
    for (auto& x : fs) delete x.second;
    emit(Ev("end").k("live", liveQueues));
    _exit(0);
}
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    Script s; s.open(argv[1]); FILE* f = fopen(argv[2], "w"); if (!f) return 3; fclose(f);
    out = fopen(argv[2], "a"); bool any = false;
    auto flush = [&]() {
        if (!any) return;
        fflush(out); pid_t p = fork();
        if (p == 0) scenario();
        int st; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
        exit(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
    };
    while (s.next()) { if (s.is("reset")) { flush(); any = true; ops.clear(); } else ops.push_back(s.w); }
    flush(); return 0;
}

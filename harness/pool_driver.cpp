// Runs a real WorkersPool with mock tasks under the controlled scheduler; one forked process per scenario.
// script:  reset <threads> <seed> <strategy> <pMem> <pSync> <pTime> <changes> <length>
//          task <obj> <id> <dur:us>... | <ret:us>... | <pend 0/1>... | <enabled id,id|->...      (cyclic plans)
//          ctl <thread> add <obj> | rm <id> | sleep <us> | stop | waitidle
#include "vf.hh"
#include "sched/sched.hh"
#include "WorkersPool.hh"
#include <unistd.h>
#include <sys/wait.h>
#include <thread>
using namespace vf;
static FILE* out;
static std::vector<std::string> pendingRegs;
static void emit(const Ev& e) { fputs((e.s + ",\"t\":" + std::to_string((long long)sched::nowUs()) + "}\n").c_str(), out); fflush(out); }
static int execs = 0; static const int CAP = 150; // after that many executions nothing is enabled any more
struct Plan { std::vector<int> dur, ret, pend; std::vector<std::vector<int>> en; int id; };
struct Task : public Runnable {
    Plan* p; int o; unsigned n = 0; bool pend = false;
    Task(Plan* pl, int ob) : Runnable(false), p(pl), o(ob) { if (pl->id >= 0) setId(pl->id); }
    std::vector<int> processFrame(int& ret) override {
        emit(Ev("Start").k("o", o).k("id", p->id));
        unsigned k = n++;
        int d = p->dur[k % p->dur.size()]; if (d > 0) sched::sleepUs(d); else { sched::advance(20); sched::yield(); }
        bool on = ++execs < CAP;
        ret = p->ret[k % p->ret.size()];
        std::vector<int> e; if (on) e = p->en[k % p->en.size()];
        pend = on && p->pend[k % p->pend.size()];
        emit(Ev("End").k("o", o).k("id", p->id).a("en", e).k("ret", ret).b("pend", pend));
        return e;
    }
    bool pendingJobs() override { emit(Ev("Look").k("o", o).k("id", p->id)); return pend; }
};
struct Op { std::string k; long long a = 0; };
static std::map<int, Plan> plans; static std::map<int, std::vector<Op>> ctl; static sched::Params P; static int nthreads;
static std::map<int, Task*> live, byId; static WorkersPool* pool;
static void doOps(int who) {
    for (Op& o : ctl[who]) {
        if (o.k == "sleep") sched::sleepUs(o.a);
        else if (o.k == "add") {
            Task* t = live[o.a]; int id = plans[o.a].id;
            emit(Ev("AddCall").k("o", o.a).k("id", id));
            bool r = pool->addTask(t);
            emit(Ev("AddRet").k("o", o.a).k("id", id).b("r", r));
            if (r) byId[id] = t;
        } else if (o.k == "rm") {
            emit(Ev("RmCall").k("id", o.a));
            bool r = pool->removeTask(o.a);
            emit(Ev("RmRet").k("id", o.a).b("r", r));
            if (r) { Task* t = byId[o.a]; byId.erase(o.a); live[t->o] = nullptr; delete t; }
        } else if (o.k == "stop") {
            emit(Ev("StopCall")); pool->stop(); emit(Ev("StopRet"));
        } else bad("ctl " + o.k);
    }
}
static void idle(int64_t a, int64_t b) { fprintf(out, "{\"op\":\"Idle\",\"t\":%lld,\"to\":%lld}\n", (long long)a, (long long)b); fflush(out); }
static void scenario() {
    { // worst legitimate delay of a due task: the waits and executions of the tasks ahead of it
        long long w = 0, d = 0;
        for (auto& kv : plans) { int a = 0, b = 0; for (int x : kv.second.ret) a = std::max(a, x); for (int x : kv.second.dur) b = std::max(b, x); w = std::max<long long>(w, a); d += b; }
        fputs((Ev("reset").k("n", nthreads).b("timed", P.pTime == 0).k("bound", w + 2 * d + 12000).s + "}\n").c_str(), out); fflush(out);
    }
    sched::start(P); sched::onIdle = idle;
    for (auto& kv : plans) live[kv.first] = new Task(&kv.second, kv.first);
    for (auto& kv : ctl) byId.size();
    pool = new WorkersPool(nthreads);
    std::vector<std::thread> th;
    for (auto& kv : ctl) if (kv.first != 0) { int k = kv.first; th.push_back(std::thread([k] { doOps(k); })); }
    doOps(0);
    for (auto& t : th) t.join();
    emit(Ev("StopCall")); pool->stop(); emit(Ev("StopRet"));
    for (auto& kv : live) if (kv.second) { Task* t = kv.second; kv.second = nullptr; delete t; }
    delete pool;
    sched::stop(); fflush(out); _exit(0);
}
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    Script s; s.open(argv[1]); FILE* f = fopen(argv[2], "w"); if (!f) return 3; fclose(f);
    out = fopen(argv[2], "a");
    bool have = false; int rc = 0;
    auto flush = [&]() {
        if (!have) return;
        int ids = 0; std::vector<int> mx;
        fflush(out);
        pid_t p = fork();
        if (p == 0) scenario();
        int st; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
        rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
        exit(rc);
    };
    while (s.next()) {
        if (s.is("reset")) {
            flush(); have = true; plans.clear(); ctl.clear();
            nthreads = s.num(); P = sched::Params(); P.seed = s.num(); P.strategy = s.num(); P.pMem = s.num(); P.pSync = s.num(); P.pTime = s.num(); P.changes = s.num(); P.length = s.num();
        } else if (s.is("task")) {
            int o = s.num(); Plan p; p.id = s.num(); int part = 0;
            while (s.more()) {
                std::string w = s.str();
                if (w == "|") { part++; continue; }
                if (part == 0) p.dur.push_back(atoi(w.c_str()));
                else if (part == 1) p.ret.push_back(atoi(w.c_str()));
                else if (part == 2) p.pend.push_back(atoi(w.c_str()));
                else { std::vector<int> v; if (w != "-") { std::stringstream ss(w); std::string x; while (std::getline(ss, x, ',')) v.push_back(atoi(x.c_str())); } p.en.push_back(v); }
            }
            if (p.dur.empty() || p.ret.empty() || p.pend.empty() || p.en.empty()) bad("task plan " + s.line);
            plans[o] = p;
        } else if (s.is("ctl")) { int w = s.num(); Op o; o.k = s.str(); if (s.more()) o.a = s.num(); ctl[w].push_back(o); }
        else bad("op " + s.line);
    }
    flush();
    return rc;
}

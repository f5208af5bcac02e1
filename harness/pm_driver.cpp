// The real Controller and PipelineManager on real sockets, a real pool and mock modules, under the controlled scheduler. One process per scenario.
// reset <threads> <seed> <pSync> | req <structured json> ||| <text sent> | api <structured json> ||| id org dst w rd mid...
#include "mock_modules.hh"
#include "Controller.hh"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <set>
#include <algorithm>
using namespace vf; using namespace mf;
namespace mf { int liveQueues; std::chrono::system_clock::time_point t0; }
namespace pmx {
long made, gone; std::map<BaseFilter*, Any*> mocks; std::map<std::pair<int, int>, std::set<long>> seen; std::set<std::pair<int, int>> evs; long now;
void proc(Any* a, Core& c, std::map<int, Frame*>& o, std::vector<int>& nw, std::map<int, Frame*>& d) {
    int id = a->f()->getId();
    for (long e : c.evs) evs.insert({id, (int)e}); c.evs.clear();
    if (c.kind == 'H') { c.retv = 4000; for (auto& x : d) { fillFrame(x.second, 1000 + id, now += 10); x.second->setConsumed(true); } return; }
    if (c.kind == 'T') { for (int r : nw) { long v = content(o[r]); seen[{id, r}].insert(v >= 1000 ? v - 1000 : v); } return; }
    if (nw.empty()) return;
    sched::sleepUs(300); // processing takes time: frames may go round a loop of filters
    int pick = nw[0]; for (int r : nw) if (c.produce[content(o[r])] < c.produce[content(o[pick])]) pick = r; // the source shown least recently
    long v = content(o[pick]); c.produce[v] = ++now;
    for (auto& x : d) { fillFrame(x.second, v, now += 10); x.second->setConsumed(true); }
}
void born(Any* a) { made++; mocks[a->f()] = a; a->c.cap = 8; a->c.kind = dynamic_cast<H*>(a) ? 'H' : dynamic_cast<O*>(a) ? 'O' : dynamic_cast<M*>(a) ? 'M' : dynamic_cast<N*>(a) ? 'N' : 'T';
    a->c.hook = [a](Core& c, std::map<int, Frame*>& o, std::vector<int>& nw, std::map<int, Frame*>& d) { proc(a, c, o, nw, d); }; }
void enter(Any*) {} void leave(Any*) {}
void dead(Any* a) { gone++; mocks.erase(a->f()); }
}
static FILE* out; static std::vector<std::string> lines; static std::vector<std::string> head;
static void emit(const Ev& e) { fputs((e.s + "}\n").c_str(), out); fflush(out); }
static int port = 0;
static int small(int i) { return i > 1000 ? -1 : i; } // ids chosen by the manager
static std::string request(Controller* c, const std::string& text, int* conns) {
    int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(s, (sockaddr*)&a, sizeof a) < 0) bad("connect");
    if (write(s, text.data(), text.size()) != (ssize_t)text.size()) bad("write");
    shutdown(s, SHUT_WR);
    if (!c->listenSocket()) { close(s); return "<not accepted>"; }
    if (c->readAndParse()) c->processRequest();
    timeval tv{0, 300000}; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    std::string r; char buf[4096]; ssize_t n; while ((n = recv(s, buf, sizeof buf, 0)) > 0) r.append(buf, n);
    if (n < 0) r += "<open>";
    close(s); return r;
}
static std::string num(Jzon::Node& n) { return n.IsNumber() ? std::to_string(small(n.ToInt())) : "-99"; }
static std::string reply(const std::string& r) { // entries of the answer, or a text when it is not exactly one object
    int depth = 0, docs = 0; bool str = false, other = false;
    for (size_t i = 0; i < r.size(); i++) {
        char ch = r[i];
        if (str) { if (ch == '\\') i++; else if (ch == '"') str = false; continue; }
        if (ch == '"') str = true; else if (ch == '{' || ch == '[') { if (depth++ == 0) { docs++; other = other || ch == '['; } } else if (ch == '}' || ch == ']') depth--; else if (depth == 0 && !isspace(ch)) other = true;
    }
    if (docs != 1 || depth || other) return "[{\"k\":\"broken\"}]";
    Jzon::Object root; Jzon::Parser p(root, r); if (!p.Parse()) return "[{\"k\":\"broken\"}]";
    std::string o = "[";
    for (Jzon::Object::iterator it = root.begin(); it != root.end(); ++it) {
        std::string k = (*it).first; Jzon::Node& n = (*it).second; if (o.size() > 1) o += ",";
        if (k == "error") o += std::string("{\"k\":\"error\",\"ok\":") + (n.IsNull() ? "true" : "false") + "}";
        else if ((k == "filters" || k == "paths") && n.IsArray()) {
            o += "{\"k\":\"" + k + "\",\"v\":["; bool first = true;
            for (Jzon::Array::iterator j = n.AsArray().begin(); j != n.AsArray().end(); ++j) {
                Jzon::Object& x = (*j).AsObject(); if (!first) o += ","; first = false;
                if (k == "filters") o += "{\"id\":" + num(x.Get("id")) + ",\"type\":\"" + x.Get("type").ToString() + "\"}";
                else { o += "{\"id\":" + num(x.Get("id")) + ",\"org\":" + num(x.Get("originFilter")) + ",\"dst\":" + num(x.Get("destinationFilter")) + ",\"w\":" + num(x.Get("originWriter")) + ",\"rd\":" + num(x.Get("destinationReader")) + ",\"mids\":[";
                    bool f2 = true; for (Jzon::Array::iterator m = x.Get("filters").AsArray().begin(); m != x.Get("filters").AsArray().end(); ++m) { if (!f2) o += ","; f2 = false; o += num(*m); } o += "]}"; }
            }
            o += "]}";
        } else o += "{\"k\":\"unknown\"}";
    }
    return o + "]";
}
static void observe(Ev& e) {
    sched::sleepUs(60000); pmx::seen.clear(); sched::sleepUs(60000);
    PipelineManager* pm = PipelineManager::getInstance();
    for (auto& m : pmx::mocks) { for (long x : m.second->c.evs) pmx::evs.insert({m.first->getId(), (int)x}); m.second->c.evs.clear(); }
    std::string fs, ps, ls, fl, ev;
    for (auto& x : pm->getFilters()) fs += (fs.empty() ? "" : ",") + std::to_string(x.first);
    for (auto& x : pm->getPaths()) ps += (ps.empty() ? "" : ",") + std::to_string(x.first);
    std::vector<std::string> L;
    for (auto& x : pm->getFilters()) for (int w : Peek::wids(x.second)) {
        ConnectionData c = x.second->getWConnectionData(w); std::vector<std::string> rs; bool up = x.second->isWConnected(w);
        if (up) for (auto& r : c.readers) rs.push_back("[" + std::to_string(r.rFilterId) + "," + std::to_string(small(r.readerId)) + "]");
        std::sort(rs.begin(), rs.end()); std::string s; for (auto& r : rs) s += (s.empty() ? "" : ",") + r;
        L.push_back("{\"f\":" + std::to_string(x.first) + ",\"w\":" + std::to_string(small(w)) + ",\"rs\":[" + s + "]}");
    }
    for (auto& l : L) ls += (ls.empty() ? "" : ",") + l;
    int nr = 0; for (auto& x : pm->getFilters()) nr += Peek::rids(x.second).size();
    for (auto& x : pmx::seen) { std::string s; for (long v : x.second) s += (s.empty() ? "" : ",") + std::to_string(v); fl += (fl.empty() ? "" : ",") + std::string("{\"f\":") + std::to_string(x.first.first) + ",\"rd\":" + std::to_string(small(x.first.second)) + ",\"src\":[" + s + "]}"; }
    for (auto& x : pmx::evs) ev += (ev.empty() ? "[" : ",[") + std::to_string(x.first) + "," + std::to_string(x.second) + "]";
    e.raw("fl", "[" + fs + "]").raw("pa", "[" + ps + "]").raw("lk", "[" + ls + "]").k("nr", nr).raw("flow", "[" + fl + "]").raw("evs", "[" + ev + "]").k("live", liveQueues).k("alive", pmx::made - pmx::gone);
}
static void scenario() {
    sched::Params P; P.seed = atoll(head[2].c_str()); P.pMem = 5; P.pSync = atoi(head[3].c_str()); P.maxSteps = 60000000; P.maxVirtualMs = 10000000; sched::start(P); t0 = std::chrono::system_clock::now();
    PipelineManager* pm = PipelineManager::getInstance(atoi(head[1].c_str())); Controller* c = Controller::getInstance();
    if (!c->createSocket(0)) bad("socket");
    for (int fd = 3; fd < 64 && !port; fd++) { sockaddr_in a; socklen_t n = sizeof a; if (!getsockname(fd, (sockaddr*)&a, &n) && a.sin_family == AF_INET && a.sin_port) { port = ntohs(a.sin_port); listen(fd, 5); } }
    if (!port) bad("port");
    emit(Ev("reset"));
    for (auto& l : lines) {
        std::string op = l.substr(0, 3); size_t p = l.find(" ||| "); if (p == std::string::npos) bad("line " + l);
        std::string st = l.substr(4, p - 4), text = l.substr(p + 5); Ev e(op.c_str()); e.raw("c", st);
        pmx::evs.clear();
        if (op == "req") e.raw("r", reply(request(c, text, nullptr)));
        else if (op == "api") { std::istringstream is(text); int id, o, d, w, r, m; std::vector<int> mids; is >> id >> o >> d >> w >> r; while (is >> m) mids.push_back(m); bool a = pm->createPath(id, o, d, w, r, mids); bool b = a && pm->connectPath(id); e.b("created", a).b("connected", b); }
        else bad("op " + op);
        observe(e); emit(e);
    }
    c->stopAndCloseSocket(); PipelineManager::destroyInstance();
    emit(Ev("end").k("alive", pmx::made - pmx::gone).k("live", liveQueues));
    _exit(0);
}
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    Script s; s.open(argv[1]); FILE* f = fopen(argv[2], "w"); if (!f) return 3; fclose(f);
    out = fopen(argv[2], "a");
    auto flush = [&]() {
        if (head.empty()) return;
        fflush(out); pid_t p = fork();
        if (p == 0) scenario();
        int st; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
        exit(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
    };
    while (s.next()) { if (s.is("reset")) { flush(); head = s.w; lines.clear(); } else lines.push_back(s.line); }
    flush(); return 0;
}

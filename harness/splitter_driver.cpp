// Runs scripts on the real video splitter, between a real source and sinks.
#include "vid.hh"
#include "modules/videoSplitter/VideoSplitter.hh"
using namespace vf; using namespace vid;
static Out out; static Script sc;
struct Sp : VideoSplitter {
    Sp(long long ft) : VideoSplitter(std::chrono::microseconds(ft)) {}
    FrameQueue* allocQueue(ConnectionData c) { return small ? smallQueue(c) : VideoSplitter::allocQueue(c); }
    bool small = true;
    bool crop0(int id, int w, int h, int x, int y, int d) { return configCrop0(id, w, h, x, y, d); }
    long left() { auto r = getReader(1); return r ? (long)r->getQueueElements() : -1; }
};
typedef std::chrono::system_clock::time_point TP;
static Sp* m; static Src* src; static std::map<int, Sink*> sinks; static std::vector<std::pair<TP, TP>> when;
static void clean() { delete src; delete m; for (auto& s : sinks) delete s.second; m = nullptr; src = nullptr; sinks.clear(); when.clear(); }
static Ev obs(Ev e) {
    Jzon::Object o; m->getState(o); std::string s = "["; const Jzon::Array& a = o.Get("crops").AsArray(); bool first = true;
    for (auto it = a.begin(); it != a.end(); ++it) { const Jzon::Node& c = *it; s += first ? "[" : ",["; first = false; const char* k[] = {"id", "width", "height", "x", "y", "degree"}; for (int i = 0; i < 6; i++) s += (i ? "," : "") + std::to_string(c.Get(k[i]).ToInt()); s += "]"; }
    return e.raw("crops", s + "]").k("ft", o.Get("frameTime").ToInt());
}
int main(int argc, char** argv) {
    sc.open(argv[1]); out.open(argv[2]); long v = 0;
    while (sc.next()) {
        if (sc.is("reset")) { clean(); v = 0; long long ft = sc.num(); m = new Sp(ft); static int k = 0; m->small = ++k % 8; m->setId(100); src = new Src(); src->setId(1); bool ok = src->connectManyToMany(m, 1, 1); out.put(obs(Ev("reset").b("ok", ok)));
        } else if (sc.is("conn")) { int id = sc.num(); Sink* s = new Sink(); s->setId(200 + id); bool ok = m->connectManyToMany(s, 1, id); if (ok) { delete sinks[id]; sinks[id] = s; } else delete s; out.put(obs(Ev("conn").k("id", id).b("ok", ok)));
        } else if (sc.is("disc")) { int id = sc.num(); bool ok = m->disconnectWriter(id); if (sinks.count(id)) { delete sinks[id]; sinks.erase(id); } out.put(obs(Ev("disc").k("id", id).b("ok", ok)));
        } else if (sc.is("crop") || sc.is("ecrop")) { bool direct = sc.is("crop"); int id = sc.num(), w = sc.num(), h = sc.num(), x = sc.num(), y = sc.num(), d = sc.num(); bool ok = true;
            if (direct) ok = m->crop0(id, w, h, x, y, d); else m->configCrop(id, w, h, x, y, d);
            Ev e(direct ? "crop" : "ecrop"); e.k("id", id).k("w", w).k("h", h).k("x", x).k("y", y).k("d", d).b("ok", ok); out.put(direct ? obs(e) : e);
        } else if (sc.is("conf")) { int ft = sc.num(); m->configure(ft); out.put(Ev("conf").k("t", ft));
        } else if (sc.is("frame")) { int w = sc.num(), h = sc.num(); long long ts = sc.num();
            src->p = {++v, w, h, 'p', ts}; int ret; TP a = std::chrono::high_resolution_clock::now(); src->processFrame(ret); when.push_back({a, std::chrono::high_resolution_clock::now()}); out.put(Ev("frame").k("v", v).k("w", w).k("h", h).k("ts", ts));
        } else if (sc.is("proc")) { int ret = 0; std::map<int, int> before; for (auto& s : sinks) { s.second->got.clear(); before[s.first] = s.second->count; }
            m->processFrame(ret); std::string s = "[";
            for (auto& x : sinks) { x.second->processFrame(ret); if (x.second->count == before[x.first]) continue; Got& g = x.second->got[1]; bool org = g.seq >= 0 && g.seq < (long)when.size() && when[g.seq].first <= g.org && g.org <= when[g.seq].second;
                Ev e(""); e.s = "{\"id\":" + std::to_string(x.first); e.k("c", x.second->count - before[x.first]).k("w", g.w).k("h", g.h).k("len", g.len).k("ts", g.ts).k("dts", g.dts).k("seq", g.seq).b("org", org).a("pix", g.pix); s += (s.size() > 1 ? "," : "") + e.s + "}"; }
            out.put(obs(Ev("proc").k("n", m->left()).raw("outs", s + "]")));
        } else bad("op " + sc.op());
    }
    clean(); return 0;
}

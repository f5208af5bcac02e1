// Runs scripts on the real video mixer, between real sources and a sink.
#include "vid.hh"
#include "modules/videoMixer/VideoMixer.hh"
#include <cmath>
using namespace vf; using namespace vid;
static Out out; static Script sc;
struct Mx : VideoMixer {
    std::vector<std::pair<int, long>> shown; bool called = false;
    Mx(int n, int w, int h, long long ft) : VideoMixer(n, w, h, std::chrono::microseconds(ft)) {}
    bool doProcessFrame(std::map<int, Frame*>& o, Frame* d, std::vector<int> n) { called = true; shown.clear(); for (auto& x : o) shown.push_back({x.first, x.second ? (long)x.second->getSequenceNumber() : -1}); return VideoMixer::doProcessFrame(o, d, n); }
    FrameQueue* allocQueue(ConnectionData c) { return small ? smallQueue(c) : VideoMixer::allocQueue(c); }
    bool small = true;
    bool cfg0(int id, float w, float h, float x, float y, int l, bool e, float o) { return configChannel0(id, w, h, x, y, l, e, o); }
    long long sync() { return getSyncTs().count(); }
    long left(int id) { auto r = getReader(id); return r ? (long)r->getQueueElements() : -1; }
    using VideoMixer::configChannel;
};
static Mx* m; static Sink* sink; static std::map<int, Src*> srcs;
static void clean() { delete m; delete sink; for (auto& s : srcs) delete s.second; m = nullptr; sink = nullptr; srcs.clear(); }
static std::string state() { // channels and layout as reported, in 64ths
    Jzon::Object o; m->getState(o); auto f = [](const Jzon::Node& n) { return std::to_string((long)std::lround(n.ToDouble() * 64)); };
    std::string s = "["; const Jzon::Array& a = o.Get("channels").AsArray(); bool first = true;
    for (auto it = a.begin(); it != a.end(); ++it) { const Jzon::Node& c = *it;
        s += std::string(first ? "" : ",") + "[" + std::to_string(c.Get("id").ToInt()) + "," + f(c.Get("width")) + "," + f(c.Get("height")) + "," + f(c.Get("x")) + "," + f(c.Get("y")) + "," + std::to_string(c.Get("layer").ToInt()) + "," + std::to_string(c.Get("enabled").ToBool() ? 1 : 0) + "," + f(c.Get("opacity")) + "]"; first = false; }
    return s + "]";
}
static Ev obs(Ev e) { Jzon::Object o; m->getState(o); return e.raw("chans", state()).k("ow", o.Get("width").ToInt()).k("oh", o.Get("height").ToInt()); }
static void run() {
    int ret = 0; m->called = false; m->shown.clear(); sink->got.clear(); int before = sink->count;
    m->processFrame(ret); sink->processFrame(ret); int made = sink->count - before;
    Ev e("proc"); e.b("called", m->called).k("made", made); std::string s = "[", n = "[";
    for (auto& x : m->shown) s += (s.size() > 1 ? "," : "") + std::string("[") + std::to_string(x.first) + "," + std::to_string(x.second) + "]";
    for (auto& x : srcs) { long r = m->left(x.first); if (r < 0) continue; n += (n.size() > 1 ? "," : "") + std::string("[") + std::to_string(x.first) + "," + std::to_string(r) + "]"; }
    Got& g = sink->got[1];
    e.raw("shown", s + "]").raw("n", n + "]").k("w", g.w).k("h", g.h).k("len", g.len).k("ts", g.ts).k("dts", g.dts).k("sync", m->sync()).a("pix", g.pix);
    out.put(obs(e));
}
int main(int argc, char** argv) {
    sc.open(argv[1]); out.open(argv[2]); long v = 0;
    while (sc.next()) {
        if (sc.is("reset")) { clean(); v = 0; int n = sc.num(), w = sc.num(), h = sc.num(); long long ft = sc.num();
            m = new Mx(n, w, h, ft); static int k = 0; m->small = ++k % 8; m->setId(100); sink = new Sink(); sink->setId(200); bool ok = m->connectOneToOne(sink); // the writer of the mixer
            out.put(obs(Ev("reset").k("max", n).k("ft", ft).b("ok", ok)));
        } else if (sc.is("conn")) { int id = sc.num(); Src* x = new Src(); x->setId(300 + id); bool ok = x->connectManyToMany(m, id, 1); if (ok) { delete srcs[id]; srcs[id] = x; } else delete x; out.put(obs(Ev("conn").k("id", id).b("ok", ok)));
        } else if (sc.is("disc")) { int id = sc.num(); bool ok = srcs.count(id) && srcs[id]->disconnectWriter(1); if (ok) m->disconnectReader(id); if (srcs.count(id)) { delete srcs[id]; srcs.erase(id); } out.put(obs(Ev("disc").k("id", id).b("ok", ok)));
        } else if (sc.is("cfg") || sc.is("ecfg")) { bool direct = sc.is("cfg"); int id = sc.num(); float a[4]; for (float& x : a) x = sc.num() / 64.f; int l = sc.num(); bool en = sc.num(); float o = sc.num() / 64.f; bool ok = true;
            if (direct) ok = m->cfg0(id, a[0], a[1], a[2], a[3], l, en, o); else m->configChannel(id, a[0], a[1], a[2], a[3], l, en, o);
            Ev e(direct ? "cfg" : "ecfg"); e.k("id", id); for (int i = 0; i < 4; i++) e.k(i == 0 ? "w" : i == 1 ? "h" : i == 2 ? "x" : "y", std::lround(a[i] * 64)); e.k("l", l).b("en", en).k("o", std::lround(o * 64)).b("ok", ok); out.put(obs(e));
        } else if (sc.is("conf")) { int w = sc.num(), h = sc.num(); m->configure(w, h, 0); out.put(obs(Ev("conf").k("w", w).k("h", h)));
        } else if (sc.is("frame")) { int id = sc.num(), w = sc.num(), h = sc.num(); char k = sc.str()[0]; long long ts = sc.num(); if (!srcs.count(id)) continue;
            srcs[id]->p = {++v, w, h, k, ts}; int ret; srcs[id]->processFrame(ret); out.put(obs(Ev("frame").k("id", id).k("v", v).k("w", w).k("h", h).t("kind", std::string(1, k)).k("ts", ts)));
        } else if (sc.is("proc")) run();
        else bad("op " + sc.op());
    }
    clean(); return 0;
}

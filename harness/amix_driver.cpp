// Runs scripts on the real audio mixer, between real sources and a sink, through real audio buffers.
// reset <inputs> | conn <id> <fmt F|S> | disc <id> | gain <id> <v> | mute <id> | solo <id> | master <v> | mutemaster | bad <k> | frame <id> <n> <s> <u> <n1> <l1> <r1> <n2> <l2> <r2> <n3> <l3> <r3> | more <id> ... | proc | long <frames>
#include "vf.hh"
#include "modules/audioMixer/AudioMixer.hh"
#include "AudioCircularBuffer.hh"
#include <cmath>
using namespace vf;
static Out out; static Script sc;
struct Src : HeadFilter { // pushes one frame, at any time
    AudioCircularBuffer* q = nullptr; SampleFmt fmt; long long dur = 0; int segN[3], segL[3], segR[3]; long long ts = 0; unsigned n = 0; bool dummy = false;
    Src(SampleFmt f) : HeadFilter(1), fmt(f) {}
    FrameQueue* allocQueue(ConnectionData c) { return q = AudioCircularBuffer::createNew(c, 2, 48000, 100, fmt); }
    void doGetState(Jzon::Object&) {}
    bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
    bool doProcessFrame(std::map<int, Frame*>& d, int& ret) {
        ret = 0; if (d.empty()) return false; PlanarAudioFrame* f = dynamic_cast<PlanarAudioFrame*>(d.begin()->second); if (!f) bad("planar");
        unsigned i = 0, bps = fmt == S16P ? 2 : 4;
        for (int k = 0; k < 3 && !dummy; k++) for (int j = 0; j < segN[k]; j++, i++) for (int c = 0; c < 2; c++) { int v = c ? segR[k] : segL[k]; unsigned char* p = f->getPlanarDataBuf()[c] + i * bps;
            if (fmt == S16P) { short s = (short)std::lround(v * 32768.0 / 10000); memcpy(p, &s, 2); } else { float x = v / 10000.f; memcpy(p, &x, 4); } }
        f->setSamples(dummy ? 0 : i); f->setLength(i * bps); f->setPresentationTime(std::chrono::microseconds(ts)); f->setConsumed(true); return true;
    }
};
struct Sink : TailFilter { Sink() : TailFilter(1) {} void doGetState(Jzon::Object&) {} bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; } bool doProcessFrame(std::map<int, Frame*>&, std::vector<int>, int& ret) { ret = 0; return true; } };
static long long fix(const unsigned char* p, SampleFmt f, double k) { if (f == S16P) { short s; memcpy(&s, p, 2); return std::llround(s / 32768.0 * k); } float x; memcpy(&x, p, 4); return std::isfinite(x) ? std::llround(x * k) : 2000000000; }
static std::string runs(Frame* f0, double k) {
    AudioFrame* f = dynamic_cast<AudioFrame*>(f0); unsigned bps = f->getSampleFmt() == S16P ? 2 : 4; std::string s = "["; unsigned n = f->getSamples(), i = 0;
    while (i < n) { long long v[2]; unsigned j = i; auto at = [&](unsigned x, int c) { return fix(f->getPlanarDataBuf()[c] + x * bps, f->getSampleFmt(), k); }; v[0] = at(i, 0); v[1] = at(i, 1); while (j < n && at(j, 0) == v[0] && at(j, 1) == v[1]) j++;
        s += (s.size() > 1 ? "," : "") + std::string("{\"n\":") + std::to_string(j - i) + ",\"a\":" + std::to_string(v[0]) + ",\"b\":" + std::to_string(v[1]) + "}"; i = j; }
    return s + "]";
}
static long long fl(long long a) { return a / 1000000 - (a % 1000000 < 0); }
struct Mx : AudioMixer {
    Mx(int n) : AudioMixer(n) {}
    bool called = false, made = false, quiet = false, form = false; std::string ins, outs; long long ts = 0; long count = 0, wrong = 0; long long first = -1; float last = 0;
    bool doProcessFrame(std::map<int, Frame*>& o, Frame* d, std::vector<int> n) {
        called = true;
        if (!quiet) for (int id : n) { AudioFrame* f = dynamic_cast<AudioFrame*>(o[id]); long long t = f->getPresentationTime().count();
            ins += (ins.empty() ? "" : ",") + Ev("in").k("id", id).k("s", fl(t)).k("u", t - fl(t) * 1000000).k("n", f->getSamples()).raw("segs", runs(f, 1e4)).s + "}"; }
        made = AudioMixer::doProcessFrame(o, d, n);
        if (made) { AudioFrame* f = dynamic_cast<AudioFrame*>(d); ts = f->getPresentationTime().count(); form = f->getConsumed() && f->getSamples() == 960 && f->getLength() == 3840 && f->getChannels() == 2 && f->getSampleRate() == 48000;
            if (!quiet) outs = runs(d, 1e8); else { if (count == 0) first = ts; const float* p = (const float*)f->getPlanarDataBuf()[1]; if (!form || ts != first + count * 20000 || std::fabs(p[0] - .3f) > 1e-4 || std::fabs(p[959] - .3f) > 1e-4) wrong++; count++; } }
        return made;
    }
};
static Mx* m; static Sink* sink; static std::map<int, Src*> srcs;
static void clean() { delete m; delete sink; for (auto& s : srcs) delete s.second; m = nullptr; sink = nullptr; srcs.clear(); }
static void put(Ev e) {
    Jzon::Object o; m->getState(o); std::string s = "["; const Jzon::Array& a = o.Get("gains").AsArray();
    for (auto it = a.begin(); it != a.end(); ++it) s += (s.size() > 1 ? "," : "") + std::string("[") + std::to_string((*it).Get("id").ToInt()) + "," + std::to_string(std::lround((*it).Get("gain").ToDouble() * 100)) + "]";
    out.put(e.k("master", std::lround(o.Get("masterGain").ToDouble() * 100)).raw("gains", s + "]"));
}
static void process() {
    int ret = 0; m->called = m->made = m->form = false; m->ins = ""; m->outs = "[]"; m->ts = 0; m->processFrame(ret); sink->processFrame(ret);
    put(Ev("proc").b("called", m->called).raw("ins", "[" + m->ins + "]").k("made", m->made).b("form", m->form).k("s", fl(m->ts)).k("u", m->ts - fl(m->ts) * 1000000).raw("out", m->outs));
}
static Ev event(const char* k, int id, int v) { return Ev("event").t("k", k).k("id", id).k("v", v); }
int main(int argc, char** argv) {
    sc.open(argv[1]); out.open(argv[2]); int ret;
    while (sc.next()) {
        if (sc.is("reset")) { clean(); int n = sc.num(); m = new Mx(n); m->setId(100); sink = new Sink(); sink->setId(200); bool ok = m->connectOneToOne(sink); put(Ev("reset").k("max", n).b("ok", ok));
        } else if (sc.is("conn")) { int id = sc.num(); Src* s = new Src(sc.str() == "S" ? S16P : FLTP); s->setId(300 + id); bool ok = s->connectManyToMany(m, id, 1); if (ok) { delete srcs[id]; srcs[id] = s; } else delete s; put(Ev("conn").k("id", id).b("ok", ok));
        } else if (sc.is("disc")) { int id = sc.num(); bool ok = srcs.count(id) && srcs[id]->disconnectWriter(1); if (ok) m->disconnectReader(id); if (srcs.count(id)) { delete srcs[id]; srcs.erase(id); } put(Ev("disc").k("id", id).b("ok", ok));
        } else if (sc.is("gain")) { int id = sc.num(), v = sc.num(); m->changeChannelGain(id, v / 100.f); put(event("gain", id, v));
        } else if (sc.is("mute")) { int id = sc.num(); m->muteChannel(id); put(event("mute", id, 0));
        } else if (sc.is("solo")) { int id = sc.num(); m->soloChannel(id); put(event("solo", id, 0));
        } else if (sc.is("master")) { int v = sc.num(); m->changeMasterGain(v / 100.f); put(event("master", 0, v));
        } else if (sc.is("mutemaster")) { m->muteMaster(); put(event("mutemaster", 0, 0));
        } else if (sc.is("bad")) { int k = sc.num(); static const char* const A[] = {"changeChannelGain", "changeChannelGain", "muteChannel", "soloChannel", "changeMasterGain", "unknown"};
            Jzon::Object root, p; root.Add("action", A[k % 6]); if (k % 6 == 0) p.Add("id", 1); if (k % 6 == 1) p.Add("gain", 0.5); if (k < 6) root.Add("params", p); Event e(root, std::chrono::system_clock::now(), 0); m->pushEvent(e); put(event("bad", 0, 0));
        } else if (sc.is("frame") || sc.is("more")) { bool more = sc.is("more"); int id = sc.num(); unsigned n = sc.num(); long long s = sc.num(), u = sc.num(); if (!srcs.count(id)) continue; Src* x = srcs[id];
            for (int k = 0; k < 3; k++) { x->segN[k] = sc.num(); x->segL[k] = sc.num(); x->segR[k] = sc.num(); }
            if (!more) { x->q->setOutputFrameSamples(n); x->dummy = true; x->ts = (s + 100000) * 1000000LL; x->processFrame(ret); x->dummy = false; } // forgets what it had, so that the frame can have any time
            x->ts = s * 1000000 + u; x->processFrame(ret); continue;
        } else if (sc.is("proc")) { process(); continue;
        } else if (sc.is("long")) { long k = sc.num(); m->quiet = true; Src* x = srcs.begin()->second; x->q->setOutputFrameSamples(960); x->segN[0] = 960; x->segN[1] = x->segN[2] = 0; x->segL[0] = x->segR[0] = 5000; for (long i = 0; i < k; i++) { x->ts = 7000000 + i * 20000; x->processFrame(ret); m->processFrame(ret); sink->processFrame(ret); }
            put(Ev("long").b("ok", m->wrong == 0 && m->count == k - 2)); m->quiet = false;
        } else bad("op " + sc.op());
    }
    clean(); return 0;
}

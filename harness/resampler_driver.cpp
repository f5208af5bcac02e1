// Runs scripts on the real video resampler, between a real source and a sink.
#include "vid.hh"
#include "modules/videoResampler/VideoResampler.hh"
using namespace vf;
static Out out; static Script sc; static const int ABSENT = -77777;
struct SmallQ : AVFramedQueue { SmallQ(ConnectionData c, unsigned n, unsigned len) : AVFramedQueue(c, nullptr, n) { for (unsigned i = 0; i < n; i++) frames[i] = InterleavedVideoFrame::createNew(RAW, len); } };
// the conversions that are not released
static std::set<void*> ctx;
extern "C" { SwsContext* __real_sws_getContext(int, int, AVPixelFormat, int, int, AVPixelFormat, int, SwsFilter*, SwsFilter*, const double*);
SwsContext* __wrap_sws_getContext(int a, int b, AVPixelFormat c, int d, int e, AVPixelFormat f, int g, SwsFilter* h, SwsFilter* i, const double* j) { SwsContext* x = __real_sws_getContext(a, b, c, d, e, f, g, h, i, j); if (x) ctx.insert(x); return x; }
SwsContext* __real_sws_getCachedContext(SwsContext*, int, int, AVPixelFormat, int, int, AVPixelFormat, int, SwsFilter*, SwsFilter*, const double*);
SwsContext* __wrap_sws_getCachedContext(SwsContext* o, int a, int b, AVPixelFormat c, int d, int e, AVPixelFormat f, int g, SwsFilter* h, SwsFilter* i, const double* j) { SwsContext* x = __real_sws_getCachedContext(o, a, b, c, d, e, f, g, h, i, j); ctx.erase(o); if (x) ctx.insert(x); return x; }
void __real_sws_freeContext(SwsContext*); void __wrap_sws_freeContext(SwsContext* x) { ctx.erase(x); __real_sws_freeContext(x); } }
struct Rs : VideoResampler { unsigned cap = 0; unsigned given = 0;
    FrameQueue* allocQueue(ConnectionData c) { return cap ? new SmallQ(c, 3, cap) : VideoResampler::allocQueue(c); }
    bool conf0(int w, int h, int fps, int f) { return configure0(w, h, fps, (PixType)f); }
    bool event(const char* a, Jzon::Object& p) { return eventMap[a](&p); }
    long left() { auto r = getReader(1); return r ? (long)r->getQueueElements() : -1; }
    long ft() { return getFrameTime().count(); }
};
// colours: the corners of a cube inside that of RGB
static void rgb(int c, double* v) { for (int i = 0; i < 3; i++) v[i] = (c >> i) & 1 ? 215 : 40; }
static void yuv(const double* v, bool full, double* o) { double y = .299 * v[0] + .587 * v[1] + .114 * v[2], u = (v[2] - y) / 1.772, w = (v[0] - y) / 1.402; if (full) { o[0] = y; o[1] = u + 128; o[2] = w + 128; } else { o[0] = 16 + y * 219 / 255; o[1] = 128 + u * 224 / 255; o[2] = 128 + w * 224 / 255; } }
static void unyuv(const double* p, bool full, double* v) { double y = full ? p[0] : (p[0] - 16) * 255 / 219, u = full ? p[1] - 128 : (p[1] - 128) * 255 / 224, w = full ? p[2] - 128 : (p[2] - 128) * 255 / 224; v[0] = y + 1.402 * w; v[2] = y + 1.772 * u; v[1] = (y - .299 * v[0] - .114 * v[2]) / .587; }
static int half(int x) { return (x + 1) / 2; }
struct Img { std::vector<unsigned char> b; };
static size_t bytes(int f, int w, int h) { switch (f) { case RGB24: case YUV444P: return 3 * w * h; case RGB32: return 4 * w * h; case YUV420P: case YUVJ420P: return w * h + 2 * half(w) * half(h); case YUV422P: return w * h + 2 * half(w) * h; case YUYV422: return 4 * half(w) * h; } return 3 * w * h; }
// where the three components of a pixel are
static void where(int f, int w, int h, int i, int j, size_t* o) {
    size_t cw = half(w), n = (size_t)w * h;
    switch (f) { case RGB24: for (int c = 0; c < 3; c++) o[c] = (i * w + j) * 3 + c; break; case RGB32: for (int c = 0; c < 3; c++) o[c] = (i * w + j) * 4 + 2 - c; break;
        case YUV420P: case YUVJ420P: o[0] = i * w + j; o[1] = n + (i / 2) * cw + j / 2; o[2] = o[1] + cw * half(h); break;
        case YUV422P: o[0] = i * w + j; o[1] = n + i * cw + j / 2; o[2] = o[1] + cw * h; break; case YUV444P: o[0] = i * w + j; o[1] = n + o[0]; o[2] = n + o[1]; break;
        case YUYV422: o[0] = i * cw * 4 + j * 2; o[1] = i * cw * 4 + (j / 2) * 4 + 1; o[2] = o[1] + 2; break; default: o[0] = o[1] = o[2] = 0; } }
static bool isRgb(int f) { return f == RGB24 || f == RGB32; }
struct Pic { int w = 0, h = 0, f = 0; long long ts = 0; int c[4] = {}; };
static unsigned long long hash(const unsigned char* b, size_t n) { unsigned long long x = 1469598103934665603ull; for (size_t i = 0; i < n; i++) x = (x ^ b[i]) * 1099511628211ull; return x; }
static std::map<long, unsigned long long> sent;
struct Src : HeadFilter {
    Pic p; StreamInfo si; long k = 0; Src() : HeadFilter(1), si(VIDEO) { si.video.codec = RAW; si.video.pixelFormat = RGB24; }
    FrameQueue* allocQueue(ConnectionData c) { return new SmallQ(c, 4, 64 * 64 * 4); } void doGetState(Jzon::Object&) {} bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
    bool doProcessFrame(std::map<int, Frame*>& d, int& ret) {
        ret = 0; VideoFrame* v = dynamic_cast<VideoFrame*>(d.begin()->second); int f = p.f < 0 || p.f > 6 ? RGB24 : p.f; size_t n = bytes(f, p.w, p.h); memset(v->getDataBuf(), 255, n);
        for (int i = 0; i < p.h; i++) for (int j = 0; j < p.w; j++) { double c[3], o[3]; rgb(p.c[(2 * i >= p.h) * 2 + (2 * j >= p.w)], c); if (isRgb(f)) memcpy(o, c, sizeof o); else yuv(c, f == YUVJ420P, o); size_t at[3]; where(f, p.w, p.h, i, j, at); for (int k = 0; k < 3; k++) v->getDataBuf()[at[k]] = (unsigned char)(o[k] + .5); }
        v->setLength(n); v->setSize(p.w, p.h); v->setPixelFormat((PixType)p.f); v->setPresentationTime(std::chrono::microseconds(p.ts)); v->setDecodeTime(std::chrono::microseconds(p.ts)); v->setConsumed(true); sent[k++] = hash(v->getDataBuf(), n); return true; }
};
typedef std::chrono::system_clock::time_point TP; static std::vector<std::pair<TP, TP>> when;
struct Sink : TailFilter { std::string got; Sink() : TailFilter(1) { setSync(false); } void doGetState(Jzon::Object&) {} bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; }
    bool doProcessFrame(std::map<int, Frame*>& o, std::vector<int> n, int& ret) { ret = 0;
        for (int r : n) { VideoFrame* v = dynamic_cast<VideoFrame*>(o[r]); int w = v->getWidth(), h = v->getHeight(), f = v->getPixelFormat(); long seq = v->getSequenceNumber(); Ev e(""); e.s = "{\"w\":" + std::to_string(w);
            std::vector<int> cs; for (int k = 0; k < 4; k++) { int best = -1; if (w >= 16 && h >= 16 && f >= 0 && f <= 6 && bytes(f, w, h) <= v->getMaxLength()) { int i = h / 4 + (k / 2) * (h / 2), j = w / 4 + (k % 2) * (w / 2); size_t at[3]; where(f, w, h, i, j, at); double p[3], c[3]; for (int x = 0; x < 3; x++) p[x] = v->getDataBuf()[at[x]]; if (isRgb(f)) memcpy(c, p, sizeof c); else unyuv(p, f == YUVJ420P, c); best = 0; for (int y = 0; y < 3; y++) if (c[y] > 127) best |= 1 << y; } cs.push_back(best); }
            bool same = f >= 0 && f <= 6 && bytes(f, w, h) <= v->getMaxLength() && sent[seq] == hash(v->getDataBuf(), bytes(f, w, h));
            TP g = v->getOriginTime(); bool org = seq >= 0 && seq < (long)when.size() && when[seq].first <= g && g <= when[seq].second;
            e.k("h", h).k("f", f).k("len", v->getLength()).k("ts", v->getPresentationTime().count()).k("dts", v->getDecodeTime().count()).k("seq", seq).b("org", org).b("same", same).a("c", cs); got += (got.empty() ? "" : ",") + e.s + "}"; } return true; } };
static Rs* m; static Src* src; static Sink* sink;
static void clean() { delete src; delete m; delete sink; src = nullptr; m = nullptr; sink = nullptr; when.clear(); sent.clear(); }
int main(int argc, char** argv) {
    sc.open(argv[1]); out.open(argv[2]);
    while (sc.next()) {
        if (sc.is("reset")) { clean(); long rest = ctx.size(); unsigned cap = sc.num(); m = new Rs; m->cap = cap; m->setId(100); src = new Src(); src->setId(1); sink = new Sink(); sink->setId(2); bool ok = src->connectManyToMany(m, 1, 1) && m->connectManyToMany(sink, 1, 1); out.put(Ev("reset").k("cap", cap ? cap : 1920 * 1080 * 3).k("rest", rest).b("ok", ok));
        } else if (sc.is("conf") || sc.is("econf")) { bool direct = sc.is("conf"); int w = sc.num(), h = sc.num(), fps = sc.num(), f = sc.num(); bool ok = true;
            Jzon::Object p; if (w != ABSENT) p.Add("width", w); if (h != ABSENT) p.Add("height", h); if (fps != ABSENT) p.Add("fps", fps); if (f != ABSENT) p.Add("pixelFormat", f);
            if (direct) ok = (f >= 0 && f <= 6) || f == -1 ? m->conf0(w, h, fps, f) : m->event("configure", p); else { Jzon::Object r; r.Add("action", "configure"); r.Add("params", p); Event e(r, std::chrono::system_clock::now(), 0); m->pushEvent(e); }
            out.put(Ev(direct ? "conf" : "econf").k("w", w).k("h", h).k("fps", fps).k("f", f).b("ok", ok));
        } else if (sc.is("frame")) { Pic p; p.w = sc.num(); p.h = sc.num(); p.f = sc.num(); p.ts = sc.num(); std::vector<int> c; for (int i = 0; i < 4; i++) c.push_back(p.c[i] = sc.num()); src->p = p; int ret; TP a = std::chrono::high_resolution_clock::now(); src->processFrame(ret); when.push_back({a, std::chrono::high_resolution_clock::now()}); out.put(Ev("frame").k("w", p.w).k("h", p.h).k("f", p.f).k("ts", p.ts).a("c", c));
        } else if (sc.is("proc")) { int ret = 0; sink->got.clear(); m->processFrame(ret); for (int i = 0; i < 3; i++) sink->processFrame(ret); out.put(Ev("proc").k("n", m->left()).k("ft", m->ft()).k("ctx", (long)ctx.size()).raw("outs", "[" + sink->got + "]"));
        } else bad("op " + sc.op());
    }
    clean(); return 0;
}

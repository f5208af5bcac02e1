// Runs scripts on the real camera capture, with cameras that the driver plays: their calls are intercepted.
#include "vid.hh"
#include "modules/V4LCapture/V4LCapture.hh"
#include <set>
#include <deque>
#include <thread>
#include <atomic>
#include <condition_variable>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/select.h>
#include <poll.h>
#include <fcntl.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
using namespace vf;
static Out out; static Script sc;
// virtual time, in us from its start
static const long long BASE = 1700000000000000LL; static std::atomic<long long> vnow(1000000);
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration((BASE + vnow) * 1000)); }
    steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((BASE + vnow) * 1000)); } } } }
static const unsigned FORMATS[] = {V4L2_PIX_FMT_YUYV, V4L2_PIX_FMT_YUV420, V4L2_PIX_FMT_YUV422P, V4L2_PIX_FMT_RGB24, V4L2_PIX_FMT_H264, V4L2_PIX_FMT_MJPEG, V4L2_PIX_FMT_GREY};
static const char* NAMES[] = {"YUYV", "YUV420", "YUV422", "RGB24", "H264", "MJPEG", "PCX"};
static int fid(unsigned x) { for (int i = 0; i < 7; i++) if (FORMATS[i] == x) return i; return 6; }
struct Buf { std::vector<unsigned char> m; bool mapped = false; unsigned used = 0; int v = 0; };
struct Cam { int kind = 1, maxw = 64, maxh = 64, f = -1, num = 0, den = 0, bufs = 4, caps = 3, w = 32, h = 32, cf = 0; int fds = 0; bool on = false; std::vector<Buf*> b; std::deque<int> queued, filled; unsigned long ino = 0;
    unsigned size() { static const int n[] = {4, 3, 4, 6, 4, 4, 2}; return w * h * n[cf] / 2; }
    unsigned line() { static const int n[] = {2, 1, 1, 3, 0, 0, 1}; return w * n[cf]; }
    void free() { for (auto x : b) delete x; b.clear(); queued.clear(); filled.clear(); } };
static Cam cam[2]; static std::map<int, int> fds;
struct Fail { std::string c; int skip, n, err; }; static std::vector<Fail> fails; static std::vector<std::string> failed;
static bool broken(const char* c) { for (auto& x : fails) if (x.c == c && x.n > 0) { if (x.skip > 0) { x.skip--; continue; } x.n--; errno = x.err; if (x.err != EINTR || x.c == "open" || x.c == "mmap" || x.c == "select") failed.push_back(c); return true; } return false; }
static std::function<void()> during;
static Cam* of(int fd) { auto i = fds.find(fd); return i == fds.end() ? nullptr : &cam[i->second]; }
static int dev(const char* p) { return !strcmp(p, "/dev/vf1") ? 0 : !strcmp(p, "/dev/vf2") ? 1 : -1; }
static int ready(int fd, long long us) { if (broken("select")) return -1; Cam* c = of(fd); if (!c) { errno = EBADF; return -1; } if (c->on && !c->filled.empty()) return 1; if (us > 0) vnow += us; return 0; }
extern "C" {
int __real_stat(const char*, struct stat*); int __wrap_stat(const char* p, struct stat* s) { int i = dev(p); if (i < 0) return __real_stat(p, s); memset(s, 0, sizeof *s); if (!cam[i].kind) { errno = ENOENT; return -1; } s->st_mode = (cam[i].kind == 1 ? S_IFCHR : S_IFREG) | 0666; return 0; }
int __real_open(const char*, int, ...); int __wrap_open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); int i = dev(p); if (i < 0) return __real_open(p, fl, mode);
    if (!cam[i].kind) { errno = ENOENT; return -1; } if (broken("open")) return -1; if (!(fl & O_NONBLOCK)) bad("opened to block"); cam[i].fds++; int fd = 700; while (fds.count(fd)) fd++; fds[fd] = i; return fd; }
int __real_close(int); int __wrap_close(int fd) { Cam* c = of(fd); if (!c) return __real_close(fd); fds.erase(fd); if (!--c->fds) { c->on = false; c->queued.clear(); c->filled.clear(); bool m = false; for (auto x : c->b) m |= x->mapped; if (!m) c->free(); } return 0; }
void* __real_mmap(void*, size_t, int, int, int, off_t); void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) { Cam* c = of(fd); if (!c) return __real_mmap(a, n, p, f, fd, o); if (broken("mmap")) return MAP_FAILED;
    size_t i = o / 4096; if (i >= c->b.size() || c->b[i]->mapped || n > c->b[i]->m.size()) { errno = EINVAL; return MAP_FAILED; } c->b[i]->mapped = true; return c->b[i]->m.data(); }
int __real_munmap(void*, size_t); int __wrap_munmap(void* a, size_t n) { for (auto& c : cam) for (auto& x : c.b) if (x->m.data() == a && x->mapped) {
    // what is unmapped cannot be touched any more
    Buf* y = new Buf; y->m.resize(x->m.size()); delete x; x = y; if (!c.fds) { bool m = false; for (auto z : c.b) m |= z->mapped; if (!m) c.free(); } return 0; } for (auto& c : cam) for (auto& x : c.b) if (x->m.data() == a) { errno = EINVAL; return -1; } return __real_munmap(a, n); }
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*); int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* t) { for (auto& f : fds) if (r && FD_ISSET(f.first, r)) { if (t && (t->tv_usec < 0 || t->tv_usec >= 1000000 || t->tv_sec < 0)) { errno = EINVAL; return -1; } int k = ready(f.first, t ? t->tv_sec * 1000000LL + t->tv_usec : 1000000000LL); if (k <= 0) FD_ZERO(r); return k; } return __real_select(n, r, w, x, t); }
int __real_poll(struct pollfd*, nfds_t, int); int __wrap_poll(struct pollfd* p, nfds_t n, int ms) { if (n == 1 && of(p->fd)) { int k = ready(p->fd, ms < 0 ? 1000000000LL : ms * 1000LL); p->revents = k > 0 ? POLLIN : 0; return k; } return __real_poll(p, n, ms); }
int __real_ioctl(int, unsigned long, ...); int __wrap_ioctl(int fd, unsigned long q, ...) { va_list va; va_start(va, q); void* a = va_arg(va, void*); va_end(va); Cam* c = of(fd); if (!c) { if (fd >= 700) { errno = EBADF; return -1; } return __real_ioctl(fd, q, a); }
    q &= 0xffffffffu;
    auto err = [](int e) { errno = e; return -1; };
    if (q == VIDIOC_QUERYCAP) { if (broken("querycap")) return -1; auto x = (v4l2_capability*)a; memset(x, 0, sizeof *x); x->capabilities = (c->caps & 1 ? V4L2_CAP_VIDEO_CAPTURE : 0) | (c->caps & 2 ? V4L2_CAP_STREAMING : 0); return 0; }
    if (q == VIDIOC_CROPCAP) return broken("cropcap") ? -1 : 0;
    if (q == VIDIOC_S_CROP) return broken("scrop") ? -1 : 0;
    if (q == VIDIOC_S_FMT || q == VIDIOC_G_FMT) { bool set = q == VIDIOC_S_FMT; if (broken(set ? "sfmt" : "gfmt")) return -1; auto x = (v4l2_format*)a; if (x->type != V4L2_BUF_TYPE_VIDEO_CAPTURE) return err(EINVAL);
        if (set) { if (!c->b.empty()) return err(EBUSY); c->w = std::min<unsigned>(x->fmt.pix.width, c->maxw); c->h = std::min<unsigned>(x->fmt.pix.height, c->maxh); c->cf = c->f >= 0 ? c->f : fid(x->fmt.pix.pixelformat); }
        x->fmt.pix.width = c->w; x->fmt.pix.height = c->h; x->fmt.pix.pixelformat = FORMATS[c->cf]; x->fmt.pix.bytesperline = c->line(); x->fmt.pix.sizeimage = c->size(); x->fmt.pix.field = V4L2_FIELD_NONE; return 0; }
    if (q == VIDIOC_S_PARM) { if (broken("sparm")) return -1; auto x = (v4l2_streamparm*)a; auto& t = x->parm.capture.timeperframe; if (c->den == -1) t.numerator = t.denominator = 0; else if (c->den) { t.numerator = c->num; t.denominator = c->den; } return 0; }
    if (q == VIDIOC_REQBUFS) { if (broken("reqbufs")) return -1; auto x = (v4l2_requestbuffers*)a; for (auto y : c->b) if (y->mapped) return err(EBUSY); c->free(); x->count = std::min<unsigned>(x->count, c->bufs); for (unsigned i = 0; i < x->count; i++) { c->b.push_back(new Buf); c->b[i]->m.resize(c->size()); } return 0; }
    if (q == VIDIOC_QUERYBUF) { if (broken("querybuf")) return -1; auto x = (v4l2_buffer*)a; if (x->index >= c->b.size()) return err(EINVAL); x->length = c->b[x->index]->m.size(); x->m.offset = x->index * 4096; return 0; }
    if (q == VIDIOC_QBUF) { if (broken("qbuf")) return -1; auto x = (v4l2_buffer*)a; if (x->index >= c->b.size()) return err(EINVAL); for (int i : c->queued) if (i == (int)x->index) return err(EINVAL); for (int i : c->filled) if (i == (int)x->index) return err(EINVAL); c->queued.push_back(x->index);
        // the device may write there from now on
        memset(c->b[x->index]->m.data(), 251, c->b[x->index]->m.size()); return 0; }
    if (q == VIDIOC_STREAMON) { if (broken("streamon")) return -1; c->on = true; return 0; }
    if (q == VIDIOC_STREAMOFF) { if (broken("streamoff")) return -1; c->on = false; c->queued.clear(); c->filled.clear(); return 0; }
    if (q == VIDIOC_DQBUF) { if (broken("dqbuf")) return -1; if (!c->on || c->filled.empty()) return err(EAGAIN); auto x = (v4l2_buffer*)a; x->index = c->filled.front(); x->bytesused = c->b[x->index]->used; x->length = c->b[x->index]->m.size(); c->filled.pop_front(); auto d = during; during = nullptr; if (d) d(); return 0; }
    return err(ENOTTY); }
}
struct Sink : TailFilter { std::string got; Sink() : TailFilter(1) { setSync(false); } void doGetState(Jzon::Object&) {} bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; }
    bool doProcessFrame(std::map<int, Frame*>& o, std::vector<int> n, int& ret) { ret = 0;
        for (int r : n) { VideoFrame* v = dynamic_cast<VideoFrame*>(o[r]); unsigned len = v->getLength(); int x = len && len <= v->getMaxLength() ? v->getDataBuf()[0] : 0; for (unsigned i = 0; i < len && i < v->getMaxLength(); i++) if (v->getDataBuf()[i] != (unsigned char)(x + i % 7)) { x = -1; break; }
            auto us = [](std::chrono::system_clock::time_point t) { return std::chrono::duration_cast<std::chrono::microseconds>(t.time_since_epoch()).count() - BASE; };
            Ev e(""); e.s = "{\"w\":" + std::to_string(v->getWidth()); e.k("h", v->getHeight()).k("f", v->getPixelFormat()).k("len", len).k("v", x).k("ts", v->getPresentationTime().count() - BASE).k("dts", v->getDecodeTime().count() - BASE).k("org", us(v->getOriginTime())).k("seq", v->getSequenceNumber()); got += (got.empty() ? "" : ",") + e.s + "}"; } return true; } };
static V4LCapture* m; static Sink* sink; static bool conn;
static void clean() { delete m; delete sink; m = nullptr; sink = nullptr; conn = false; during = nullptr; fails.clear(); failed.clear(); }
static long left() { long n = fds.size(); for (auto& c : cam) { n += c.fds; for (auto x : c.b) n += x->mapped; } return n; }
static Ev& seen(Ev& e) { std::string d; for (auto& c : cam) { long mp = 0; for (auto x : c.b) mp += x->mapped; Ev x(""); x.s = "{\"fds\":" + std::to_string(c.fds); x.k("maps", mp).k("bufs", c.b.size()).b("on", c.on).k("queued", c.queued.size()).k("filled", c.filled.size()); d += (d.empty() ? "" : ",") + x.s + "}"; }
    Jzon::Object s; m->getState(s); e.raw("d", "[" + d + "]").t("st", s.Get("status").ToString()); if (s.Has("device")) { std::string p = s.Get("device").ToString(); e.k("w", s.Get("width").ToInt()).k("h", s.Get("height").ToInt()).k("fps", s.Get("fps").ToInt()).t("fmt", s.Get("format").ToString()).k("dev", dev(p.c_str()) + 1); } fails.clear(); failed.clear(); return e; }
static std::string names() { std::string s; for (auto& f : failed) s += (s.empty() ? "\"" : ",\"") + f + "\""; return "[" + s + "]"; }
struct Cf { int ev, i, w, h, fps, f, force; bool ok = false; int pw = 0, ph = 0, pf = 0;
    void read() { ev = sc.num(); i = sc.num() - 1; w = sc.num(); h = sc.num(); fps = sc.num(); f = sc.num(); force = sc.num(); }
    void go() { pw = cam[i].w; ph = cam[i].h; pf = cam[i].cf; std::string d = i ? "/dev/vf2" : "/dev/vf1";
        if (!ev) ok = m->configure(d, w, h, fps, NAMES[f], force); else { Jzon::Object p; p.Add("device", d); p.Add("width", w); p.Add("height", h); p.Add("fps", fps); if (f) p.Add("format", std::string(NAMES[f])); if (!force) p.Add("forceformat", false); ok = m->eventMap["configure"](&p); } }
    Ev& put(Ev& e) { return e.k("i", i + 1).k("w0", w).k("h0", h).k("fps0", fps).k("f0", f).b("force", force).b("ok", ok).k("pw", pw).k("ph", ph).k("pf", pf); } };
int main(int argc, char** argv) {
    sc.open(argv[1]); out.open(argv[2]);
    while (sc.next()) {
        if (sc.is("reset")) { clean(); long l = left(); for (auto& c : cam) { c.free(); c = Cam(); } fds.clear(); vnow = 1000000; m = new V4LCapture; m->setId(1); sink = new Sink; sink->setId(2); out.put(Ev("reset").k("left", l));
        } else if (sc.is("dev")) { int i = sc.num(); Cam& c = cam[i - 1]; c.kind = sc.num(); c.maxw = sc.num(); c.maxh = sc.num(); c.f = sc.num(); int num = c.num = sc.num(), den = c.den = sc.num(); c.bufs = sc.num(); c.caps = sc.num(); if (den <= 0) num = den = 0;
            Ev e("dev"); e.k("i", i).k("kind", c.kind).k("maxw", c.maxw).k("maxh", c.maxh).k("f", c.f).k("num", num).k("den", den).k("bufs", c.bufs).k("caps", c.caps); out.put(seen(e));
        } else if (sc.is("fail")) { Fail f; f.c = sc.str(); f.skip = sc.num(); f.n = sc.num(); f.err = sc.num(); fails.push_back(f);
        } else if (sc.is("adv")) { vnow += sc.num();
        } else if (sc.is("conf")) { Cf c; c.read(); c.go(); Ev e("conf"); c.put(e).raw("failed", names()); out.put(seen(e));
        } else if (sc.is("badconf")) { int k = sc.num(); Jzon::Object p; if (k != 1) p.Add("device", std::string("/dev/vf1")); if (k == 2) p.Add("width", std::string("many")); else if (k != 3) p.Add("width", k == 4 ? -32 : 32); p.Add("height", k == 5 ? -1 : k == 6 ? 0 : 32); if (k != 7) p.Add("fps", k == 8 ? -25 : k == 9 ? 0 : 25); if (k == 10) p.Add("forceformat", 1);
            bool ok = k == 0 ? m->eventMap["configure"](nullptr) : m->eventMap["configure"](&p); Ev e("badconf"); e.k("k", k).b("ok", ok); out.put(seen(e));
        } else if (sc.is("rel")) { bool ok = m->releaseDevice(); Ev e("rel"); e.b("ok", ok); out.put(seen(e));
        } else if (sc.is("conn")) { bool ok = m->connectOneToOne(sink); unsigned cap = 0; if (ok) conn = true; Ev e("conn"); if (ok) { std::map<int, Frame*> d; m->demandDestinationFrames(d); if (!d.empty()) cap = d.begin()->second->getMaxLength(); } e.b("ok", ok).k("cap", cap); out.put(seen(e));
        } else if (sc.is("fill")) { int i = sc.num() - 1, len = sc.num(), v = sc.num(); Cam& c = cam[i]; bool ok = c.on && !c.queued.empty(); if (ok) { int k = c.queued.front(); c.queued.pop_front(); Buf& b = *c.b[k]; unsigned n = c.cf < 4 || c.cf == 6 || len < 0 ? b.m.size() : std::min<size_t>(len, b.m.size()); for (unsigned j = 0; j < n; j++) b.m[j] = v + j % 7; b.used = len = n; c.filled.push_back(k); } Ev e("fill"); e.b("ok", ok).k("len", len).k("v", v); out.put(seen(e));
        } else if (sc.is("proc") || sc.is("proc2")) { bool two = sc.is("proc2"); Cf c; std::thread th; std::atomic<bool> done(false); bool started = false;
            auto go = [&] { c.go(); done = true; };
            if (two) { c.read(); during = [&] { started = true; th = std::thread(go); for (int i = 0; i < 20 && !done; i++) usleep(1000); }; }
            long long t0 = vnow; int ret = 0; sink->got.clear(); m->processFrame(ret); long long t = vnow; if (started) th.join(); during = nullptr; if (two && !started) go(); int r; if (conn) sink->processFrame(r);
            Ev e(two ? "proc2" : "proc"); if (two) c.put(e); e.raw("failed", names()).k("t0", t0).k("t", t).k("ret", ret).raw("outs", "[" + sink->got + "]"); out.put(seen(e));
        } else bad("op " + sc.op());
    }
    clean(); return 0;
}

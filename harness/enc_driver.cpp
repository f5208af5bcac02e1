// Runs scripts on the real video encoders, fed by a real source and followed by a real sink; what comes out is decoded.
#include "vf.hh"
#include "Filter.hh"
#include "AVFramedQueue.hh"
#include "VideoFrame.hh"
#include "modules/videoEncoder/VideoEncoderX264.hh"
#include "modules/videoEncoder/VideoEncoderX265.hh"
#include <set>
using namespace vf;
typedef std::string S; typedef std::chrono::microseconds us; typedef unsigned char B;
static Out out; static Script sc; static const long long BASE = 1700000000000000LL;
static long long rel(us t) { return t.count() == -1 ? -999999999 : t.count() < BASE - 1000000000 ? -888888888 : t.count() - BASE; }
// ---- pictures: the number is drawn in 16 blocks
static const PixType FMT[] = {YUV420P, YUV422P, YUV444P, RGB24};
struct RawQ : AVFramedQueue { RawQ(ConnectionData c, StreamInfo* s) : AVFramedQueue(c, s, 8) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(RAW, 96, 96, RGB24); } };
struct Src : HeadFilter {
    StreamInfo si; int n = 0, w = 0, h = 0, fmt = 0; long long ts = 0;
    Src() : HeadFilter(1), si(VIDEO) { si.video.codec = RAW; si.video.pixelFormat = YUV420P; }
    FrameQueue* allocQueue(ConnectionData c) { return new RawQ(c, &si); }
    void doGetState(Jzon::Object&) {} bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
    bool doProcessFrame(std::map<int, Frame*>& d, int& ret) {
        ret = 0; if (d.empty()) return false; VideoFrame* f = dynamic_cast<VideoFrame*>(d.begin()->second); B* b = f->getDataBuf(); memset(b, 128, 96 * 96 * 3);
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int k = (y * 4 / h) * 4 + x * 4 / w; b[y * w + x] = n >> k & 1 ? 200 : 50; }
        int cw = fmt == 2 ? w : w / 2, ch = fmt == 0 ? h / 2 : h; for (int c = 0; c < 2 && fmt < 3; c++) for (int y = 0; y < ch; y++) for (int x = 0; x < cw; x++) { int k = (y * 4 / ch) * 4 + x * 4 / cw; b[w * h + c * cw * ch + y * cw + x] = (n >> k & 1) ^ c ? 180 : 76; }
        f->setLength(w * h * (fmt == 0 ? 3 : fmt == 1 ? 4 : 6) / 2); f->setSize(w, h); f->setPixelFormat(FMT[fmt]); f->setPresentationTime(us(BASE + ts)); f->setDecodeTime(NO_DTS); f->setConsumed(true); return true;
    }
};
// ---- what the encoder is given
struct In { long seq; long long ts; int w, h, fmt; };
static std::vector<In> ins; static std::map<long, std::chrono::system_clock::time_point> origins;
struct Probe { virtual ~Probe() {} virtual S headers() = 0; virtual long long time() = 0; };
template <class E> struct Tap : E, Probe {
    long long time() { return this->getFrameTime().count(); }
    bool doProcessFrame(Frame* o, Frame* d) {
        VideoFrame* v = dynamic_cast<VideoFrame*>(o); int k = 3; for (int i = 0; i < 3; i++) if (v->getPixelFormat() == FMT[i]) k = i;
        ins.push_back({(long)o->getSequenceNumber(), rel(o->getPresentationTime()), v->getWidth(), v->getHeight(), k}); origins[o->getSequenceNumber()] = o->getOriginTime();
        return E::doProcessFrame(o, d); }
    S headers() { StreamInfo* s = this->outputStreamInfo; return s->extradata_size > 0 ? S((char*)s->extradata, s->extradata_size) : S(); }
};
struct Unit { S data; long seq; long long ts, dts; bool org; int w, h; };
static std::vector<Unit> units;
struct Snk : TailFilter {
    Snk() : TailFilter(1) { setSync(false); }
    void doGetState(Jzon::Object&) {} bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; }
    bool doProcessFrame(std::map<int, Frame*>& o, std::vector<int> n, int& ret) {
        ret = 0; for (int r : n) { VideoFrame* f = dynamic_cast<VideoFrame*>(o[r]); long q = f->getSequenceNumber();
            units.push_back({S((char*)f->getDataBuf(), f->getLength()), q, rel(f->getPresentationTime()), rel(f->getDecodeTime()), origins.count(q) && origins[q] == f->getOriginTime(), f->getWidth(), f->getHeight()}); }
        return true; }
};
// ---- decoding
static AVCodecContext* dec = nullptr; static bool hevc; static S sets; static std::map<long, int> decoded; static std::map<long, std::vector<int>> dims; static long sent;
static void take() { AVFrame* f = av_frame_alloc(); while (avcodec_receive_frame(dec, f) == 0) { 
    int m[3] = {0, 0, 0}, fm = f->format == AV_PIX_FMT_YUV420P ? 0 : f->format == AV_PIX_FMT_YUV422P ? 1 : f->format == AV_PIX_FMT_YUV444P ? 2 : 3; for (int c = 0; c < 3; c++) { int w = c && fm < 2 ? f->width / 2 : f->width, h = c && fm == 0 ? f->height / 2 : f->height; for (int k = 0; k < 16; k++) { int y = (k / 4 * 2 + 1) * h / 8, x = (k % 4 * 2 + 1) * w / 8; if (f->data[c][y * f->linesize[c] + x] > 125) m[c] |= 1 << k; } }
    decoded[f->pts] = m[0] != m[1] ? -1 : m[0] != (m[2] ^ 0xffff) ? -2 : m[0]; dims[f->pts] = {f->width, f->height, fm}; } av_frame_free(&f); }
static void finish() { // what was sent comes out
    if (!dec) return; avcodec_send_packet(dec, nullptr); take(); avcodec_free_context(&dec); dec = nullptr; }
static void decode(const S& au, long seq, bool idr) {
    if (idr) { finish(); dec = avcodec_alloc_context3(avcodec_find_decoder(hevc ? AV_CODEC_ID_HEVC : AV_CODEC_ID_H264)); dec->thread_count = 1; if (avcodec_open2(dec, nullptr, nullptr) < 0) bad("decoder"); }
    if (!dec) return; S d = idr ? sets + au : au; AVPacket* p = av_packet_alloc(); if (av_new_packet(p, d.size())) bad("packet"); memcpy(p->data, d.data(), d.size()); p->pts = seq; sent++; avcodec_send_packet(dec, p); av_packet_free(&p); take(); }
static int type(const S& u) { size_t k = 0; while (k < u.size() && !u[k]) k++; if (k < 2 || k + 1 >= u.size() || u[k] != 1) return -1; return hevc ? (u[k + 1] & 0x7e) >> 1 : u[k + 1] & 31; }
static Src* src; static VideoEncoderX264or5* enc; static Probe* probe; static Snk* snk;
static void clean() { finish(); if (src) { src->disconnectWriter(DEFAULT_ID); } if (enc) { enc->disconnectReader(DEFAULT_ID); enc->disconnectWriter(DEFAULT_ID); }; delete src; delete enc; delete snk; src = nullptr; enc = nullptr; snk = nullptr; ins.clear(); units.clear(); origins.clear(); decoded.clear(); dims.clear(); sets.clear(); sent = 0; }
static void event(const char* a, Jzon::Object p) { Jzon::Object o; o.Add("action", a); o.Add("params", p); enc->pushEvent(Event(o, std::chrono::system_clock::now(), 0)); }
int main(int argc, char** argv) {
    sc.open(argv[1]); out.open(argv[2]); int ret, n = 0; av_log_set_level(AV_LOG_QUIET);
    while (sc.next()) {
        if (sc.is("reset")) { clean(); S c = sc.str(); hevc = c == "hevc"; n = 0; src = new Src; src->setId(1); if (hevc) { auto t = new Tap<VideoEncoderX265>; enc = t; probe = t; } else { auto t = new Tap<VideoEncoderX264>; enc = t; probe = t; } enc->setId(2); snk = new Snk; snk->setId(3);
            if (!src->connectOneToOne(enc) || !enc->connectOneToOne(snk)) bad("connect"); out.put(Ev("reset").t("codec", c));
        } else if (sc.is("conf")) { Jzon::Object p; Ev e("conf"); S keys, vals;
            while (sc.more()) { S k = sc.str(); if (k == "preset") { S v = sc.str(); if (v == "-") v = ""; p.Add(k, v); e.t("preset", v); } else { int v = sc.num(); if (k == "annexb") p.Add(k, v != 0); else p.Add(k, v); e.k(k.c_str(), v); } }
            event("configure", p); out.put(e);
        } else if (sc.is("force")) { event("forceIntra", Jzon::Object()); out.put(Ev("force"));
        } else if (sc.is("ref")) { long long t = sc.num(); Jzon::Object p; p.Add("referenceTime", t == -1 ? S("0") : std::to_string(BASE + t)); event("gopReferenceTime", p); out.put(Ev("ref").k("t", t));
        } else if (sc.is("badref")) { S k = sc.str(); Jzon::Object p; if (k == "text") p.Add("referenceTime", "soon"); else if (k == "number") p.Add("referenceTime", 5); else if (k == "huge") p.Add("referenceTime", "99999999999999999999999999"); if (k == "none") { Jzon::Object o; o.Add("action", "gopReferenceTime"); enc->pushEvent(Event(o, std::chrono::system_clock::now(), 0)); } else event("gopReferenceTime", p); out.put(Ev("badref").t("k", k));
        } else if (sc.is("pic")) { src->ts = sc.num(); src->w = sc.num(); src->h = sc.num(); src->fmt = sc.num(); src->n = ++n * 40503 & 0xffff; src->processFrame(ret); out.put(Ev("pic").k("ts", src->ts).k("n", src->n).k("w", src->w).k("h", src->h).k("fmt", src->fmt));
        } else if (sc.is("proc")) { ins.clear(); units.clear(); enc->processFrame(ret); for (int i = 0; i < 40; i++) snk->processFrame(ret);
            Ev e("proc"); S a; for (auto& i : ins) a += (a.empty() ? "[" : ",[") + std::to_string(i.seq) + "," + std::to_string(i.ts) + "," + std::to_string(i.w) + "," + std::to_string(i.h) + "," + std::to_string(i.fmt) + "]"; e.raw("in", "[" + a + "]");
            // pictures: their units start with a delimiter, but where x265 leaves it with the headers
            S o; bool ok = true; for (size_t i = 0; i < units.size();) { size_t j = i + 1; bool del = type(units[i].data) == (hevc ? 35 : 9); while (j < units.size() && type(units[j].data) != (hevc ? 35 : 9) && units[j].seq == units[i].seq) j++;
                S au, ps; int idr = 0, vcl = 0; Unit& u = units[i]; for (size_t k = i; k < j; k++) { int t = type(units[k].data); au += units[k].data; if (t < 0 || units[k].seq != u.seq || units[k].ts != u.ts || units[k].dts != u.dts || units[k].org != u.org || units[k].w != u.w || units[k].h != u.h) ok = false;
                    if (hevc ? t < 32 : t >= 1 && t <= 5) { bool x = hevc ? t == 19 || t == 20 : t == 5; if (vcl++ && x != (idr != 0)) ok = false; idr = x; } if (hevc ? t >= 32 && t <= 34 : t == 7 || t == 8) ps += units[k].data; }
                if (!vcl || (!del && !(hevc && idr && ps.empty()))) ok = false; if (!ps.empty()) sets = ps; else if (idr) { sets = probe->headers(); }
                decode(au, u.seq, idr);
                o += (o.empty() ? "{" : ",{") + Ev("").k("seq", u.seq).k("ts", u.ts).k("dts", u.dts).b("org", u.org).b("idr", idr).b("ps", !ps.empty()).k("w", u.w).k("h", u.h).s.substr(9) + "}"; i = j; }
            e.raw("out", "[" + o + "]").b("wf", ok); Jzon::Object st; enc->getState(st); auto num = [&](const char* k) { return (long long)st.Get(k).ToInt(); };
            S r = st.Get("refTime").ToString(); long long rt = strtoll(r.c_str(), 0, 10); e.k("bitrate", num("bitrate")).k("fps", num("fps")).k("gop", num("gop")).k("gopTime", num("gopTime")).k("lookahead", num("lookahead")).k("threads", num("threads")).k("bframes", num("bframes")).b("annexb", st.Get("annexb").ToBool()).t("preset", st.Get("preset").ToString()).k("ref", rt == 0 ? -1 : rt - BASE).k("ft", probe->time()); out.put(e);
        } else if (sc.is("end")) { finish(); S a; for (auto& x : decoded) a += (a.empty() ? "[" : ",[") + std::to_string(x.first) + "," + std::to_string(x.second) + "," + std::to_string(dims[x.first][0]) + "," + std::to_string(dims[x.first][1]) + "," + std::to_string(dims[x.first][2]) + "]"; out.put(Ev("end").raw("pics", "[" + a + "]").k("sent", sent));
        } else bad("op " + sc.op());
    }
    clean(); return 0;
}

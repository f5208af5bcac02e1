// Runs scripts on the real dasher, fed by real sources, and reads back what it leaves in its folder.
#include "vf.hh"
#include "Filter.hh"
#include "AVFramedQueue.hh"
#include "VideoFrame.hh"
#include "AudioFrame.hh"
#include "modules/dasher/Dasher.hh"
#include <tinyxml2.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <set>
using namespace vf;
typedef std::string S; typedef std::chrono::microseconds us; typedef unsigned char B;
static Out out; static Script sc; static S dir; static long long base_, far_; static const S name = "seg";
// ---- contents: equal bytes have equal numbers
static std::map<S, int> ids; static int number(const S& b) { auto it = ids.find(b); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[b] = n; return n; }
static int look(const S& b) { auto it = ids.find(b); return it == ids.end() ? -1 : it->second; }
static S payload(long seed, int len) { S s; unsigned x = seed * 2654435761u + 12345; for (int i = 0; i < len; i++) { x = x * 1103515245u + 12345; s += (char)((x >> 16) | 1); } return s; }
// ---- sources
struct Unit { S data; int w, h, n, rate, ch; long long ts, dts; };
struct VQ : VideoFrameQueue { VQ(ConnectionData c, StreamInfo* si) : VideoFrameQueue(c, si, 8) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(si->video.codec, 200000); } };
struct AQ : AudioFrameQueue { AQ(ConnectionData c, StreamInfo* si) : AudioFrameQueue(c, si, 8) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedAudioFrame::createNew(2, 48000, 4096, si->audio.codec, S16); } };
struct Src : HeadFilter {
    StreamInfo si; S kind; Unit u;
    Src(const S& k) : HeadFilter(1), si(k == "aac" || k == "mp3" ? AUDIO : VIDEO), kind(k) {
        if (k == "avc") si.video.codec = H264; else if (k == "hevc") si.video.codec = H265; else if (k == "vp8") si.video.codec = VP8; else if (k == "aac") si.audio.codec = AAC; else if (k == "mp3") si.audio.codec = MP3; else bad("kind");
        if (si.type == AUDIO) { si.audio.sampleFormat = S16; si.audio.channels = 2; si.audio.sampleRate = 48000; } }
    FrameQueue* allocQueue(ConnectionData c) { if (si.type == AUDIO) return new AQ(c, &si); return new VQ(c, &si); }
    void doGetState(Jzon::Object&) {} bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
    bool doProcessFrame(std::map<int, Frame*>& d, int& ret) {
        ret = 0; if (d.empty()) return false;
        Frame* f = d.begin()->second; memset(f->getDataBuf(), 1, 64); // what was there before must not matter
        if (u.data.size() < 8) { const B c[8] = {0, 0, 0, 1, 0, 0, 1, 0}; memcpy(f->getDataBuf() + u.data.size(), c + (u.ts / 10) % 4, 4); }
        memcpy(f->getDataBuf(), u.data.data(), u.data.size()); f->setLength(u.data.size()); f->setPresentationTime(us(base_ + u.ts)); f->setDecodeTime(u.dts == -1 ? NO_DTS : us(base_ + u.dts)); f->setConsumed(true);
        if (auto v = dynamic_cast<VideoFrame*>(f)) v->setSize(u.w, u.h);
        if (auto a = dynamic_cast<AudioFrame*>(f)) { a->setSamples(u.n); a->setSampleRate(u.rate); a->setChannels(u.ch); }
        return true;
    }
};
struct D : Dasher { D() : Dasher(20) { setSync(false); setId(1); } };
static Dasher* d; static std::map<int, Src*> srcs;
// ---- what is in the folder
static std::map<S, S> folder() { std::map<S, S> m; DIR* D = opendir(dir.c_str()); while (dirent* e = readdir(D)) { S n = e->d_name; if (n == "." || n == "..") continue; std::ifstream f(dir + "/" + n, std::ios::binary); m[n] = S((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); } closedir(D); return m; }
static std::map<S, S> disk;
struct Err { S what; }; static void need(bool b, const char* w) { if (!b) throw Err{w}; }
struct Box { S type; size_t at, body, end; }; // positions in the file
static uint64_t be(const S& f, size_t at, int n) { need(at + n <= f.size(), "beyond the end"); uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (B)f[at + i]; return v; }
static std::vector<Box> boxes(const S& f, size_t a, size_t e) { std::vector<Box> v; while (a < e) { size_t n = be(f, a, 4); need(n >= 8 && a + n <= e, "box size"); v.push_back({f.substr(a + 4, 4), a, a + 8, a + n}); a += n; } return v; }
static Box one(const S& f, const std::vector<Box>& v, const char* t) { const Box* r = nullptr; for (auto& b : v) if (b.type == t) { need(!r, "box twice"); r = &b; } need(r, t); return *r; }
static Box sub(const S& f, const Box& p, const char* t, int skip = 0) { return one(f, boxes(f, p.body + skip, p.end), t); }
static long long rel(uint64_t v, long long tb) { return (long long)v - far_ * tb; }
static S segment(const S& f, bool video) {
    auto top = boxes(f, 0, f.size()); need(top.size() == 4 && top[0].type == "styp", "top boxes"); Box sidx = one(f, top, "sidx"), moof = one(f, top, "moof"), mdat = one(f, top, "mdat");
    need(sidx.at < moof.at && moof.end == mdat.at, "order of boxes");
    need((B)f[sidx.body] == 1, "sidx version"); // version 1: 64 bit times
    size_t p = sidx.body + 4; need(be(f, p, 4) == 1, "sidx reference id"); long long tb = be(f, p + 4, 4); uint64_t ept = be(f, p + 8, 8); need(be(f, p + 16, 8) == 0 && be(f, p + 26, 2) == 1, "sidx offset"); uint64_t ref = be(f, p + 28, 4); uint64_t dur = be(f, p + 32, 4); need(ref == mdat.end - moof.at && be(f, p + 36, 1) >> 7 == 1, "sidx reference"); need(moof.at == sidx.end, "sidx anchor");
    Box mfhd = sub(f, moof, "mfhd"), traf = sub(f, moof, "traf"), tfhd = sub(f, traf, "tfhd"), tfdt = sub(f, traf, "tfdt"), trun = sub(f, traf, "trun");
    uint64_t seq = be(f, mfhd.body + 4, 4); need(be(f, tfhd.body + 4, 4) == 1 && (be(f, tfhd.body, 4) & 0x020000), "tfhd"); need((B)f[tfdt.body] == 1 || f[tfdt.body + 3] == 1, "tfdt version"); uint64_t bmdt = be(f, tfdt.body + 4, 8);
    unsigned flags = be(f, trun.body, 4); need((flags & 0xff00ff) == 1, "trun offset"); unsigned n = be(f, trun.body + 4, 4); need(moof.at + be(f, trun.body + 8, 4) == mdat.body, "trun data offset");
    int per = 0; for (int b = 8; b < 12; b++) if (flags >> b & 1) per += 4; need(trun.body + 12 + (size_t)n * per == trun.end, "trun size"); need((flags & 0x300) == 0x300, "trun sizes and durations");
    S s; size_t q = trun.body + 12, at = mdat.body;
    for (unsigned i = 0; i < n; i++) {
        long long sd = be(f, q, 4), sz = be(f, q + 4, 4); q += 8; unsigned fl = 0; long long cto = 0; if (flags & 0x400) { fl = be(f, q, 4); q += 4; } if (flags & 0x800) { cto = (int32_t)be(f, q, 4); q += 4; }
        need(at + sz <= mdat.end, "sample beyond the data"); S u;
        if (video) for (size_t a = at; a < at + sz;) { size_t k = be(f, a, 4); need(a + 4 + k <= at + sz, "unit beyond the sample"); u += (u.empty() ? "" : ",") + std::to_string(look(f.substr(a + 4, k))); a += 4 + k; }
        else u = std::to_string(look("aac" + f.substr(at, sz)));
        s += (i ? ",[" : "[") + std::to_string(sd) + ",[" + u + "]," + (fl & 0x10000 ? "0" : "1") + "," + std::to_string(cto) + "]"; at += sz;
    }
    need(at == mdat.end, "data without sample");
    Ev e(""); e.s = "\"tb\":" + std::to_string(tb); e.k("ept", rel(ept, tb)).k("dts", rel(bmdt, tb)).k("dur", dur).k("seq", seq).raw("smp", "[" + s + "]"); return e.s;
}
static S init(const S& f, bool video) {
    auto top = boxes(f, 0, f.size()); need(top.size() == 2 && top[0].type == "ftyp", "top boxes"); Box moov = one(f, top, "moov"); sub(f, moov, "mvhd"); Box mvex = sub(f, moov, "mvex"); need(be(f, sub(f, mvex, "trex").body + 4, 4) == 1, "trex"); Box trak = sub(f, moov, "trak"), tkhd = sub(f, trak, "tkhd"), mdia = sub(f, trak, "mdia"), mdhd = sub(f, mdia, "mdhd"), stbl = sub(f, sub(f, mdia, "minf"), "stbl"), stsd = sub(f, stbl, "stsd");
    need(be(f, tkhd.body + 12, 4) == 1 && be(f, stsd.body + 4, 4) == 1, "track"); long long tb = be(f, mdhd.body + 12, 4); auto en = boxes(f, stsd.body + 8, stsd.end); need(en.size() == 1, "stsd"); Box e = en[0]; S hd = f.substr(sub(f, mdia, "hdlr").body + 8, 4);
    Ev o(""); o.s = "\"tb\":" + std::to_string(tb);
    if (video) {
        need(hd == "vide", "handler"); int w = be(f, e.body + 24, 2), h = be(f, e.body + 26, 2); need((int)be(f, tkhd.end - 8, 2) == w && (int)be(f, tkhd.end - 4, 2) == h, "size"); auto in = boxes(f, e.body + 78, e.end); need(in.size() == 1, "sample entry"); Box c = in[0]; size_t p = c.body; std::vector<int> ps;
        if (c.type == "avcC") { need(e.type == "avc1" || e.type == "avc3", "entry"); need((B)f[p] == 1 && ((B)f[p + 4] & 3) == 3, "avcC"); int n = (B)f[p + 5] & 31; p += 6; for (int k = 0; k < 2; k++) { need(n == 1, "parameter sets"); size_t l = be(f, p, 2); ps.push_back(look(f.substr(p + 2, l))); p += 2 + l; if (!k) n = be(f, p++, 1); } }
        else { need(c.type == "hvcC" && (e.type == "hev1" || e.type == "hvc1"), "entry"); need(((B)f[p + 21] & 3) == 3, "hvcC"); int n = (B)f[p + 22]; need(n == 3, "arrays"); p += 23; for (int k = 0; k < n; k++) { need((be(f, p, 1) & 63) == 32u + k && be(f, p + 1, 2) == 1, "array"); size_t l = be(f, p + 3, 2); ps.push_back(look(f.substr(p + 5, l))); p += 5 + l; } }
        need(p == c.end, "end of the configuration"); o.k("w", w).k("h", h).a("ps", ps);
    } else {
        need(hd == "soun" && e.type == "mp4a", "entry"); int ch = be(f, e.body + 16, 2), rate = be(f, e.body + 24, 2); auto in = boxes(f, e.body + 28, e.end); need(in.size() == 1 && in[0].type == "esds", "esds"); size_t p = in[0].body + 4; need(be(f, p, 1) == 3, "esds 3"); p += 5; need(be(f, p, 1) == 4, "esds 4"); p += 15; need(be(f, p, 1) == 5 && be(f, p + 1, 1) == 2, "esds 5"); int c = be(f, p + 2, 2);
        o.k("ch", ch).k("rate", rate).a("cfg", std::vector<int>{c >> 11, c >> 7 & 15, c >> 3 & 15});
    }
    return o.s;
}
static S manifest(const S& f) {
    tinyxml2::XMLDocument x; need(x.Parse(f.c_str(), f.size()) == 0, "xml"); auto r = x.FirstChildElement("MPD"); need(r, "MPD"); need(!strcmp(r->Attribute("type"), "dynamic"), "type"); auto P = r->FirstChildElement("Period"); need(P && !P->NextSiblingElement("Period"), "period"); S s;
    for (auto a = P->FirstChildElement("AdaptationSet"); a; a = a->NextSiblingElement("AdaptationSet")) {
        S mime = a->Attribute("mimeType"); bool v = mime == "video/mp4"; need(v || mime == "audio/mp4", "mime type"); auto t = a->FirstChildElement("SegmentTemplate"); need(t, "template"); long long tb = t->IntAttribute("timescale"); S ext = v ? ".m4v" : ".m4a";
        need(t->Attribute("media") == name + "_$RepresentationID$_$Time$" + ext && t->Attribute("initialization") == name + "_$RepresentationID$_init" + ext, "templates");
        S l, rs; auto tl = t->FirstChildElement("SegmentTimeline"); need(tl, "timeline"); for (auto e = tl->FirstChildElement("S"); e; e = e->NextSiblingElement("S")) l += (l.empty() ? "[" : ",[") + std::to_string(rel(strtoull(e->Attribute("t"), 0, 10), tb)) + "," + e->Attribute("d") + "]";
        for (auto e = a->FirstChildElement("Representation"); e; e = e->NextSiblingElement("Representation")) {
            Ev o(""); o.s = S("{\"id\":") + e->Attribute("id"); o.t("codec", S(e->Attribute("codecs")).substr(0, 4)).k("bw", e->IntAttribute("bandwidth"));
            if (v) o.k("w", e->IntAttribute("width")).k("h", e->IntAttribute("height")); else { auto c = e->FirstChildElement("AudioChannelConfiguration"); need(c, "channels"); o.k("rate", e->IntAttribute("audioSamplingRate")).k("ch", c->IntAttribute("value")); }
            rs += (rs.empty() ? "" : ",") + o.s + "}"; }
        s += (s.empty() ? "" : ",") + S("{\"set\":\"") + (v ? "v" : "a") + "\",\"tb\":" + std::to_string(tb) + ",\"list\":[" + l + "],\"reps\":[" + rs + "]}";
    }
    return s;
}
static Ev obs(Ev e) { // what changed in the folder, and the manifest
    auto now = folder(); S files, inits, dels, mpd, wf; bool has = false;
    auto parts = [&](const S& n, S& head) { bool v = n.size() > 4 && n.substr(n.size() - 4) == ".m4v", a = n.size() > 4 && n.substr(n.size() - 4) == ".m4a"; if ((!v && !a) || n.compare(0, 4, name + "_")) return 0; size_t k = n.find('_', 4); if (k == S::npos) return 0; S t = n.substr(k + 1, n.size() - k - 5); int id = atoi(n.substr(4, k - 4).c_str()); head = "{\"k\":\"" + S(v ? "v" : "a") + "\",\"r\":" + std::to_string(id); if (t == "init") return 2; head += ",\"t\":" + t; return 1; };
    auto tbOf = [&](const S& n) -> long long { auto it = now.find(n); return atoll(segment(it != now.end() ? it->second : disk[n], n.back() == 'v').c_str() + 5); };
    auto fix = [&](S head, const S& n) { if (!far_) return head; size_t k = head.find(",\"t\":"); unsigned long long t = strtoull(head.c_str() + k + 5, 0, 10); return head.substr(0, k) + ",\"t\":" + std::to_string(rel(t, tbOf(n))); };
    for (auto& f : now) {
        try {
            if (f.first == name + ".mpd") { has = true; mpd = manifest(f.second); continue; }
            S head; int k = parts(f.first, head); need(k, "unknown file"); auto it = disk.find(f.first); if (it != disk.end() && it->second == f.second) continue; bool v = f.first.back() == 'v';
            if (k == 2) inits += (inits.empty() ? "" : ",") + head + "," + init(f.second, v) + "}"; else files += (files.empty() ? "" : ",") + fix(head, f.first) + "," + segment(f.second, v) + "}";
        } catch (Err& x) { if (wf.empty()) wf = f.first + ": " + x.what; }
    }
    for (auto& f : disk) if (!now.count(f.first)) { S head; try { if (parts(f.first, head) != 1) wf = "deleted " + f.first; else dels += (dels.empty() ? "" : ",") + fix(head, f.first) + "}"; } catch (Err& x) { wf = f.first + ": " + x.what; } }
    disk = now;
    return e.t("wf", wf).raw("files", "[" + files + "]").raw("inits", "[" + inits + "]").raw("dels", "[" + dels + "]").b("has", has).raw("mpd", "[" + mpd + "]");
}
static void clean() { for (auto& s : srcs) d->disconnectReader(s.first); delete d; d = nullptr; for (auto& s : srcs) delete s.second; srcs.clear(); for (auto& f : folder()) unlink((dir + "/" + f.first).c_str()); disk.clear(); ids.clear(); }
static bool conn(int id, const S& k) { Src* s = new Src(k); s->setId(500 + id); bool ok = s->connectManyToMany(d, id, 1); if (ok) srcs[id] = s; else delete s; return ok; }
static void event(const char* a, Jzon::Object p) { Jzon::Object o; o.Add("action", a); o.Add("params", p); d->pushEvent(Event(o, std::chrono::system_clock::now(), 0)); }
int main(int argc, char** argv) {
    sc.open(argv[1]); out.open(argv[2]); int ret; char tmp[] = "/tmp/vf-dash-XXXXXX"; if (!mkdtemp(tmp)) bad("mkdtemp"); dir = tmp; long seed = 0;
    while (sc.next()) {
        if (sc.is("reset")) { clean(); int dur = sc.num(), max = sc.num(), buf = sc.num(); base_ = sc.num(); far_ = sc.num(); seed = 0;
            d = new D; bool ok = d->configure(dir, name, dur, max, buf);
            if (far_) { conn(99, "avc"); Src* s = srcs[99]; s->u = {S("\0\0\0\1\x09\x10", 6), 16, 16, 0, 0, 0, -far_ * 1000000, -far_ * 1000000}; s->processFrame(ret); d->processFrame(ret); ok = ok && d->disconnectReader(99); delete s; srcs.erase(99); }
            out.put(obs(Ev("reset").b("ok", ok).k("dur", dur).k("max", max).b("far", far_)));
        } else if (sc.is("conn")) { int id = sc.num(); S k = sc.str(); bool ok = conn(id, k); out.put(obs(Ev("conn").k("r", id).t("k", k).b("ok", ok)));
        } else if (sc.is("disc")) { int id = sc.num(); bool ok = d->disconnectReader(id); if (ok && srcs.count(id)) { delete srcs[id]; srcs.erase(id); } out.put(obs(Ev("disc").k("r", id).b("ok", ok)));
        } else if (sc.is("bitrate")) { int id = sc.num(), v = sc.num(); Jzon::Object p; p.Add("id", id); p.Add("bitrate", v); event("setBitrate", p); out.put(Ev("bitrate").k("r", id).k("v", v));
        } else if (sc.is("conf")) { int v = sc.num(); Jzon::Object p; p.Add("maxSeg", v); event("configure", p); out.put(Ev("conf").k("v", v));
        } else if (sc.is("nal")) { int id = sc.num(), ty = sc.num(), len = sc.num(); long long ts = sc.num(), dts = sc.num(); int scl = sc.num(), w = sc.num(), h = sc.num(); if (!srcs.count(id)) bad("nal");
            S b; if (len > 0) { bool hevc = srcs[id]->kind == "hevc"; b = payload(len < 6 ? ty + 100 * len : 1000 + ++seed, len); b[0] = hevc ? ty << 1 : 0x60 | ty; if (len >= 6) { b[len - 1] = 0x80 | (seed & 0x7f); b[len - 2] = 0x80 | (seed >> 7 & 0x7f); } }
            srcs[id]->u = {S("\0\0\0\1", 4).substr(4 - scl) + b, w, h, 0, 0, 0, ts, dts}; srcs[id]->processFrame(ret);
            out.put(Ev("nal").k("r", id).k("ty", ty).k("len", len).k("c", number(b)).k("ts", ts).k("dts", dts).k("w", w).k("h", h));
        } else if (sc.is("aac")) { int id = sc.num(), len = sc.num(), n = sc.num(); long long ts = sc.num(); int rate = sc.num(), ch = sc.num(), prof = sc.num(), fi = sc.num(), cc = sc.num(); bool good = sc.num(); if (!srcs.count(id)) bad("aac"); // len: with the header
            S hd = "\xff\xf1"; hd += (char)(prof << 6 | fi << 2 | cc >> 2); hd += (char)((cc & 3) << 6 | 0x10); hd += S("\x20\x1f\xfc"); if (!good) hd[++seed % 2] = 0x5a; S p = len > 7 ? payload(1000 + ++seed, len - 7) : ""; S b = (hd + p).substr(0, len);
            srcs[id]->u = {b, 0, 0, n, rate, ch, ts, -1}; srcs[id]->processFrame(ret);
            out.put(Ev("aac").k("r", id).k("len", len).k("c", number("aac" + p)).k("n", n).k("ts", ts).k("rate", rate).k("ch", ch).b("good", good && len >= 7).a("cfg", std::vector<int>{prof + 1, fi, cc}));
        } else if (sc.is("proc")) { d->processFrame(ret); out.put(obs(Ev("proc")));
        } else bad("op " + sc.op());
    }
    clean(); rmdir(tmp); return 0;
}

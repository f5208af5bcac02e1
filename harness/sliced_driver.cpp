// Runs scripts on the real sliced queue.
#include "vf.hh"
#include "SlicedVideoFrameQueue.hh"
using namespace vf;
static Out out; static Script sc; static FrameQueue* q; static StreamInfo* si; static SlicedVideoFrame* pic; static std::vector<int> want;
static std::vector<std::pair<unsigned char*, unsigned>> bufs;
static unsigned len(long p, int i) { return 8 + (p * 7 + i * 5) % 50; }
static void fill(unsigned char* b, long p, int i) { unsigned n = len(p, i); for (unsigned k = 0; k < n; k++) b[k] = (unsigned char)(p * 31 + i * 17 + k); b[0] = i; }
static Ev obs(Ev e) { e.k("n", q->getElements()).b("full", q->isFull()).k("lost", q->getLostBlocs()); return e; }
static void seen(Ev& e, Frame* f) { // which slice it is: -1 when something does not belong to it
    if (!f) { e.k("p", 0).k("i", 0); return; }
    VideoFrame* v = dynamic_cast<VideoFrame*>(f); long p = f->getSequenceNumber(); int i = f->getLength() ? f->getDataBuf()[0] : 0; bool ok = v && i > 0 && f->getLength() == len(p, i);
    if (ok) { unsigned char b[64]; fill(b, p, i); ok = !memcmp(b, f->getDataBuf(), len(p, i)); }
    ok = ok && f->getPresentationTime().count() == p * 1000 + 1 && f->getDecodeTime().count() == p * 1000 + 2 && f->getOriginTime() == std::chrono::system_clock::time_point(std::chrono::microseconds(p * 1000 + 3)) && v->getWidth() == 100 + p % 50 && v->getHeight() == 60 + p % 40;
    if (p == 0 && f->getLength() == 0) { e.k("p", 0).k("i", 0); return; }
    e.k("p", ok ? p : -1).k("i", i);
}
int main(int argc, char** argv) {
    sc.open(argv[1]); out.open(argv[2]); long p = 1; int n = 0;
    auto slice = [&]() {
        if (!pic) { pic = dynamic_cast<SlicedVideoFrame*>(q->forceGetRear()); if (!pic) bad("no frame"); }
        int i = ++n; if (n > 16) i = 17; unsigned L = len(p, i); unsigned char* b = new unsigned char[L]; fill(b, p, i); bufs.push_back({b, L});
        bool ok = pic->setSlice(b, L); out.put(obs(Ev("slice").k("p", p).k("i", i).b("ok", ok)));
    };
    while (sc.next()) {
        if (sc.is("reset")) {
            delete q; pic = nullptr; p = 1; n = 0; want.clear(); int max = sc.num(), nr = sc.num(); ConnectionData c; c.wFilterId = 7; c.writerId = 1;
            for (int i = 1; i <= nr; i++) { ReaderData r; r.rFilterId = 10 + i; r.readerId = i; c.readers.push_back(r); want.push_back(10 + i); }
            delete si; si = new StreamInfo(VIDEO); si->video.codec = H264; q = SlicedVideoFrameQueue::createNew(c, si, max, 64); if (!q) bad("no queue");
            out.put(obs(Ev("reset").k("max", max)));
        } else if (sc.is("rear")) { Frame* f = q->getRear(); out.put(obs(Ev("rear").b("ok", f != NULL)));
        } else if (sc.is("slice")) slice();
        else if (sc.is("slices")) { int k = sc.num(); while (k--) slice(); }
        else if (sc.is("add")) {
            Frame* f = q->forceGetRear(); pic = dynamic_cast<SlicedVideoFrame*>(f); out.put(obs(Ev("frear").b("ok", f != NULL))); if (!pic) bad("no frame");
            pic->setPresentationTime(std::chrono::microseconds(p * 1000 + 1)); pic->setDecodeTime(std::chrono::microseconds(p * 1000 + 2)); pic->setOriginTime(std::chrono::system_clock::time_point(std::chrono::microseconds(p * 1000 + 3))); pic->setSequenceNumber(p); pic->setSize(100 + p % 50, 60 + p % 40);
            std::vector<int> ids = q->addFrame();
            out.put(obs(Ev("add").a("ids", ids).a("want", want)));
            for (auto& b : bufs) { memset(b.first, 0xee, b.second); delete[] b.first; } bufs.clear(); // the encoder uses its memory again
            pic = nullptr; p++; n = 0;
        } else if (sc.is("front")) { Ev e("front"); seen(e, q->getFront()); out.put(obs(e));
        } else if (sc.is("ffront")) { Ev e("ffront"); seen(e, q->forceGetFront()); out.put(obs(e));
        } else if (sc.is("remove")) { int w = q->removeFrame(); out.put(obs(Ev("remove").k("w", w)));
        } else bad("op " + sc.op());
    }
    delete q; return 0;
}

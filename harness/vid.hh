// Raw video sources and sinks for the drivers of the video filters.
#pragma once
#include "vf.hh"
#include "Filter.hh"
#include "AVFramedQueue.hh"
#include "VideoFrame.hh"
#include <memory>
namespace vid {
struct Pic { long v; int w, h; char kind; long long ts; };
inline int solid(long v, int c) { return (v * 37 + c * 71 + 1) % 251; }
inline int pixel(const Pic& p, int i, int j, int c) { // kind p: every pixel differs, s: one colour, h: two halves
    switch (p.kind) { case 's': return solid(p.v, c); case 'h': return 2 * j < p.w ? solid(p.v, c) : (p.v * 37 + c * 71 + 101) % 251; default: return (p.v * 37 + i * 11 + j * 5 + c * 71 + 1) % 251; }
}
// most runs use a short queue, for the sake of speed
struct SmallQueue : AVFramedQueue { SmallQueue(ConnectionData c, unsigned n) : AVFramedQueue(c, nullptr, n) { for (unsigned i = 0; i < n; i++) frames[i] = InterleavedVideoFrame::createNew(RAW, 40, 30, RGB24); } };
inline FrameQueue* smallQueue(ConnectionData c, unsigned n = 2) { return new SmallQueue(c, n); }
struct Src : HeadFilter {
    StreamInfo si; unsigned cap; Pic p{}; bool org = false; std::chrono::system_clock::time_point last;
    Src(unsigned cap_ = 4) : HeadFilter(1), si(VIDEO), cap(cap_) { si.video.codec = RAW; si.video.pixelFormat = RGB24; }
    FrameQueue* allocQueue(ConnectionData c) { return smallQueue(c, cap); }
    void doGetState(Jzon::Object&) {}
    bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
    bool doProcessFrame(std::map<int, Frame*>& d, int& ret) {
        ret = 0; if (d.empty()) return false;
        VideoFrame* f = dynamic_cast<VideoFrame*>(d.begin()->second); unsigned char* b = f->getDataBuf();
        for (int i = 0; i < p.h; i++) for (int j = 0; j < p.w; j++) for (int c = 0; c < 3; c++) *b++ = pixel(p, i, j, c);
        f->setLength(p.w * p.h * 3); f->setSize(p.w, p.h); f->setPresentationTime(std::chrono::microseconds(p.ts)); f->setDecodeTime(std::chrono::microseconds(p.ts)); f->setConsumed(true);
        return true;
    }
};
struct Got { bool any = false; int w = 0, h = 0; unsigned len = 0; long long ts = 0, dts = 0; std::vector<int> pix; long seq = -1; std::chrono::system_clock::time_point org; };
struct Sink : TailFilter { // keeps the last picture that came
    std::map<int, Got> got; int count = 0;
    Sink(unsigned n = 1) : TailFilter(n) { setSync(false); }
    void doGetState(Jzon::Object&) {}
    bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; }
    bool doProcessFrame(std::map<int, Frame*>& o, std::vector<int> n, int& ret) {
        ret = 0;
        for (int r : n) { VideoFrame* f = dynamic_cast<VideoFrame*>(o[r]); Got& g = got[r]; count++; g.any = true; g.w = f->getWidth(); g.h = f->getHeight(); g.len = f->getLength(); g.ts = f->getPresentationTime().count(); g.dts = f->getDecodeTime().count(); g.seq = f->getSequenceNumber(); g.org = f->getOriginTime();
            g.pix.clear(); if ((long)g.w * g.h <= 4096) g.pix.assign(f->getDataBuf(), f->getDataBuf() + g.w * g.h * 3); }
        return true;
    }
};
}

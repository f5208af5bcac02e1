// Frame contents used by the drivers: every field and byte is a function of one number.
#pragma once
#include "Frame.hh"
inline unsigned contentLen(long v) { return 16 + (v * 7) % 40; }
inline void writeFrame(Frame* f, long v, bool meta = true) {
    unsigned char* b = f->isPlanar() ? f->getPlanarDataBuf()[0] : f->getDataBuf();
    unsigned len = contentLen(v);
    for (unsigned i = 0; i < len; i++) b[i] = (unsigned char)(v * 31 + i);
    f->setLength(len);
    if (!meta) return;
    f->setPresentationTime(std::chrono::microseconds(v * 1000 + 1)); f->setDecodeTime(std::chrono::microseconds(v * 1000 + 2));
    f->setOriginTime(std::chrono::system_clock::time_point(std::chrono::microseconds(v * 1000 + 3))); f->setSequenceNumber(v);
}
inline long readFrame(Frame* f) { // the content written, or negative when the parts do not belong together, 0 for no frame
    if (!f) return 0;
    long v = f->getSequenceNumber();
    unsigned len = contentLen(v);
    unsigned char* b = f->isPlanar() ? f->getPlanarDataBuf()[0] : f->getDataBuf();
    if (f->getLength() != len || f->getPresentationTime().count() != v * 1000 + 1 || f->getDecodeTime().count() != v * 1000 + 2 ||
        f->getOriginTime() != std::chrono::system_clock::time_point(std::chrono::microseconds(v * 1000 + 3))) return -1;
    for (unsigned i = 0; i < len; i++) if (b[i] != (unsigned char)(v * 31 + i)) return -2;
    return v;
}

// Filters that stand for the real modules when the pipeline manager creates them by type.
#pragma once
#include "filters.hh"
#include <algorithm>
namespace pmx {
extern long made, gone; extern std::map<BaseFilter*, mf::Any*> mocks;
void born(mf::Any* a); void dead(mf::Any* a);
void enter(mf::Any* a); void leave(mf::Any* a);
}
#define PMX_MOCK(name, base, type, ...) struct name : mf::base { name() : base(__VA_ARGS__) { fType = type; sync(false); pmx::born(this); } ~name() { pmx::dead(this); } std::vector<int> processFrame(int& ret) { pmx::enter(this); std::vector<int> e = base::processFrame(ret); pmx::leave(this); return e; } static name* createNew() { return new name(); } };
PMX_MOCK(SourceManager, H, RECEIVER, REGULAR, true, 3)
PMX_MOCK(HeadDemuxerLibav, H, DEMUXER, REGULAR, true, 2)
PMX_MOCK(V4LCapture, H, V4L_CAPTURE, REGULAR, true, 1)
PMX_MOCK(SinkManager, T, TRANSMITTER, REGULAR, false, 3)
PMX_MOCK(Dasher, T, DASHER, REGULAR, false, 2)
PMX_MOCK(VideoDecoderLibav, O, VIDEO_DECODER, REGULAR, false)
PMX_MOCK(VideoEncoderX264, O, VIDEO_ENCODER, REGULAR, false)
PMX_MOCK(VideoResampler, O, VIDEO_RESAMPLER, REGULAR, false)
PMX_MOCK(AudioDecoderLibav, O, AUDIO_DECODER, REGULAR, false)
PMX_MOCK(AudioEncoderLibav, O, AUDIO_ENCODER, REGULAR, false)
PMX_MOCK(SharedMemory, O, SHARED_MEMORY, REGULAR, false)
PMX_MOCK(VideoMixer, N, VIDEO_MIXER, REGULAR, false, 3)
PMX_MOCK(AudioMixer, N, AUDIO_MIXER, REGULAR, false, 2)
PMX_MOCK(VideoSplitter, M, VIDEO_SPLITTER, REGULAR, false, 3)

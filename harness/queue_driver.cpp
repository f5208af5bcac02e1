// Runs queue scripts on the real frame queues.
#include "vf.hh"
#include "AVFramedQueue.hh"
#include "SlicedVideoFrameQueue.hh"
#include "content.hh"
using namespace vf;
static Out out; static Script sc;
static FrameQueue* q; static Frame* held; static std::string kind;
static std::map<Frame*, int> slots;
static StreamInfo* si;
static int slot(Frame* f) { if (!f) return 0; auto it = slots.find(f); if (it != slots.end()) return it->second; int n = slots.size() + 1; slots[f] = n; return n; }
static Ev obs(Ev e) { e.k("n", q->getElements()).b("full", q->isFull()).k("lost", q->getLostBlocs()); return e; }
int main(int argc, char** argv) {
    sc.open(argv[1]); out.open(argv[2]); long v = 0;
    while (sc.next()) {
        if (sc.is("reset")) {
            delete q; slots.clear(); held = nullptr; v = 0;
            kind = sc.str(); int max = sc.num(), nr = sc.num();
            ConnectionData c; c.wFilterId = 7; c.writerId = 1;
            for (int i = 1; i <= nr; i++) { ReaderData r; r.rFilterId = 10 + i; r.readerId = i; c.readers.push_back(r); }
            delete si; 
            if (kind == "video") { si = new StreamInfo(VIDEO); si->video.codec = VP8; q = VideoFrameQueue::createNew(c, si, max); }
            else if (kind == "pcm") { si = new StreamInfo(AUDIO); si->audio.codec = PCM; si->audio.channels = 2; si->audio.sampleRate = 8000; si->audio.sampleFormat = S16P; q = AudioFrameQueue::createNew(c, si, max); }
            else { si = new StreamInfo(AUDIO); si->audio.codec = AAC; si->audio.channels = 2; si->audio.sampleRate = 8000; si->audio.sampleFormat = S16; q = AudioFrameQueue::createNew(c, si, max); }
            if (!q) bad("no queue");
            out.put(obs(Ev("reset").t("kind", kind).k("max", max).k("nr", nr)));
        } else if (sc.is("rear")) { held = q->getRear(); out.put(obs(Ev("rear").k("s", slot(held))));
        } else if (sc.is("frear")) { held = q->forceGetRear(); out.put(obs(Ev("frear").k("s", slot(held))));
        } else if (sc.is("add")) {
            if (held) { v++; writeFrame(held, v); }
            std::vector<int> ids = q->addFrame(); held = nullptr;
            out.put(obs(Ev("add").k("v", v).a("ids", ids)));
        } else if (sc.is("front")) { Frame* f = q->getFront(); out.put(obs(Ev("front").k("s", slot(f)).k("v", readFrame(f))));
        } else if (sc.is("ffront")) { Frame* f = q->forceGetFront(); out.put(obs(Ev("ffront").k("s", slot(f)).k("v", readFrame(f))));
        } else if (sc.is("remove")) { int w = q->removeFrame(); out.put(obs(Ev("remove").k("w", w)));
        } else if (sc.is("addr")) { int f = sc.num(), r = sc.num(); bool ok = q->addReaderCData(f, r); out.put(obs(Ev("addr").k("f", f).k("r", r).b("ok", ok)));
        } else if (sc.is("delr")) { int f = sc.num(); bool ok = q->removeReaderCData(f); out.put(obs(Ev("delr").k("f", f).b("ok", ok)));
        } else bad("op " + sc.op());
    }
    delete q; return 0;
}

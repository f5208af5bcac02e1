from vf import *
from checks import vid
EREPO = ["modules/videoEncoder/" + f for f in ("VideoEncoderX264or5.cpp", "VideoEncoderX264.cpp", "VideoEncoderX265.cpp")] + ["SlicedVideoFrameQueue.cpp"]
def exe(): return build("enc_driver", ["enc_driver.cpp", "pm_stub.cpp"], vid.REPO(*EREPO), flags=ASAN, incs=vid.STUB)
SPEC = VERIF + "/specs/Encoder/TraceEncoder.tla"
PRESETS = ["ultrafast"] * 4 + ["superfast", "superfast", "veryfast", "faster", "fast", "medium"]
class Enc:
    """A life of an encoder: pictures, configurations, intra requests and reference times."""
    def __init__(s, rng, n, codec=None):
        s.rng = rng; s.codec = codec or rng.choice(["avc", "avc", "hevc"]); s.o = ["reset " + s.codec]; s.t = rng.choice([0, rng.randint(0, 3000000)]); s.size = (32, 32) if s.codec == "avc" else (64, 64); s.fmt = 0; s.b = 4; s.la = 25
        s.T = rng.choice([40000, 40000, 33333, 20000, 100000, 200000]); s.free = rng.random() < .7
        s.conf(first=True)
        quiet = rng.random() < .4
        for _ in range(n):
            x = rng.random()
            if not quiet:
                if x < .025: s.conf()
                elif x < .04: s.o.append("force")
                elif x < .05: s.size = rng.choice([(32, 32), (64, 48), (48, 64), (64, 64), (80, 64)] if s.codec == "avc" else [(64, 64), (80, 64), (64, 96), (96, 80)])
                elif x < .055: s.fmt = rng.choice([0, 0, 1, 2, 3])
                elif x < .07: s.o.append("ref %d" % (s.t + rng.choice([0, -1, 1, rng.randint(-20000000, 5000000), rng.randint(0, 1500000)]) if rng.random() < .9 else -1) if s.t > 21000000 or rng.random() < .5 else "force")
                elif x < .075: s.o.append("badref " + rng.choice(["text", "number", "none", "empty", "huge"]))
                elif x < .08: s.bad()
            s.pic()
        s.o.append("end")
    def pic(s):
        r = s.rng; s.o.append("pic %d %d %d %d" % (s.t, *s.size, s.fmt)); s.o.append("proc")
        s.t += s.T + (0 if r.random() < .8 else r.randint(-s.T + 1, s.T) if r.random() < .9 else r.randint(0, 4000000)) if s.free else s.T
    def conf(s, first=False):
        r = s.rng; c = []
        if first and s.free: c.append("fps %d" % r.choice([0, 0, 0, -5]))
        elif first or r.random() < .2: c.append("fps %d" % (1000000 // s.T if not s.free else r.choice([0, 0, -1])))
        if first or r.random() < .3: c.append("gop %d" % r.choice([1, 2, 3, 5, 8, 12, 25, 250]))
        if r.random() < .5: c.append("gopTime %d" % r.choice([0, 0, 1, 400000, 1000000, 1000001, 1500000, 2500000, -3]))
        if first or r.random() < .2: s.la = r.choice([5, 6, 10, 10, 25]) ; c.append("lookahead %d" % s.la)
        if first or r.random() < .2: c.append("threads %d" % r.choice([1, 1, 2, 3, 4]))
        if r.random() < .2: c.append("bitrate %d" % r.choice([1500, 2000, 4000, 9000]))
        if r.random() < .3: c.append("preset %s" % r.choice(PRESETS if s.codec == "avc" else ["ultrafast", "ultrafast", "superfast"]))
        if r.random() < .2: c.append("bframes %d" % r.choice([0, 1, 2, 3, 4]))
        if r.random() < .2: c.append("annexb %d" % r.choice([0, 1]))
        if c: s.o.append("conf " + " ".join(c))
    def bad(s): s.o.append("conf " + s.rng.choice(["bitrate 0", "bitrate -1", "gop 0", "gop -7", "lookahead -2", "threads 0", "threads -1", "preset -", "gop 3 bitrate -5 fps 30", "threads 2 gop 0 gopTime 5000000"]))
def g_enc(rng): return Enc(rng, rng.choice([50, 80, 120])).o

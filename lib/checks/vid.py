from vf import *
from checks import filt
REPO = lambda *m: [r for r in filt.REPOF if os.path.exists(os.path.join(SRC, r))] + list(m)
STUB = ["-I" + VERIF + "/harness/stubs"]
def mixer(): return build("mixer_driver", ["mixer_driver.cpp", "pm_stub.cpp"], REPO("modules/videoMixer/VideoMixer.cpp"), flags=ASAN, incs=STUB)
def splitter(): return build("splitter_driver", ["splitter_driver.cpp", "pm_stub.cpp"], REPO("modules/videoSplitter/VideoSplitter.cpp"), flags=ASAN, incs=STUB)
class Mix:
    """Random scenes for the mixer."""
    def __init__(self, rng, n, ft=None):
        self.rng = rng; self.max = rng.choice([1, 2, 2, 3, 3, 4]); self.ft = rng.choice([0, 0, 0, 40000]) if ft is None else ft
        self.w, self.h = rng.choice([4, 8, 16]), rng.choice([4, 8, 12]); self.t = {}; self.now = 0; self.ids = []; self.ch = {}; self.left = {}
        self.s = ["reset %d %d %d %d" % (self.max, self.w, self.h, self.ft)]
        for i in range(1, self.max + 1):
            if rng.random() < .85: self.conn(i)
        for i in list(self.ids): self.cfg(i, good=True)
        for _ in range(n):
            x = rng.random()
            if x < .04: self.conn(rng.randint(1, self.max + 1))
            elif x < .07 and self.ids: self.disc(rng.choice(self.ids + [9]))
            elif x < .25: self.cfg(rng.choice((self.ids or [1]) * 6 + [9, -1]), rng.random() < .7)
            elif x < .28: self.conf()
            elif x < .65: self.frame()
            else: self.proc()
    def conn(self, i):
        self.s.append("conn %d" % i)
        if i not in self.ids and len(self.ids) < self.max: self.ids.append(i); self.left[i] = 0; self.ch[i] = (64, 64)
    def disc(self, i):
        self.s.append("disc %d" % i)
        if i in self.ids: self.ids.remove(i)
    def cfg(self, i, good):
        r = self.rng
        # parts of a layout of 4 to 16 pixels
        w, h, x, y = r.choice([16, 32, 32, 48, 64, 64]), r.choice([16, 32, 32, 48, 64]), r.choice([0, 0, 16, 32, 48]), r.choice([0, 0, 16, 32, 48])
        if r.random() < .3: x, y = min(x, 64 - w), min(y, 64 - h)
        l, en, o = r.randint(0, self.max), int(r.random() < .8), r.choice([64, 64, 64, 32, 16, 48, 0])
        if r.random() < .12: w, h, x, y = r.choice([w, 1, 2]), r.choice([h, 1, 4]), r.choice([x, 64, 63]), r.choice([y, 64, 1])
        if not good:
            k = r.randint(0, 5); bad = r.choice([-1, -16, 65, 128, -64000, 64000])
            if k == 0: w = r.choice([0, bad])
            elif k == 1: h = r.choice([0, bad])
            elif k == 2: x = bad
            elif k == 3: y = bad
            elif k == 4: l = r.choice([-1, self.max + 1, 100])
            else: o = bad
        self.s.append("%s %d %d %d %d %d %d %d %d" % (r.choice(["cfg", "cfg", "ecfg"]), i, w, h, x, y, l, en, o))
        if i in self.ids and good: self.ch[i] = (w, h)
    def conf(self):
        r = self.rng; w, h = r.choice([4, 8, 16]), r.choice([4, 8, 12])
        if r.random() < .3: self.s.append("conf %d %d" % r.choice([(0, 4), (4, 0), (-4, 4), (1921, 4), (4, 1081), (100000, 100000)]))
        else: self.s.append("conf %d %d" % (w, h)); self.w, self.h = w, h
    def frame(self):
        r = self.rng
        if not self.ids: return
        i = r.choice(self.ids); w, h = self.ch[i]; k = r.choice("ppsh")
        w, h = max(1, w * self.w // 64), max(1, h * self.h // 64)
        if k != "p" or r.random() < .1: w, h = r.choice([w, w, 2 * w, 4, 16, 7, 1]), r.choice([h, 2 * h, 4, 9, 1])
        if k == "h" and r.random() < .8: w = r.choice([2, 4, 8, 16, 32])
        if self.ft and self.left.get(i, 0) > 1: return self.proc()
        t = self.t[i] = max(self.t.get(i, 0), self.now) + r.choice([0, 10000, 20000, 20000, 40000]); self.now = max(self.now, t - 60000)
        self.s.append("frame %d %d %d %s %d" % (i, w, h, k, t)); self.left[i] = self.left.get(i, 0) + 1
    def proc(self):
        self.s.append("proc")
        for i in self.left: self.left[i] = max(0, self.left[i] - 1)
class Split:
    """Random scenes for the splitter."""
    def __init__(self, rng, n):
        self.rng = rng; ft = rng.choice([0, 0, 0, 40000]); self.s = ["reset %d" % ft]; self.left = 0; t = 0
        W, H = rng.randint(1, 16), rng.randint(1, 12); ids = rng.sample(range(1, 7), rng.randint(1, 4))
        for i in ids: self.s.append("conn %d" % i); self.crop(i, W, H)
        for _ in range(n):
            x = rng.random()
            if x < .04: self.s.append("conn %d" % rng.randint(1, 6))
            elif x < .06: self.s.append("disc %d" % rng.choice(ids + [7]))
            elif x < .25: self.crop(rng.choice(ids * 3 + [7, -1]), W, H)
            elif x < .27: ft = rng.choice([0, 0, 40000, -1]); self.s.append("conf %d" % ft)
            elif x < .3: W, H = rng.randint(1, 16), rng.randint(1, 12)
            elif x < .62 and self.left < 3:
                t += rng.choice([0, 10000, 20000, 40000]); self.s.append("frame %d %d %d" % (W, H, t)); self.left += 1
            else: self.s.append("proc"); self.left = max(0, self.left - 1)
    def crop(self, i, W, H):
        r = self.rng; w = r.randint(1, W); h = r.randint(1, H); x = r.randint(0, W - w); y = r.randint(0, H - h); d = r.choice([0, 0, 90, -360, 360])
        if r.random() < .2: x, y = r.choice([(x + 1, y), (x, y + 1), (W - w + 1, y), (x, H - h + 1), (x, y)])
        if r.random() < .2:
            bad = r.choice([0, -1, -100, 2147483647, 2147483000, 100000]); k = r.randint(0, 4)
            if k == 0: w = bad
            elif k == 1: h = bad
            elif k == 2: x = bad
            elif k == 3: y = bad
            else: d = r.choice([361, -361])
        self.s.append("%s %d %d %d %d %d %d" % (r.choice(["crop", "crop", "ecrop"]), i, w, h, x, y, d))
def shm(): return build("shm_driver", ["shm_driver.cpp", "pm_stub.cpp"], REPO("SlicedVideoFrameQueue.cpp", "modules/sharedMemory/SharedMemory.cpp"), incs=STUB)
class Shm:
    def __init__(self, rng, n, kind=None):
        self.rng = rng; k = kind or rng.choice(["raw", "coded", "coded", "sliced", "sliced"]); self.s = ["reset " + k]; self.t = rng.choice([0, 999990, 10**9]); pt = rng.choice([.1, .3, .6])
        for _ in range(n):
            if rng.random() < pt: self.s.append("take")
            if k == "raw": self.u("raw")
            elif k == "rawbig": self.u(rng.choice(["raw", "big", "full"]))
            else: self.picture(k == "sliced")
    def u(self, kind):
        r = self.rng; at = r.choice([-1, -1, -1, 0, 1, 2, 3, 5, 8, 12])
        self.s.append("u %s %d %d %d %d %d" % (kind, r.choice([16, 640, 1920, 65535]), r.choice([16, 480, 1080]), r.choice([0, 1, 2, 3, 4, 5, 6]), self.t, at))
    def picture(self, sliced):
        r = self.rng; self.t += r.choice([1, 20000, 40000, 1000000]); ks = ["AUD"]
        if r.random() < .3: ks += ["SPS", "PPS"]
        if r.random() < .3: ks.append("SEI")
        ks += [r.choice(["IDR", "NON"])] * r.choice([1, 1, 2, 3])
        if r.random() < .15: ks.insert(r.randint(1, len(ks)), r.choice(["OTH", "DPA", "BAD", "EMP", "AUD", "SEI"]))
        if r.random() < .05: ks = ks[1:] # joined to the previous one
        for k in ks:
            self.u(k + (r.choice(["", "", "3"]) if k not in ("BAD",) else ""))
            if not sliced and r.random() < .1: self.s.append("take")
        if sliced: self.s.append("pic")
def resampler(): return build("resampler_driver", ["resampler_driver.cpp", "pm_stub.cpp"], REPO("modules/videoResampler/VideoResampler.cpp"), flags=ASAN, cxx=["-fno-access-control"], incs=STUB, link=["-Wl,--wrap=sws_getContext,--wrap=sws_getCachedContext,--wrap=sws_freeContext"])
class Resample:
    """Random scenes for the resampler; Absent marks the parameters an event does not have."""
    A = -77777
    def __init__(self, rng, n, big=False):
        self.rng = r = rng; self.s = ["reset %d" % (0 if big else r.choice([64 * 64 * 3, 64 * 64 * 4, 6000]))]; t = r.choice([0, 10**6, 10**9]); left = 0
        w, h, f = self.even(), self.even(), r.randint(0, 6); self.big = big
        for _ in range(n):
            x = r.random()
            if x < .08: self.conf("conf")
            elif x < .2: self.conf("econf")
            elif x < .3: w, h, f = self.even(), self.even(), r.choice([f, f, r.randint(0, 6), -1, 9])
            elif x < .62 and left < 4:
                t += r.choice([0, 10000, 40000]); left += 1
                self.s.append("frame %d %d %d %d %d %d %d %d" % ((w, h, f, t) + tuple(r.randint(0, 7) for _ in range(4))))
            else: self.s.append("proc"); left = max(0, left - 1)
    def even(self): return self.rng.choice([16, 20, 32, 48, 64]) # libswscale blurs the right edge of pictures of odd width
    def size(self): return self.rng.choice([16, 17, 20, 31, 32, 48, 63, 64])
    def conf(self, op):
        r = self.rng; big = [320, 1280, 1920, 2000] if self.big else [128, 256]
        v = [r.choice([0, 0, self.size(), self.size()] + big), r.choice([0, 0, self.size(), self.size()] + big), r.choice([0, 0, 0, 0, 25, 30, -1]), r.randint(0, 6)]
        if r.random() < .25:
            k = r.randint(0, 3); v[k] = [r.choice([-1, -16, -2000]), r.choice([-1, -1080]), -5, r.choice([-1, 7, 100, -2])][k]
        if op == "econf": v = [self.A if r.random() < .35 else x for x in v]
        self.s.append(op + " %d %d %d %d" % tuple(v))
WRAP = "open close stat ioctl mmap munmap select poll".split()
def capture(): return build("capture_driver", ["capture_driver.cpp", "pm_stub.cpp"], REPO("modules/V4LCapture/V4LCapture.cpp"), flags=ASAN, cxx=["-fno-access-control"], incs=STUB, link=["-Wl," + ",".join("--wrap=" + w for w in WRAP)])
class Cam:
    """Random lives of a camera capture with two cameras that refuse, fail, or answer something else."""
    CALLS = "open querycap cropcap scrop sfmt gfmt sparm reqbufs querybuf mmap qbuf qbuf streamon streamoff".split()
    def __init__(self, rng, n, slow=False):
        self.rng = r = rng; self.s = ["reset"]
        for i in (1, 2): self.dev(i, True)
        for _ in range(n):
            x = r.random()
            if x < .04: self.dev(r.choice([1, 2]), r.random() < .5)
            elif x < .17:
                if r.random() < .4: self.s.append("fail %s %d %d %d" % (r.choice(self.CALLS), r.choice([0, 0, 0, 1, 2, 3]), r.choice([1, 1, 2, 9]), r.choice([5, 5, 16, 19, 4])))
                self.s.append("conf " + self.conf())
            elif x < .19: self.s.append("badconf %d" % r.randint(0, 10))
            elif x < .22: 
                if r.random() < .3: self.s.append("fail streamoff 0 1 19")
                self.s.append("rel")
            elif x < .28: self.s.append("conn")
            elif x < .55:
                self.s.append("fill %d %d %d" % (r.choice([1, 2]), r.choice([-1, -1, 1, 7, 100, 2000]), r.randint(1, 240)))
                if slow: self.s.append("adv %d" % r.choice([4000, 33333, 40000, 41000]))
            elif x < .65: self.s.append("adv %d" % r.choice([0, 10, 500, 1000, 20000, 39000, 40000, 200000, 1000000]))
            elif x < .68: self.s.append("proc2 " + self.conf())
            else:
                if r.random() < .1: self.s.append("fail %s 0 %d %d" % (r.choice(["select", "dqbuf", "qbuf"]), r.choice([1, 1, 2]), r.choice([5, 11])))
                elif r.random() < .05: self.s.append("fail %s 0 %d 4" % (r.choice(["dqbuf", "qbuf"]), r.choice([1, 2])))
                self.s.append("proc")
    def dev(self, i, good):
        r = self.rng
        self.s.append("dev %d %d %d %d %d %s %d %d" % (i, 1 if good else r.choice([1, 1, 0, 2]), r.choice([32, 64, 64, 1920]), r.choice([16, 64, 64, 1080]), r.choice([-1, -1, -1, 0, 1, 2, 3, 4, 5, 6]), r.choice(["0 0", "0 0", "1 15", "1 30", "1001 30000", "2 50", "0 -1"]), r.choice([2, 3, 4, 4] if good else [0, 1, 4, 4]), 3 if good else r.choice([3, 3, 1, 2])))
    def conf(self):
        r = self.rng
        return "%d %d %d %d %d %d %d" % (r.randint(0, 1), r.choice([1, 2]), r.choice([16, 32, 64, 640]), r.choice([16, 32, 64, 480]), r.choice([1, 5, 15, 25, 25, 30, 60, 240]), r.choice([0, 0, 1, 2, 3, 4, 4, 5, 6]), r.choice([1, 1, 1, 0]))

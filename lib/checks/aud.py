"""Audio: the circular buffer (C13) and the mixer (C14)."""
from vf import *
from checks import filt
from checks.pool import sched_params
REPOA = ["AudioCircularBuffer.cpp", "AudioFrame.cpp", "Frame.cpp", "StreamInfo.cpp", "Utils.cpp", "Jzon.cpp"]
def src(l): return [r for r in l if os.path.exists(os.path.join(SRC, r))]
STUB = ["-I" + VERIF + "/harness/stubs"]
CIRC = VERIF + "/specs/Circ/TraceCirc.tla"
def circ(): return build("circ_driver", ["circ_driver.cpp"], src(REPOA), flags=ASAN, incs=STUB)
def circ_conc():
    o = dict(filt.SCHED); o["flags"] = o["flags"] + ["-DCONC"]
    return build("circ_conc", ["circ_driver.cpp", "sched/sched.cpp"], src(REPOA), **o)
def pos_us(pos, rate): return pos * 1000000 // rate
def sec(us): return "%d %d" % (us // 1000000, us % 1000000)
class Circ:
    """Random operations; a mirror of the stream keeps the times of the input near the expected ones."""
    def __init__(self, rng, n, rate=None, gap=None, fmt=None):
        r = self.rng = rng; self.rate = rate or r.choice([8000, 8000, 16000, 44100, 48000, 96000, 11025]); self.mx = self.rate // 10
        self.gap = gap or r.choice([100, 320, 1000, 6000]); f = fmt or r.choice(["U8P", "S16P", "FLTP"]); self.mn = 8 if f == "U8P" else 1
        self.outs = [1 if f != "U8P" else 37, 37, 80, self.rate // 50, self.mx]; self.out = r.choice(self.outs)
        self.cap = self.gap * (self.rate // 1000); self.s = ["reset %s %d %d %d %d" % (f, r.choice([1, 2, 2]), self.rate, self.gap, self.out)]
        self.base = r.choice([0, 1, 123456789, 4000000000]); self.sync = None; self.rear = self.size = 0; self.held = False
        pw = r.choice([.3, .45, .6, .8])
        for _ in range(n):
            x = r.random()
            if r.random() < .02: pw = r.choice([.2, .45, .6, .9])
            if x < pw: self.add()
            elif x < pw + (1 - pw) * .55: self.get()
            elif x < pw + (1 - pw) * .95: self.s.append("release"); self.held = False
            elif not self.held: self.out = r.choice(self.outs); self.s.append("out %d" % self.out)
            else: self.s.append("fget")
    def get(self):
        self.s.append("get")
        if not self.held and self.size >= self.out: self.size -= self.out; self.held = True
    def add(self, n=None, dev=None):
        r = self.rng
        if n is None: n = r.choice([0, 1, 8, 80, self.rate // 50, self.mx, r.randint(1, self.mx)])
        n = max(n, self.mn) if n else 0; tol = 64
        if dev is None:
            dev = 0 if r.random() < .7 else r.choice([-tol, -tol - 1, tol, tol + 1, tol + 2, self.gap - 1, self.gap, self.gap + 1, -100000, 50 * self.gap, r.randint(-tol, tol), r.randint(tol, max(tol, self.gap)), self.cap - self.size - n, self.cap - self.size - n + 1])
        jit = r.choice([0, 0, 0, 1, -1]) if dev else 0
        ts = (self.base if self.sync is None else self.sync + pos_us(self.rear, self.rate)) + (1 if dev > 0 else -1) * ((abs(dev) * 1000000 + self.rate - 1) // self.rate) + jit
        if self.sync is None: ts = self.base + r.randint(0, 100000)
        ts = max(ts, 0); self.s.append("add %d %s" % (n, sec(ts))); self.mirror(n, ts)
    def mirror(self, n, ts):
        if self.sync is None: self.sync = ts
        d = ts - self.sync - pos_us(self.rear, self.rate); th = 64 * 1000000 // self.rate; pad = 0
        if d < -th: return
        if d > th: pad = d * self.rate // 1000000
        if pad >= self.gap and pad: self.sync = None; self.base = ts + 5000; self.rear = self.size = 0; return
        if pad > self.cap - self.size: return
        self.size += pad; self.rear += pad
        if n <= self.cap - self.size: self.size += n; self.rear += n
def circ_conc_scene(rng):
    """A producer and a consumer at the same time, with gaps, late frames and restarts; the producer waits for room."""
    rate = rng.choice([8000, 8000, 16000]); gap = rng.choice([100, 130, 320]); out = rng.choice([40, 80, 160, 37]); k = rate // 1000; cap = gap * k
    c = Circ(rng, 0, rate, gap, rng.choice(["U8P", "S16P"])); h = c.s[0].split(); h[5] = str(out); s = [" ".join(h) + " " + sched_params(rng, 3000)]; c.cap = 10 ** 9
    for _ in range(rng.randint(5, 25)):
        if rng.random() < .3: s.append("w wait %d" % rng.choice([100, 500, 3000]))
        n = rng.choice([8, 40, 80, 160]); dev = 0 if rng.random() < .8 else rng.choice([-65, 65, 70, gap - 1, gap + 1])
        c.s = []; c.add(n, dev); _, n, a, u = c.s[0].split(); s.append("w add %s %s %s %d" % (n, a, u, min(cap - out, int(n) + (gap if dev > 0 else 0) + 2)))
    for _ in range(rng.randint(1, 6)): s.append(rng.choice(["c get", "c get2", "c qry", "c wait 200", "c wait 2000"]))
    s.append("c get")
    return s
AMIX = VERIF + "/specs/AMix/TraceAMix.tla"
REPOM = lambda: src(filt.REPOF) + [r for r in REPOA if r not in filt.REPOF] + ["modules/audioMixer/AudioMixer.cpp"]
def amix(plain=False): return build("amix_driver", ["amix_driver.cpp", "pm_stub.cpp"], src(REPOM()), flags=["-O2"] if plain else ASAN, incs=STUB)
class AMix:
    """Frames of any length at any time around the mix, on some inputs, with commands in between; a mirror keeps times interesting."""
    def __init__(self, rng, n):
        r = self.rng = rng; self.max = r.choice([1, 2, 2, 3, 3]); self.s = ["reset %d" % self.max]; self.ids = {}; self.fed = set()
        self.sync = None; self.front = self.len = 0; self.base = r.choice([0, 1, 40000, 1000000007, 5 * 10 ** 9]); self.amp = r.choice([3000, 10000, 10000]); self.wild = r.choice([.02, .1, .3])
        for i in range(1, self.max + 1):
            if r.random() < .9: self.conn(i)
        self.fmt()
        while len(self.s) < n:
            x = r.random()
            if x < .03: self.conn(r.randint(1, self.max + 1))
            elif x < .05 and self.ids:
                i = r.choice(list(self.ids) + [9]); self.s.append("disc %d" % i); self.ids.pop(i, None)
            elif x < .15: self.event()
            elif x < .18: self.s.append("proc"); self.fed = set()
            else: self.round()
    def fmt(self): pass
    def conn(self, i):
        f = self.rng.choice("FFFS"); self.s.append("conn %d %s" % (i, f))
        if i not in self.ids and len(self.ids) < self.max: self.ids[i] = f
    def event(self):
        r = self.rng; i = r.choice((list(self.ids) or [1]) * 5 + [9, -1]); k = r.choice(["gain", "gain", "gain", "mute", "solo", "master", "master", "mutemaster", "bad"])
        self.s.append({"gain": "gain %d %d" % (i, r.choice([100, 50, 0, 25, 99, 1, 150, -20, 101, 10000])), "mute": "mute %d" % i, "solo": "solo %d" % i, "master": "master %d" % r.choice([60, 100, 0, 30, 95]), "bad": "bad %d" % r.randint(0, 11)}.get(k, k))
        if k == "mutemaster" and r.random() < .9: self.s.append("master 80")
    def seg(self, n, f):
        r = self.rng; a = r.choice([0, 1, n // 2, r.randint(0, n)]); b = r.randint(0, n - a); o = []
        for k in (a, b, n - a - b):
            v = [r.choice([0, self.amp, -self.amp, r.randint(-self.amp, self.amp), r.randint(-self.amp, self.amp)]) for _ in "lr"]
            if f == "S": v = [x // 625 * 625 if x < 10000 else 9375 for x in v]
            o.append("%d %d %d" % (k, v[0], v[1]))
        return " ".join(o)
    def round(self):
        r = self.rng; off = r.choice([0, 0, 960, self.len, self.len, self.len])
        for i in self.ids:
            if r.random() < .25: continue
            n = r.choice([960] * 6 + [1, 480, 100, 961, 2880, 4800, r.randint(1, 4800)]); p = off
            if r.random() < self.wild: p = r.choice([-1, -960, -5000, 4800 - n, 4801 - n, 4800, 10000, 48000 * 300, -48000 * 300, self.len - 1, self.len + 1, r.randint(-50, 4800), r.randint(0, 4800)])
            elif r.random() < .3: p += r.choice([0, 10, 100, 480, 960, -1])
            u = self.base if self.sync is None else self.sync + -((-(self.front + p) * 125) // 6) + r.choice([0, 0, 0, 20, 7])
            u = max(u, 0); self.s.append("frame %d %d %s %s" % (i, n, sec(u), self.seg(n, self.ids[i]))); self.mirror(n, u)
            if self.sync is None: self.base = u
        self.s.append("proc")
        if self.len >= 2880: self.len -= 960; self.front += 960
    def mirror(self, n, u):
        if 4800 - self.len < n: return
        if self.sync is None: self.sync = u
        p = (u - self.sync) * 6 // 125 - self.front
        if p < 0: return
        if p > 4800 - n: self.sync, self.front, self.len, p = u, 0, 0, 0
        self.len = max(self.len, p + n)
def amix_stream(rng, n):
    """Contiguous frames of any size through the buffers of the inputs, with gaps, as decoders deliver them."""
    k = rng.choice([1, 2, 3]); s = ["reset %d" % k]; t = {}; base = rng.choice([0, 40000, 123456789])
    for i in range(1, k + 1): s += ["conn %d %s" % (i, rng.choice("FS"))]; t[i] = base + rng.choice([0, 0, 1000, 12345])
    g = AMix.__new__(AMix); g.rng = rng; g.amp = 10000; pos = {i: 0 for i in t}
    for _ in range(n):
        i = rng.choice(list(t))
        if rng.random() < .4: s.append("proc"); continue
        m = rng.choice([160, 480, 960, 1024, 576]); first = pos[i] == 0
        if rng.random() < .05: pos[i] += rng.choice([50, 90])
        s.append("more %d %d %s %s" % (i, m, sec(t[i] + pos[i] * 125 // 6), g.seg(m, "S"))); pos[i] += m
        if rng.random() < .05: g.s = []; g.ids = t; AMix.event(g); s += g.s
    return s

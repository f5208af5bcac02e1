"""Filters: the real BaseFilter family driven by scripts, logs validated against specs/Filter."""
from vf import *
REPOF = ["Filter.cpp", "Runnable.cpp", "Event.cpp", "IOInterface.cpp", "AVFramedQueue.cpp", "VideoFrame.cpp", "AudioFrame.cpp", "Frame.cpp", "StreamInfo.cpp", "Utils.cpp", "Jzon.cpp"]
SCHED = dict(flags=["-rdynamic", "-no-pie"], repo_flags=["-fsanitize=thread"], incs=["-I" + VERIF + "/harness/stubs"], link=["-rdynamic", "-no-pie", "-ldl"])
def exe(): return build("filter_driver", ["filter_driver.cpp", "pm_stub.cpp", "sched/sched.cpp"], [r for r in REPOF if os.path.exists(os.path.join(SRC, r))], **SCHED)
SPEC = VERIF + "/specs/Filter/TraceFilter.tla"
def F(i, kind, server=0, per=0, ft=0, sync=0, mr=1, mw=1, cap=4): return "F %d %s %d %d %d %d %d %d %d" % (i, kind, server, per, ft, sync, mr, mw, cap)
def world(rng, caps=(4, 4, 6, 11)):
    """Filters of all kinds: returns (lines, {id: (kind, mr, mw)})."""
    fs = {}; lines = ["reset"]
    n = rng.randint(3, 6); kinds = ["H", rng.choice("TTN")] + [rng.choice("HOMNT") for _ in range(n - 2)]
    for i, k in enumerate(kinds, 1):
        mr = 0 if k == "H" else 1 if k in "OM" else rng.choice([1, 2, 3]); mw = 0 if k == "T" else 1 if k in "ON" else rng.choice([1, 2, 3])
        server = int(k in "HT" and rng.random() < .3); per = int(rng.random() < .3)
        sync = int(k == "T" and rng.random() < .4)
        lines.append(F(i, k, server, per, 0, sync, mr, mw, rng.choice(caps))); fs[i] = (k, mr, mw)
    return lines, fs
class Gen:
    def __init__(self, rng, lines, fs): self.rng, self.s, self.fs, self.ts, self.n = rng, lines, fs, 0, 0
    def srcs(self): return [i for i in self.fs if self.fs[i][2]]
    def dsts(self): return [i for i in self.fs if self.fs[i][1]]
    def conn(self):
        a, b = self.rng.choice(self.srcs()), self.rng.choice(self.dsts())
        if self.rng.random() > .05 and a >= b and self.rng.random() < .7: return
        self.s.append("conn %d %d %d %d" % (a, b, self.rng.randint(1, max(1, min(4, self.fs[a][2] + self.rng.choice([0, 0, 1])))), self.rng.randint(1, min(4, self.fs[b][1] + self.rng.choice([0, 0, 1])))))
    def share(self):
        a, b = self.rng.choice(self.dsts()), self.rng.choice(self.dsts())
        self.s.append("share %d %d %d %d" % (a, b, self.rng.randint(1, self.fs[a][1]), self.rng.randint(1, min(4, self.fs[b][1] + self.rng.choice([0, 0, 1])))))
    def discw(self): a = self.rng.choice(self.srcs()); self.s.append("discw %d %d" % (a, self.rng.randint(1, self.fs[a][2])))
    def discr(self): a = self.rng.choice(self.dsts()); self.s.append("discr %d %d" % (a, self.rng.randint(1, self.fs[a][1])))
    def refuse(self): self.s.append("refuse %d %s %d" % (self.rng.choice(list(self.fs)), self.rng.choice("rwq"), self.rng.random() < .3))
    def run(self, f=None, p=.8, step=(0, 1000, 20000)):
        f = f or self.rng.choice(list(self.fs)); k, mr, mw = self.fs[f]; out = []
        for w in range(1, mw + 1):
            if self.rng.random() < p: self.ts += self.rng.choice(step); out.append("%d:%d" % (w, self.ts))
        self.s.append("run %d %d %s" % (f, self.rng.choice([0, 0, 500, 3000]), " ".join(out)))
    def ev(self, f=None):
        self.n += 1
        self.s.append("ev %d %s %d %d %d" % (f or self.rng.choice(list(self.fs)), self.rng.choice("aabbz-"), self.n, self.rng.choice([0, 0, 1, 5, 20]), self.rng.choice([0, 0, 0, -10, -4, 4, 30])))
    def adv(self): self.s.append("adv %d" % self.rng.choice([2, 2, 4, 6, 10, 40]))
def mix(rng, n, weights, caps=(4, 4, 6, 11)):
    lines, fs = world(rng, caps); g = Gen(rng, lines, fs)
    for _ in range(rng.randint(2, 5)): g.conn()
    ops = list(weights); w = [weights[o] for o in ops]
    for _ in range(n): getattr(g, rng.choices(ops, w)[0])()
    if rng.random() < .3:
        for f in rng.sample(list(fs), len(fs)): g.s.append("del %d" % f)
    return g.s
GRAPH = dict(conn=5, share=2.5, discw=2, discr=2, refuse=1.5, run=5)
FLOW = dict(conn=1, share=.4, discw=.15, discr=.15, run=14, ev=.3, adv=.3)
EVENTS = dict(conn=.5, run=6, ev=8, adv=4)
def frametime(rng, n):
    """A filter with a frame time fed by sources whose times wander around its window."""
    ft = rng.choice([40000, 40000, 20000, 33333]); k = rng.choice("NNNOM"); ni = rng.choice([1, 2, 3]) if k == "N" else 1
    s = ["reset"] + [F(i, "H", cap=rng.choice([4, 11])) for i in range(1, ni + 1)] + [F(9, k, ft=ft, mr=ni), F(8, "T")]
    s += ["conn %d 9 1 %d" % (i, i) for i in range(1, ni + 1)] + ["conn 9 8 1 1"]
    g = Gen(rng, s, {}); t = [rng.choice([0, 0, ft * 3]) for _ in range(ni + 1)]; base = 0
    for _ in range(n):
        x = rng.random()
        if x < .55:
            i = rng.randint(1, ni)
            y = rng.random()
            if y < .6: t[i] += rng.choice([ft, ft, ft // 2, ft // 3, ft + 1, 1])
            elif y < .75: t[i] += ft * rng.randint(2, 5)
            elif y < .85: t[i] = max(0, t[i] - ft * rng.randint(1, 3))
            else: t[i] = max(t)
            s.append("run %d 0 1:%d" % (i, t[i]))
        elif x < .9: s.append("run 9 0 1:%d" % max(t))
        elif x < .97: s.append("run 8 0")
        else: s.append(rng.choice(["discw 1 1", "discr 9 1", "conn 1 9 1 1"]))
    return s
def syncs(rng, n):
    ni = rng.choice([2, 2, 3, 4]); caps = [rng.choice([4, 10, 11, 30]) for _ in range(ni)]
    s = ["reset"] + [F(i, "H", cap=caps[i - 1]) for i in range(1, ni + 1)] + [F(9, "T", server=int(rng.random() < .2), sync=1, mr=ni)]
    s += ["conn %d 9 1 %d" % (i, i) for i in range(1, ni + 1)]
    t = [rng.choice([0, 0, 30000]) for _ in range(ni + 1)]; mute = set()
    for _ in range(n):
        x = rng.random(); i = rng.randint(1, ni)
        if x < .03: mute ^= {i}
        elif x < .6 and i not in mute:
            t[i] += rng.choice([10000, 20000, 23000, 40000, 40001, 0]) if rng.random() < .9 else rng.choice([200000, 500000])
            s.append("run %d 0 1:%d" % (i, t[i]))
        elif x < .97: s.append("run 9 0")
        elif x < .98: s.append("discw %d 1" % i)
        elif x < .985: s.append("discr 9 %d" % i)
        else: s.append("conn %d 9 1 %d" % (i, i))
    return s
def generated(chk, cfg, limit=None, size=60, module="MCFilter"):
    start, setup, g, st = merged_graph("Filter", module, cfg)
    walks, cov, tot = cover_ops(start, g, size, limit, chk.rng)
    chk.note("generated", "state graph of %s/%s: %d of %d (state, operation) pairs covered by %d scripts" % (module, cfg, cov, tot, len(walks)))
    return [["reset"] + setup.split(";") + w for w in walks]
def validate_scripts(chk, scens, label, size=40):
    drive_validate(chk, exe(), SPEC, batch(scens, size), label=label)

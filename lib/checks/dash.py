from vf import *
from checks import filt, vid
DREPO = ["modules/dasher/" + f for f in ("DashAudioSegmenter.cpp", "DashVideoSegmenter.cpp", "DashVideoSegmenterAVC.cpp", "DashVideoSegmenterHEVC.cpp", "Dasher.cpp", "MpdManager.cpp", "i2libdash.c", "i2libisoff.c")]
def exe(): return build("dash_driver", ["dash_driver.cpp", "pm_stub.cpp"], vid.REPO(*DREPO), flags=ASAN, incs=vid.STUB, cxx=["-include", "string"])
SPEC = VERIF + "/specs/Dash/TraceDash.tla"
SETS = {"avc": [7, 8], "hevc": [32, 33, 34]}
AUDS = {"avc": 9, "hevc": 35}
OTHER = {"avc": [6, 6, 12, 14, 2, 0], "hevc": [39, 40, 38, 2, 41, 9]}
class Dash:
    """One session of the dasher; readers of the same media get aligned pictures (or frames)."""
    def __init__(s, rng, mode, n):
        s.rng, s.mode, s.o, s.n = rng, mode, [], n
        r = rng.random
        s.dur = rng.choice([1, 1, 2, 3]); s.max = rng.choice([0, 1, 2, 3, 3, 5]); s.base = rng.choice([0, 0, 1000000000, 1700000000000000]); s.far = rng.choice([0, 0, 0, 5000, 700000]) if s.base > 10 ** 12 else 0
        s.o.append("reset %d %d %d %d %d" % (s.dur, s.max, rng.choice([0, 2, 6]), s.base, s.far))
        s.vr, s.ar, s.dead = {}, {}, []
        s.rate = rng.choice([48000, 44100, 48000, 16000, 32000]); s.fi = {48000: 3, 44100: 4, 16000: 8, 32000: 5}[s.rate]
        s.an = rng.choice([1024, 2048, rng.randint(500, s.rate // 2), s.rate // 10, s.rate // 3]); s.acount = 0
        nv = {"video": rng.choice([1, 1, 2]), "audio": rng.choice([0, 0, 1, 2]), "set": rng.choice([0, 1, 2, 3]), "units": rng.choice([1, 1, 2])}[mode]
        na = {"video": rng.choice([0, 0, 1]), "audio": rng.choice([1, 1, 2, 3]), "set": rng.choice([0, 1, 2]) if nv else rng.choice([1, 2]), "units": rng.choice([0, 0, 1])}[mode]
        ids = list(range(1, 9)); rng.shuffle(ids); s.ids = ids
        if r() < .1: s.o.append("conn %d %s" % (ids[-1], rng.choice(["vp8", "mp3"])))
        for _ in range(nv): s.video()
        for _ in range(na): s.audio()
        s.T = rng.choice([40000, 33367, 100000, 200000, 500000, 250000, 41708, 1100000]); s.t0 = rng.choice([0, 0, rng.randint(0, 3000000)]); s.at0 = s.t0 + rng.choice([0, 0, 0, rng.randint(-200000, 300000)]); s.at0 = max(0, s.at0)
        s.dts = rng.choice(["none", "same", "b", "b", "mixed"]) if mode != "set" else "none"
        lo = -(-s.dur * 1000000 // s.T)
        s.gop = rng.choice([lo, lo, max(1, lo - 1), max(1, lo // 2), lo + rng.randint(0, 3), 1]) if mode != "set" else max(1, lo + rng.randint(-1, 1))
        s.jit = r() < .25; s.gap = r() < .1; s.pic = 0; s.t = s.t0
        s.run()
    def video(s):
        i = s.ids.pop(0); k = s.rng.choice(["avc", "hevc"]); s.vr[i] = dict(k=k, aud=s.rng.random() < .6, sc=s.rng.choice([0, 3, 4, 4]), w=s.rng.choice([16, 320, 1280]), h=s.rng.choice([16, 240, 720]), sl=s.rng.choice([1, 1, 2, 3])); s.o.append("conn %d %s" % (i, k))
    def audio(s):
        i = s.ids.pop(0); s.ar[i] = dict(ch=s.rng.choice([1, 2, 2, 6]), prof=s.rng.choice([0, 1, 1, 3])); s.o.append("conn %d aac" % i)
    def nal(s, i, ty, ln, ts, dts): v = s.vr[i]; return "nal %d %d %d %d %d %d %d %d" % (i, ty, ln, ts, dts, v["sc"], v["w"], v["h"])
    def length(s): return s.rng.choice([1, 2, 3, 4, 5, 6, 7, 20, 60, 300]) if s.mode == "units" else s.rng.choice([6, 20, 60])
    def picture(s, i, key, ts, dts):
        v, r, us = s.vr[i], s.rng, []; k = v["k"]; rare = s.mode == "units"
        if v["aud"] and not (rare and r.random() < .1): us.append(s.nal(i, AUDS[k], r.choice([1, 2, 2]), ts, dts))
        if key:
            if r.random() < .2: v["w"], v["h"] = r.choice([16, 320, 640]), r.choice([16, 240, 360])
            if v.get("n", 0) == 0 or r.random() < .4:
                ps = list(SETS[k])
                if rare and r.random() < .4: r.shuffle(ps); ps = ps[:r.randint(1, len(ps))] + (ps[:1] if r.random() < .3 else [])
                us += [s.nal(i, p, r.randint(4, 30), ts, dts) for p in ps]
            v["n"] = 1
        if r.random() < (.4 if rare else .05): us.insert(r.randint(0, len(us)), s.nal(i, r.choice(OTHER[k]), r.choice([0, 1, 3, 10]), ts, dts))
        ty = (5 if k == "avc" else r.choice([19, 19, 20, 21])) if key else (1 if k == "avc" else r.choice([0, 1, 1]))
        sl = v["sl"] if r.random() < .8 else r.randint(1, 3)
        for x in range(sl):
            us.append(s.nal(i, ty, s.length(), ts, dts))
            if rare and r.random() < .15: us.append(s.nal(i, r.choice(OTHER[k] + [SETS[k][0]]), r.choice([4, 10]), ts, dts))
        if rare and r.random() < .1: us.append(s.nal(i, AUDS[k], 2, ts, dts))
        return us[:6]
    def sounds(s, upto):
        """frames of audio until the given time"""
        out = []
        while len(s.o) < s.n and s.ar and s.atime() <= upto:
            t = s.atime(); bad = s.rng.random() < .03 and s.mode == "audio"
            if s.mode == "audio" and s.rng.random() < .02: s.at0 += s.rng.choice([20000, 500000])
            ln = 7 + (s.rng.choice([1, 5, 40, 400]) if s.rng.random() > .02 else 0)
            if bad: ln = s.rng.choice([3, 6, 7, 30])
            for i in sorted(s.ar):
                a = s.ar[i]
                if s.mode == "audio" and s.rng.random() < .03: a["prof"] = s.rng.choice([0, 1, 2, 3]); a["ch"] = s.rng.choice([1, 2, 6])
                s.o.append("aac %d %d %d %d %d %d %d %d %d %d" % (i, ln, s.an, t, s.rate, a["ch"], a["prof"], s.fi, a["ch"], 0 if bad else 1))
            s.o.append("proc"); s.acount += 1
    def atime(s): return s.at0 + s.acount * s.an * 1000000 // s.rate
    def step(s):
        k = s.pic % s.gop; s.pic += 1; key = k == 0
        dts = s.t; s.t += s.T
        if s.jit: s.t += s.rng.randint(-s.T // 3, s.T // 3)
        if s.gap and s.rng.random() < .1: s.t += s.T * s.rng.randint(1, 5)
        kind = s.dts if s.dts != "mixed" else s.rng.choice(["none", "same"])
        if kind == "none": ts, d = dts, -1
        elif kind == "same": ts, d = dts, dts
        else:
            full = (s.gop - 1) // 3 * 3
            disp = 0 if key else (k if k > full else ((k - 1) // 3 * 3 + (3, 1, 2)[(k - 1) % 3]))
            ts, d = dts + s.T * (1 + disp - k) + (0 if not s.jit else 2 * s.T), dts
        if s.pic == 1 and s.mode == "video" and s.rng.random() < .2: key = False
        lists = {i: s.picture(i, key, ts, d) for i in s.vr}
        for i in lists: s.o += lists[i]
        m = max([len(u) for u in lists.values()] + [0])
        if s.mode == "units" and s.rng.random() < .2 and m < 4: m = s.rng.randint(0, m); s.keep = True # some wait in the queue
        s.o += ["proc"] * m
        if getattr(s, "keep", False) and s.rng.random() < .8: s.o += ["proc"] * 6; s.keep = False
    def run(s):
        late = s.rng.random() < .5
        while len(s.o) < s.n:
            if not late: s.sounds(s.t)
            if s.vr: s.step()
            elif not s.ar: break
            else: s.t += 200000
            if late: s.sounds(s.t)
            if getattr(s, "keep", False): s.o += ["proc"] * 6; s.keep = False
            s.events()
        s.o += ["proc"] * 3
    def events(s):
        r = s.rng; every = {"set": .15, "video": .02, "audio": .02, "units": .02}[s.mode]
        if r.random() >= every: return
        x = r.random()
        if x < .3: s.o.append("conf %d" % r.choice([0, 1, 2, 3, 4, 6]))
        elif x < .55: s.o.append("bitrate %d %d" % (r.choice(list(s.vr) + list(s.ar) + [9]), r.randint(1, 9) * 1000))
        elif s.mode == "set":
            if x < .75 and len(s.vr) + len(s.ar) > 1:
                i = r.choice(list(s.vr) + list(s.ar)); s.o.append("disc %d" % i); (s.vr if i in s.vr else s.ar).pop(i); s.ids.append(i)
            elif x < .8: s.o.append("disc %d" % r.choice(s.ids))
            elif s.vr and len(s.vr) < 3 and s.pic % s.gop == 0: s.video()
def scenario(rng, mode, n=140): return Dash(rng, mode, n).o
def g_video(rng): return scenario(rng, "video")
def g_audio(rng): return scenario(rng, "audio")
def g_set(rng): return scenario(rng, "set")
def g_units(rng): return scenario(rng, "units")
KIND = {1: "avc", 2: "hevc", 3: "aac"}
def expand(ops, rng, step=300000, astep=9600):
    """script of an abstract walk of MCDash"""
    o, t, a, live = ["reset 1 2 2 %d 0" % rng.choice([0, 1000000000])], 0, 0, set()
    for op in ops:
        w = op.split()
        if w[0] in ("conn", "disc"):
            i = int(w[1]); o.append(op + (" " + KIND[i] if w[0] == "conn" else "")); (live.add if w[0] == "conn" else live.discard)(i)
        elif w[0] == "pic":
            for i in sorted(live & {1, 2}): o.append("nal %d %d 10 %d -1 4 16 16" % (i, (5 if i == 1 else 19) if w[1] == "1" else 1, t))
            o.append("proc"); t += step
        elif w[0] == "sets":
            for i in sorted(live & {1, 2}): o += ["nal %d %d 10 %d -1 4 16 16" % (i, p, t) for p in SETS[KIND[i]]]
            o += ["proc"] * 3
        elif w[0] == "aud": o += ["aac 3 20 %d %d 48000 2 1 3 2 1" % (astep, a), "proc"]; a += astep // 48 * 1000
        else: o.append(op)
    return o
def expand_units(ops, kind, rng, step=300000):
    o, t = ["reset 1 2 2 %d 0" % rng.choice([0, 1000000000]), "conn 1 %s" % kind], 0
    for op in ops:
        _, ty, new, ln = op.split(); t += step * int(new)
        o += ["nal 1 %s %s %d -1 4 16 16" % (ty, ln, t), "proc"]
    for k in range(3): t += 1500000; o += ["nal 1 %d 10 %d -1 4 16 16" % (5 if kind == "avc" else 19, t), "proc"] # the next segments show what was gathered
    return o
def generated(chk, module, cfg, limit, ex, maxlen=150):
    start, g, st = edge_graph("Dash", module, cfg)
    ws, cov, tot = cover_ops(start, g, maxlen, limit, chk.rng)
    chk.note("generated", "state graph of %s/%s: %d of %d (state, operation) pairs covered by %d scripts" % (module, cfg, cov, tot, len(ws)))
    return [ex(w) for w in ws]
def check(chk, models, gens, mode, n, length=140):
    x = exe(); t = chk.thorough()
    for m, cfg in models: model_check(chk, "Dash", m, cfg)
    sc = []
    for m, cfg, quick, deep, ex in gens: sc += generated(chk, m, cfg, deep if t else quick, lambda w: ex(w, chk.rng), 150)
    drive_validate(chk, x, SPEC, batch(sc, 8), label="dash-model")
    drive_validate(chk, x, SPEC, batch([scenario(chk.rng, mode, length) for _ in range(n * 25 if t else n)], 6), label="dash-" + mode)

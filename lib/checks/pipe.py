"""The pipeline manager and the controller: real code with mock modules, under the controlled scheduler."""
from vf import *
from checks import filt
def pm_sources():
    """PipelineManager.cpp built from a copy, so that the headers of the modules it includes are the mocks'."""
    d = os.path.join(BUILD, "pm_src"); os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, "PipelineManager.cpp"); text = '#line 1 "%s/PipelineManager.cpp"\n' % SRC + open(SRC + "/PipelineManager.cpp").read()
    if not (os.path.exists(dst) and open(dst).read() == text): open(dst, "w").write(text)
    return dst
REPOP = filt.REPOF + ["Path.cpp", "WorkersPool.cpp", "Controller.cpp"]
def pm_build(name, harness):
    o = dict(filt.SCHED); o["incs"] = ["-I" + VERIF + "/harness/pm_stubs", "-I" + VERIF + "/harness"] + o["incs"]
    return build(name, [harness, "sched/sched.cpp"], [r for r in REPOP if os.path.exists(os.path.join(SRC, r))], extra=[pm_sources()], **o)
def exe(): return pm_build("pm_driver", "pm_driver.cpp")
SPEC = VERIF + "/specs/Pipe/TracePipe.tla"
TYPES = {"receiver": (0, 3), "demuxer": (0, 2), "v4lcapture": (0, 1), "transmitter": (3, 0), "dasher": (2, 0), "videoDecoder": (1, 1), "videoEncoder": (1, 1), "videoResampler": (1, 1), "audioDecoder": (1, 1), "audioEncoder": (1, 1), "sharedMemory": (1, 1), "videoMixer": (3, 1), "audioMixer": (2, 1), "videoSplitter": (1, 3)}
HEADS = [t for t in TYPES if not TYPES[t][0]]; TAILS = [t for t in TYPES if not TYPES[t][1]]; MIDS = [t for t in TYPES if all(TYPES[t])]
J = lambda x: json.dumps(x, separators=(",", ":"))
def event(c):
    """The event of a command, as the protocol defines it."""
    a = c["a"]
    if a == "createFilter": return {"action": a, "params": {"id": c["id"], "type": c["type"]}}
    if a == "createPath": return {"action": a, "params": {"id": c["id"], "orgFilterId": c["org"], "dstFilterId": c["dst"], "orgWriterId": c["w"], "dstReaderId": c["rd"], "midFiltersIds": c["mids"]}}
    if a in ("removePath", "removeFilter"): return {"action": a, "params": {"id": c["id"]}}
    if a in ("stop", "getState"): return {"action": a, "params": {}}
    if a == "event": return {"action": c["act"], "filterId": c["f"], "params": c["params"]}
    raise Broken("command " + a)
def req(cmds):
    return "req %s ||| %s" % (J({"k": "cmds", "cmds": [{k: v for k, v in c.items() if k not in ("act", "params", "text")} for c in cmds]}), J({"events": [c["text"] if "text" in c else event(c) for c in cmds]}))
def api(c):
    return "api %s ||| %s" % (J(c), " ".join(str(x) for x in [c["id"], c["org"], c["dst"], c["w"], c["rd"]] + c["mids"]))
class PG:
    """Random commands, mostly sensible, that keep a rough idea of what exists."""
    def __init__(self, rng, pApi=.1): self.rng, self.f, self.p, self.n, self.s, self.pApi = rng, {}, set(), 0, [], pApi
    def filt(self, t=None):
        r = self.rng; i = r.choice([x for x in range(0, 9) if x not in self.f] or [3]) if r.random() < .93 else r.choice([-1, 1, 2, 3])
        t = t or r.choice(HEADS * 2 + TAILS * 3 + MIDS * 2 if r.random() < .97 else ["none", "Receiver", ""])
        if i not in self.f and i >= 0 and t in TYPES: self.f[i] = t
        return {"a": "createFilter", "id": i, "type": t}
    def path(self):
        r = self.rng; src = [i for i in self.f if TYPES[self.f[i]][1]]; dst = [i for i in self.f if TYPES[self.f[i]][0]]; mid = [i for i in self.f if all(TYPES[self.f[i]])]
        rnd = lambda l: r.choice(l) if l and r.random() < .97 else r.randint(0, 9)
        o, d = rnd([i for i in src if i not in mid] if r.random() < .8 and len(src) > len(mid) else src), rnd([i for i in dst if i not in mid] if r.random() < .8 and len(dst) > len(mid) else dst)
        m = [x for x in r.sample(mid, min(len(mid), r.choice([0, 0, 1, 1, 2, 3]))) if x not in (o, d) or r.random() < .1]
        if m and r.random() < .03: m.append(m[0])
        if r.random() < .03: m.append(r.randint(0, 9))
        i = r.choice([x for x in range(0, 6) if x not in self.p] or [1]) if r.random() < .93 else r.randint(0, 5)
        self.p.add(i)
        return {"a": "createPath", "id": i, "org": o, "dst": d, "w": r.choice([-1, 1, 1, 1, 2, 3]), "rd": r.choice([-1, 1, 1, 2, 3]), "mids": m}
    def rmpath(self):
        i = self.rng.choice(sorted(self.p)) if self.p and self.rng.random() < .95 else self.rng.randint(0, 7); self.p.discard(i); return {"a": "removePath", "id": i}
    def rmfilt(self): return {"a": "removeFilter", "id": self.rng.choice(sorted(self.f)) if self.f and self.rng.random() < .9 else self.rng.randint(-1, 9)}
    def ev(self):
        self.n += 1; r = self.rng; f = r.choice(sorted(self.f)) if self.f and r.random() < .9 else r.randint(-1, 9)
        known = r.random() < .8
        return {"a": "event", "f": f, "n": self.n, "known": known, "act": r.choice("ab") if known else r.choice(["zz", "", "stop"]), "params": {"n": self.n}}
    def state(self): return {"a": "getState"}
    def stop(self): self.f, self.p = {}, set(); return {"a": "stop"}
    def sync(self): self.f = dict(self.f)
    def bad(self):
        r = self.rng; c = r.choice([self.filt, self.path, self.path, self.rmpath, self.rmfilt, self.ev, self.state, self.stop])
        keep = (dict(self.f), set(self.p)); c = c(); self.f, self.p = keep
        e = event(c); junk = lambda: r.choice(["x", "", "1", None, {}, {"id": 1}, [], [1], True, False])
        x = r.random()
        if c["a"] == "event":
            y = r.randint(0, 4)
            if y == 0: e["filterId"] = junk()
            elif y == 1: del e["action"]
            elif y == 2: e["action"] = r.choice([{}, [], ["a"], {"a": 1}])
            elif y == 3: del e["params"]
            else: e = junk_event(r)
            if y == 0 and isinstance(e["filterId"], bool): e["filterId"] = "2"
        elif x < .12: e = junk_event(r)
        elif x < .2: del e["action"]
        elif x < .28: e["action"] = r.choice([{}, [], [c["a"]], {"a": c["a"]}])
        elif x < .36: e["action"] = r.choice(["", "nothing", "CreateFilter", "createfilter", "getState ", "removepath"])
        elif x < .44: del e["params"]
        elif x < .56: e["params"] = r.choice([[], [e["params"]], "x", 3, None, True])
        elif e["params"]:
            k = r.choice(sorted(e["params"]))
            if r.random() < .4: del e["params"][k]
            elif k == "type": e["params"][k] = r.choice([{}, [], ["receiver"], {"t": "receiver"}, "recv", 7, None])
            elif k == "midFiltersIds": e["params"][k] = r.choice(["1", 1, None, {}, ["1"], [None], [{}], [[]], [1, "x"], True])
            else:
                e["params"][k] = junk()
        else: e["params"] = r.choice([[], "x", 3, None])
        return {"a": "bad", "text": e}
def junk_event(r): return r.choice(["x", 3, None, True, [], [{"action": "stop", "params": {}}], {}, {"events": []}])
def unparsable(r):
    good = J({"events": [{"action": "createFilter", "params": {"id": 7, "type": "receiver"}}, {"action": "getState", "params": {}}]})
    return r.choice([good[:r.randint(1, len(good) - 1)], "", "x", "]", "{", "[1,2", '{"events":[{"action":"stop","params":{}}', '{"events":[{"action":"createFilter","params":{"id":7,"type":"receiver"}}', "stop", good.replace(":", " ", 1), good.replace("{", "[", 1), '{"events":', '"events"', good.replace('"', "", 1)])
def noevents(r): return r.choice(["{}", '{"event":[]}', '{"events":{}}', '{"events":"x"}', '{"events":3}', '{"events":null}', '{"Events":[{"action":"stop","params":{}}]}'])
MIXED = dict(filt=3, path=6, rmpath=3, rmfilt=1, ev=2, state=1.5, stop=.15)
BADMIX = dict(filt=3, path=4, rmpath=2, rmfilt=1, ev=2, state=2, stop=.2, bad=9)
def scenario(rng, n, w, pBad=0, pApi=.1):
    g = PG(rng); out = ["reset %d %d %d" % (rng.choice([1, 2, 4]), rng.randint(1, 10**9), rng.choice([20, 200, 1000, 2000]))]
    first = [g.filt(rng.choice(HEADS)), g.filt(rng.choice(TAILS))] + [g.filt() for _ in range(rng.randint(1, 4))]
    out.append(req(first)); ops = list(w); ws = [w[o] for o in ops]
    for _ in range(n):
        x = rng.random()
        if x < pBad: out.append("req %s ||| %s" % (('{"k":"parse"}', unparsable(rng)) if rng.random() < .6 else ('{"k":"noevents"}', noevents(rng)))); continue
        if x < pBad + pApi: c = g.path(); c.pop("a"); out.append(api(c)); continue
        out.append(req([getattr(g, rng.choices(ops, ws)[0])() for _ in range(rng.choice([1, 1, 1, 2, 3, 5]))]))
        if rng.random() < .15: out.append(req([{"a": "getState"}]))
    return out
def validate_scripts(chk, scens, label, size=20, **k): drive_validate(chk, exe(), SPEC, batch(scens, size), label=label, **k)
def parse_op(o):
    w = o.split(); k = w[0]
    if k == "cf": return {"a": "createFilter", "id": int(w[1]), "type": w[2]}
    if k in ("cp", "ap"): n = [int(x) for x in w[1:]]; return {"a": k == "cp" and "createPath" or "api", "id": n[0], "org": n[1], "dst": n[2], "w": n[3], "rd": n[4], "mids": n[5:]}
    if k == "rp": return {"a": "removePath", "id": int(w[1])}
    if k == "rf": return {"a": "removeFilter", "id": int(w[1])}
    return {"a": "stop"}
def walks(chk, cfg, zoo, limit):
    a, g, st = edge_graph("Pipe", "MCPipe", cfg); ws, cov, tot = cover_ops(a, g, 60, limit, chk.rng)
    chk.add("states", st["states"]); chk.add("transitions", st["transitions"])
    chk.note("generated", "state graph of MCPipe/%s: %d of %d (state, command) pairs covered by %d scripts" % (cfg, cov, tot, len(ws)))
    out = []
    for w in ws:
        s = ["reset %d %d %d" % (chk.rng.choice([1, 2, 3]), chk.rng.randint(1, 10**9), chk.rng.choice([20, 200, 1000])), req([{"a": "createFilter", "id": i, "type": t} for i, t in zoo])]
        grp = []
        for o in w + [None]:
            c = parse_op(o) if o else {"a": "api"}
            if (c["a"] == "api" or len(grp) == 5) and grp: s.append(req(grp)); grp = []
            if o is None: break
            if c["a"] == "api": c.pop("a"); s.append(api(c))
            else: grp.append(c)
        out.append(s)
    return out
ZOOS = {"A": [(1, "receiver"), (2, "videoDecoder"), (3, "transmitter")], "B": [(1, "demuxer"), (2, "videoMixer"), (3, "dasher"), (4, "videoDecoder")], "C": [(1, "v4lcapture"), (2, "videoResampler"), (3, "videoEncoder"), (4, "dasher")]}
ZOOS["E"] = ZOOS["A"]

"""Common machinery of the checks: building drivers from /repo, running them, TLC, evidence, verdicts."""
import os, sys, json, time, hashlib, subprocess, shutil, re, random, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = REPO + "/src"
BUILD = os.environ.get("VF_BUILD", VERIF + "/.build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)

class Broken(Exception):
    """The check itself could not decide (build failure, model failure...): exit 2."""

class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what); self.what = what; self.replay = replay

# ------------------------------------------------------------------ building
INC = ["-I" + SRC, "-isystem", "/opt/vp/cmake/include", "-isystem", "/usr/include/opencv4"]
BASE = ["-g", "-O1", "-std=c++14", "-D__STDC_CONSTANT_MACROS", "-w", "-fno-omit-frame-pointer"]
CBASE = ["-g", "-O1", "-w", "-fno-omit-frame-pointer"]
LIBS = ["-lavcodec", "-lavformat", "-lavutil", "-lswresample", "-lswscale", "-llog4cplus", "-ltinyxml2",
        "-lopencv_core", "-lopencv_imgproc", "-lopencv_highgui", "-lx264", "-lx265", "-lpthread"]
ASAN = ["-fsanitize=address"]

def _sha(path):
    try:
        with open(path, "rb") as f: return hashlib.sha1(f.read()).hexdigest()
    except OSError: return "-"

def _compile(src, obj, cmd):
    meta = obj + ".meta"
    try:
        m = json.load(open(meta))
        if m["cmd"] == cmd and os.path.exists(obj) and all(_sha(d) == h for d, h in m["deps"].items()): return None
    except (OSError, ValueError, KeyError): pass
    dep = obj + ".d"
    r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return "compiling %s failed:\n%s" % (src, r.stdout[-4000:])
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    json.dump({"cmd": cmd, "deps": {d: _sha(d) for d in deps if not d.startswith("/usr/")}}, open(meta, "w"))
    return None

def build(name, harness, repo=(), flags=(), repo_flags=None, libs=None, incs=(), extra=(), link=(), plain=(), cxx=()):
    """Compiles harness files (under /verif/harness) and repo files (under /repo/src) and links them.
    flags: for everything; repo_flags: only for repo files (instrumentation); extra: absolute sources treated as repo code;
    plain: harness files compiled without flags."""
    d = os.path.join(BUILD, name); os.makedirs(d, exist_ok=True)
    jobs, objs = [], []
    def add(src, fl):
        o = os.path.join(d, src.strip("/").replace("/", "__") + ".o"); objs.append(o)
        if src.endswith(".c"): cmd = ["gcc"] + CBASE + list(fl) + list(incs) + INC
        else: cmd = ["g++"] + BASE + list(fl) + list(cxx) + list(incs) + INC
        jobs.append((src, o, cmd))
    # repository code first, so that its (possibly instrumented) copies of inline functions are the ones linked
    for r in repo: add(os.path.join(SRC, r), list(flags) + list(repo_flags or []))
    for r in extra: add(r, list(flags) + list(repo_flags or []))
    for h in harness: add(os.path.join(VERIF, "harness", h), list(flags))
    for h in plain: add(os.path.join(VERIF, "harness", h), [])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for err in ex.map(lambda j: _compile(*j), jobs):
            if err: raise Broken(err)
    exe = os.path.join(d, name)
    cmd = ["g++"] + [f for f in flags if f.startswith("-fsanitize")] + ["-o", exe] + objs + list(link) + (LIBS if libs is None else list(libs))
    key = hashlib.sha1(("".join(_sha(o) for o in objs) + repr(cmd)).encode()).hexdigest()
    if not (os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == key):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise Broken("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
        open(exe + ".key", "w").write(key)
    return exe

# ------------------------------------------------------------------ TLC
def tlc(module, cfg, workers=1, env=None, timeout=600, args=(), mem="2g", cwd=None):
    """Runs TLC on module (path of .tla); returns (ok, text, stats)."""
    md = tempfile.mkdtemp(prefix="tlcmeta")
    e = dict(os.environ); e.update(env or {})
    libs = ":".join(sorted({os.path.dirname(module), os.path.join(VERIF, "specs", "common")}))
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + mem, "-Xss64m", "-DTLA-Library=" + libs, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=cwd or os.path.dirname(module))
        out = r.stdout
    except subprocess.TimeoutExpired as x:
        raise Broken("TLC timed out on %s (%s)" % (module, cfg))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    st = {"states": 0, "transitions": 0, "depth": 0}
    m = None
    for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out): pass
    if m: st = {"transitions": int(m.group(1).replace(",", "")), "states": int(m.group(2).replace(",", "")), "depth": 0}
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m: st["depth"] = int(m.group(1))
    return "No error has been found" in out, out, st

def model_check(chk, comp, module, cfg, workers=NCPU, timeout=600, mem="6g"):
    """Exhaustive check of the design model; a failure is a failure of the check (the model does not depend on the code)."""
    d = os.path.join(VERIF, "specs", comp)
    ok, out, st = tlc(os.path.join(d, module + ".tla"), os.path.join(d, cfg), workers, timeout=timeout, mem=mem)
    if not ok: raise Broken("model checking %s/%s failed:\n%s" % (module, cfg, out[-3000:]))
    chk.add("states", st["states"]); chk.add("transitions", st["transitions"])
    chk.note("models", "%s/%s: %d distinct states, %d generated, depth %d" % (module, cfg, st["states"], st["transitions"], st["depth"]))
    return st

def state_graph(comp, module, cfg, timeout=300, mem="4g", merge=False):
    """(init nodes, {node: [(node2, op string)]}) from TLC's dot dump; variable `op` holds the script line of the last step."""
    d = os.path.join(VERIF, "specs", comp)
    tmp = tempfile.mkdtemp(prefix="tlcdot")
    dot = os.path.join(tmp, "g.dot")
    ok, out, st = tlc(os.path.join(d, module + ".tla"), os.path.join(d, cfg), 1, timeout=timeout, mem=mem, args=["-dump", "dot,actionlabels", dot])
    if not ok: raise Broken("state graph of %s failed:\n%s" % (module, out[-3000:]))
    op, edges, inits, merged, ids = {}, {}, [], {}, {}
    node = re.compile(r'^(-?\d+) \[label="(.*?)"(,style = filled)?\]')
    edge = re.compile(r'^(-?\d+) -> (-?\d+)')
    for l in open(dot):
        m = edge.match(l)
        if m: edges.setdefault(m.group(1), set()).add(m.group(2)); continue
        m = node.match(l)
        if m:
            o = re.search(r'(?:^|\\n)(?:/\\\\ )?op = \\"(.*?)\\"', m.group(2))
            op[m.group(1)] = o.group(1) if o else "?"
            if m.group(3): inits.append(m.group(1))
            if merge:
                rest = m.group(2).replace(o.group(0), "") if o else m.group(2)
                merged[m.group(1)] = ids.setdefault(rest, len(ids))
    shutil.rmtree(tmp, ignore_errors=True)
    if merge: op["#merged"] = merged
    return inits, {a: sorted(b) for a, b in edges.items()}, op, st

def cover_walks(inits, edges, op, maxlen=60, limit=None, rng=None):
    """Operation sequences from an initial state covering every edge (i.e. every labelled transition)."""
    from collections import deque
    todo = {(a, b) for a, bs in edges.items() for b in bs}
    total = len(todo); walks = []
    # BFS tree from inits
    par, dq = {i: None for i in inits}, deque(inits)
    while dq:
        a = dq.popleft()
        for b in edges.get(a, ()):
            if b not in par: par[b] = a; dq.append(b)
    def path(n):
        r = []
        while n is not None: r.append(n); n = par[n]
        return r[::-1]
    order = sorted(todo)
    if rng: rng.shuffle(order)
    for e in order:
        if e not in todo: continue
        if e[0] not in par: todo.discard(e); continue
        w = path(e[0]); 
        for x in zip(w, w[1:]): todo.discard(x)
        cur = e[0]; nxt = e[1]
        while True:
            todo.discard((cur, nxt)); w.append(nxt); cur = nxt
            if len(w) > maxlen: break
            c = [b for b in edges.get(cur, ()) if (cur, b) in todo]
            if not c: break
            nxt = c[0]
        walks.append([op[n] for n in w[1:]])
        if limit and len(walks) >= limit: break
    return walks, total - len(todo), total

def merged_graph(comp, module, cfg, timeout=300, mem="6g"):
    """Like state_graph, with the states that differ only in `op` merged: (start, setup line, {node: [(op, node2)]})."""
    inits, edges, op, st = state_graph(comp, module, cfg, timeout, mem, merge=True)
    g, m = {}, op["#merged"]
    for a, bs in edges.items():
        for b in bs: g.setdefault(m[a], set()).add((op[b], m[b]))
    return m[inits[0]], op[inits[0]], {a: sorted(b) for a, b in g.items()}, st

def edge_graph(comp, module, cfg, timeout=300, mem="4g"):
    """Like merged_graph, from the lines `E<state>#<op>#<state>` that the model's action constraint prints (the model's VIEW hides op)."""
    d = os.path.join(VERIF, "specs", comp)
    ok, out, st = tlc(os.path.join(d, module + ".tla"), os.path.join(d, cfg), 1, timeout=timeout, mem=mem)
    if not ok: raise Broken("edges of %s failed:\n%s" % (module, out[-3000:]))
    ids, g, start = {}, {}, None
    for l in out.splitlines():
        if not l.startswith('"E'): continue
        a, o, b = l[2:-1].split("#"); a, b = ids.setdefault(a, len(ids)), ids.setdefault(b, len(ids))
        g.setdefault(a, set()).add((o, b))
    if not g: raise Broken("no edges of %s" % module)
    return 0, {a: sorted(b) for a, b in g.items()}, st

def cover_ops(start, g, maxlen=60, limit=None, rng=None):
    """Operation sequences from start covering every (state, operation) pair."""
    from collections import deque
    todo = {(a, o, b) for a, x in g.items() for o, b in x}; total = len(todo); walks = []
    par, dq = {start: None}, deque([start])
    while dq:
        a = dq.popleft()
        for o, b in g.get(a, ()):
            if b not in par: par[b] = (a, o); dq.append(b)
    order = sorted(todo)
    if rng: rng.shuffle(order)
    for e in order:
        if e not in todo: continue
        w, n = [], e[0]
        while par[n]:
            todo.discard((par[n][0], par[n][1], n)); w.append(par[n][1]); n = par[n][0]
        w.reverse(); cur = e
        while True:
            todo.discard(cur); w.append(cur[1])
            if len(w) > maxlen: break
            c = [(cur[2], o, b) for o, b in g.get(cur[2], ()) if (cur[2], o, b) in todo]
            if not c: # through covered operations to the nearest uncovered one
                pre, q = {cur[2]: None}, deque([cur[2]])
                while q and not c and len(pre) < 60:
                    a = q.popleft()
                    for o, b in g.get(a, ()):
                        if b in pre: continue
                        pre[b] = (a, o); q.append(b)
                        c = [(b, x, y) for x, y in g.get(b, ()) if (b, x, y) in todo]
                        if c: break
                if not c: break
                n, via = c[0][0], []
                while pre[n]: via.append(pre[n][1]); n = pre[n][0]
                w += via[::-1]
            cur = rng.choice(c) if rng else c[0]
        walks.append(w)
        if limit and len(walks) >= limit: break
    return walks, total - len(todo), total

def validate(spec, trace, consts=None, timeout=600, mem="3g", cfg=None, workers=1, dfs=False, invs=()):
    """Validates an ndjson trace. Returns (accepted, index of first rejected line (1-based) or None, text, stats)."""
    n = sum(1 for _ in open(trace))
    cfgf = cfg or spec[:-4] + ".cfg"
    env = {"TRACE": trace}
    if dfs: env["JAVA_TOOL_OPTIONS"] = "-Dtlc2.tool.queue.IStateQueue=StateDeque"
    ok, out, st = tlc(spec, cfgf, workers, env=env, timeout=timeout, mem=mem)
    m = re.search(r'<<"TRACE_RESULT", (\d+), (\d+)>>', out)
    if ok and m:
        got, want = int(m.group(1)), int(m.group(2))
        if want != n: raise Broken("trace length mismatch %d/%d" % (want, n))
        return got >= want, (None if got >= want else got + 1), out, st
    if "is violated" in out:
        k = len(re.findall(r"^State \d+:", out, re.M))
        m = re.search(r"/\\ l = (\d+)(?!.*/\\ l = )", out, re.S)
        return False, (int(m.group(1)) - 1 if m else k), out, st
    raise Broken("trace validation could not run (%s):\n%s" % (os.path.basename(spec), out[-3500:]))

# ------------------------------------------------------------------ drivers
def run(cmd, timeout=120, env=None, cwd=None, inp=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=2048"
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd, input=inp)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return "timeout", (x.stdout or b"").decode(errors="replace")

def scenarios(lines):
    """Splits a script (list of lines) at its reset lines."""
    out = []
    for l in lines:
        if l.startswith("reset"): out.append([l])
        else: out[-1].append(l)
    return out

class Check:
    def __init__(self, pid, level="model_checking"):
        self.id = pid; self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.t0 = time.time(); self.violations = []; self.known = []
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.rep = os.path.join(VERIF, "replays"); os.makedirs(self.rep, exist_ok=True)
        self.deadline = self.t0 + (520 if self.tier == "quick" else 3300)
        self.findings = load_findings(pid)
    def thorough(self): return self.tier == "thorough"
    def add(self, k, n): self.cov[k] = self.cov.get(k, 0) + n
    def note(self, k, v): self.cov.setdefault(k, []).append(v)
    def sample(self, s):
        if len(self.cov["samples"]) < 8: self.cov["samples"].append(s)
    def left(self): return self.deadline - time.time()
    def violation(self, what, script=None, detail="", kind="script"):
        sig = what
        for f in self.findings:
            if f["match"] in what:
                if f["match"] not in self.known:
                    self.known.append(f["match"]); print("KNOWN-FINDING: property=%s %s" % (self.id, f["text"]))
                return False
        h = hashlib.sha1((what + repr(script)).encode()).hexdigest()[:10]
        path = os.path.join(self.rep, "%s-%s.txt" % (self.id, h))
        with open(path, "w") as f:
            f.write("property %s\n%s\n\n--- replay (%s)\n%s\n\n--- detail\n%s\n" % (self.id, what, kind, "\n".join(script or []), detail))
        self.violations.append((what, path)); print("violation: " + what[:600])
        return True
    def write_evidence(self, extra=None):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if extra: self.cov.update(extra)
        json.dump({"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
                   "violations": [w for w, _ in self.violations], "known_findings": self.known,
                   "wall_s": round(time.time() - self.t0, 2)}, open(os.path.join(VERIF, "evidence", self.id + ".json"), "w"), indent=1)
    def finish(self):
        self.write_evidence(); shutil.rmtree(self.tmp, ignore_errors=True)
        for w, path in self.violations[:3]:
            print("VIOLATION property=%s replay=%s" % (self.id, path))
        if not self.violations: print("%s: ok (%.1f s) %s" % (self.id, time.time() - self.t0, {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 1 if self.violations else 0

def load_findings(pid):
    """KNOWN_FINDINGS.txt: lines `finding: property=<id> match=<text> :: description` (and `fixed: ...`, which suppress nothing)."""
    out = []
    try:
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == pid: out.append({"match": m.group(2), "text": m.group(3)})
    except OSError: pass
    return out

def sanitize(text):
    m = re.search(r"(ERROR: AddressSanitizer: \S+|runtime error: [^\n]*|SCHED-[A-Z-]+[^\n]*|terminate called[^\n]*|what\(\):[^\n]*)", text)
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?/repo/src/[^\n]*)", text)[:3]
    return (m.group(1) if m else "no message") + (" in " + "; ".join(frames) if frames else "")

def drive_validate(chk, exe, spec, batches, args=(), timeout=120, vtimeout=600, consts=None, par=NCPU, env=None, mem="2g", dfs=False, label=None, maxviol=2, post=None, cfg=None, relevant=None):
    """batches: list of scripts, each a list of scenarios (list of lines, first one 'reset ...').
    Runs each script on the driver, validates the log with TLC, isolates and re-runs what fails."""
    label = label or os.path.basename(exe)
    def once(idx, scen, tag):
        base = os.path.join(chk.tmp, "%s-%s-%s" % (label, idx, tag))
        lines = [l for s in scen for l in s]
        open(base + ".script", "w").write("\n".join(lines) + "\n")
        rc, out = run([exe] + list(args) + [base + ".script", base + ".ndjson"], timeout=timeout, env=env)
        if not os.path.exists(base + ".ndjson"): raise Broken("driver wrote no trace: %s %s" % (rc, out[-2000:]))
        if post: post(base + ".ndjson")
        bad = None
        if rc != 0:
            k = sum(1 for l in open(base + ".ndjson") if '"op":"reset"' in l)
            if rc == 3: raise Broken("driver protocol error: " + out[-1500:])
            bad = ("crash", max(k, 1) - 1, "driver ended with %s: %s" % (rc, sanitize(out)), out[-6000:] + "\n--- last events\n" + "".join(open(base + ".ndjson").readlines()[-30:]))
            # drop the partial last line
            data = open(base + ".ndjson").read()
            if data and not data.endswith("\n"): open(base + ".ndjson", "w").write(data[:data.rfind("\n") + 1])
        st = {"states": 0}
        nlines = sum(1 for _ in open(base + ".ndjson"))
        if nlines:
            acc, at, text, st = validate(spec, base + ".ndjson", consts, vtimeout, mem, dfs=dfs, cfg=cfg)
            if not acc:
                tl = open(base + ".ndjson").read().splitlines()
                k = sum(1 for l in tl[:at] if '"op":"reset"' in l)
                ctx = tl[max(0, at - 12):at]
                bad = ("reject", max(k, 1) - 1, "the specification does not allow: " + tl[at - 1][:500], "\n".join(ctx) + "\n...\n" + (text[-1500:] if "is violated" in text else ""))
        # keep a sample
        ns = nlines
        if not bad:
            for suf in (".script", ".ndjson"):
                try: os.unlink(base + suf)
                except OSError: pass
        return bad, st, ns
    def job(i):
        scen, res = list(batches[i]), []
        while scen and len(res) < 12:
            bad, st, ns = once(i, scen, "a%d" % len(res)); res.append((scen, bad, st, ns))
            if not bad or relevant is None or relevant(*bad): break
            scen = scen[bad[1] + 1:] # concerns another property: go on with the rest
        return i, res
    nviol = 0
    with cf.ThreadPoolExecutor(par) as ex:
        for i, res in ex.map(job, range(len(batches))):
            for scens, bad, st, ns in res:
                chk.add("transitions", st["states"]); chk.add("events_validated", ns)
                chk.add("traces_validated_against_impl", len(scens) if not bad else max(0, bad[1]))
                if not bad: continue
                kind, k, what, detail = bad
                if relevant is not None and not relevant(*bad): chk.note("other_properties", what[:200]); continue
                if nviol >= maxviol: nviol += 1; continue
                scen = scens[min(k, len(scens) - 1)]
                bad2, _, _ = once(i, [scen], "b")
                if bad2: rep = [scen]
                else:
                    bad2, _, _ = once(i, scens, "c"); rep = scens
                if not bad2: raise Broken("a failure did not repeat: %s" % what)
                if chk.violation("%s: %s" % (label, bad2[2]), [l for s in rep for l in s], detail=bad2[3]): nviol += 1
    if batches: chk.sample({"driver": label, "script": (batches[len(batches) // 2][0])[:14]})
    return nviol

def batch(scens, size):
    return [scens[i:i + size] for i in range(0, len(scens), size)]

from vf import *
REPOQ = ["AVFramedQueue.cpp", "IOInterface.cpp", "VideoFrame.cpp", "AudioFrame.cpp", "Frame.cpp", "StreamInfo.cpp", "Utils.cpp", "Jzon.cpp"]
SCHED = dict(flags=["-rdynamic", "-no-pie"], repo_flags=["-fsanitize=thread"], incs=["-I" + VERIF + "/harness/stubs"], link=["-rdynamic", "-no-pie", "-ldl"])
def exe():
    return build("share_driver", ["share_driver.cpp", "sched/sched.cpp"], [r for r in REPOQ if os.path.exists(os.path.join(SRC, r))], **SCHED)
def seq_random(rng, n):
    size = rng.choice([2, 3, 5, 10]); s = ["reset seq %d %d" % (size, rng.choice([1, 2, 3]))]
    cons = range(1, 6); p = rng.choice([.2, .4])
    st = {} # what each consumer did last, to stay within the protocol most of the time
    for _ in range(n):
        x = rng.random(); c = rng.choice(cons)
        if x < p: s.append("add")
        elif x < .6: s.append("get %d" % c); st[c] = 1
        elif x < .88: s.append("rem %d" % c) if st.get(c) else s.append("get %d" % c); st[c] = 0 if st.get(c) else 1
        elif x < .93: s.append("join %d" % c)
        elif x < .97: s.append("leave %d" % c)
        elif x < .972: s.append("wdisc")
        else: s.append("qry")
    return s
def conc_random(rng):
    n = rng.choice([2, 3, 3, 4]); fr = rng.randint(2, 8)
    s = ["reset conc %d %d %d %d %d 0 %d %d" % (rng.choice([2, 3, 4, 8]), rng.randint(1, 10**9), rng.choice([0, 0, 1]), rng.choice([20, 100, 400, 1500]), rng.choice([1000, 4000]), rng.choice([1, 2, 4]), rng.choice([300, 1000, 4000]))]
    s.append("prod %d %d" % (fr, rng.choice([0, 0, 300, 2000])))
    stay = rng.randint(1, n)
    for c in range(1, n + 1):
        join = 1 if c != 1 and rng.random() < .4 else 0
        leave = 0 if c == stay or rng.random() < .5 else rng.randint(1, 4)
        if c == stay: join = 0
        s.append("cons %d %d %d %d %d %d %d" % (c, join, rng.choice([0, 0, 100, 700, 2500]), rng.choice([100, 500, 1500]), rng.choice([0, 0, 200, 1000]), leave, rng.randint(0, 1)))
    return s
def run(chk):
    model_check(chk, "Share", "MCShare", "MCShare.cfg")
    inits, edges, op, st = state_graph("Share", "MCShare", "GenShare.cfg")
    walks, cov, tot = cover_walks(inits, edges, op, 60)
    chk.note("generated", "state graph of MCShare/GenShare: %d of %d transitions covered by %d scripts" % (cov, tot, len(walks)))
    x = exe(); t = chk.thorough()
    gen = [["reset seq 3 2"] + w for w in walks]
    rnd = [seq_random(chk.rng, 60) for _ in range(300 if not t else 4000)]
    drive_validate(chk, x, VERIF + "/specs/Share/TraceShare.tla", batch(gen, 250) + batch(rnd, 60), label="share")
    conc = [conc_random(chk.rng) for _ in range(1200 if not t else 15000)]
    drive_validate(chk, x, VERIF + "/specs/Share/TraceShareConc.tla", batch(conc, 100), label="share-conc")

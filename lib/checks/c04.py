from vf import *
REPOQ = ["AVFramedQueue.cpp", "SlicedVideoFrameQueue.cpp", "VideoFrame.cpp", "AudioFrame.cpp", "Frame.cpp", "StreamInfo.cpp", "Utils.cpp", "Jzon.cpp"]
STUB = ["-I" + VERIF + "/harness/stubs"]
def exe():
    srcs = [r for r in REPOQ if os.path.exists(os.path.join(SRC, r))]
    return build("queue_driver", ["queue_driver.cpp"], srcs, flags=ASAN, incs=STUB)
def random_scenario(rng, n):
    kind = rng.choice(["aac", "aac", "pcm", "video"]); mx = rng.choice([2, 3, 4, 5, 9, 10, 11, 20, 30]) if kind != "video" else rng.choice([2, 3, 10])
    if rng.random() < .1: kind, mx = "aac", 100
    s = ["reset %s %d %d" % (kind, mx, rng.choice([0, 1, 1, 2, 3]))]
    held, cnt = False, 0
    pw = rng.choice([.3, .5, .8]); 
    for _ in range(n):
        if rng.random() < .02: pw = rng.choice([.1, .3, .5, .8, .95])
        x = rng.random()
        if x < pw:
            if held or (cnt >= mx - 1 and rng.random() < .3): s.append("add"); cnt = min(cnt + held, mx - 1); held = False
            elif rng.random() < .5: s.append("rear"); held = cnt < mx - 1
            else:
                s.append("frear"); held = True
                if cnt >= mx - 1: cnt = mx - 2
        else:
            y = rng.random()
            if y < .35: s.append("front")
            elif y < .75: s.append("remove"); cnt = max(cnt - 1, 0)
            elif y < .85: s.append("ffront")
            elif y < .93: s.append("addr %d %d" % (rng.randint(10, 15), rng.randint(1, 3)))
            else: s.append("delr %d" % rng.randint(10, 15))
    return s
def run(chk):
    spec = VERIF + "/specs/Queue/TraceQueue.tla"
    model_check(chk, "Queue", "MCQueue", "MCQueue.cfg")
    inits, edges, op, st = state_graph("Queue", "MCQueue", "GenQueue.cfg")
    walks, cov, tot = cover_walks(inits, edges, op, 60)
    chk.note("generated", "state graph of MCQueue/GenQueue: %d of %d transitions covered by %d scripts" % (cov, tot, len(walks)))
    x = exe()
    gen = [["reset aac 3 1"] + w for w in walks]
    rnd = [random_scenario(chk.rng, 60) for _ in range(150 if not chk.thorough() else 3000)]
    drive_validate(chk, x, spec, batch(gen, 200) + batch(rnd, 40), label="queue")
    # producer and consumer at the same time
    from checks import ring
    model_check(chk, "Ring", "RingImpl", "RingImpl.cfg"); model_check(chk, "Ring", "RingImpl", "RingImpl4.cfg")
    drive_validate(chk, ring.exe(), ring.SPEC, batch([ring.scenario(chk.rng) for _ in range(1200 if not chk.thorough() else 20000)], 100), label="ring")

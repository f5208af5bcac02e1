"""A frame queue between a producer and a consumer running at the same time."""
from vf import *
from checks import filt, pool, c04
def exe(): return build("ring_driver", ["ring_driver.cpp", "sched/sched.cpp"], [r for r in c04.REPOQ if os.path.exists(os.path.join(SRC, r))], **filt.SCHED)
SPEC = VERIF + "/specs/Ring/TraceRing.tla"
def scenario(rng):
    mx = rng.choice([3, 3, 3, 4, 4, 5, 10]); n = rng.randint(8, 30)
    p = rng.random(); P = ["f" if rng.random() < p else "a" for _ in range(n)]; ws = rng.choice([[1, 3, 1, 0, 0], [5, 1, 1, 1, 1], [3, 1, 2, 2, 2]])
    C = rng.choices(["g", "l", "n", "o", "u"], ws, k=n + rng.randint(0, 15))
    for x in (P, C):
        for _ in range(rng.choice([0, 1, 3])): x.insert(rng.randint(0, len(x)), "s%d" % rng.choice([10, 100, 1000]))
    sp = pool.sched_params(rng, rng.choice([100, 400, 1500])).split(); sp[2] = str(rng.choice([50, 300, 1000, 3000])); sp[4] = "0"
    return ["reset %s %d %s" % (rng.choice(["aac", "aac", "video"]), mx, " ".join(sp)), "p " + " ".join(P), "c " + " ".join(C)]

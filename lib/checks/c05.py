from vf import *
from checks import c04
def exe(): return build("sliced_driver", ["sliced_driver.cpp"], [r for r in c04.REPOQ if os.path.exists(os.path.join(SRC, r))], flags=ASAN, incs=c04.STUB)
def scenario(rng, n):
    s = ["reset %d %d" % (rng.choice([2, 3, 4, 5, 10, 11, 20, 30]), rng.choice([0, 1, 2, 3]))]; p = rng.choice([.25, .4, .6])
    for _ in range(n):
        x = rng.random()
        if rng.random() < .03: p = rng.choice([.1, .25, .4, .6, .9])
        if x < p: s += ["slices %d" % rng.choice([0, 1, 1, 2, 3, 5, 15, 16, 17])] * rng.choice([1, 1, 1, 2]) + ["add"]
        elif x < p + .04: s.append("rear")
        else: s += rng.choice([["front", "remove"], ["front", "remove", "ffront"], ["remove"], ["ffront"], ["front", "remove"] * 4])
    return s
def run(chk):
    t = chk.thorough(); x = exe(); spec = VERIF + "/specs/Sliced/TraceSliced.tla"
    model_check(chk, "Sliced", "MCSliced", "MCSliced.cfg")
    sc = []
    for c, m in (("A", 4), ("B", 11), ("C", 2)):
        start, g, st = edge_graph("Sliced", "MCSliced", "GenSliced%s.cfg" % c)
        ws, cov, tot = cover_ops(start, g, 60, None, chk.rng)
        chk.note("generated", "state graph of MCSliced/GenSliced%s: %d of %d (state, operation) pairs covered by %d scripts" % (c, cov, tot, len(ws)))
        sc += [["reset %d %d" % (m, chk.rng.choice([0, 1, 2]))] + w for w in ws]
    drive_validate(chk, x, spec, batch(sc, 60), label="sliced-model")
    drive_validate(chk, x, spec, batch([scenario(chk.rng, 60) for _ in range(400 if not t else 8000)], 40), label="sliced")

from vf import *
from checks import vid
SPEC = VERIF + "/specs/Shm/TraceShm.tla"
def run(chk):
    t = chk.thorough(); x = vid.shm()
    sc = []
    for k in ("raw", "coded", "sliced"):
        model_check(chk, "Shm", "MCShm", "MC_%s.cfg" % k)
        start, g, st = edge_graph("Shm", "GenShm", "Gen_%s.cfg" % k)
        ws, cov, tot = cover_ops(start, g, 60, None, chk.rng)
        chk.note("generated", "state graph of GenShm/Gen_%s.cfg: %d of %d (state, operation) pairs covered by %d scripts" % (k, cov, tot, len(ws)))
        sc += [["reset " + k] + [l for o in w for l in o.split(";")] for w in ws]
    drive_validate(chk, x, SPEC, batch(sc, 12), label="shm-model")
    drive_validate(chk, x, SPEC, batch([vid.Shm(chk.rng, 50).s for _ in range(260 if not t else 6000)] + [vid.Shm(chk.rng, 8, "rawbig").s for _ in range(6 if not t else 60)], 14), label="shm")

from vf import *
from checks import vid
SPEC = VERIF + "/specs/Mixer/TraceMixer.tla"
def run(chk):
    t = chk.thorough(); x = vid.mixer()
    model_check(chk, "Mixer", "MCMixer", "MCMixer.cfg")
    sc = []
    for cfg, n, lim in (("GenMixer1.cfg", 1, None), ("GenMixer.cfg", 2, 60 if not t else 1200)):
        start, g, st = edge_graph("Mixer", "MCMixer", cfg)
        ws, cov, tot = cover_ops(start, g, 150, lim, chk.rng)
        chk.note("generated", "state graph of MCMixer/%s: %d of %d (state, operation) pairs covered by %d scripts" % (cfg, cov, tot, len(ws)))
        sc += [["reset %d 4 4 0" % n] + w for w in ws]
    drive_validate(chk, x, SPEC, batch(sc, 12), label="mixer-model")
    drive_validate(chk, x, SPEC, batch([vid.Mix(chk.rng, 110).s for _ in range(220 if not t else 6000)], 14), label="mixer")

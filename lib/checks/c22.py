from vf import *
from checks import enc
def run(chk):
    t = chk.thorough(); x = enc.exe()
    for c in ("MCEncoder.cfg", "MCGroups.cfg"): model_check(chk, "Encoder", "MCEncoder", c)
    sc = []
    for c, lim in (("GenEncoder.cfg", 80 if not t else None), ("GenConf.cfg", 60 if not t else None)):
        start, g, st = edge_graph("Encoder", "MCEncoder", c)
        ws, cov, tot = cover_ops(start, g, 90, lim, chk.rng)
        chk.note("generated", "state graph of MCEncoder/%s: %d of %d (state, operation) pairs covered by %d scripts" % (c, cov, tot, len(ws)))
        sc += [["reset " + chk.rng.choice(["avc", "avc", "hevc"])] + w + ["end"] for w in ws]
    drive_validate(chk, x, enc.SPEC, batch(sc, 10), label="encoder-model")
    drive_validate(chk, x, enc.SPEC, batch([enc.g_enc(chk.rng) for _ in range(130 if not t else 1500)], 8), label="encoder")

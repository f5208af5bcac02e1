from vf import *
from checks import aud
def translate(rng, ops):
    """Operations of the model, in units of output frames, as operations at absolute times."""
    a = aud.AMix.__new__(aud.AMix); a.rng = rng; a.sync = None; a.front = a.len = 0; a.base = rng.choice([100, 40000, 1000000000]); s = ["reset 2"]
    for o in ops:
        w = o.split()
        if w[0] == "conn": s.append(o + " " + rng.choice("FFS"))
        elif w[0] == "proc":
            s.append(o)
            if a.len >= 2880: a.len -= 960; a.front += 960
        elif w[0] == "frame":
            n, p, v = int(w[2]) * 960, int(w[3]) * 960, int(w[4]); u = a.base if a.sync is None else a.sync + -((-(a.front + p) * 125) // 6)
            u = max(u, 0); s.append("frame %s %d %s %d %d %d 0 0 0 0 0 0" % (w[1], n, aud.sec(u), n, v, -v)); a.mirror(n, u)
        else: s.append(o)
    return s
def run(chk):
    t = chk.thorough(); x = aud.amix()
    for c in ("MCAMix.cfg", "MCAMixDeep.cfg"): model_check(chk, "AMix", "MCAMix", c)
    start, g, st = edge_graph("AMix", "MCAMix", "GenAMix.cfg"); ws, cov, tot = cover_ops(start, g, 60, None if t else 120, chk.rng)
    chk.note("generated", "state graph of MCAMix/GenAMix: %d of %d (state, operation) pairs covered by %d scripts" % (cov, tot, len(ws)))
    drive_validate(chk, x, aud.AMIX, batch([translate(chk.rng, w) for w in ws], 12), label="amix-model")
    drive_validate(chk, x, aud.AMIX, batch([aud.AMix(chk.rng, 80).s for _ in range(300 if not t else 8000)], 20), label="amix")
    drive_validate(chk, x, aud.AMIX, batch([aud.amix_stream(chk.rng, 120) for _ in range(60 if not t else 1500)], 10), label="amix-streams")
    if t: drive_validate(chk, aud.amix(True), aud.AMIX, batch([["reset 1", "conn 1 F", "long 4500000"]], 1), label="amix-day", timeout=800)

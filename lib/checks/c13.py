from vf import *
from checks import aud
SPEC = aud.CIRC
def scripted(rng, w):
    """A script of the model: times relative to the expected ones become absolute."""
    c = aud.Circ(rng, 0, 8000, 100, rng.choice(["U8P", "S16P", "FLTP"])); c.out = 80; h = c.s[0].split(); h[5] = "80"; c.s = [" ".join(h)]
    for o in w:
        o = o.split()
        if o[0] == "add": c.add(int(o[1]), int(o[2]))
        elif o[0] == "get": c.get()
        elif o[0] == "release": c.s.append("release"); c.held = False
        else: c.out = int(o[1]); c.s.append("out %d" % c.out)
    return c.s
def day(rng):
    """More than 2^32 samples, then operations as usual."""
    c = aud.Circ(rng, 0, 96000, 1000, "U8P"); c.out = 9600; c.s = ["reset U8P 1 96000 1000 9600"]; c.add(9600, 0); c.get(); c.s.append("release"); c.held = False; k = 96000 * 5
    c.s.append("bulk %d 9600 %s %d" % (k, aud.sec(c.sync), c.rear)); c.rear += k * 9600
    for _ in range(30): c.add(); c.get(); c.s.append("release"); c.held = False
    return c.s
def run(chk):
    t = chk.thorough(); x = aud.circ(); y = aud.circ_conc()
    model_check(chk, "Circ", "MCCirc", "MCCirc.cfg" if not t else "MCCircDeep.cfg")
    start, g, st = edge_graph("Circ", "MCCirc", "GenCirc.cfg")
    ws, cov, tot = cover_ops(start, g, 60, None, chk.rng)
    chk.note("generated", "state graph of MCCirc/GenCirc.cfg: %d of %d (state, operation) pairs covered by %d scripts" % (cov, tot, len(ws)))
    drive_validate(chk, x, SPEC, batch([scripted(chk.rng, w) for w in ws], 60), label="audio-model")
    drive_validate(chk, x, SPEC, batch([day(chk.rng)], 1) + batch([aud.Circ(chk.rng, 100).s for _ in range(1000 if not t else 20000)], 80), label="audio")
    drive_validate(chk, y, SPEC, batch([aud.circ_conc_scene(chk.rng) for _ in range(3000 if not t else 40000)], 150), label="audio-conc")

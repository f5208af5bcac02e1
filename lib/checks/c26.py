from vf import *
from checks import vid
SPEC = VERIF + "/specs/Capture/TraceCapture.tla"
def run(chk):
    t = chk.thorough(); x = vid.capture()
    model_check(chk, "Capture", "CaptureImpl", "CaptureImpl.cfg")
    model_check(chk, "Capture", "MCCapture", "MCCapture.cfg")
    start, g, st = edge_graph("Capture", "MCCapture", "GenCapture.cfg")
    ws, cov, tot = cover_ops(start, g, 150, 700 if not t else None, chk.rng)
    chk.note("generated", "state graph of MCCapture/GenCapture.cfg: %d of %d (state, operation) pairs covered by %d scripts" % (cov, tot, len(ws)))
    drive_validate(chk, x, SPEC, batch([["reset"] + [o for w in ws_ for o in w.split("|")] for ws_ in ws], 12), label="capture-model")
    drive_validate(chk, x, SPEC, batch([vid.Cam(chk.rng, 120).s for _ in range(400 if not t else 12000)], 20), label="capture")
    drive_validate(chk, x, SPEC, batch([vid.Cam(chk.rng, 1500, True).s for _ in range(4 if not t else 100)], 1), label="capture-long")

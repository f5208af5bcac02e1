from vf import *
from checks import vid
SPEC = VERIF + "/specs/Resampler/TraceResampler.tla"
def run(chk):
    t = chk.thorough(); x = vid.resampler()
    model_check(chk, "Resampler", "MCResampler", "MCResampler.cfg")
    start, g, st = edge_graph("Resampler", "MCResampler", "GenResampler.cfg")
    ws, cov, tot = cover_ops(start, g, 150, 150 if not t else None, chk.rng)
    chk.note("generated", "state graph of MCResampler/GenResampler.cfg: %d of %d (state, operation) pairs covered by %d scripts" % (cov, tot, len(ws)))
    drive_validate(chk, x, SPEC, batch([["reset 6000"] + w for w in ws], 12), label="resampler-model")
    drive_validate(chk, x, SPEC, batch([vid.Resample(chk.rng, 110).s for _ in range(300 if not t else 8000)], 20), label="resampler")
    drive_validate(chk, x, SPEC, batch([vid.Resample(chk.rng, 60, True).s for _ in range(8 if not t else 160)], 1), label="resampler-1080")

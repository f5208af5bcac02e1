from vf import *
from checks import filt
def run(chk):
    t = chk.thorough(); x = filt.exe()
    for c in ("MC_graph.cfg", "MC_share.cfg"): model_check(chk, "Filter", "MCFilter", c)
    filt.validate_scripts(chk, filt.generated(chk, "Gen_graph1.cfg", None if t else 500, 60), "flow-model", 100)
    filt.validate_scripts(chk, [filt.mix(chk.rng, 100, filt.FLOW) for _ in range(800 if not t else 12000)], "flow")

from vf import *
from checks import filt, flow
def run(chk):
    t = chk.thorough(); x = filt.exe()
    for c in ("MC_graph.cfg", "MC_share.cfg"): model_check(chk, "Filter", "MCFilter", c)
    gen = filt.generated(chk, "Gen_graph1.cfg", None, 80) + filt.generated(chk, "Gen_share1.cfg", None, 80) if t else filt.generated(chk, "Gen_graph0.cfg", None, 80)
    filt.validate_scripts(chk, gen, "graph-model", 100)
    filt.validate_scripts(chk, [filt.mix(chk.rng, 60, filt.GRAPH) for _ in range(800 if not t else 12000)], "graph")
    # the same while the filters run: the manager's thread changes the graph, the workers process
    flow.validate_scripts(chk, [flow.scenario(chk.rng, "graph") for _ in range(240 if not t else 4000)], "graph-running")

from vf import *
from checks import flow
def run(chk):
    t = chk.thorough(); x = flow.exe()
    model_check(chk, "Flow", "FlowImpl", "FlowImpl.cfg")
    if t: model_check(chk, "Flow", "FlowImpl", "FlowImpl4.cfg")
    n = 400 if not t else 6000
    flow.validate_scripts(chk, [flow.scenario(chk.rng, "flow") for _ in range(n)], "flow")
    flow.validate_scripts(chk, [flow.scenario(chk.rng, "graph") for _ in range(n)], "flow-graph")

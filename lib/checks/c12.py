from vf import *
from checks import pipe
def run(chk):
    t = chk.thorough(); x = pipe.exe()
    for c in ("MC_A", "MC_B", "MC_C", "MC_D", "MC_E"): model_check(chk, "Pipe", "MCPipe", c + ".cfg")
    for c, n in (("A", None if t else 250), ("B", 4000 if t else 150), ("C", 4000 if t else 150), ("E", 2000 if t else 100)):
        pipe.validate_scripts(chk, pipe.walks(chk, "Gen_%s.cfg" % c, pipe.ZOOS[c], n), "graph-model-" + c, 40)
    pipe.validate_scripts(chk, [pipe.scenario(chk.rng, 20, pipe.MIXED) for _ in range(800 if not t else 12000)], "commands")

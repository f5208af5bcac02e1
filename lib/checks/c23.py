from vf import *
from checks import pipe
def run(chk):
    t = chk.thorough(); x = pipe.exe()
    model_check(chk, "Pipe", "MCPipe", "MC_A.cfg"); model_check(chk, "Pipe", "MCPipe", "MC_E.cfg")
    pipe.validate_scripts(chk, pipe.walks(chk, "Gen_A.cfg", pipe.ZOOS["A"], None if t else 150), "requests-model", 40)
    pipe.validate_scripts(chk, [pipe.scenario(chk.rng, 20, pipe.BADMIX, .2, .03) for _ in range(1200 if not t else 15000)], "malformed")
    pipe.validate_scripts(chk, [pipe.scenario(chk.rng, 15, pipe.MIXED, .02, 0) for _ in range(300 if not t else 4000)], "requests")

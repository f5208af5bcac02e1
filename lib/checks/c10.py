from vf import *
from checks import filt
def run(chk):
    t = chk.thorough(); x = filt.exe()
    model_check(chk, "Filter", "MCFilter", "MC_sync.cfg")
    filt.validate_scripts(chk, filt.generated(chk, "Gen_sync2.cfg", None, 60), "sync-model", 60)
    filt.validate_scripts(chk, [filt.syncs(chk.rng, 120) for _ in range(800 if not t else 12000)], "sync")

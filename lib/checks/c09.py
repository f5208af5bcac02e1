from vf import *
from checks import filt
def run(chk):
    t = chk.thorough(); x = filt.exe()
    model_check(chk, "Filter", "MCFilter", "MC_window.cfg")
    filt.validate_scripts(chk, filt.generated(chk, "Gen_window1.cfg", None, 60), "window-model", 60)
    filt.validate_scripts(chk, [filt.frametime(chk.rng, 80) for _ in range(1000 if not t else 15000)], "window")

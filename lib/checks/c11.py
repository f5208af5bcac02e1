from vf import *
from checks import filt
def run(chk):
    t = chk.thorough(); x = filt.exe()
    model_check(chk, "Filter", "MCEvents", "MC_events.cfg")
    filt.validate_scripts(chk, filt.generated(chk, "Gen_events2.cfg", None if t else 400, 60, "MCEvents"), "events-model", 60)
    filt.validate_scripts(chk, [filt.mix(chk.rng, 60, filt.EVENTS) for _ in range(1000 if not t else 15000)], "events")

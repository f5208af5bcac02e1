from vf import *
from checks import dash
def run(chk):
    t = chk.thorough()
    u = lambda k: lambda w, rng: dash.expand_units(w, k, rng)
    dash.check(chk, [("MCUnits", "MCUnitsHEVC.cfg"), ("MCUnits", "MCUnitsAVC.cfg")] if t else [("MCUnits", "MCUnitsQuick.cfg")],
               [("MCUnits", "GenUnitsAVC.cfg", 150, None, u("avc")), ("MCUnits", "GenUnitsHEVC.cfg", 120, None, u("hevc"))], "units", 240)

from vf import *
from checks import dash
def run(chk):
    dash.check(chk, [("MCDash", "MCBoth.cfg")], [("MCDash", "GenSound.cfg", 60, None, dash.expand), ("MCDash", "GenBoth.cfg", 60, 700, dash.expand)], "audio", 240)

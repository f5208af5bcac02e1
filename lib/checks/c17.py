from vf import *
from checks import dash
def run(chk):
    dash.check(chk, [("MCDash", "MCLate.cfg")], [("MCDash", "GenLate.cfg", 120, 900, dash.expand)], "set", 240, 180)

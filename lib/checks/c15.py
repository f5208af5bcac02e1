from vf import *
from checks import dash
def run(chk):
    t = chk.thorough()
    dash.check(chk, [("MCDash", "MCVideo.cfg")] + ([("MCDash", "MCLate.cfg")] if t else []), [("MCDash", "GenVideo.cfg", 100, None, dash.expand)] + ([("MCDash", "GenLate.cfg", 0, 700, dash.expand)] if t else []), "video", 240)

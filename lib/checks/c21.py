from vf import *
from checks import vid
SPEC = VERIF + "/specs/Splitter/TraceSplitter.tla"
def lengths(chk):
    """The length of a crop counts its pixels, not its bytes (see KNOWN_FINDINGS.txt)."""
    def post(path):
        for l in open(path):
            e = json.loads(l) if l.endswith("\n") and '"proc"' in l else {}
            for o in e.get("outs", []):
                if o["len"] != 3 * o["w"] * o["h"]: chk.short = o
    return post
def run(chk):
    t = chk.thorough(); x = vid.splitter(); chk.short = None
    model_check(chk, "Splitter", "MCSplitter", "MCSplitter.cfg")
    sc = []
    for cfg, lim in (("GenSplitter1.cfg", None), ("GenSplitter.cfg", 150 if not t else None)):
        start, g, st = edge_graph("Splitter", "MCSplitter", cfg)
        ws, cov, tot = cover_ops(start, g, 150, lim, chk.rng)
        chk.note("generated", "state graph of MCSplitter/%s: %d of %d (state, operation) pairs covered by %d scripts" % (cfg, cov, tot, len(ws)))
        sc += [["reset 0"] + w for w in ws]
    drive_validate(chk, x, SPEC, batch(sc, 12), label="splitter-model", post=lengths(chk))
    drive_validate(chk, x, SPEC, batch([vid.Split(chk.rng, 110).s for _ in range(300 if not t else 8000)], 20), label="splitter", post=lengths(chk))
    if chk.short: chk.violation("the length of a crop is not the bytes of its pixels", ["crop of %(w)d x %(h)d pixels with length %(len)d" % chk.short])

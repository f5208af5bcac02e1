"""A running pipeline: the real manager, pool, filters and queues with mock processing, while paths come and go."""
from vf import *
from checks import filt, pool, pipe
def exe(): return pipe.pm_build("flow_driver", "flow_driver.cpp")
SPEC = VERIF + "/specs/Flow/TraceFlow.tla"
T = pipe.TYPES
def scenario(rng, kind="flow"):
    """kind: flow (long runs, few changes) or graph (changes all the time)."""
    sp = pool.sched_params(rng, rng.choice([300, 1000, 3000])).split(); sp[4] = "0"; sp[2] = str(rng.choice([10, 50, 200, 1000]))
    out = ["reset %d %s" % (rng.choice([1, 2, 2, 3, 4]), " ".join(sp))]
    fs, paths, npath, nid = {}, {}, [0], [0]
    def filt_(t):
        nid[0] += 1; i = nid[0]; fs[i] = t; head = not T[t][0]
        out.append("filter %d %s %d %d %d" % (i, t, rng.choice([4, 4, 5, 8]), rng.choice([0, 0, 100, 500, 1500, 3000]), rng.choice([500, 1000, 2000, 4000]) if head else 0))
    def used(i): return any(i in p for p in paths.values())
    def path():
        org = [i for i in fs if T[fs[i]][1] and (not T[fs[i]][0] or used(i))]; dst = [i for i in fs if not T[fs[i]][1]]
        if not org or not dst: return
        o = rng.choice(org); d = rng.choice(dst); mids = [i for i in fs if all(T[fs[i]]) and i != o and (not used(i) or rng.random() < .1)]
        ms = rng.sample(mids, min(len(mids), rng.choice([0, 0, 1, 1, 2]))); npath[0] += 1; paths[npath[0]] = [o, d] + ms
        if rng.random() < .15 and ms: d = ms.pop(); paths[npath[0]] = [o, d] + ms
        out.append("path %d %d %d %d %d%s" % (npath[0], o, d, rng.choice([1, 1, 1, 1, 2, 3, -1]), rng.choice([1, 1, 2, 3, -1]), "".join(" %d" % m for m in ms)))
    def rmpath():
        if paths: i = rng.choice(sorted(paths)); del paths[i]; out.append("rmpath %d" % i)
    def rmfilter():
        c = [i for i in fs if not used(i)] if rng.random() < .8 else sorted(fs)
        if c:
            i = rng.choice(c); out.append("rmfilter %d" % i)
            if not used(i): del fs[i]
    filt_(rng.choice(pipe.HEADS)); filt_(rng.choice(pipe.TAILS))
    for _ in range(rng.randint(0, 4)): filt_(rng.choice(pipe.HEADS + pipe.TAILS * 2 + pipe.MIDS * 2))
    for _ in range(rng.choice([1, 1, 2, 3])): path()
    n = rng.randint(2, 6) if kind == "flow" else rng.randint(6, 16)
    for _ in range(n):
        out.append("sleep %d" % (rng.choice([1000, 5000, 15000, 30000]) if kind == "flow" else rng.choice([100, 500, 1000, 3000, 6000])))
        x = rng.random()
        if x < .35: path()
        elif x < .65: rmpath()
        elif x < .75: filt_(rng.choice(pipe.HEADS + pipe.TAILS + pipe.MIDS))
        elif x < .85: rmfilter()
        elif x < .9: out.append("state")
        elif kind == "flow": out.append("quiet")
    if rng.random() < .4: # the graph changes when nothing more is produced
        out.append("hush")
        for _ in range(rng.randint(1, 3)): rng.choice([path, path, rmpath])(); out.append("sleep %d" % rng.choice([100, 1000, 5000]))
        out.append("quiet")
    elif rng.random() < .6: out.append("sleep 10000"); out.append("quiet")
    return out
def validate_scripts(chk, scens, label, size=20, **k): drive_validate(chk, exe(), SPEC, batch(scens, size), label=label, **k)

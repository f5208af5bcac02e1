"""Workers pool: real WorkersPool/Runnable under the controlled scheduler, traces validated against specs/Pool."""
from vf import *
import json as J
REPOP = ["WorkersPool.cpp", "Runnable.cpp", "Utils.cpp"]
def exe():
    return build("pool_driver", ["pool_driver.cpp", "sched/sched.cpp"], REPOP, flags=["-rdynamic", "-no-pie"], repo_flags=["-fsanitize=thread"],
                 incs=["-I" + VERIF + "/harness/stubs"], link=["-rdynamic", "-no-pie", "-ldl"])
def sched_params(rng, length):
    st = rng.choice([0, 0, 1])
    pt = rng.choice([0, 0, 0, 100, 500])
    return "%d %d %d %d %d %d %d" % (rng.randint(1, 10**9), st, rng.choice([10, 50, 200, 600]), rng.choice([1000, 3000, 6000]), pt, rng.choice([1, 2, 3, 5, 8]), rng.choice([length // 4, length, length * 3]))
def scenario(rng, focus):
    n = rng.choice([1, 2, 2, 2, 3, 4])
    nt = rng.choice([1, 2, 2, 3, 3, 4, 5]); ids = rng.sample(range(0, 8), nt)
    nctl = rng.choice([1, 1, 2, 3]) if focus != "stop" else rng.choice([1, 2])
    s = ["reset %d %s" % (n, sched_params(rng, 1500))]
    waits = rng.choice([[0], [0, 0, 100, 1000], [0, 3000, 20000], [300, 1000], [0, 50000, 200000]])
    durs = rng.choice([[0], [0, 100, 500], [100, 1000, 5000], [0, 0, 15000]])
    o = 0; objs = {}
    def task(i):
        nonlocal o
        o += 1
        def plan(vals, lo=1, hi=4): return " ".join(str(rng.choice(vals)) for _ in range(rng.randint(lo, hi)))
        en = " ".join(rng.choice(["-", "-", ",".join(str(x) for x in rng.sample(ids + [99], rng.randint(1, min(3, len(ids) + 1))))]) for _ in range(rng.randint(1, 4)))
        s.append("task %d %d %s | %s | %s | %s" % (o, i, plan(durs), plan(waits), plan([0, 0, 0, 1] if rng.random() < .8 else [1]), en))
        objs[o] = i
        return o
    ctl = []
    owner = {i: rng.randrange(nctl) for i in ids}
    for c in range(nctl):
        mine = [i for i in ids if owner[i] == c]; up = {}; mycur = []
        ops = rng.randint(3, 9)
        if c == 0 and rng.random() < .15: ctl.append((c, "add %d" % task(-1)))
        for i in mine:
            if rng.random() < .8: k = task(i); mycur.append("add %d" % k); up[i] = k
        for _ in range(ops):
            x = rng.random()
            if x < .35: mycur.append("sleep %d" % rng.choice([0, 50, 300, 1000, 5000, 30000, 120000]))
            elif x < .65 and up:
                i = rng.choice(sorted(up)); mycur.append("rm %d" % i); del up[i]
            elif x < .85 and mine:
                i = rng.choice(mine); k = task(i); mycur.append("add %d" % k)
                if i not in up: up[i] = k
            elif x < .9: mycur.append("rm %d" % rng.choice([50 + c]))
            elif up: i = rng.choice(sorted(up)); mycur.append("add %d" % up[i])
        if c == 0 and focus == "stop" or rng.random() < .1 and c == 0: mycur.insert(rng.randint(max(0, len(mycur) - 3), len(mycur)), "stop")
        ctl += [(c, x) for x in mycur]
    return s + ["ctl %d %s" % x for x in ctl]
def cls(kind, k, what, detail):
    """Which of C01..C03 does a failure concern?"""
    if kind == "crash":
        if "USE-AFTER-FREE" in what or "DOUBLE-FREE" in what: return {"C03"} if '"RmCall"' in detail or '"Stop' in detail else {"C01", "C02", "C03"}
        if "DEADLOCK" in what or "STUCK" in what or "LIVELOCK" in what: return {"C02", "C03"}
        return {"C01", "C02", "C03"}
    ls = [J.loads(x) for x in detail.split("\n...\n")[0].splitlines() if x.startswith("{")]
    e = ls[-1]
    if e["op"] in ("RmRet", "StopRet", "Look"): return {"C03"}
    if e["op"] == "Idle":
        return {"C02", "C03"} if any(x["op"] in ("RmCall", "StopCall") for x in ls) else {"C02"}
    if e["op"] == "Start" and any(x["op"] in ("RmRet", "StopRet") for x in ls): return {"C01", "C03"}
    return {"C01"}
def run_pool(chk, focus):
    model_check(chk, "Pool", "PoolImpl", "PoolImpl.cfg")
    if chk.thorough(): model_check(chk, "Pool", "PoolImpl", "PoolImplBig.cfg")
    x = exe(); spec = VERIF + "/specs/Pool/TracePool.tla"
    n = 1600 if not chk.thorough() else 20000
    sc = [scenario(chk.rng, focus) for _ in range(n)]
    drive_validate(chk, x, spec, batch(sc, 100), label="pool", relevant=lambda *b: chk.id in cls(*b), timeout=300)

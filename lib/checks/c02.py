from checks.pool import *
def run(chk):
    run_pool(chk, "run")

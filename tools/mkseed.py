"""Helper to write a seeded bug: patch.diff, demo.sh, demo.cpp, meta.json."""
import os, subprocess, json, tempfile, shutil
V = "/verif/seeded/"
FILT = "Filter.cpp Runnable.cpp Event.cpp IOInterface.cpp AVFramedQueue.cpp VideoFrame.cpp AudioFrame.cpp Frame.cpp Utils.cpp Jzon.cpp".split()
STUB = """// The filters ask the pipeline manager to deliver events; it is not part of this program.
#include "PipelineManager.hh"
PipelineManager* PipelineManager::pipeMngrInstance = NULL;
PipelineManager* PipelineManager::getInstance(const unsigned) { return NULL; }
bool PipelineManager::processFilterEvent(Event, int) { return false; }
"""
LIB = "-lavcodec -lavformat -lavutil -lswresample -lswscale -llog4cplus -ltinyxml2 -lopencv_core -lopencv_imgproc -lopencv_highgui -lx264 -lx265"
def seed(sid, prop, edits, demo, srcs=FILT, needs="", breaks="", stub=True, flags="", files={}, tmo=100):
    d = V + sid; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed-"); subprocess.run(["git", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"], cwd="/repo", check=True)
    try:
        for f, a, b in edits:
            p = w + "/r/" + f; s = open(p).read(); assert s.count(a) == 1, (sid, f, s.count(a)); open(p, "w").write(s.replace(a, b))
            k = s[:s.index(a)].count("\n") + 1
            old = [l for l in a.splitlines() if l not in b.splitlines()] or a.splitlines()[:1]
            bl = subprocess.run(["git", "blame", "-s", "-L", "%d,%d" % (k, k + a.rstrip("\n").count("\n")), "HEAD", "--", f], cwd="/repo", capture_output=True, text=True).stdout
            if not any(l.startswith("^") for l in bl.splitlines()): print(sid, "WARNING not original lines:", bl)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=w + "/r", capture_output=True, text=True).stdout)
    finally:
        subprocess.run(["git", "worktree", "remove", "--force", w + "/r"], cwd="/repo"); shutil.rmtree(w)
    open(d + "/demo.cpp", "w").write(demo)
    if stub: open(d + "/stub.cpp", "w").write(STUB)
    for n, t in files.items(): open(d + "/" + n, "w").write(t)
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# Exits 0 when the property holds in what this program tries, not 0 when it does not.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
root=$PWD
cd src || exit 3
inc="-I . -I $here -isystem /opt/vp/cmake/include -isystem /usr/include/opencv4"
pids=()
for f in %s; do
  case $f in *.c) cc="gcc";; *) cc="g++ -std=c++14";; esac
  $cc -g -O1 -w -D__STDC_CONSTANT_MACROS %s $inc -c "${f/@/$here}" -o "$d/$(basename $f).o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p || exit 3; done
g++ %s "$d"/*.o -o "$d/demo" %s -lpthread || exit 3
cd "$d" && timeout %d ./demo
""" % (" ".join(srcs + ["@/demo.cpp"] + (["@/stub.cpp"] if stub else []) + ["@/" + n for n in files if n.endswith(".cpp")]), flags, flags, LIB, tmo))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)

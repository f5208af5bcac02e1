#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "TLC model of the pool algorithm; schedules of the real pool explored under a controlled scheduler and validated against the TLA+ interface spec",
 "C02": "TLC model of the pool algorithm incl. liveness; virtual-time schedules of the real pool validated against the TLA+ interface spec",
 "C03": "TLC model of removal and stop; controlled schedules of the real pool with destroyed-object detection validated against the TLA+ spec",
 "C06": "TLC state graph of a shared reader replayed into the real one; controlled schedules of threads sharing it validated against the TLA+ specs",
 "C07": "TLC state graph of the filter model (connect, share, refuse, disconnect, delete) replayed into real filters; random scripts validated against it",
 "C08": "TLC state graph of the filter model and random flows replayed into real filters, every processing and output validated by TLC",
 "C09": "TLC model of the frame-time window replayed into real filters; random timelines validated by TLC",
 "C10": "TLC model of synchronised sinks replayed into real filters; random timelines validated by TLC",
 "C11": "TLC model of queued events replayed into real filters; random event schedules validated by TLC",
 "C13": "TLC model of the sample stream; its state graph and random streams replayed into the real buffer, also with producer and consumer under a controlled scheduler; every frame taken validated by TLC",
 "C14": "TLC model of the mix in fixed point; its state graph and random scenes replayed into the real mixer; every output frame, gain and time validated by TLC",
 "C12": "TLC state graphs of pipeline commands replayed through a socket into the real controller, manager and pool with mock modules under a controlled scheduler; validated by TLC",
 "C23": "TLA+ model of requests; generated, random and malformed requests sent to the real controller, replies and graph validated by TLC",
 "C05": "TLC model of the sliced queue, its state graph replayed into the real queue; random runs validated against the TLA+ spec",
 "C20": "TLA+ specification of the composed picture (ranges per byte); TLC state graph of channel commands and random scenes replayed into the real mixer, every output byte judged by TLC",
 "C22": "TLA+ specification of the encoder with arbitrary delay and reordering (model-checked); TLC state graphs and random histories replayed into the real x264/x265 filters between real queues, output decoded with libavcodec and judged by TLC",
 "C21": "TLA+ specification of the crops; TLC state graph and random scenes replayed into the real splitter, every output byte judged by TLC",
    "C19": "TLA+ specification of the region protocol and picture grouping (model-checked at the grain of single reads and writes); every access of the real filter to the region single-stepped, the reader interposed between accesses, log validated by TLC",
 "C15": "TLA+ specification of the dasher; TLC state graphs and random streams replayed into the real filter, every segment parsed as ISO BMFF and validated by TLC",
 "C16": "TLA+ specification of the dasher; TLC state graphs and random streams with and without video replayed into the real filter, every audio segment parsed and validated by TLC",
 "C17": "TLA+ specification of the manifest window; TLC state graphs and random histories replayed into the real filter, manifest and folder compared by TLC after every step",
 "C18": "TLA+ specification of the grouping of NAL units; TLC state graphs for AVC and HEVC and random unit sequences replayed into the real segmenters, every frame and header validated by TLC",
 "C26": "TLC model of the device calls, any of which may fail; TLC state graph of configurations, failures and pictures and random lives of the real capture over simulated cameras, every operation, output and resource validated by TLC",
 "C25": "TLA+ specification of the resampler; TLC state graph of configurations and random scenes in all pixel formats replayed into the real filter, every output picture judged by TLC",
 "C24": "TLC model of the pipeline (runs, wake-ups, shared readers, changes; safety and liveness); the real manager, pool, filters and queues run under a controlled scheduler in virtual time while the graph changes, every read, write, loss and stall judged by TLC",
 "C04": "TLC state graph of the queue replayed into the real queues (all transitions), random runs and controlled schedules of a producer and a consumer validated against the TLA+ specs",
}
N = "The model is checked exhaustively within the bounds of its .cfg; the implementation on the generated scripts and schedules of each run (seeded), every observed event being checked by TLC."
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/lib/checks/%s.py" % (V, i.lower())):
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i, "technique": T.get(i, "TLA+ specification checked with TLC; executions of the real code validated against it"),
                       "level": "model_checking", "level_note": N})
    else: na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

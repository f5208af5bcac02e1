------------------------------ MODULE Encoder ------------------------------
\* A video encoder: pictures in, coded pictures out with the identity of those they encode, possibly later and in another order.
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES codec,   \* "avc" or "hevc"
          cfg,     \* configuration
          ft,      \* period of the filter
          evs,     \* events not executed yet
          src,     \* pictures sent to the encoder: their contents, by number
          s        \* the encoder: see Fresh
evars == <<codec, cfg, ft, evs, src, s>>
Default == [bitrate |-> 2000, fps |-> 25, gop |-> 25, gopTime |-> 0, lookahead |-> 25, threads |-> 4, bframes |-> 4, annexb |-> TRUE, preset |-> "ultrafast"]
Never == 0 - 999999999
\* ref: time of the next forced group (-1: that of the next picture); force: the next picture is intra; dirty: to be configured
\* n: pictures encoded; pend: those not out yet; out: numbers of those out; last: position of the last intra picture (-1: not known)
\* first: position of the first picture since the encoder was (re)configured; dts: last decode time since
Fresh == [ref |-> 0 - 1, force |-> FALSE, dirty |-> TRUE, size |-> <<0, 0, 0>>, n |-> 0, pend |-> [x \in {} |-> 0], out |-> {}, last |-> 0 - 1, first |-> 0, dts |-> Never]
EInit == codec = "avc" /\ cfg = Default /\ ft = 40000 /\ evs = <<>> /\ src = <<>> /\ s = Fresh
\* ---- configuration
Valid(c) == c.bitrate > 0 /\ c.gop > 0 /\ c.lookahead >= 0 /\ c.threads > 0 /\ c.preset # ""
Normal(c) == [c EXCEPT !.fps = IF c.fps <= 0 THEN 25 ELSE c.fps, !.gopTime = IF c.gopTime <= 0 THEN 0 ELSE IF c.gopTime < 1000000 THEN 1000000 ELSE c.gopTime]
Merge(c, d) == [k \in DOMAIN c |-> IF k \in DOMAIN d THEN d[k] ELSE c[k]]
Period(c) == IF c.fps <= 0 THEN 0 ELSE 1000000 \div c.fps
\* executing an event: [c, ft, s]
Exec(x, e) ==
  CASE e.k = "conf" -> LET d == Merge(x.c, e.v) IN IF Valid(d) THEN [c |-> Normal(d), ft |-> Period(d), s |-> [x.s EXCEPT !.dirty = TRUE]] ELSE x
    [] e.k = "force" -> [x EXCEPT !.s.force = TRUE]
    [] e.k = "ref" -> [x EXCEPT !.s.ref = e.v]
    [] OTHER -> x
Now == FoldLeft(LAMBDA x, e : Exec(x, e), [c |-> cfg, ft |-> ft, s |-> s], evs)
\* ---- a picture comes: number q, time ts
Formats == IF codec = "avc" THEN {0, 1, 2} ELSE {0, 2}
Due(c, z, ts) == c.gopTime > 0 /\ (z.ref = 0 - 1 \/ ts >= z.ref)
NextRef(c, z, ts) == IF ~Due(c, z, ts) THEN z.ref ELSE LET r == IF z.ref = 0 - 1 THEN ts ELSE z.ref IN r + c.gopTime * (((ts - r) \div c.gopTime) + 1)
Take(c, z, q, ts, w, h, f) ==
  IF f \notin Formats THEN [z EXCEPT !.size = <<0, 0, 0>>]  \* refused
  ELSE LET new == z.size # <<w, h, f>> open == z.dirty \/ new IN
    [z EXCEPT !.dirty = FALSE, !.size = <<w, h, f>>, !.force = FALSE, !.ref = NextRef(c, z, ts), !.n = z.n + 1,
              !.last = IF open THEN 0 - 1 ELSE z.last, !.first = IF open THEN z.n ELSE z.first, !.dts = IF open THEN Never ELSE z.dts,
              !.pend = [x \in DOMAIN z.pend \cup {q} |-> IF x # q THEN z.pend[x] ELSE [i |-> z.n, ts |-> ts, intra |-> new \/ z.force \/ Due(c, z, ts)]]]
\* ---- a coded picture leaves: o = [seq, ts, dts, idr, ps, ...]
Steady == {"ultrafast"} \* presets that never choose intra pictures by themselves
Leaves(c, z, o) ==
  /\ o.seq \in DOMAIN z.pend /\ o.seq + 1 <= Len(src)
  /\ LET p == z.pend[o.seq] IN
     /\ o.ts = p.ts /\ o.org /\ o.w = src[o.seq + 1].w /\ o.h = src[o.seq + 1].h
     /\ (p.intra => o.idr)
     /\ IF codec = "hevc" /\ c.gop = 1 THEN o.idr ELSE o.ps = (o.idr /\ c.annexb) \* x265 repeats the headers by itself when every picture is intra
     /\ (c.preset \in Steady /\ z.last >= 0 => o.idr = (p.intra \/ p.i = z.last + c.gop))
     /\ (z.last >= 0 => p.i <= z.last + c.gop \/ o.idr)
     /\ o.dts <= o.ts /\ o.dts >= z.dts
Gone(z, o) == LET p == z.pend[o.seq] IN [z EXCEPT !.pend = [x \in DOMAIN z.pend \ {o.seq} |-> z.pend[x]], !.out = @ \cup {o.seq}, !.last = IF o.idr THEN p.i ELSE @, !.dts = o.dts]
Delay(c) == c.lookahead + c.threads + 20
\* pictures given before the last configuration may be lost, the others are not
Bounded(c, z) == \A q \in DOMAIN z.pend : z.pend[q].i >= z.first => z.n - z.pend[q].i <= Delay(c)
=============================================================================

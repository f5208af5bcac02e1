------------------------------ MODULE Resampler ------------------------------
(* The video resampler: every picture that comes in goes out once, in the configured size and pixel format. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES conf, \* [w, h, f, ft]: width and height (0: those of the input), pixel format and frame time
          q,    \* pictures waiting [w, h, f, ts, s, c], c being the colours of the four quarters
          n,    \* pictures that came
          pend  \* reconfigurations sent as events
rvars == <<conf, q, n, pend>>
Formats == 0..6 \* RGB24, RGB32, YUV420P, YUV422P, YUV444P, YUYV422, YUVJ420P
Absent == 0 - 77777
Start == [w |-> 0, h |-> 0, f |-> 0, ft |-> 0]
RInit == conf = Start /\ q = <<>> /\ n = 0 /\ pend = <<>>
Half(x) == (x + 1) \div 2
Bytes(f, w, h) == CASE f = 0 -> 3 * w * h [] f = 1 -> 4 * w * h [] f \in {2, 6} -> w * h + 2 * Half(w) * Half(h) [] f = 3 -> w * h + 2 * Half(w) * h [] f = 4 -> 3 * w * h [] f = 5 -> 4 * Half(w) * h
FrameTime(fps) == IF fps <= 0 THEN 0 ELSE 1000000 \div fps
Valid(c) == c.w >= 0 /\ c.h >= 0 /\ c.f \in Formats
Given(c, e) == [w |-> IF e.w = Absent THEN c.w ELSE e.w, h |-> IF e.h = Absent THEN c.h ELSE e.h, f |-> IF e.f = Absent THEN c.f ELSE e.f, ft |-> IF e.fps = Absent THEN c.ft ELSE FrameTime(e.fps)]
Apply(c, e) == LET d == Given(c, e) IN IF Valid(d) THEN d ELSE c
RECURSIVE ApplyAll(_, _)
ApplyAll(c, es) == IF es = <<>> THEN c ELSE ApplyAll(Apply(c, Head(es)), Tail(es))
Now == ApplyAll(conf, pend)
Configure(e, ok) == ok = Valid(Given(conf, e)) /\ conf' = Apply(conf, e) /\ UNCHANGED <<q, n, pend>>
ConfigureLater(e) == pend' = Append(pend, e) /\ UNCHANGED <<conf, q, n>>
\* the queue of the source holds three pictures
NewPicture(p) == /\ q' = Append(IF Len(q) >= 3 THEN SubSeq(q, 1, Len(q) - 1) ELSE q, [w |-> p.w, h |-> p.h, f |-> p.f, ts |-> p.ts, s |-> n, c |-> p.c])
                 /\ n' = n + 1 /\ UNCHANGED <<conf, pend>>
OutW(c, p) == IF c.w = 0 THEN p.w ELSE c.w
OutH(c, p) == IF c.h = 0 THEN p.h ELSE c.h
Fits(c, p, cap) == p.f \in Formats /\ p.w > 0 /\ p.h > 0 /\ Bytes(c.f, OutW(c, p), OutH(c, p)) <= cap
\* what goes out for a picture p
Shows(o, c, p) == /\ o.w = OutW(c, p) /\ o.h = OutH(c, p) /\ o.f = c.f /\ o.len = Bytes(c.f, o.w, o.h)
                  /\ o.ts = p.ts /\ o.dts = p.ts /\ o.seq = p.s /\ o.c = p.c
                  /\ (o.w = p.w /\ o.h = p.h /\ o.f = p.f => o.same)
=============================================================================

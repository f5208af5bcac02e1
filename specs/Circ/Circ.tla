-------------------------------- MODULE Circ --------------------------------
(* Audio buffer between a producer and a consumer: a stream of samples on a time line. The producer adds frames with their times, the   *)
(* consumer takes frames of a fixed length. Gaps between input frames are silence. Times are [s, u], seconds and microseconds.          *)
EXTENDS Integers, Sequences
CONSTANTS Tol                    \* samples of difference that are tolerated
VARIABLES cfg,                   \* [rate, num, den: microseconds per sample as a fraction, out: samples per output frame, gap: samples of a gap that restarts the stream, cap: size, room: what may be in it]
          buf,                   \* buffered samples as runs [v, j, n]: n samples of input v from the j-th on (v = 0: silence)
          size,                  \* how many they are
          front,                 \* samples already taken since the start of the stream, [s, r]: seconds and samples
          sync,                  \* start time of the stream (Unset: it starts with the next frame)
          held,                  \* frame given to the consumer and not released yet
          lost,                  \* times the stream was restarted
  org                    \* newest input added (its origin time)
cvars == <<cfg, buf, size, front, sync, held, lost, org>>
Unset == [s |-> 0 - 1, u |-> 0]
NoFrame == [ts |-> Unset, runs |-> <<>>, org |-> Unset]
CInit(c) == cfg = c /\ buf = <<>> /\ size = 0 /\ front = [s |-> 0, r |-> 0] /\ sync = Unset /\ held = NoFrame /\ lost = 0 /\ org = 0
\* ------------------------------------------------------------------ time
Norm(s, u) == IF u >= 1000000 THEN [s |-> s + 1, u |-> u - 1000000] ELSE IF u < 0 THEN [s |-> s - 1, u |-> u + 1000000] ELSE [s |-> s, u |-> u]
Later(t, p) == Norm(t.s + p.s, t.u + ((p.r * cfg.num) \div cfg.den))          \* t plus the duration of position p
Ahead(p, n) == [s |-> p.s + ((p.r + n) \div cfg.rate), r |-> (p.r + n) % cfg.rate]
Diff(a, b) == Norm(a.s - b.s, a.u - b.u)                                       \* s < 0: a is before b
TolTime == (Tol * cfg.num) \div cfg.den
TooEarly(d) == d.s < 0 - 1 \/ (d.s = 0 - 1 /\ d.u - 1000000 < 0 - TolTime)
Late(d) == d.s > 0 \/ (d.s = 0 /\ d.u > TolTime)
Missing(d) == (d.s * cfg.rate) + ((d.u * cfg.den) \div cfg.num)              \* samples
\* ------------------------------------------------------------------ runs
Put(b, v, j, n) == IF n = 0 THEN b ELSE IF b # <<>> /\ b[Len(b)].v = v /\ (v = 0 \/ b[Len(b)].j + b[Len(b)].n = j) THEN [b EXCEPT ![Len(b)].n = @ + n] ELSE Append(b, [v |-> v, j |-> (IF v = 0 THEN 0 ELSE j), n |-> n])
RECURSIVE First(_, _), Rest(_, _)
First(b, n) == IF n = 0 THEN <<>> ELSE IF Head(b).n >= n THEN <<[Head(b) EXCEPT !.n = n]>> ELSE <<Head(b)>> \o First(Tail(b), n - Head(b).n)
Rest(b, n) == IF n = 0 THEN b ELSE IF Head(b).n > n THEN <<[v |-> Head(b).v, j |-> (IF Head(b).v = 0 THEN 0 ELSE Head(b).j + n), n |-> Head(b).n - n]>> \o Tail(b) ELSE Rest(Tail(b), n - Head(b).n)
\* ------------------------------------------------------------------ operations
\* what adding frame v of n samples with time ts makes of the stream
Added(st, v, n, ts) ==
  LET sy == IF st.sync = Unset THEN ts ELSE st.sync
      d == Diff(ts, Later(sy, Ahead(st.front, st.size)))
      pad == IF Late(d) THEN (IF d.s >= 1000 THEN cfg.gap ELSE Missing(d)) ELSE 0 IN
  IF TooEarly(d) THEN [st EXCEPT !.sync = sy]
  ELSE IF pad >= cfg.gap /\ pad > 0 THEN [buf |-> <<>>, size |-> 0, front |-> [s |-> 0, r |-> 0], sync |-> Unset, lost |-> st.lost + 1, org |-> st.org]
  ELSE IF pad > cfg.room - st.size THEN [st EXCEPT !.sync = sy]
  ELSE IF pad + n > cfg.room - st.size THEN [st EXCEPT !.sync = sy, !.buf = Put(@, 0, 0, pad), !.size = @ + pad]
  ELSE [st EXCEPT !.sync = sy, !.buf = Put(Put(@, 0, 0, pad), v, 0, n), !.size = @ + pad + n, !.org = v]
Stream == [buf |-> buf, size |-> size, front |-> front, sync |-> sync, lost |-> lost, org |-> org]
Becomes(st) == buf' = st.buf /\ size' = st.size /\ front' = st.front /\ sync' = st.sync /\ lost' = st.lost /\ org' = st.org
Taken(st) == [st EXCEPT !.buf = Rest(@, cfg.out), !.size = @ - cfg.out, !.front = Ahead(@, cfg.out)]
\* its origin time is that of the newest input less the duration of what stays buffered
Origin(st) == LET n == st.size - cfg.out d == Later([s |-> 0, u |-> 0], [s |-> n \div cfg.rate, r |-> n % cfg.rate]) IN Diff([s |-> st.org, u |-> 0], d)
Frame(st) == [ts |-> Later(st.sync, st.front), runs |-> First(st.buf, cfg.out), org |-> Origin(st)]
Add(v, n, ts) == Becomes(Added(Stream, v, n, ts)) /\ UNCHANGED <<cfg, held>>
\* the consumer asks for a frame; f = NoFrame: there is none
Get(f) == IF held # NoFrame THEN f = held /\ UNCHANGED cvars
          ELSE IF size < cfg.out THEN f = NoFrame /\ UNCHANGED cvars
          ELSE f = Frame(Stream) /\ held' = f /\ Becomes(Taken(Stream)) /\ UNCHANGED cfg
Release == held' = NoFrame /\ UNCHANGED <<cfg, buf, size, front, sync, lost, org>>
Configure(n) == held = NoFrame /\ cfg' = [cfg EXCEPT !.out = n] /\ UNCHANGED <<buf, size, front, sync, held, lost, org>>
\* many frames, each taken as soon as it is there: n frames of cfg.out samples
BulkEnd(k, n) == LET secs == (k \div cfg.rate) * n                                 \* k frames of n samples, k a multiple of the rate
                 IN [s |-> front.s + secs, r |-> front.r]
Bulk(k, n, ok) == ok /\ held = NoFrame /\ size = 0 /\ n = cfg.out /\ k % cfg.rate = 0 /\ front' = BulkEnd(k, n) /\ UNCHANGED <<cfg, buf, size, sync, held, lost, org>>
=============================================================================

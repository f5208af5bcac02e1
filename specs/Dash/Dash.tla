-------------------------------- MODULE Dash --------------------------------
(* The dasher: coded units of several readers become pictures, pictures and audio frames become segments,     *)
(* finished segments become files and the manifest lists the latest ones. Times are in microseconds, relative *)
(* to the base of the session; those in the files are relative to its start, in the units of the media.       *)
(* Every step is an operator on the whole state, a record.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS MinWin, VideoRate, QMax     \* fewest segments listed, time units of video per second, frames a queue holds
None == 0 - 1
Empty == [x \in {} |-> 0]
VideoKinds == {"avc", "hevc"}
IsVideo(r) == r.kind \in VideoKinds
Sets(kind) == IF kind = "avc" THEN <<7, 8>> ELSE <<32, 33, 34>>                       \* parameter sets, in the order of the header
Slices(kind) == IF kind = "avc" THEN {1, 5} ELSE {0, 1, 19, 20, 21}
Intra(kind) == IF kind = "avc" THEN {5} ELSE {19, 20, 21}
Delimiter(kind) == IF kind = "avc" THEN 9 ELSE 35
Known(kind) == Slices(kind) \cup ToSet(Sets(kind)) \cup {Delimiter(kind)} \cup (IF kind = "avc" THEN {6} ELSE {39, 40})
\* when a coded unit must be decoded
Fts(f) == IF f.dts = None \/ f.dts > f.ts THEN f.ts ELSE f.dts
\* microseconds in units of 1/rate seconds, rounded down
Units(us, rate) == LET a == (us % 1000000) \div 1000 b == us % 1000 x == a * rate y == b * rate IN
                   (us \div 1000000) * rate + (x \div 1000) + ((((x % 1000) * 1000) + y) \div 1000000)
TB(st, us, rate) == Units(us - st.off, rate)
----------------------------------------------------------------------------
NewReader(kind) == [kind |-> kind, q |-> <<>>, cur |-> <<>>, cp |-> 0, cd |-> 0, cw |-> 0, cht |-> 0, cin |-> FALSE, ps |-> [t \in ToSet(Sets(kind)) |-> 0], ext |-> <<>>,
                    seg |-> <<>>, done |-> <<>>, n |-> 0, bw |-> 0, w |-> 0, h |-> 0, rate |-> 0, ch |-> 0]
NewState(dur, max, far) == [dur |-> dur, max |-> IF max < MinWin THEN MinWin ELSE max, off |-> IF far THEN 0 ELSE None, rd |-> Empty,
                            sets |-> Empty, disk |-> {}, inits |-> Empty, has |-> far, mpd |-> Empty, evs |-> <<>>]
Live(st) == DOMAIN st.rd
Of(st, k) == {i \in Live(st) : IsVideo(st.rd[i]) = (k = "v")}
Put(f, i, v) == [x \in DOMAIN f \cup {i} |-> IF x = i THEN v ELSE f[x]]
Without(f, i) == [x \in DOMAIN f \ {i} |-> f[x]]
SetR(st, i, r) == [st EXCEPT !.rd = Put(@, i, r)]
Accepts(kind) == kind \in VideoKinds \cup {"aac"}
\* the manifest, as written: for each kind of media, the segments listed and the representations
Snap(st) == [st EXCEPT !.has = TRUE, !.mpd = st.sets]
Disconnect(st, i) == LET k == IF IsVideo(st.rd[i]) THEN "v" ELSE "a"
                         s == IF k \in DOMAIN st.sets THEN Put(st.sets, k, [st.sets[k] EXCEPT !.reps = Without(@, i)]) ELSE st.sets IN
                     Snap([st EXCEPT !.rd = Without(@, i), !.sets = s])
Arrive(st, i, f) == IF Len(st.rd[i].q) < QMax THEN SetR(st, i, [st.rd[i] EXCEPT !.q = Append(@, f)]) ELSE st
Later(st, e) == [st EXCEPT !.evs = Append(@, e)]
Apply(st, e) == IF e.k = "conf" THEN [st EXCEPT !.max = IF e.v < MinWin THEN MinWin ELSE e.v]
                ELSE IF e.r \in Live(st) THEN SetR(st, e.r, [st.rd[e.r] EXCEPT !.bw = e.v]) ELSE st
Applied(st) == [FoldLeft(Apply, st, st.evs) EXCEPT !.evs = <<>>]
\* what has been asked takes effect before a new reader exists
Connect(st, i, kind) == SetR(Applied(st), i, NewReader(kind))
(* ---- segments ---- *)
Rep(r) == IF IsVideo(r) THEN [codec |-> r.kind, bw |-> r.bw, w |-> r.w, h |-> r.h] ELSE [codec |-> r.kind, bw |-> r.bw, rate |-> r.rate, ch |-> r.ch]
\* a finished segment of reader i; its representation is brought up to date
Finish(st, i, s) == LET r == st.rd[i] k == IF IsVideo(r) THEN "v" ELSE "a" tb == s.tb
                        old == IF k \in DOMAIN st.sets THEN st.sets[k] ELSE [list |-> <<>>, reps |-> Empty] IN
  [SetR(st, i, [r EXCEPT !.done = <<s>>, !.seg = <<>>, !.n = @ + 1]) EXCEPT !.sets = Put(@, k, [list |-> old.list, tb |-> tb, reps |-> Put(old.reps, i, Rep(r))])]
\* samples are [p, d, n, u, key]: presentation and decode time, duration (of audio), contents, intra
VSegment(st, r, end) == LET g == r.seg T(us) == TB(st, us, VideoRate) IN
  [tb |-> VideoRate, t |-> T(g[1].p), dts |-> T(g[1].d), dur |-> T(end) - T(g[1].d), seq |-> r.n,
   smp |-> [k \in 1..Len(g) |-> <<T(IF k < Len(g) THEN g[k + 1].d ELSE end) - T(g[k].d), g[k].u, IF g[k].key THEN 1 ELSE 0, T(g[k].p) - T(g[k].d)>>]]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Total(g) == Sum([k \in 1..Len(g) |-> g[k].n])
ASegment(st, r) == LET g == r.seg t == TB(st, g[1].p, r.rate) IN
  [tb |-> r.rate, t |-> t, dts |-> t, dur |-> Total(g), seq |-> r.n, smp |-> [k \in 1..Len(g) |-> <<g[k].n, g[k].u, 1, 0>>]]
\* a picture ends the segment before it when it is intra and the segment, counting the last picture twice, is long enough
Ends(st, r, p) == LET g == r.seg T(us) == TB(st, us, VideoRate) last == T(p.d) - T(Last(g).d) IN
  g # <<>> /\ p.key /\ T(Last(g).d) - T(g[1].d) + 2 * last >= st.dur * VideoRate
Join(r, p) == IF r.seg = <<>> /\ ~p.key THEN r ELSE [r EXCEPT !.seg = Append(@, p)]
(* ---- video ---- *)
\* the header of a reader is written when a picture is handed over and new parameter sets are complete
Init(st, i, v) == [st EXCEPT !.inits = Put(@, i, v)]
Picture(st, i, p, w, h) ==
  LET r1 == [st.rd[i] EXCEPT !.w = w, !.h = h, !.ext = <<>>]
      s1 == IF st.rd[i].ext = <<>> THEN SetR(st, i, r1) ELSE Init(SetR(st, i, r1), i, [tb |-> VideoRate, w |-> w, h |-> h, ps |-> st.rd[i].ext])
      s2 == IF Ends(s1, r1, p) THEN Finish(s1, i, VSegment(s1, r1, p.d)) ELSE s1 IN
  IF p.d < st.off THEN s1 ELSE SetR(s2, i, Join(s2.rd[i], p))
Unit(st, i, f) ==
  LET r == st.rd[i] k == r.kind slice == f.ty \in Slices(k) IN
  IF f.len = 0 \/ f.ty \notin Known(k) THEN st ELSE
  LET over == r.cur # <<>> /\ (f.ty = Delimiter(k) \/ Fts(f) > r.cd)
      p == [p |-> r.cp, d |-> r.cd, n |-> 0, u |-> r.cur, key |-> r.cin]
      r1 == IF over THEN [r EXCEPT !.cur = <<>>] ELSE r
      r2 == IF slice THEN [r1 EXCEPT !.cur = Append(@, f.c), !.cp = f.ts, !.cd = Fts(f), !.cw = f.w, !.cht = f.h, !.cin = f.ty \in Intra(k)] ELSE r1
      r3 == IF f.ty \in DOMAIN r.ps THEN [r2 EXCEPT !.ps[f.ty] = f.c] ELSE r2
      full == \A t \in DOMAIN r3.ps : r3.ps[t] # 0
      r4 == IF full THEN [r3 EXCEPT !.ext = [x \in 1..Len(Sets(k)) |-> r3.ps[Sets(k)[x]]], !.ps = [t \in DOMAIN @ |-> 0]] ELSE r3
      s4 == SetR(st, i, r4) IN
  IF over THEN Picture(s4, i, p, r.cw, r.cht) ELSE s4
(* ---- audio ---- *)
Sound(st, i, f) ==
  LET r == [st.rd[i] EXCEPT !.rate = f.rate, !.ch = f.ch]
      p == [p |-> f.ts, d |-> f.ts, n |-> f.n, u |-> <<f.c>>, key |-> TRUE]
      s0 == SetR(st, i, r) s1 == Init(s0, i, [tb |-> f.rate, ch |-> f.ch, rate |-> f.rate, cfg |-> f.cfg])
      s2 == IF Of(st, "v") = {} /\ r.seg # <<>> /\ Total(r.seg) >= st.dur * f.rate THEN Finish(s1, i, ASegment(s1, r)) ELSE s1 IN
  IF ~f.good THEN s0
  ELSE IF f.ts < st.off THEN s1
  ELSE IF f.len = 7 THEN s2 ELSE SetR(s2, i, [s2.rd[i] EXCEPT !.seg = Append(@, p)])
(* ---- rounds ---- *)
Frame(st, i) == LET r == st.rd[i] IN
  IF r.q = <<>> THEN st ELSE
  LET f == Head(r.q) s1 == [SetR(st, i, [r EXCEPT !.q = Tail(@)]) EXCEPT !.off = IF @ = None THEN Fts(f) ELSE @] IN
  IF IsVideo(r) THEN Unit(s1, i, f) ELSE Sound(s1, i, f)
Up(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Force(_, _)
Force(st, ids) == IF ids = <<>> THEN st ELSE LET i == Head(ids) IN Force(IF st.rd[i].seg = <<>> THEN st ELSE Finish(st, i, ASegment(st, st.rd[i])), Tail(ids))
\* the finished segments, unless another representation is still making a segment of the same period
Done(st, k) == {i \in Of(st, k) : st.rd[i].done # <<>>}
End(s) == s.t + s.dur
Ready(st, k) == LET D == Done(st, k) IN
  D # {} /\ \A i \in Of(st, k) \ D : st.rd[i].seg = <<>> \/ \A j \in D : TB(st, st.rd[i].seg[1].p, st.rd[j].done[1].tb) >= End(st.rd[j].done[1])
\* all the finished segments of a kind of media become files and enter the manifest; what leaves it is deleted
Write(st, k) == LET ids == Done(st, k) first == st.rd[Least(ids)].done[1] old == st.sets[k].list
                    n == IF Len(old) < st.max THEN 0 ELSE Len(old) - st.max + 1
                    new == Append(SubSeq(old, n + 1, Len(old)), <<first.t, first.dur>>)
                    gone == {[k |-> k, r |-> i, t |-> old[x][1]] : i \in Of(st, k), x \in 1..n}
                    s1 == Snap([st EXCEPT !.sets = Put(@, k, [@[k] EXCEPT !.list = new])]) IN
  [s1 EXCEPT !.disk = {f \in @ : [k |-> f.k, r |-> f.r, t |-> f.t] \notin gone} \cup {[k |-> k, r |-> i, t |-> first.t, s |-> st.rd[i].done[1]] : i \in ids},
             !.rd = [i \in DOMAIN @ |-> IF i \in ids THEN [@[i] EXCEPT !.done = <<>>] ELSE @[i]]]
Round(st0) ==
  LET st == Applied(st0) IN
  IF \A i \in Live(st) : st.rd[i].q = <<>> THEN st ELSE
  LET s1 == FoldLeft(Frame, st, Up(Live(st)))
      s2 == IF Ready(s1, "v") THEN Write(Force(s1, Up(Of(s1, "a"))), "v") ELSE s1 IN
  IF Ready(s2, "a") THEN Write(s2, "a") ELSE s2
=============================================================================

----------------------------- MODULE TraceDash -----------------------------
EXTENDS Dash, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
T == Trace[l]
Is(o) == l <= Len(Trace) /\ T.op = o /\ l' = l + 1
Codec(k) == IF k = "avc" THEN "avc1" ELSE IF k = "hevc" THEN "hev1" ELSE "mp4a"
File(f) == [k |-> f.k, r |-> f.r, t |-> f.t, tb |-> f.s.tb, ept |-> f.s.t, dts |-> f.s.dts, dur |-> f.s.dur, seq |-> f.s.seq, smp |-> f.s.smp]
InitOf(k, i, x) == IF k = "v" THEN [k |-> k, r |-> i, tb |-> x.tb, w |-> x.w, h |-> x.h, ps |-> x.ps] ELSE [k |-> k, r |-> i, tb |-> x.tb, ch |-> x.ch, rate |-> x.rate, cfg |-> x.cfg]
Kind(x) == IF "w" \in DOMAIN x THEN "v" ELSE "a"
RepOf(i, p) == IF "w" \in DOMAIN p THEN [id |-> i, codec |-> Codec(p.codec), bw |-> p.bw, w |-> p.w, h |-> p.h] ELSE [id |-> i, codec |-> Codec(p.codec), bw |-> p.bw, rate |-> p.rate, ch |-> p.ch]
SetOf(k, x) == [set |-> k, tb |-> x.tb, list |-> x.list, reps |-> [n \in 1..Cardinality(DOMAIN x.reps) |-> RepOf(Up(DOMAIN x.reps)[n], x.reps[Up(DOMAIN x.reps)[n]])]]
\* what the folder holds and what changed in it
Names(d) == {[k |-> f.k, r |-> f.r, t |-> f.t] : f \in d}
Obs(a, b) == /\ T.wf = ""
             /\ ToSet(T.files) = {File(f) : f \in b.disk \ a.disk}
             /\ ToSet(T.dels) = Names(a.disk) \ Names(b.disk)
             /\ ToSet(T.inits) = {InitOf(Kind(b.inits[i]), i, b.inits[i]) : i \in {j \in DOMAIN b.inits : j \notin DOMAIN a.inits \/ a.inits[j] # b.inits[j]}}
             /\ T.has = b.has /\ (b.has => ToSet(T.mpd) = {SetOf(k, b.mpd[k]) : k \in DOMAIN b.mpd} /\ Len(T.mpd) = Cardinality(DOMAIN b.mpd))
To(b) == s' = b /\ Obs(s, b)
TInit == l = 1 /\ s = NewState(1, 2, FALSE)
TNext ==
  \/ Is("reset") /\ T.ok /\ s' = NewState(T.dur, T.max, T.far) /\ Obs(s', s')
  \/ Is("conn") /\ T.ok = (T.r \notin Live(s) /\ Accepts(T.k)) /\ To(IF T.ok THEN Connect(s, T.r, T.k) ELSE Applied(s))
  \/ Is("disc") /\ (T.r \in Live(s) => T.ok) /\ To(IF T.r \in Live(s) THEN Disconnect(s, T.r) ELSE s)
  \/ Is("bitrate") /\ s' = Later(s, [k |-> "bitrate", r |-> T.r, v |-> T.v])
  \/ Is("conf") /\ s' = Later(s, [k |-> "conf", v |-> T.v])
  \/ Is("nal") /\ s' = Arrive(s, T.r, [ty |-> T.ty, len |-> T.len, c |-> T.c, ts |-> T.ts, dts |-> T.dts, w |-> T.w, h |-> T.h])
  \/ Is("aac") /\ s' = Arrive(s, T.r, [len |-> T.len, c |-> T.c, n |-> T.n, ts |-> T.ts, dts |-> None, rate |-> T.rate, ch |-> T.ch, good |-> T.good, cfg |-> T.cfg])
  \/ Is("proc") /\ To(Round(s))
TSpec == TInit /\ [][TNext]_<<l, s>>
AcceptedTrace == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

---------------------------- MODULE TraceEncoder ----------------------------
EXTENDS Encoder, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
TInit == l = 1 /\ EInit
Is(o) == l <= Len(Trace) /\ T.op = o /\ l' = l + 1
Given == [k \in (DOMAIN T \cap DOMAIN Default) |-> IF k = "annexb" THEN T[k] # 0 ELSE T[k]]
Queue(e) == evs' = Append(evs, e) /\ UNCHANGED <<codec, cfg, ft, src, s>>
Proc ==
  LET x == Now
      \* the picture taken, if any, is one that was sent, and later than those before
      z0 == IF T.in = <<>> THEN x.s ELSE LET i == T.in[1] IN Take(x.c, x.s, i[1], i[2], i[3], i[4], i[5])
      zs == [k \in 0..Len(T.out) |-> FoldLeft(LAMBDA z, o : Gone(z, o), z0, SubSeq(T.out, 1, k))] IN
  /\ T.wf /\ Len(T.in) <= 1
  /\ (T.in # <<>> => LET i == T.in[1] IN i[1] + 1 <= Len(src) /\ LET p == src[i[1] + 1] IN i[2] = p.ts /\ i[3] = p.w /\ i[4] = p.h /\ i[5] = p.fmt /\ i[1] \notin DOMAIN x.s.pend /\ i[1] \notin x.s.out)
  /\ Len(T.out) <= 1
  /\ \A k \in 1..Len(T.out) : Leaves(x.c, zs[k - 1], T.out[k])
  /\ s' = zs[Len(T.out)] /\ Bounded(x.c, s')
  /\ cfg' = x.c /\ ft' = x.ft /\ evs' = <<>> /\ UNCHANGED <<codec, src>>
  /\ \A k \in DOMAIN Default : T[k] = cfg'[k]
  /\ T.ft = ft' /\ T.ref = s'.ref
TNext ==
  \/ Is("reset") /\ codec' = T.codec /\ cfg' = Default /\ ft' = 40000 /\ evs' = <<>> /\ src' = <<>> /\ s' = Fresh
  \/ Is("conf") /\ Queue([k |-> "conf", v |-> Given])
  \/ Is("force") /\ Queue([k |-> "force"])
  \/ Is("ref") /\ Queue([k |-> "ref", v |-> T.t])
  \/ Is("badref") /\ Queue([k |-> "none"])
  \/ Is("pic") /\ src' = Append(src, [n |-> T.n, ts |-> T.ts, w |-> T.w, h |-> T.h, fmt |-> T.fmt]) /\ UNCHANGED <<codec, cfg, ft, evs, s>>
  \/ Is("proc") /\ Proc
  \/ Is("end") /\ UNCHANGED evars /\ T.sent = Cardinality(s.out) /\ {T.pics[k][1] : k \in 1..Len(T.pics)} = s.out
     /\ \A k \in 1..Len(T.pics) : LET d == T.pics[k] p == src[d[1] + 1] IN d[2] = p.n /\ d[3] = p.w /\ d[4] = p.h /\ d[5] = p.fmt
TSpec == TInit /\ [][TNext]_<<evars, l>>
AcceptedTrace == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

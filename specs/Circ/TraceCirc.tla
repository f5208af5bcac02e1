------------------------------ MODULE TraceCirc ------------------------------
EXTENDS Circ, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pend, nullok, old     \* concurrent producer: frame being added; the consumer may find nothing; streams restarted while the consumer asks for a frame
T == Trace[l]
tvars == <<l, pend, nullok, old>>
TInit == l = 1 /\ pend = <<>> /\ nullok = TRUE /\ old = <<>> /\ CInit([rate |-> 1, num |-> 1, den |-> 1, out |-> 1, gap |-> 1, cap |-> 0, room |-> 0])
Is(o) == l <= Len(Trace) /\ T.op = o /\ l' = l + 1
\* samples available as frames, room left, restarts; full with no room left, not full when empty
Obs == /\ T.n = size' \div cfg'.out /\ T.free = cfg'.cap - size' /\ T.lost = lost'
       /\ (size' = 0 => ~T.full) /\ (size' = cfg'.cap => T.full)
Ts == [s |-> T.s, u |-> T.u]
F == IF T.null THEN NoFrame ELSE [ts |-> Ts, runs |-> T.runs, org |-> [s |-> T.os, u |-> T.ou]]
Timely(f, g) == [f EXCEPT !.org = Unset] = [g EXCEPT !.org = Unset]      \* the origin time is not exact while a frame is being added
Seen == IF T.null THEN TRUE ELSE T.same /\ T.len     \* all channels alike; length of the frame as configured
Quiet == UNCHANGED <<pend, nullok, old>>
Next(p) == IF Len(p) = 3 THEN Added(Stream, p[1], p[2], p[3]) ELSE Stream     \* <<0>>: part of it, at least, has been taken
Lacking(p) == IF Len(p) = 3 THEN Next(p).size < cfg.out ELSE Len(p) = 1
TNext ==
  \* (a concurrent producer waits for room; frames may be taken but not logged yet)
  \/ Is("reset") /\ T.cap >= T.gap /\ pend' = <<>> /\ nullok' = TRUE /\ old' = <<>> /\ cfg' = [rate |-> T.rate, num |-> T.num, den |-> T.den, out |-> T.out, gap |-> T.gap, cap |-> T.cap, room |-> (IF T.conc THEN T.cap + T.out ELSE T.cap)]
                 /\ buf' = <<>> /\ size' = 0 /\ front' = [s |-> 0, r |-> 0] /\ sync' = Unset /\ held' = NoFrame /\ lost' = 0 /\ org' = 0 /\ Obs
  \/ Is("add") /\ Add(T.v, T.k, Ts) /\ T.ids /\ Obs /\ Quiet
  \/ Is("get") /\ Get(F) /\ Seen /\ Obs /\ Quiet
  \/ Is("release") /\ Release /\ T.w /\ Obs /\ Quiet
  \/ Is("out") /\ Configure(T.k) /\ Obs /\ Quiet
  \/ Is("bulk") /\ Bulk(T.k, T.each, T.ok) /\ Obs /\ Quiet
  \* producer and consumer at the same time
  \/ Is("AddCall") /\ pend' = <<T.v, T.k, Ts>> /\ UNCHANGED <<cvars, nullok, old>>
  \/ Is("AddRet") /\ (IF Len(pend) # 3 THEN UNCHANGED cvars ELSE Becomes(Next(pend)) /\ UNCHANGED <<cfg, held>>) /\ pend' = <<>> /\ nullok' = (nullok \/ size' < cfg.out) /\ old' = IF lost' > lost THEN Append(old, Stream) ELSE old
  \/ Is("GetCall") /\ nullok' = (size < cfg.out \/ Lacking(pend)) /\ old' = <<>> /\ UNCHANGED <<cvars, pend>>
  \/ /\ Is("GetRet") /\ Seen
     /\ IF T.null THEN (nullok \/ Lacking(pend)) /\ held = NoFrame /\ UNCHANGED <<cvars, pend>>
          ELSE IF held # NoFrame THEN Timely(F, held) /\ UNCHANGED <<cvars, pend>>
          ELSE IF \E i \in 1..Len(old) : old[i].size >= cfg.out /\ Timely(F, Frame(old[i])) THEN held' = F /\ UNCHANGED <<cfg, buf, size, front, sync, lost, org, pend>>
          ELSE LET st == IF size >= cfg.out THEN Stream ELSE Next(pend) IN
               /\ st.size >= cfg.out /\ Timely(F, Frame(st)) /\ held' = F /\ Becomes(Taken(st)) /\ UNCHANGED cfg
               /\ pend' = IF size >= cfg.out THEN pend ELSE <<0>>
     /\ UNCHANGED <<nullok, old>>
  \/ Is("RelCall") /\ Release /\ Quiet
  \/ Is("End") /\ pend = <<>> /\ UNCHANGED cvars /\ Obs /\ Quiet
TSpec == TInit /\ [][TNext]_<<cvars, tvars>>
Accepted == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

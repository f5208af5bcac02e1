----------------------------- MODULE TraceQueue -----------------------------
EXTENDS Queue, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Obs == T.n = Len(q') /\ (T.full <=> FullAt(T.n, max')) /\ T.lost = lost'
TInit == l = 1 /\ QInit(2, 0)
Is(o) == l <= Len(Trace) /\ T.op = o /\ l' = l + 1
TNext ==
  \/ Is("reset") /\ max' = T.max /\ q' = <<>> /\ lost' = 0 /\ last' = None /\ held' = 0
                 /\ rds' = [i \in 1..T.nr |-> [f |-> 10 + i, r |-> i]] /\ Obs
  \/ Is("rear") /\ Rear(T.s) /\ Obs
  \/ Is("frear") /\ ForceRear(T.s) /\ Obs
  \/ Is("add") /\ Add(T.v, T.ids) /\ Obs
  \/ Is("front") /\ Front(T.v, T.s) /\ Obs
  \/ Is("ffront") /\ ForceFront(T.v, T.s) /\ Obs
  \/ Is("remove") /\ Remove(T.w, 7) /\ Obs
  \/ Is("addr") /\ AddReader(T.f, T.r, T.ok) /\ Obs
  \/ Is("delr") /\ DelReader(T.f, T.ok) /\ Obs
TSpec == TInit /\ [][TNext]_<<qvars, l>>
Accepted == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

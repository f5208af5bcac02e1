----------------------------- MODULE TraceSliced -----------------------------
EXTENDS Sliced, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Obs == T.n = Len(q') /\ (T.full <=> FullAt(T.n, max')) /\ T.lost = lost'
TInit == l = 1 /\ SInit(2)
Is(o) == l <= Len(Trace) /\ T.op = o /\ l' = l + 1
TNext ==
  \/ Is("reset") /\ max' = T.max /\ q' = <<>> /\ lost' = 0 /\ last' = None /\ pic' = <<>> /\ Obs
  \/ Is("rear") /\ Rear(T.ok) /\ Obs
  \/ Is("frear") /\ T.ok /\ ForceRear /\ Obs
  \/ Is("slice") /\ Slice([p |-> T.p, i |-> T.i], T.ok) /\ Obs
  \/ Is("add") /\ T.ids = T.want /\ Add /\ Obs
  \/ Is("front") /\ Front([p |-> T.p, i |-> T.i]) /\ Obs
  \/ Is("ffront") /\ ForceFront([p |-> T.p, i |-> T.i]) /\ Obs
  \/ Is("remove") /\ Remove(T.w) /\ Obs
TSpec == TInit /\ [][TNext]_<<svars, l>>
Accepted == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

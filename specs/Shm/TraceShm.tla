------------------------------ MODULE TraceShm ------------------------------
EXTENDS Shm, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
TInit == l = 1 /\ ShInit(TRUE)
Is(o) == l <= Len(Trace) /\ T.op = o /\ l' = l + 1
U == [kind |-> T.kind, v |-> T.v, seq |-> T.seq, w |-> T.w, h |-> T.h, pix |-> T.pix, sec |-> T.sec, usec |-> T.usec, len |-> T.len, body |-> T.body]
R == [ids |-> T.ids, seq |-> T.seq, w |-> T.w, h |-> T.h, pix |-> T.pf, sec |-> T.sec, usec |-> T.usec, len |-> T.len, codec |-> T.codec]
TNext ==
  \/ /\ Is("reset") /\ ~T.readable /\ ~T.early /\ T.id /\ raw' = T.raw /\ readable' = FALSE /\ acc' = <<>> /\ info' = NoShare /\ nf' = FALSE /\ cur' = 1 /\ pc' = Idle /\ todo' = NoShare /\ must' = FALSE
  \/ Is("begin") /\ Begin(U)
  \/ Is("store") /\ Store
  \/ Is("pub") /\ Publish(R)
  \/ Is("took") /\ T.same /\ Take
  \/ Is("end") /\ T.fwd = 1 /\ T.ok /\ T.readable = readable /\ T.same /\ End
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

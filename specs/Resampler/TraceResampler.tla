--------------------------- MODULE TraceResampler ---------------------------
EXTENDS Resampler, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l, cap
T == Trace[l]
E == [w |-> T.w, h |-> T.h, fps |-> T.fps, f |-> T.f]
TInit == l = 1 /\ cap = 0 /\ RInit
Is(o) == l <= Len(Trace) /\ T.op = o /\ l' = l + 1
Proc ==
  LET c == Now taken == T.n = Len(q) - 1 IN
  /\ conf' = c /\ pend' = <<>> /\ n' = n
  /\ (T.n = Len(q) \/ taken) /\ q' = IF taken THEN Tail(q) ELSE q
  /\ (c.ft = 0 => taken = (q # <<>>))
  /\ T.ft = c.ft
  /\ T.ctx <= 1 \* conversions that are kept
  /\ IF q = <<>> \/ ~taken THEN T.outs = <<>>
     ELSE LET p == Head(q) IN
       /\ (c.ft = 0 => Len(T.outs) = IF Fits(c, p, cap) THEN 1 ELSE 0)
       /\ Len(T.outs) <= (IF Fits(c, p, cap) THEN 1 ELSE 0)
       /\ \A k \in 1..Len(T.outs) : Shows(T.outs[k], c, p) /\ T.outs[k].org
TNext ==
  \/ Is("reset") /\ T.ok /\ T.rest = 0 /\ conf' = Start /\ q' = <<>> /\ n' = 0 /\ pend' = <<>> /\ cap' = T.cap
  \/ Is("conf") /\ Configure(E, T.ok) /\ UNCHANGED cap
  \/ Is("econf") /\ ConfigureLater(E) /\ UNCHANGED cap
  \/ Is("frame") /\ NewPicture(T) /\ UNCHANGED cap
  \/ Is("proc") /\ Proc /\ UNCHANGED cap
TSpec == TInit /\ [][TNext]_<<rvars, l, cap>>
AcceptedTrace == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

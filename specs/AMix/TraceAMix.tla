----------------------------- MODULE TraceAMix -----------------------------
EXTENDS AMix, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, inputs
T == Trace[l]
Is(o) == l <= Len(Trace) /\ T.op = o /\ l' = l + 1
Obs == T.master = master' /\ Len(T.gains) = Cardinality(DOMAIN gains') /\ \A k \in 1..Len(T.gains) : T.gains[k][1] \in DOMAIN gains' /\ T.gains[k][2] = gains'[T.gains[k][1]]
TInit == l = 1 /\ inputs = 0 /\ AInit
TConnect == /\ T.ok = (T.id \notin DOMAIN gains /\ Cardinality(DOMAIN gains) < inputs) /\ Flush /\ UNCHANGED mix
            /\ gains' = (IF T.ok THEN [i \in DOMAIN gains \cup {T.id} |-> IF i = T.id THEN 100 ELSE Now.gs[i]] ELSE Now.gs)
Proc == /\ Flush /\ gains' = Now.gs
        /\ IF ~T.called THEN T.ins = <<>> /\ T.made = 0 /\ UNCHANGED mix
           ELSE \E xs \in Orders(T.ins) : \E m \in PushAll({mix}, xs, Now.gs, Now.ms) :
                IF Ready(m) THEN T.made = 1 /\ T.form /\ [s |-> T.s, u |-> T.u] = TimeOf(m) /\ Same(Cut(m.win, Out), T.out, 0) /\ mix' = Taken(m)
                ELSE T.made = 0 /\ mix' = m
TNext ==
  \/ Is("reset") /\ T.ok /\ inputs' = T.max /\ mix' = NewMix /\ gains' = <<>> /\ master' = 60 /\ pend' = <<>> /\ Obs
  \/ /\ UNCHANGED inputs
     /\ \/ Is("conn") /\ TConnect /\ Obs
        \/ Is("disc") /\ T.ok = (T.id \in DOMAIN gains) /\ Disconnect(T.id) /\ Obs
        \/ Is("event") /\ Later([k |-> T.k, id |-> T.id, v |-> T.v]) /\ Obs
        \/ Is("proc") /\ Proc /\ Obs
        \/ Is("long") /\ T.ok /\ UNCHANGED avars
TSpec == TInit /\ [][TNext]_<<avars, l, inputs>>
AcceptedTrace == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

----------------------------- MODULE TraceRing -----------------------------
\* Operations of a producer and a consumer at the same time: each takes effect between its call and its return.
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, max, q, lost, atc, adding, forcing, removing, taken, n0
\* q: frames added and not removed; atc: their number when the present operation of the producer was called; n0: when the consumer's was; taken: last frame removed
vars == <<max, q, lost, atc, adding, forcing, removing, taken, n0>>
T == Trace[l]
Init == l = 1 /\ max = 2 /\ q = <<>> /\ lost = 0 /\ atc = 0 /\ adding = FALSE /\ forcing = FALSE /\ removing = FALSE /\ taken = 0 /\ n0 = 0
Is(o) == l <= Len(Trace) /\ T.op = o /\ l' = l + 1
B(b) == IF b THEN 1 ELSE 0
Least == Len(q) - B(removing)   \* frames in the queue for certain (a forced one aside)
Drop == T.lost - lost
\* what is being added may not be there yet, what is being dropped or removed may not be there any more
Lower == Len(q) - B(adding) - B(forcing)
Max2(a, b) == IF a > b THEN a ELSE b
Next ==
  \/ Is("reset") /\ max' = T.max /\ q' = <<>> /\ lost' = 0 /\ atc' = 0 /\ adding' = FALSE /\ forcing' = FALSE /\ removing' = FALSE /\ taken' = 0 /\ n0' = 0
  \/ Is("RearCall") /\ atc' = Len(q) /\ forcing' = T.force /\ UNCHANGED <<max, q, lost, adding, removing, taken, n0>>
  \/ Is("RearRet") /\ forcing' = FALSE /\ lost' = T.lost /\ UNCHANGED <<max, atc, adding, removing, taken, n0>>
     /\ IF T.force
        THEN /\ T.got /\ Drop \in {0, 1}
             /\ (Drop = 1 => atc >= max - 1 /\ Len(q) > B(removing))  \* only when full, and not a frame of the consumer
             /\ (Drop = 0 => Least < max - 1)
             /\ q' = (IF Drop = 1 THEN SubSeq(q, 1, Len(q) - 1) ELSE q)
        ELSE /\ Drop = 0 /\ (T.got => Least < max - 1) /\ (~T.got => atc >= max - 1) /\ q' = q
  \/ Is("AddCall") /\ adding' = TRUE /\ q' = Append(q, T.v) /\ Len(q) - B(removing) < max - 1 /\ UNCHANGED <<max, lost, atc, forcing, removing, taken, n0>>
  \/ Is("AddRet") /\ adding' = FALSE /\ T.ids = 1 /\ UNCHANGED <<max, q, lost, atc, forcing, removing, taken, n0>>
  \/ Is("FrontCall") /\ n0' = Lower /\ UNCHANGED <<max, q, lost, atc, adding, forcing, removing, taken>>
  \/ Is("Front") /\ UNCHANGED vars /\ IF T.none THEN n0 <= 0 ELSE q # <<>> /\ T.v = Head(q)
  \/ Is("RemCall") /\ removing' = TRUE /\ T.v = Head(q) /\ taken' = T.v /\ UNCHANGED <<max, q, lost, atc, adding, forcing, n0>>
  \/ Is("RemRet") /\ removing' = FALSE /\ T.w = 7 /\ q' = Tail(q) /\ UNCHANGED <<max, lost, atc, adding, forcing, taken, n0>>
  \/ Is("Last") /\ UNCHANGED vars /\ (taken # 0 => T.v = taken)
  \/ Is("CountCall") /\ n0' = Lower /\ UNCHANGED <<max, q, lost, atc, adding, forcing, removing, taken>>
  \* frames may be added and dropped while it counts
  \/ Is("Count") /\ UNCHANGED vars /\ T.n >= (IF n0 < Lower THEN n0 ELSE Lower) - 1 /\ T.n >= 0 /\ T.n <= max - 1 /\ (T.n > Len(q) => T.n <= Len(q) + 1)
  \/ Is("Full") /\ UNCHANGED vars /\ (T.u => (Len(q) + 1) * 10 >= 9 * max) /\ (~T.u => (IF n0 < Lower THEN n0 ELSE Lower) * 10 < 9 * max + 10)
  \/ Is("end") /\ UNCHANGED vars /\ T.n = Len(q) /\ T.lost = lost
Spec == Init /\ [][Next]_<<vars, l>>
AcceptedTrace == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

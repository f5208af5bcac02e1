------------------------------ MODULE MCQueue ------------------------------
(* Exhaustive model, and source of the operation scripts (variable op). *)
EXTENDS Queue, TLC
CONSTANTS MaxSlots, MaxLost, VMod
VARIABLES op, nextv
mvars == <<qvars, op, nextv>>
\* slots are interchangeable: the lowest one that may be handed out stands for all
Pick(qq) == IF \E s \in 1..max : MayHand(s, qq) THEN CHOOSE s \in 1..max : MayHand(s, qq) ELSE 0
Init == /\ QInit(MaxSlots, 1) /\ op = "init" /\ nextv = 1
Next ==
  \/ Rear(IF Full THEN 0 ELSE Pick(q)) /\ op' = "rear" /\ UNCHANGED nextv
  \/ lost < MaxLost /\ ForceRear(Pick(IF Full THEN SubSeq(q, 1, Len(q) - 1) ELSE q)) /\ op' = "frear" /\ UNCHANGED nextv
  \/ Add(nextv, Ids) /\ op' = "add" /\ nextv' = (nextv % VMod) + 1
  \/ Front(IF q = <<>> THEN 0 ELSE Head(q).v, IF q = <<>> THEN 0 ELSE Head(q).s) /\ op' = "front" /\ UNCHANGED nextv
  \/ last # None /\ ForceFront(last.v, last.s) /\ op' = "ffront" /\ UNCHANGED nextv
  \/ Remove(IF q = <<>> THEN -1 ELSE 7, 7) /\ op' = "remove" /\ UNCHANGED nextv
Spec == Init /\ [][Next]_mvars
\* a queued frame stays queued, in place, until it is removed from the front or dropped from the rear (and then counted)
FifoStep == [][\/ q' = q
               \/ Len(q') = Len(q) + 1 /\ SubSeq(q', 1, Len(q)) = q
               \/ q # <<>> /\ q' = Tail(q) /\ last' = Head(q)
               \/ q # <<>> /\ q' = SubSeq(q, 1, Len(q) - 1) /\ lost' = lost + 1]_mvars
NoFreeForcing == Pick(IF Full THEN SubSeq(q, 1, Len(q) - 1) ELSE q) # 0
=============================================================================

------------------------------ MODULE MCSliced ------------------------------
EXTENDS Sliced, TLC, TLCExt
CONSTANTS M, VMod, MaxLost, Groups
VARIABLES op, p
Init == SInit(M) /\ op = "start" /\ p = 1
\* g slices put at once
RECURSIVE Fill(_, _)
Fill(x, g) == IF g = 0 \/ Len(x) >= MaxSlices THEN x ELSE Fill(Append(x, [p |-> p, i |-> Len(x) + 1]), g - 1)
Put(g) == pic' = Fill(pic, g) /\ UNCHANGED <<max, q, lost, last, p>> /\ op' = "slices " \o ToString(g)
Next == \/ UNCHANGED <<svars, p>> /\ op' = "rear"
        \/ \E g \in Groups : Put(g)
        \/ lost < MaxLost /\ Add /\ p' = (p % VMod) + 1 /\ op' = "add"
        \/ UNCHANGED <<svars, p>> /\ op' = "front"
        \/ UNCHANGED <<svars, p>> /\ op' = "ffront"
        \/ Remove(IF q = <<>> THEN -1 ELSE 7) /\ UNCHANGED p /\ op' = "remove"
Spec == Init /\ [][Next]_<<svars, op, p>>
\* for the generation of scripts: the contents do not matter
View == <<Len(q), Len(pic), last # None>>
Emit == PrintT("E" \o ToString(<<Len(q), Len(pic), last # None>>) \o "#" \o op' \o "#" \o ToString(<<Len(q'), Len(pic'), last' # None>>))
TypeOK == Len(q) <= max - 1 /\ Len(pic) <= MaxSlices
\* order: a slice is followed by the next ones of its picture or by later pictures; nothing queued is ever changed
Step == [][ \/ q' = q
            \/ q # <<>> /\ q' = Tail(q) /\ last' = Head(q)
            \/ LET k == IF Len(q) + Len(pic) <= max - 1 THEN Len(q) ELSE IF pic = <<>> THEN Len(q) ELSE max - 2 IN
               /\ lost' - lost = Len(q) + Len(pic) - Len(q')
               /\ \A j \in 1..Len(q') : j <= Len(q) /\ j <= k => q'[j] = q[j]
               /\ pic # <<>> => q'[Len(q')] = pic[Len(pic)] ]_<<svars, op, p>>
=============================================================================

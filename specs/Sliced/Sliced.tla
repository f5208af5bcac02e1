------------------------------ MODULE Sliced ------------------------------
(* The queue of the video encoders: pictures are added as groups of slices and taken slice by slice. *)
EXTENDS Integers, Sequences
CONSTANT MaxSlices
VARIABLES max, q, lost, last, pic   \* q, last: slices [p |-> picture, i |-> index]; pic: slices of the picture being filled
svars == <<max, q, lost, last, pic>>
None == [p |-> 0, i |-> 0]
Full == Len(q) >= max - 1
SInit(m) == max = m /\ q = <<>> /\ lost = 0 /\ last = None /\ pic = <<>>
Rear(ok) == ok = ~Full /\ UNCHANGED svars
ForceRear == UNCHANGED svars
Slice(s, ok) == /\ ok = (Len(pic) < MaxSlices)
                /\ pic' = IF ok THEN Append(pic, s) ELSE pic
                /\ UNCHANGED <<max, q, lost, last>>
RECURSIVE Push(_, _, _)
Push(x, n, sl) == IF sl = <<>> THEN [q |-> x, lost |-> n]
                  ELSE IF Len(x) >= max - 1 THEN Push(Append(SubSeq(x, 1, Len(x) - 1), Head(sl)), n + 1, Tail(sl))
                  ELSE Push(Append(x, Head(sl)), n, Tail(sl))
Add == LET r == Push(q, lost, pic) IN q' = r.q /\ lost' = r.lost /\ pic' = <<>> /\ UNCHANGED <<max, last>>
Front(s) == s = (IF q = <<>> THEN None ELSE Head(q)) /\ UNCHANGED svars
ForceFront(s) == (last # None => s = last) /\ UNCHANGED svars
Remove(w) == /\ IF q = <<>> THEN w = -1 /\ UNCHANGED <<q, last>> ELSE w = 7 /\ q' = Tail(q) /\ last' = Head(q)
             /\ UNCHANGED <<max, lost, pic>>
FullAt(n, m) == n * 10 >= m * 9
=============================================================================

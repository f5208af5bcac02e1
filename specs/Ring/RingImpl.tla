------------------------------ MODULE RingImpl ------------------------------
\* AVFramedQueue between one producer and one consumer that run at the same time, at the grain of single accesses to its two indices and its slots.
EXTENDS Integers, Sequences
CONSTANTS Max, N, Locked   \* slots; values to add; whether forcing room and removing exclude each other
VARIABLES rear, front, slot, lost, q, pc, full, v, cc, got, seen
\* q: the abstract queue; pc, full, v: producer (its place, what it read, the next value); cc, got, seen: consumer (its place, what it reads, what it took last)
vars == <<rear, front, slot, lost, q, pc, full, v, cc, got, seen>>
Writing == 0 - 1
Init == rear = 0 /\ front = 0 /\ slot = [i \in 0..(Max - 1) |-> 0] /\ lost = 0 /\ q = <<>> /\ pc = "idle" /\ full = FALSE /\ v = 1 /\ cc = "idle" /\ got = 0 /\ seen = 0
Up(i) == (i + 1) % Max
Down(i) == (i + Max - 1) % Max
IsFull == Up(rear) = front
Flush == rear' = Down(rear) /\ lost' = lost + 1 /\ q' = (IF q = <<>> THEN q ELSE SubSeq(q, 1, Len(q) - 1))
P == UNCHANGED <<cc, got, seen, front>>
Begin == pc = "idle" /\ v <= N /\ \E m \in {"plain", "force"} : pc' = m /\ UNCHANGED <<rear, slot, lost, q, full, v>> /\ P
Plain == pc = "plain" /\ pc' = (IF IsFull THEN "idle" ELSE "fill") /\ UNCHANGED <<rear, slot, lost, q, full, v>> /\ P
Force == pc = "force" /\ UNCHANGED <<slot, full, v>> /\ P
         /\ IF ~IsFull THEN pc' = "fill" /\ UNCHANGED <<rear, lost, q>>
            ELSE IF Locked THEN pc' = "fill" /\ Flush ELSE pc' = "flush" /\ UNCHANGED <<rear, lost, q>>
Drop == pc = "flush" /\ Flush /\ pc' = "force" /\ UNCHANGED <<slot, full, v>> /\ P
Fill == pc = "fill" /\ slot' = [slot EXCEPT ![rear] = Writing] /\ pc' = "filled" /\ UNCHANGED <<rear, lost, q, full, v>> /\ P
Filled == pc = "filled" /\ slot' = [slot EXCEPT ![rear] = v] /\ pc' = "add" /\ UNCHANGED <<rear, lost, q, full, v>> /\ P
Add == pc = "add" /\ full' = IsFull /\ pc' = "added" /\ UNCHANGED <<rear, slot, lost, q, v>> /\ P
Added == pc = "added" /\ pc' = "idle" /\ v' = v + 1 /\ UNCHANGED <<slot, lost, full>> /\ P
         /\ IF full THEN UNCHANGED <<rear, q>> ELSE rear' = Up(rear) /\ q' = Append(q, v)
C == UNCHANGED <<rear, slot, lost, pc, full, v>>
Look == cc = "idle" /\ UNCHANGED <<front, q, got, seen>> /\ C /\ cc' = (IF rear = front THEN "idle" ELSE "read")
Read == cc = "read" /\ got' = slot[front] /\ cc' = "remove" /\ UNCHANGED <<front, q, seen>> /\ C
Remove == cc = "remove" /\ front' = Up(front) /\ q' = (IF q = <<>> THEN q ELSE Tail(q)) /\ cc' = "idle" /\ seen' = got /\ UNCHANGED <<got>> /\ C
Next == Begin \/ Plain \/ Force \/ Drop \/ Fill \/ Filled \/ Add \/ Added \/ Look \/ Read \/ Remove
Spec == Init /\ [][Next]_vars /\ WF_vars(Look) /\ WF_vars(Read) /\ WF_vars(Remove)
\* ---- the ring shows the abstract queue
Elements == (rear + Max - front) % Max
Same == Elements = Len(q) /\ \A i \in 1..Len(q) : slot[(front + i - 1) % Max] = q[i]
Whole == got # Writing
InOrder == [][got' # got => got' > got /\ got' = Head(q)]_vars
\* the slots of what the consumer reads, or took last, are not written
Kept == (cc \in {"read", "remove"} => slot[front] # Writing) /\ (seen # 0 => slot[Down(front)] = seen)
Counted == lost + Len(q) <= v
Flows == []<>(q = <<>> \/ v > N => q = <<>>) /\ (v > N ~> q = <<>>)
=============================================================================

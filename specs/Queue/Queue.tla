------------------------------- MODULE Queue -------------------------------
(* Frame queue between one producer and one consumer (AVFramedQueue and its   *)
(* audio/video instances): a bounded FIFO of frame slots.                     *)
(* A slot is an identity, not a position: the specification does not say how  *)
(* slots are cycled, only that a slot in use is never handed out again.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES
  max,    \* number of slots
  q,      \* queued frames, oldest first: [v |-> content, s |-> slot]
  lost,   \* frames dropped to make room
  last,   \* most recently removed frame ([v |-> 0, s |-> 0] before the first)
  held,   \* slot the producer was handed and has not added yet (0: none)
  rds     \* filters to wake, in order of registration: [f |-> filter, r |-> reader]

qvars == <<max, q, lost, last, held, rds>>
None == [v |-> 0, s |-> 0]
Slots == {q[i].s : i \in 1..Len(q)}
Full == Len(q) >= max - 1
Ids == [i \in 1..Len(rds) |-> rds[i].f]
Known(f) == \E i \in 1..Len(rds) : rds[i].f = f

QInit(m, n) == /\ max = m /\ q = <<>> /\ lost = 0 /\ last = None /\ held = 0
               /\ rds = [i \in 1..n |-> [f |-> 10 + i, r |-> i]]

\* Slots that may be handed to the producer: not queued, nor the last frame taken, which the consumer can get again.
MayHand(s, qq) == s # 0 /\ s # last.s /\ \A i \in 1..Len(qq) : qq[i].s # s

\* the producer asks for a slot; s = 0: there is none
Rear(s) == /\ IF Full THEN s = 0 ELSE MayHand(s, q)
           /\ held' = s /\ UNCHANGED <<max, q, lost, last, rds>>
\* the producer insists: the newest frame is dropped if there is no room
ForceRear(s) == LET qq == IF Full THEN SubSeq(q, 1, Len(q) - 1) ELSE q IN
                /\ q' = qq /\ lost' = lost + (Len(q) - Len(qq))
                /\ MayHand(s, qq) /\ held' = s /\ UNCHANGED <<max, last, rds>>
\* the producer adds the frame it wrote in its slot (nothing happens on a full queue)
Add(v, ids) == /\ ids = Ids
               /\ (Full \/ held # 0)
               /\ q' = IF Full THEN q ELSE Append(q, [v |-> v, s |-> held])
               /\ held' = 0 /\ UNCHANGED <<max, lost, last, rds>>
\* the consumer looks at the oldest frame
Front(v, s) == /\ IF q = <<>> THEN s = 0 /\ v = 0 ELSE s = Head(q).s /\ v = Head(q).v
               /\ UNCHANGED qvars
\* the consumer gets the last frame it took again
ForceFront(v, s) == /\ s # 0
                    /\ last # None => s = last.s /\ v = last.v
                    /\ UNCHANGED qvars
\* the consumer removes the oldest frame; w is the producer's id, -1 when the queue is empty
Remove(w, wid) == /\ IF q = <<>> THEN w = -1 /\ UNCHANGED <<q, last>>
                     ELSE w = wid /\ q' = Tail(q) /\ last' = Head(q)
                  /\ UNCHANGED <<max, lost, held, rds>>
AddReader(f, r, ok) == /\ ok = ~Known(f)
                       /\ rds' = IF ok THEN Append(rds, [f |-> f, r |-> r]) ELSE rds
                       /\ UNCHANGED <<max, q, lost, last, held>>
DelReader(f, ok) == /\ ok = Known(f)
                    /\ rds' = SelectSeq(rds, LAMBDA x : x.f # f)
                    /\ UNCHANGED <<max, q, lost, last, held>>
\* what can be observed at any time
\* (number of frames, fullness and losses; the queue counts as full from 90% of its slots)
FullAt(n, m) == n * 10 >= m * 9

TypeOK == /\ Len(q) <= max - 1 /\ Cardinality(Slots) = Len(q)
          /\ last.s \notin Slots /\ held \notin Slots
=============================================================================

------------------------------- MODULE Share -------------------------------
(* One input shared by several consumers: every consumer is told about every *)
(* frame once, and the queue advances when all of them have released it.     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  max,     \* size of the queue
  q,       \* frames queued, oldest first
  last,    \* last frame removed (0: none)
  mem,     \* [consumer -> [seen, rel]]: state with respect to the current frame
  latched, \* a frame is being consumed
  wup,     \* the producer's end is connected
  rup      \* the consumers' end is attached
svars == <<max, q, last, mem, latched, wup, rup>>
SInit(m, n) == /\ max = m /\ q = <<>> /\ last = 0 /\ latched = FALSE /\ wup = TRUE /\ rup = TRUE
               /\ mem = [c \in 1..n |-> [seen |-> FALSE, rel |-> FALSE]]
Conn == wup /\ rup
Members == DOMAIN mem
Done(m) == \A c \in DOMAIN m : m[c].seen /\ m[c].rel
\* the current frame goes when everybody who shares it has seen and released it
Settle(m, adv) ==
  IF latched /\ m # <<>> /\ Done(m) THEN /\ q' = Tail(q) /\ last' = Head(q) /\ latched' = FALSE /\ adv
                         ELSE /\ UNCHANGED <<q, last, latched>> /\ ~adv
Add(v, ok) == /\ ok = (Conn /\ Len(q) < max - 1)
              /\ q' = IF ok THEN Append(q, v) ELSE q
              /\ UNCHANGED <<max, last, mem, latched, wup, rup>>
Get(c, null, nw, v) ==
  IF ~Conn \/ c \notin Members THEN null /\ ~nw /\ UNCHANGED svars
  ELSE IF q = <<>> THEN ~null /\ ~nw /\ (last # 0 => v = last) /\ UNCHANGED svars
  ELSE LET m == IF latched THEN mem ELSE [d \in Members |-> [seen |-> FALSE, rel |-> FALSE]] IN
       /\ ~null /\ v = Head(q) /\ nw = ~m[c].seen
       /\ latched' = TRUE /\ mem' = [m EXCEPT ![c].seen = TRUE]
       /\ UNCHANGED <<max, q, last, wup, rup>>
Release(c, w) ==
  IF c \notin Members \/ ~latched THEN w = -1 /\ UNCHANGED svars
  ELSE LET m == [mem EXCEPT ![c].rel = TRUE] IN
       /\ mem' = m /\ Settle(m, w = 7) /\ w \in {7, -1}
       /\ UNCHANGED <<max, wup, rup>>
\* who joins starts with the frame after the one being consumed
Join(c) == /\ mem' = IF Conn /\ c \notin Members THEN [d \in Members \cup {c} |-> IF d = c THEN [seen |-> TRUE, rel |-> TRUE] ELSE mem[d]] ELSE mem
           /\ UNCHANGED <<max, q, last, latched, wup, rup>>
Leave(c, r) ==
  IF c \notin Members THEN ~r /\ UNCHANGED svars
  ELSE LET m == [d \in Members \ {c} |-> mem[d]] IN
       /\ r /\ mem' = m /\ rup' = (m # <<>>)
       /\ IF m = <<>> THEN latched' = FALSE /\ UNCHANGED <<q, last>>
          ELSE \E a \in BOOLEAN : Settle(m, a)
       /\ UNCHANGED <<max, wup>>
WDisc(r) == /\ r = wup /\ wup' = FALSE /\ UNCHANGED <<max, q, last, mem, latched, rup>>
\* what the shared input says about itself
FullAt(n, m) == n * 10 >= m * 9
Cur == IF q = <<>> THEN 0 ELSE Head(q)
\* ---- properties
Bounded == Len(q) < max
NoStall == latched => ~Done(mem)                                  \* somebody still has to see or release the current frame
Fifo == \A i, j \in 1..Len(q) : i < j => q[i] < q[j]
=============================================================================

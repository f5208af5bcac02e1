------------------------------ MODULE MCEvents ------------------------------
(* One filter with queued events, sent, delayed and executed at its processings and connections: every history within the bounds. *)
EXTENDS Filter, TLC
CONSTANT MaxN
VARIABLES S, now, n, done, op
vars == <<S, now, n, done, op>>
View == <<S, now, n, done>>
X(x) == ToString(x)
Init == /\ S = Connect([S0 EXCEPT !.fl = <<NewFilter("H", FALSE, FALSE, 0, FALSE, 0, 1, 4), NewFilter("N", FALSE, FALSE, 0, FALSE, 2, 1, 4)>>], 1, 2, 1, 1)
        /\ now = 0 /\ n = 0 /\ done = <<>> /\ op = "F 1 H 0 0 0 0 0 1 4;F 2 N 0 0 0 0 2 1 4;conn 1 2 1 1"
Exec == LET r == Execute(S, 2, now * 10000) IN S' = r[1] /\ done' = done \o [k \in DOMAIN r[2] |-> [n |-> r[2][k], at |-> now]]
Send(off, delay, known) == /\ n < MaxN /\ n' = n + 1 /\ UNCHANGED <<now, done>>
  /\ op' = "ev 2 " \o (IF known THEN "a " ELSE "z ") \o X(n + 1) \o " " \o X(delay * 10) \o " " \o X(off * 10)
  /\ S' = [S EXCEPT !.fl[2].evq = @ \cup {[ts |-> (now + off) * 10000 - 500 + n + 1, n |-> n + 1, delay |-> delay * 10, known |-> known]}]
Tick == now < 3 /\ now' = now + 1 /\ op' = "adv 10" /\ UNCHANGED <<S, n, done>>
Run == op' = "run 2 0 1:0" /\ Exec /\ UNCHANGED <<now, n>>
Conn == op' = "conn 1 2 1 1" /\ Exec /\ UNCHANGED <<now, n>>  \* refused, but it executes events
Next == Tick \/ Run \/ Conn \/ \E off \in {-1, 0, 1}, d \in {0, 1} : Send(off, d, TRUE) \/ Send(0, 0, FALSE)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
OnceEach == \A i, j \in DOMAIN done : i # j => done[i].n # done[j].n
Pending == S.fl[2].evq
Gone == {done[i].n : i \in DOMAIN done}
Exclusive == \A e \in Pending : e.n \notin Gone
\* after an execution nothing due heads the queue
Prompt == [][op' \in {"run 2 0 1:0", "conn 1 2 1 1"} => LET Q == S'.fl[2].evq IN Q # {} => LET h == CHOOSE e \in Q : \A y \in Q : e.ts <= y.ts IN now * 10000 - h.ts < h.delay * 1000]_vars
\* what is executed does not jump over anything older that is pending
Ordered == [][\A e \in S'.fl[2].evq, x \in S.fl[2].evq \ S'.fl[2].evq : x.ts <= e.ts]_vars
NotEarly == [][\A x \in S.fl[2].evq \ S'.fl[2].evq : now * 10000 - x.ts >= x.delay * 1000]_vars
Lost == Cardinality(Pending) + Len(done) <= n
Unlost == [][\A x \in S.fl[2].evq \ S'.fl[2].evq : x.known => \E i \in DOMAIN done' : done'[i].n = x.n]_vars
=============================================================================

-------------------------------- MODULE AMix --------------------------------
(* The audio mixer. Every frame of an input is added, scaled by the gain of its channel and the master gain, at the place *)
(* of its time in a window of Max samples; whenever Th samples are there at the end of a round, the first Out of them are *)
(* the output. Positions are counted in seconds and samples from the start of the mix, so that they never overflow. *)
(* Samples are 1e-4, gains 1e-2, and mixed samples therefore 1e-8. Windows and frames are sequences of runs [n, a, b]: *)
(* n samples of value a on the left and b on the right. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Max, Th, Out, SPS, USec, Inputs     \* SPS samples and USec time units per second; most inputs
VARIABLES mix, gains, master, pend
avars == <<mix, gains, master, pend>>
Big == 1000000
Unset == [s |-> 0 - 1, u |-> 0]
Zero(n) == <<[n |-> n, a |-> 0, b |-> 0]>>
NewMix == [sync |-> Unset, front |-> [s |-> 0, r |-> 0], len |-> 0, win |-> Zero(Max)]
AInit == mix = NewMix /\ gains = <<>> /\ master = 60 /\ pend = <<>>
(* ------------------------------------------------------------------ runs *)
RECURSIVE Dur(_), Cut(_, _), Drop(_, _), Zip(_, _, _), Same(_, _, _)
Dur(w) == IF w = <<>> THEN 0 ELSE Head(w).n + Dur(Tail(w))
Cut(w, k) == IF k = 0 \/ w = <<>> THEN <<>> ELSE IF Head(w).n <= k THEN <<Head(w)>> \o Cut(Tail(w), k - Head(w).n) ELSE <<[Head(w) EXCEPT !.n = k]>>
Drop(w, k) == IF k = 0 \/ w = <<>> THEN w ELSE IF Head(w).n <= k THEN Drop(Tail(w), k - Head(w).n) ELSE <<[Head(w) EXCEPT !.n = @ - k]>> \o Tail(w)
\* beyond 0.6, the level is compressed such that 2 becomes 1
Limit(x) == IF x > 60000000 THEN ((2 * x) + 300000000) \div 7 ELSE IF x < 0 - 60000000 THEN 0 - (((0 - (2 * x)) + 300000000) \div 7) ELSE x
\* a frame f scaled by g (1e-4) over the samples w
Zip(w, f, g) == IF w = <<>> \/ f = <<>> THEN <<>>
                ELSE LET n == IF Head(w).n < Head(f).n THEN Head(w).n ELSE Head(f).n IN
                     <<[n |-> n, a |-> Limit(Head(w).a + (Head(f).a * g)), b |-> Limit(Head(w).b + (Head(f).b * g))]>> \o Zip(Drop(w, n), Drop(f, n), g)
Near(x, y) == x - y <= 300 /\ y - x <= 300
Same(w, o, d) == IF w = <<>> \/ o = <<>> THEN w = <<>> /\ o = <<>>
                 ELSE LET n == IF Head(w).n < Head(o).n THEN Head(w).n ELSE Head(o).n IN
                      Near(Head(w).a, Head(o).a) /\ Near(Head(w).b, Head(o).b) /\ Same(Drop(w, n), Drop(o, n), d + n)
(* ------------------------------------------------------------------ time *)
\* where a time is, in samples from the next output; in the past for times before the start of the mix
Rel(m, t) == LET k == IF t.u < m.sync.u THEN 1 ELSE 0  ds == t.s - m.sync.s - k  du == t.u - m.sync.u + (k * USec) IN
             IF ds < 0 \/ ds < m.front.s - 10 THEN 0 - Big ELSE IF ds > m.front.s + 10 THEN Big
             ELSE ((ds - m.front.s) * SPS) + ((du * SPS) \div USec) - m.front.r
\* SPS / USec is 6 / 125 in the real mixer, kept small
RelSmall(m, t) == LET k == IF t.u < m.sync.u THEN 1 ELSE 0  ds == t.s - m.sync.s - k  du == t.u - m.sync.u + (k * USec) IN
             IF ds < 0 \/ ds < m.front.s - 10 THEN 0 - Big ELSE IF ds > m.front.s + 10 THEN Big
             ELSE ((ds - m.front.s) * SPS) + ((du * 6) \div 125) - m.front.r
Place(m, t) == IF USec = 1000000 THEN RelSmall(m, t) ELSE Rel(m, t)
TimeOf(m) == LET u == m.sync.u + (IF USec = 1000000 THEN (m.front.r * 125) \div 6 ELSE (m.front.r * USec) \div SPS) IN
             IF u >= USec THEN [s |-> m.sync.s + m.front.s + 1, u |-> u - USec] ELSE [s |-> m.sync.s + m.front.s, u |-> u]
Advance(f) == IF f.r + Out >= SPS THEN [s |-> f.s + 1, r |-> f.r + Out - SPS] ELSE [f EXCEPT !.r = @ + Out]
(* ------------------------------------------------------------------ mixing *)
At(m, p, n, f, g) == [m EXCEPT !.win = Cut(@, p) \o Zip(Cut(Drop(@, p), n), f, g) \o Drop(@, p + n), !.len = IF p + n > @ THEN p + n ELSE @]
Push(m, x, g) == \* x: [s, u, n, segs], with gain g: the mixes that may result
  LET n == x.n  t == [s |-> x.s, u |-> x.u]  m1 == IF m.sync = Unset THEN [m EXCEPT !.sync = t] ELSE m  p == Place(m1, t)
      Put(mm, k) == {At(mm, k, n, x.segs, g)} \cup (IF g = 0 THEN {[mm EXCEPT !.len = IF k + n > @ THEN k + n ELSE @]} ELSE {}) IN
  IF Max - m.len < n THEN {m}                                              \* no room
  ELSE IF p < 0 THEN {m1}                                                  \* starts in the past
  ELSE IF p > Max - n THEN Put([NewMix EXCEPT !.sync = t], 0)              \* out of reach: the mix restarts there
  ELSE Put(m1, p)
Gain(gs, ms, id) == gs[id] * ms
RECURSIVE PushAll(_, _, _, _)
PushAll(S, xs, gs, ms) == IF xs = <<>> THEN S ELSE PushAll(UNION {Push(m, Head(xs), Gain(gs, ms, Head(xs).id)) : m \in S}, Tail(xs), gs, ms)
Orders(xs) == IF Len(xs) < 2 THEN {xs} ELSE {[k \in 1..Len(xs) |-> xs[p[k]]] : p \in {p \in [1..Len(xs) -> 1..Len(xs)] : \A i, j \in 1..Len(xs) : i # j => p[i] # p[j]}}
Ready(m) == m.len >= Th
Taken(m) == [m EXCEPT !.win = Drop(@, Out) \o Zero(Out), !.len = @ - Out, !.front = Advance(@)]
(* ------------------------------------------------------------------ commands *)
Clamp(v) == IF v > 100 THEN 100 ELSE IF v < 0 THEN 0 ELSE v
Do(e, st) == \* one event on [gs, ms]
  CASE e.k = "gain" -> IF e.id \in DOMAIN st.gs THEN [st EXCEPT !.gs[e.id] = Clamp(e.v)] ELSE st
    [] e.k = "mute" -> IF e.id \in DOMAIN st.gs THEN [st EXCEPT !.gs[e.id] = 0] ELSE st
    [] e.k = "solo" -> IF e.id \in DOMAIN st.gs THEN [st EXCEPT !.gs = [i \in DOMAIN st.gs |-> IF i = e.id THEN 100 ELSE 0]] ELSE st
    [] e.k = "master" -> [st EXCEPT !.ms = e.v]
    [] e.k = "mutemaster" -> [st EXCEPT !.ms = 0]
    [] OTHER -> st                                                         \* incomplete
RECURSIVE DoAll(_, _)
DoAll(es, st) == IF es = <<>> THEN st ELSE DoAll(Tail(es), Do(Head(es), st))
Now == DoAll(pend, [gs |-> gains, ms |-> master])
Flush == pend' = <<>> /\ master' = Now.ms
Later(e) == pend' = Append(pend, e) /\ UNCHANGED <<mix, gains, master>>
Connect(id, ok) == /\ ok = (id \notin DOMAIN gains /\ Cardinality(DOMAIN gains) < Inputs) /\ Flush /\ UNCHANGED mix
                   /\ gains' = (IF ok THEN [i \in DOMAIN gains \cup {id} |-> IF i = id THEN 100 ELSE Now.gs[i]] ELSE Now.gs)
Disconnect(id) == gains' = [i \in DOMAIN gains \ {id} |-> gains[i]] /\ UNCHANGED <<mix, master, pend>>
=============================================================================

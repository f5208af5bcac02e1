------------------------------ MODULE FlowImpl ------------------------------
(* The mechanism: H -> q1 -> M -> q2 -> {T1, T2}, run by a pool that is told, at the end of each run, whom to run next; T2 shares   *)
(* the reader of T1, and it comes and goes. Every interleaving of the starts and the ends of the runs and of the changes.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxV, Cap, MaxChanges, Wake \* Wake: one that joins is run
VARIABLES q, inq, running, cur, got, lost, nv, wrote, leaving, changes
vars == <<q, inq, running, cur, got, lost, nv, wrote, leaving, changes>>
F == {"H", "M", "T1", "T2"}
Reads(f) == CASE f = "M" -> 1 [] f \in {"T1", "T2"} -> 2 [] OTHER -> 0
Writes(f) == CASE f = "H" -> 1 [] f = "M" -> 2 [] OTHER -> 0
Range(s) == {s[i] : i \in 1..Len(s)}
\* st: member -> "new" (the latched frame is to be read), "held" (it is reading it), "done"
Init == /\ q = <<[el |-> <<>>, latched |-> FALSE, st |-> [f \in {"M"} |-> "done"]], [el |-> <<>>, latched |-> FALSE, st |-> [f \in {"T1"} |-> "done"]]>>
        /\ inq = [f \in F |-> f = "H"] /\ running = [f \in F |-> FALSE] /\ cur = [f \in F |-> 0] /\ got = [f \in F |-> <<>>]
        /\ lost = <<{}, {}>> /\ wrote = <<<<>>, <<>>>> /\ nv = 0 /\ leaving = FALSE /\ changes = 0
Members(i) == DOMAIN q[i].st
Settle(Q) == IF Q.latched /\ DOMAIN Q.st # {} /\ \A g \in DOMAIN Q.st : Q.st[g] = "done" THEN [Q EXCEPT !.el = Tail(@), !.latched = FALSE] ELSE Q
Latch(Q) == IF ~Q.latched /\ Q.el # <<>> THEN [Q EXCEPT !.latched = TRUE, !.st = [g \in DOMAIN @ |-> "new"]] ELSE Q
\* the run takes its input and a slot for its output
Start(f) ==
  /\ inq[f] /\ ~running[f] /\ inq' = [inq EXCEPT ![f] = FALSE] /\ running' = [running EXCEPT ![f] = TRUE]
  /\ LET i == Reads(f)
         Q == IF i = 0 \/ f \notin Members(i) THEN <<>> ELSE Latch(q[i])
         new == Q # <<>> /\ Q.latched /\ Q.st[f] = "new"
         q0 == IF new THEN [q EXCEPT ![i] = [Q EXCEPT !.st[f] = "held"]] ELSE IF Q # <<>> THEN [q EXCEPT ![i] = Q] ELSE q
         o == Writes(f)
         full == o # 0 /\ (f = "H" \/ new) /\ Len(q0[o].el) >= Cap - 1 IN
     /\ cur' = [cur EXCEPT ![f] = IF f = "H" THEN nv + 1 ELSE IF new THEN Head(Q.el) ELSE 0]
     /\ q' = IF full THEN [q0 EXCEPT ![o].el = SubSeq(@, 1, Len(@) - 1)] ELSE q0
     /\ lost' = IF full THEN [lost EXCEPT ![o] = @ \cup {q0[o].el[Len(q0[o].el)]}] ELSE lost
  /\ UNCHANGED <<got, nv, wrote, leaving, changes>>
End(f) ==
  /\ running[f] /\ running' = [running EXCEPT ![f] = FALSE] /\ cur' = [cur EXCEPT ![f] = 0]
  /\ LET i == Reads(f)
         o == Writes(f)
         put == o # 0 /\ cur[f] # 0 /\ (f = "H" => nv < MaxV)
         q1 == IF put THEN [q EXCEPT ![o].el = Append(@, cur[f])] ELSE q
         in == i # 0 /\ f \in Members(i)
         q2 == IF in /\ cur[f] # 0 THEN [q1 EXCEPT ![i] = Settle([@ EXCEPT !.st[f] = "done"])] ELSE q1
         gone == f = "T2" /\ leaving
         q3 == IF gone THEN [q2 EXCEPT ![2] = Settle([@ EXCEPT !.st = [g \in DOMAIN @ \ {"T2"} |-> @[g]]])] ELSE q2
         again == f = "H" \/ (in /\ ~gone /\ q3[i].el # <<>>) IN
     /\ q' = q3 /\ nv' = (IF f = "H" /\ put THEN nv + 1 ELSE nv) /\ wrote' = (IF put THEN [wrote EXCEPT ![o] = Append(@, cur[f])] ELSE wrote)
     /\ got' = (IF i # 0 /\ cur[f] # 0 THEN [got EXCEPT ![f] = Append(@, cur[f])] ELSE got)
     /\ leaving' = (leaving /\ ~gone)
     /\ inq' = [g \in F |-> inq[g] \/ (put /\ g \in Members(o)) \/ (g = f /\ again)]
  /\ UNCHANGED <<lost, changes>>
Join == /\ changes < MaxChanges /\ "T2" \notin Members(2) /\ ~leaving /\ changes' = changes + 1
        /\ q' = [q EXCEPT ![2].st = [g \in DOMAIN @ \cup {"T2"} |-> IF g = "T2" THEN "done" ELSE @[g]]]
        /\ got' = [got EXCEPT !["T2"] = <<>>]
        /\ inq' = [inq EXCEPT !["T2"] = @ \/ Wake]
        /\ UNCHANGED <<running, cur, lost, nv, wrote, leaving>>
Leave == /\ changes < MaxChanges /\ "T2" \in Members(2) /\ ~leaving /\ changes' = changes + 1
         /\ IF running["T2"] THEN leaving' = TRUE /\ q' = q
            ELSE leaving' = FALSE /\ q' = [q EXCEPT ![2] = Settle([@ EXCEPT !.st = [g \in DOMAIN @ \ {"T2"} |-> @[g]]])]
         /\ UNCHANGED <<inq, running, cur, got, lost, nv, wrote>>
Next == (\E f \in F : Start(f) \/ End(f)) \/ Join \/ Leave
Spec == Init /\ [][Next]_vars /\ \A f \in F : WF_vars(Start(f)) /\ WF_vars(End(f))
-----------------------------------------------------------------------------
Bounded == \A i \in {1, 2} : Len(q[i].el) < Cap
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Ordered == \A f \in {"M", "T1", "T2"} : Increasing(got[f])
\* conservation: what was written is read, counted as lost, or still there, and nothing is both
Kept == \A f \in {"M", "T1"} : LET i == Reads(f)
                                   left == Range(q[i].el) \ (Range(got[f]) \cup {cur[f]}) IN
          /\ Range(wrote[i]) = Range(got[f]) \cup lost[i] \cup left \cup ({cur[f]} \ {0})
          /\ (Range(got[f]) \cup {cur[f]}) \cap lost[i] = {} /\ left \cap lost[i] = {}
\* somebody will run for what there is to read
Woken == \A i \in {1, 2} : q[i].el # <<>> => \E f \in Members(i) : inq[f] \/ running[f]
\* what is being read is at the front of its queue
Front == \A f \in {"M", "T1", "T2"} : LET i == Reads(f) IN cur[f] # 0 => q[i].el # <<>> /\ Head(q[i].el) = cur[f] /\ q[i].latched
\* one that joined misses nothing after its first
NoHoles == LET s == got["T2"] IN s # <<>> => \A v \in Range(wrote[2]) \ lost[2] : v > s[1] /\ v < s[Len(s)] => v \in Range(s)
EveryFrame == \A v \in 1..MaxV : (nv >= v) ~> (v \in Range(got["M"]) \cup lost[1])
ToTheEnd == \A v \in 1..MaxV : (v \in Range(wrote[2])) ~> (v \in Range(got["T1"]) \cup lost[2])
=============================================================================

------------------------------ MODULE PoolImpl ------------------------------
(* The algorithm of the workers pool: a queue of enabled tasks under one lock, workers that take the first task that  *)
(* is neither running nor early, tasks that enable others when they end, and removal and stop. Time is abstract: a    *)
(* task is `early` until a Tick. The three constants are the places where the code once went wrong (see DESIGN.md);   *)
(* TLC refutes the properties for each of them set to FALSE.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS W, T, PopCurrent, RemoveQueued, OnePost, Controls
VARIABLES pc, job, en, queue, reg, flag, early, must, dead, ctl, rm, run, started, left
vars == <<pc, job, en, queue, reg, flag, early, must, dead, ctl, rm, run, started, left>>

Init == /\ pc = [w \in W |-> "look"] /\ job = [w \in W |-> 0] /\ en = [w \in W |-> {}]
        /\ queue = <<>> /\ reg = {} /\ flag = {} /\ early = {} /\ must = {} /\ dead = T
        /\ ctl = "idle" /\ rm = 0 /\ run = TRUE /\ started = {} /\ left = Controls

Push(q, S) == LET add == SetToSeq({t \in S : \A i \in 1..Len(q) : q[i] # t}) IN q \o add
RemoveAt1(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
First == IF \E i \in 1..Len(queue) : queue[i] \notin flag
         THEN CHOOSE i \in 1..Len(queue) : queue[i] \notin flag /\ \A j \in 1..(i - 1) : queue[j] \in flag ELSE 0

\* ---- workers
Look(w) ==
  /\ pc[w] = "look"
  /\ IF ~run THEN pc' = [pc EXCEPT ![w] = "done"] /\ UNCHANGED <<job, queue, flag>>
     ELSE IF First = 0 \/ (First # 0 /\ queue[First] \in early) THEN pc' = [pc EXCEPT ![w] = "sleep"] /\ UNCHANGED <<job, queue, flag>>
     ELSE /\ job' = [job EXCEPT ![w] = queue[First]] /\ flag' = flag \cup {queue[First]}
          /\ queue' = RemoveAt1(queue, IF PopCurrent THEN First ELSE 1)
          /\ pc' = [pc EXCEPT ![w] = "begin"]
  /\ UNCHANGED <<en, reg, early, must, dead, ctl, rm, run, started, left>>
Wake(w) == /\ pc[w] = "sleep" /\ pc' = [pc EXCEPT ![w] = "look"] /\ UNCHANGED <<job, en, queue, reg, flag, early, must, dead, ctl, rm, run, started, left>>
Begin(w) == /\ pc[w] = "begin" /\ pc' = [pc EXCEPT ![w] = "run"]
            /\ must' = must \ {job[w]} /\ started' = started \cup {job[w]}
            /\ UNCHANGED <<job, en, queue, reg, flag, early, dead, ctl, rm, run, left>>
End(w) == /\ pc[w] = "run" /\ started' = started \ {job[w]}
          /\ \E S \in SUBSET T, e \in BOOLEAN :
               /\ (left = 0 => S = {}) /\ en' = [en EXCEPT ![w] = S]
               /\ must' = must \cup (S \cap reg)
               /\ early' = IF e THEN early \cup {job[w]} ELSE early
          /\ pc' = [pc EXCEPT ![w] = IF OnePost THEN "post" ELSE "clear"]
          /\ UNCHANGED <<job, queue, reg, flag, dead, ctl, rm, run, left>>
Clear(w) == /\ pc[w] = "clear" /\ flag' = flag \ {job[w]} /\ pc' = [pc EXCEPT ![w] = "post"]
            /\ UNCHANGED <<job, en, queue, reg, early, must, dead, ctl, rm, run, started, left>>
Post(w) == /\ pc[w] = "post" /\ flag' = flag \ {job[w]}
           /\ queue' = Push(queue, en[w] \cap reg)
           /\ job' = [job EXCEPT ![w] = 0] /\ en' = [en EXCEPT ![w] = {}] /\ pc' = [pc EXCEPT ![w] = "look"]
           /\ UNCHANGED <<reg, early, must, dead, ctl, rm, run, started, left>>
Tick == /\ early # {} /\ early' = {} /\ UNCHANGED <<pc, job, en, queue, reg, flag, must, dead, ctl, rm, run, started, left>>

\* ---- the user of the pool: adds tasks, removes and destroys them, stops
Add(t) == /\ ctl = "idle" /\ t \notin reg /\ t \in dead /\ left > 0 /\ left' = left - 1
          /\ reg' = reg \cup {t} /\ dead' = dead \ {t} /\ queue' = Push(queue, {t}) /\ must' = must \cup {t}
          /\ UNCHANGED <<pc, job, en, flag, early, ctl, rm, run, started>>
Rm(t) == /\ ctl = "idle" /\ t \in reg /\ left > 0 /\ left' = left - 1 /\ ctl' = "removing" /\ rm' = t
         /\ reg' = reg \ {t} /\ must' = must \ {t}
         /\ queue' = IF RemoveQueued THEN SelectSeq(queue, LAMBDA x : x # t) ELSE queue
         /\ UNCHANGED <<pc, job, en, flag, early, dead, run, started>>
RmDone == /\ ctl = "removing" /\ rm \notin flag /\ ctl' = "idle" /\ dead' = dead \cup {rm} /\ rm' = 0
          /\ UNCHANGED <<pc, job, en, queue, reg, flag, early, must, run, started, left>>
Stop == /\ ctl = "idle" /\ run /\ left > 0 /\ left' = left - 1 /\ run' = FALSE /\ ctl' = "stopping"
        /\ UNCHANGED <<pc, job, en, queue, reg, flag, early, must, dead, rm, started>>
StopDone == /\ ctl = "stopping" /\ (\A w \in W : pc[w] = "done") /\ ctl' = "stopped"
            /\ UNCHANGED <<pc, job, en, queue, reg, flag, early, must, dead, rm, run, started, left>>
Finished == ctl = "stopped" /\ UNCHANGED vars

WStep(w) == Look(w) \/ Wake(w) \/ Begin(w) \/ End(w) \/ Clear(w) \/ Post(w)
Next == \/ \E w \in W : WStep(w)
        \/ Tick \/ RmDone \/ Stop \/ StopDone \/ Finished \/ \E t \in T : Add(t) \/ Rm(t)
Fair == /\ \A w \in W : WF_vars(WStep(w)) /\ WF_vars(Tick) /\ WF_vars(RmDone) /\ WF_vars(StopDone)
Spec == Init /\ [][Next]_vars /\ Fair

\* ---- the properties
NoOverlap == \A v, w \in W : v # w /\ job[v] # 0 => job[v] # job[w]                                       \* C01
NeverEarlyOrUnasked == \A i, j \in 1..Len(queue) : queue[i] = queue[j] => i = j                           \* C01
NeverTouched == \A t \in dead : (\A i \in 1..Len(queue) : queue[i] # t) /\ \A w \in W : job[w] # t        \* C03
QuietAfterStop == ctl = "stopped" => started = {} /\ \A w \in W : pc[w] = "done"                          \* C03
Enabled == \A t \in must : t \in reg /\ ((\E i \in 1..Len(queue) : queue[i] = t) \/ (\E w \in W : t \in en[w]) \/ (\E w \in W : pc[w] = "begin" /\ job[w] = t)) \* C02: nothing enabled is forgotten
EveryEnabledRuns == \A t \in T : (t \in must /\ run) ~> (t \notin must \/ ~run)                            \* C02
CallsReturn == /\ (ctl = "removing") ~> (ctl = "idle")
               /\ (ctl = "stopping") ~> (ctl = "stopped")                                                 \* C03
=============================================================================

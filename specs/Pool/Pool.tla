-------------------------------- MODULE Pool --------------------------------
(* What the workers pool promises, in terms of its interface events only.    *)
(* Objects (tasks) carry an id; times are in microseconds.                   *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES
  nw,       \* number of workers
  reg,      \* [object -> "no" | "adding" | "yes" | "removing" | "gone"]
  idof,     \* [object -> id]
  running,  \* objects being executed
  may,      \* [id -> number of enablings not yet answered by an execution]
  must,     \* objects that have to be executed (again)
  due,      \* [object -> earliest start of the next execution]
  late,     \* [object -> time spent due while a worker was free]
  total,    \* [object -> time spent due]
  rmwait,   \* [object -> idle time since its removal only waits for the pool]
  phase,    \* "up" | "stopping" | "down"
  stopwait, \* idle time since the stop only waits for the pool
  bound,    \* bound of `total` in this scenario
  timed     \* FALSE if the clock may jump while threads could run
vars == <<nw, reg, idof, running, may, must, due, late, total, rmwait, phase, stopwait, bound, timed>>

IDLE == 11000          \* the pool looks again at least every 10 ms (and 1 ms margin)
RMPOLL == 102000       \* a removal notices the end of an execution within 100 ms
Objs == DOMAIN reg
Active(o) == reg[o] \in {"adding", "yes", "removing"}
InUse(id) == \E o \in Objs : idof[o] = id /\ reg[o] = "yes"
Zero(S) == [x \in S |-> 0]
ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Count(id) == IF id \in DOMAIN may THEN may[id] ELSE 0

Init0(n, b, tm) ==
  /\ nw' = n /\ bound' = b /\ timed' = tm
  /\ reg' = <<>> /\ idof' = <<>> /\ running' = {} /\ may' = <<>> /\ must' = {} /\ due' = <<>>
  /\ late' = <<>> /\ total' = <<>> /\ rmwait' = <<>> /\ phase' = "up" /\ stopwait' = 0

\* An addition counts as an enabling from its call on; it obliges from its return on.
AddCall(o, id, t) ==
  /\ (IF o \in Objs THEN reg[o] \in {"no", "yes"} ELSE TRUE)
  /\ IF o \in Objs /\ reg[o] = "yes" THEN UNCHANGED vars
     ELSE /\ reg' = ext(reg, o, "adding") /\ idof' = ext(idof, o, id)
          /\ due' = ext(due, o, t) /\ late' = ext(late, o, 0) /\ total' = ext(total, o, 0) /\ rmwait' = ext(rmwait, o, 0)
          /\ IF id >= 0 /\ ~InUse(id) THEN may' = ext(may, id, Count(id) + 1) /\ must' = must \cup {o}
                                      ELSE UNCHANGED <<may, must>>
          /\ UNCHANGED <<nw, running, phase, stopwait, bound, timed>>
AddRet(o, id, r, t) ==
  /\ r = (reg[o] = "adding" /\ id >= 0 /\ ~InUse(id))
  /\ reg' = IF reg[o] = "adding" THEN [reg EXCEPT ![o] = IF r THEN "yes" ELSE "no"] ELSE reg
  /\ UNCHANGED <<nw, idof, running, may, must, due, late, total, rmwait, phase, stopwait, bound, timed>>

Start(o, t) ==
  /\ o \in Objs /\ Active(o) /\ o \notin running
  /\ phase # "down"
  /\ Count(idof[o]) > 0
  /\ due[o] <= t
  /\ Cardinality(running) < nw
  /\ running' = running \cup {o} /\ must' = must \ {o}
  /\ may' = [may EXCEPT ![idof[o]] = @ - 1]
  /\ late' = [late EXCEPT ![o] = 0] /\ total' = [total EXCEPT ![o] = 0]
  /\ UNCHANGED <<nw, reg, idof, due, rmwait, phase, stopwait, bound, timed>>

\* The end of an execution enables the tasks it names, and the task itself if it has input left.
End(o, en, ret, pend, t) ==
  LET ids == {en[i] : i \in 1..Len(en)} \cup (IF pend THEN {idof[o]} ELSE {}) IN
  /\ o \in running /\ running' = running \ {o}
  /\ due' = [due EXCEPT ![o] = t + ret]
  /\ may' = [i \in DOMAIN may \cup ids |-> Count(i) + (IF i \in ids THEN 1 ELSE 0)]
  /\ must' = must \cup {p \in Objs : reg[p] = "yes" /\ idof[p] \in ids}
  /\ UNCHANGED <<nw, reg, idof, late, total, rmwait, phase, stopwait, bound, timed>>

\* The pool may still look at a task it has just executed, as long as the removal has not returned.
Look(o) == o \in Objs /\ Active(o) /\ phase # "down" /\ UNCHANGED vars

RmCall(id) ==
  LET S == {o \in Objs : idof[o] = id /\ reg[o] = "yes"} IN
  /\ reg' = [o \in Objs |-> IF o \in S THEN "removing" ELSE reg[o]]
  /\ must' = must \ S
  /\ UNCHANGED <<nw, idof, running, may, due, late, total, rmwait, phase, stopwait, bound, timed>>
RmRet(id, r) ==
  LET S == {o \in Objs : idof[o] = id /\ reg[o] = "removing"} IN
  /\ r = (S # {})
  /\ S \cap running = {}
  /\ reg' = [o \in Objs |-> IF o \in S THEN "gone" ELSE reg[o]]
  /\ UNCHANGED <<nw, idof, running, may, must, due, late, total, rmwait, phase, stopwait, bound, timed>>

StopCall == /\ phase' = IF phase = "up" THEN "stopping" ELSE phase
            /\ UNCHANGED <<nw, reg, idof, running, may, must, due, late, total, rmwait, stopwait, bound, timed>>
StopRet == /\ phase # "up" /\ running = {} /\ phase' = "down"
           /\ UNCHANGED <<nw, reg, idof, running, may, must, due, late, total, rmwait, stopwait, bound, timed>>

\* Nothing can happen until time `to`: nobody who should be served may be left waiting too long.
Max(a, b) == IF a > b THEN a ELSE b
Pos(x) == IF x > 0 THEN x ELSE 0
Idle(t, to) ==
  LET waiting == {o \in must : reg[o] = "yes" /\ o \notin running}
      blocked(o) == \E u \in Objs : u # o /\ Active(u) /\ Count(idof[u]) > 0 /\ u \notin running /\ due[u] > t
      free == Cardinality(running) < nw IN
  /\ total' = [o \in Objs |-> IF o \in waiting THEN total[o] + Pos(to - Max(t, due[o])) ELSE total[o]]
  /\ late' = [o \in Objs |-> IF o \in waiting /\ free /\ ~blocked(o) THEN late[o] + Pos(to - Max(t, due[o])) ELSE late[o]]
  /\ rmwait' = [o \in Objs |-> IF reg[o] = "removing" /\ o \notin running THEN rmwait[o] + to - t ELSE rmwait[o]]
  /\ stopwait' = IF phase = "stopping" /\ running = {} THEN stopwait + to - t ELSE stopwait
  /\ timed =>
       /\ phase = "up" => \A o \in waiting : late'[o] <= IDLE /\ total'[o] <= bound
       /\ \A o \in Objs : rmwait'[o] <= RMPOLL
       /\ stopwait' <= IDLE
  /\ UNCHANGED <<nw, reg, idof, running, may, must, due, phase, bound, timed>>

\* ---- what follows from the above
TypeOK == /\ running \subseteq Objs /\ must \subseteq Objs
          /\ phase \in {"up", "stopping", "down"}
OneIdOneTask == \A o, p \in Objs : reg[o] = "yes" /\ reg[p] = "yes" /\ idof[o] = idof[p] => o = p
NegativeRefused == \A o \in Objs : reg[o] = "yes" => idof[o] >= 0
GoneIsQuiet == \A o \in Objs : reg[o] \in {"no", "gone"} => o \notin running
DownIsQuiet == phase = "down" => running = {}
Bounded == Cardinality(running) <= nw
Safety == TypeOK /\ OneIdOneTask /\ NegativeRefused /\ GoneIsQuiet /\ DownIsQuiet /\ Bounded
=============================================================================

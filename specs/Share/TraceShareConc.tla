--------------------------- MODULE TraceShareConc ---------------------------
(* What concurrent consumers of one input may observe, whatever the schedule. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, put, st, nxt, rel, hi
vars == <<put, st, nxt, rel, hi>>
E == Trace[l]
ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Ins == {c \in DOMAIN st : st[c] = "in"}
Reached == Max({nxt[c] - 1 : c \in DOMAIN nxt} \cup {0})   \* newest frame anybody has been told about
Init == l = 1 /\ put = 0 /\ st = <<>> /\ nxt = <<>> /\ rel = <<>> /\ hi = <<>>
Step(e) ==
  CASE e.op = "reset" -> put' = 0 /\ st' = <<>> /\ nxt' = <<>> /\ rel' = <<>> /\ hi' = <<>>
    [] e.op = "JoinCall" -> /\ st' = ext(st, e.c, "joining") /\ nxt' = ext(nxt, e.c, 0) /\ rel' = ext(rel, e.c, 0) /\ hi' = ext(hi, e.c, 0) /\ put' = put
    [] e.op = "JoinRet" -> /\ st' = ext(st, e.c, "in") /\ hi' = ext(hi, e.c, Reached + 2) /\ UNCHANGED <<put, nxt, rel>>
    [] e.op = "Put" -> put' = e.v /\ UNCHANGED <<st, nxt, rel, hi>>
    [] e.op = "Got" -> /\ st[e.c] = "in" /\ e.v >= 1 /\ e.v <= put
                       /\ (IF nxt[e.c] = 0 THEN e.v <= hi[e.c] ELSE e.v = nxt[e.c])
                       /\ \A d \in Ins \ {e.c} : nxt[d] # 0 => rel[d] >= e.v - 1     \* nobody else is still using an older frame
                       /\ nxt' = ext(nxt, e.c, e.v + 1) /\ rel' = (IF nxt[e.c] = 0 THEN ext(rel, e.c, e.v - 1) ELSE rel)
                       /\ UNCHANGED <<put, st, hi>>
    [] e.op = "RemCall" -> /\ e.v = nxt[e.c] - 1                                     \* the frame it holds has not changed
                           /\ rel' = ext(rel, e.c, e.v) /\ UNCHANGED <<put, st, nxt, hi>>
    [] e.op = "LeaveCall" -> st' = ext(st, e.c, "out") /\ UNCHANGED <<put, nxt, rel, hi>>
    [] e.op = "LeaveRet" -> UNCHANGED vars
    [] e.op = "Quiet" -> /\ \A d \in Ins : IF nxt[d] = 0 THEN hi[d] > e.total ELSE rel[d] = e.total
                         /\ UNCHANGED vars
    [] e.op = "End" -> UNCHANGED vars
Next == l <= Len(Trace) /\ l' = l + 1 /\ \E e \in {E} : Step(e)
Spec == Init /\ [][Next]_<<vars, l>>
Accepted == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

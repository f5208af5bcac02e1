----------------------------- MODULE TraceFlow -----------------------------
EXTENDS Flow, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
E == Trace[l]
Init == l = 1 /\ S = S0
Mem(e) == {<<x[1], x[2]>> : x \in Range(e.mem)}
Set(U, e) == InTime(S, e.t) /\ S' = Timed(U, e.t)
Known(e) == e.q \in DOMAIN S.q
Step(e) ==
  CASE e.op = "reset" -> S' = [S0 EXCEPT !.bound = e.bound]
    [] e.op = "Call" -> ~Busy(S) /\ Set(Call(S, e.k, Range(e.fs)), e)
    [] e.op = "Ret" -> /\ S.ctl.k = e.k
                       /\ LET U == Ret(S, Mem(e))
                              V == IF e.k = "filter" /\ e.ok THEN [U EXCEPT !.kind = Put(@, e.id, e.kind)]
                                   ELSE [U EXCEPT !.kind = [f \in DOMAIN @ \cap Range(e.fs) |-> @[f]]]
                              gone == DOMAIN S.kind \ Range(e.fs) IN
                          /\ Range(e.fs) = DOMAIN V.kind /\ gone \cap S.run = {}
                          /\ gone \subseteq (IF (e.ok /\ e.k \in {"rmpath", "rmfilter"}) \/ (~e.ok /\ e.k = "path") THEN S.ctl.fs ELSE {}) /\ (e.k = "rmfilter" /\ e.ok => gone = S.ctl.fs)
                          /\ \A x \in Mem(e) : x[2] \in DOMAIN S.q
                          /\ Set(V, e)
    [] e.op = "NewQ" -> e.q \notin DOMAIN S.q /\ Busy(S) /\ Set([S EXCEPT !.q = Put(@, e.q, NewQueue(e.w, e.r, e.cap))], e)
    [] e.op = "DelQ" -> Known(e) /\ Set([S EXCEPT !.q = Without(@, {e.q}), !.held = {x \in @ : x[2] # e.q}, !.late = {x \in @ : x[2] # e.q}], e)
    [] e.op = "Begin" -> CanBegin(S, e.f) /\ Set(Begin(S, e.f), e)
    [] e.op = "End" -> e.f \in S.run /\ Set(End(S, e.f), e)
    [] e.op = "R" -> Known(e) /\ e.f \in S.run /\ <<e.f, e.q>> \notin S.held /\ \E i \in Reads(S, e.q, e.f, <<e.v, e.ts>>) : Set(Read(S, e.q, e.f, i), e)
    [] e.op = "O" -> Known(e) /\ e.f \in S.run /\ Shows(S, e.q, e.f, <<e.v, e.ts>>) /\ Set(S, e)
    [] e.op = "W" -> Known(e) /\ e.f \in S.run /\ S.q[e.q].w = e.f /\ CanSlot(S, e.q, e.lo) /\ Set(Write(S, e.q, <<e.v, e.ts>>, e.lo), e)
    [] e.op = "L" -> Known(e) /\ e.f \in S.run /\ S.q[e.q].w = e.f /\ CanSlot(S, e.q, e.lo) /\ Set(Slot(S, e.q, e.lo), e)
    [] e.op = "D" -> Known(e) /\ S.q[e.q].w = e.f /\ CanSlot([S EXCEPT !.q[e.q].up = Many], e.q, e.lo) /\ Set(Slot(S, e.q, e.lo), e)
    [] e.op = "Idle" -> InTime(S, e.to) /\ S' = S
    [] e.op = "Hush" -> Set([S EXCEPT !.hush = TRUE], e)
    [] e.op = "Quiet" -> Drained(S) /\ Due(S) = {} /\ Set([S EXCEPT !.hush = FALSE], e)
    [] e.op = "Down" -> Set([S EXCEPT !.ctl = [k |-> "down", fs |-> DOMAIN S.kind]], e)
    [] e.op = "end" -> e.alive = 0 /\ e.live = 0 /\ DOMAIN S.q = {} /\ S.run = {} /\ S' = S0
Next == l <= Len(Trace) /\ l' = l + 1 /\ \E e \in {E} : Step(e)
Spec == Init /\ [][Next]_<<S, l>>
Accepted == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

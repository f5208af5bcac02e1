----------------------------- MODULE TracePipe -----------------------------
EXTENDS Pipe, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
Init == l = 1 /\ S = P0
\* the commands of a request in order: [s, r (entries of the reply)]
Err(ok) == <<[k |-> "error", ok |-> ok]>>
Listing(T) == <<[k |-> "filters", v |-> {[id |-> f, type |-> T.fl[f]] : f \in DOMAIN T.fl}],
                [k |-> "paths", v |-> {[id |-> p, org |-> T.pa[p].org, dst |-> T.pa[p].dst, w |-> T.pa[p].w, rd |-> T.pa[p].rd, mids |-> T.pa[p].mids] : p \in DOMAIN T.pa}]>>
One(T, c) == LET r == CASE c.a = "createFilter" -> CreateFilter(T, c.id, c.type) [] c.a = "createPath" -> CreatePath(T, c, FALSE)
                        [] c.a = "removePath" -> RemovePath(T, c.id) [] c.a = "removeFilter" -> RemoveFilter(T, c.id)
                        [] c.a = "stop" -> Stop(T) [] c.a = "event" -> Send(T, c.f, c.n, c.known)
                        [] c.a = "bad" -> [s |-> T, ok |-> FALSE] [] OTHER -> [s |-> T, ok |-> TRUE] IN
             [s |-> r.s, r |-> IF c.a = "getState" THEN Listing(T) ELSE Err(r.ok)]
RECURSIVE All(_, _, _)
All(T, cs, k) == IF k > Len(cs) THEN [s |-> T, r |-> <<>>] ELSE LET x == One(T, cs[k])  y == All(x.s, cs, k + 1) IN [s |-> y.s, r |-> x.r \o y.r]
SameEntry(x, y) == /\ x.k = y.k /\ x.k \in {"error", "filters", "paths"}
                   /\ IF x.k = "error" THEN x.ok = y.ok ELSE Range(x.v) = y.v /\ Len(x.v) = Cardinality(y.v)
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Norm(s) == [i \in 1..Len(s) |-> [f |-> s[i].f, w |-> s[i].w, rs |-> {<<x[1], x[2]>> : x \in Range(s[i].rs)}]]
LinksOk(T, s) == LET n == Norm(s) IN
  /\ Len(n) = Cardinality(DOMAIN T.lk)
  /\ \A i \in DOMAIN T.lk : LET v == [f |-> T.lk[i].f, w |-> T.lk[i].w, rs |-> T.lk[i].mem] IN Count(n, v) = Cardinality({j \in DOMAIN T.lk : T.lk[j] = T.lk[i]})
\* filters fed by themselves: frames may go round them for ever
RECURSIVE Ups(_, _)
Ups(T, F) == LET G == F \cup UNION {{T.lk[i].f : i \in InsOf(T, f)} : f \in F} IN IF G = F THEN F ELSE Ups(T, G)
Looped(T, f) == \E g \in Ups(T, {f}) : \E i \in InsOf(T, g) : g \in Ups(T, {T.lk[i].f})
\* what must be seen at the sinks: every source of every input
FlowOk(T, s) ==
  LET tails == {f \in DOMAIN T.fl : IsTail(T.fl[f])}
      ins == UNION {{<<m, T.lk[i].f>> : m \in {x \in T.lk[i].mem : x[1] \in tails}} : i \in DOMAIN T.lk}
      exp == {y \in ins : Sources(T, y[2], {}) # {} /\ ~Looped(T, y[2])}
      seen == SelectSeq(s, LAMBDA x : ~ \E y \in ins : y[1] = <<x.f, x.rd>> /\ Looped(T, y[2])) IN
  /\ \A x \in Range(seen) : \E y \in exp : y[1] = <<x.f, x.rd>> /\ Range(x.src) = Sources(T, y[2], {})
  /\ \A y \in exp : \E x \in Range(s) : y[1] = <<x.f, x.rd>> /\ Range(x.src) = Sources(T, y[2], {})
Obs(e, T) ==
  LET ev == {<<x[1], x[2]>> : x \in Range(e.evs)} IN
  /\ Range(e.fl) = DOMAIN T.fl /\ Range(e.pa) = DOMAIN T.pa /\ e.alive = Cardinality(DOMAIN T.fl)
  /\ e.live = Cardinality(DOMAIN T.lk) /\ LinksOk(T, e.lk)
  /\ e.nr = Cardinality(UNION {{<<i, m>> : m \in T.lk[i].mem} : i \in DOMAIN T.lk})
  /\ FlowOk(T, e.flow)
  /\ ev \subseteq T.evq /\ {x \in T.evq : IsHead(T.fl[x[1]]) \/ IsTail(T.fl[x[1]]) \/ Sources(T, x[1], {}) # {}} \subseteq ev
  /\ S' = [T EXCEPT !.evq = @ \ ev]
Step(e) ==
  CASE e.op = "reset" -> S' = P0
    [] e.op = "req" -> LET x == IF e.c.k = "cmds" THEN All(S, e.c.cmds, 1) ELSE [s |-> S, r |-> Err(FALSE)] IN
                       /\ Len(e.r) = Len(x.r) /\ \A i \in 1..Len(e.r) : SameEntry(e.r[i], x.r[i])
                       /\ Obs(e, x.s)
    [] e.op = "api" -> LET x == CreatePath(S, e.c, TRUE) IN e.created = x.valid /\ e.connected = x.ok /\ Obs(e, x.s)
    [] e.op = "end" -> e.alive = 0 /\ e.live = 0 /\ S' = P0
Next == l <= Len(Trace) /\ l' = l + 1 /\ \E e \in {Trace[l]} : Step(e)
Spec == Init /\ [][Next]_<<S, l>>
Accepted == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

---------------------------- MODULE TraceFilter ----------------------------
EXTENDS Filter, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
E == Trace[l]
Init == l = 1 /\ S = S0
PairSet(s) == {<<x[1], x[2]>> : x \in Range(s)}
Obs(e, T) == /\ PairSet(e.rc) = RConn(T) /\ PairSet(e.wc) = WConn(T) /\ e.live = Cardinality(DOMAIN T.lk)
             /\ S' = T
InOk(T, i, x, f) == LET c == Shown(T, i) IN x.v = c.v /\ (x.v # 0 => x.ts = c.ts /\ x.org >= c.olo /\ x.org <= c.ohi /\ x.seq = c.seq)
RunOk(e) ==
  LET f == e.f
      ex == Execute(S, f, e.t)
      p == Prepare(ex[1], f)
      P == [w \in {x.w : x \in Range(e.prod)} |-> LET x == CHOOSE y \in Range(e.prod) : y.w = w IN [v |-> x.v, ts |-> x.ts]]
      F == S.fl[f] IN
  /\ e.evs = ex[2]
  /\ e.called = p.called
  /\ IF ~e.called THEN /\ e.ret > 0 /\ Range(e.en) = (IF F.per THEN {f} ELSE {})
                       /\ Obs(e, Release(p.s, f, p.news))
     ELSE /\ e.ret = (IF F.kind \in {"H", "T"} THEN e.asked ELSE 0)
          /\ (F.kind \in {"H", "M"} => Range(e.outs) = {p.s.lk[i].w : i \in p.outs}) /\ Len(e.outs) = Cardinality(p.outs)
          /\ Len(e.ins) = Cardinality(p.ins)
          /\ IF F.kind \in {"N", "T"}
             THEN /\ {x.r : x \in Range(e.ins)} = {p.s.lk[i].mem[f].rd : i \in p.ins}
                  /\ \A x \in Range(e.ins) : LET i == LinkAt(p.s, f, x.r) IN InOk(p.s, i, x, f) /\ x.nw = (i \in p.news)
                  /\ Range(e.news) = {p.s.lk[i].mem[f].rd : i \in p.news} /\ Len(e.news) = Cardinality(p.news)
             ELSE \A x \in Range(e.ins) : \A i \in p.ins : InOk(p.s, i, x, f) /\ x.nw = (i \in p.news)
          /\ LET w1 == IF F.kind \in {"O", "N"} THEN [w \in {p.s.lk[i].w : i \in p.outs} |-> IF DOMAIN P = {} THEN 0 ELSE P[CHOOSE u \in DOMAIN P : TRUE]] ELSE P
                 PP == IF DOMAIN P = {} THEN <<>> ELSE w1 IN
             /\ Range(e.en) = Woken(S, f, p, PP)
             /\ Obs(e, Produce(ex[1], f, p, PP, e.tb, e.t))
Step(e) ==
  CASE e.op = "reset" -> S' = S0
    [] e.op = "F" -> Obs(e, [S EXCEPT !.fl = Put(@, e.f, NewFilter(e.kind, e.server, e.per, e.ft, e.sync, e.mr, e.mw, e.cap))])
    [] e.op = "refuse" -> Obs(e, IF e.what = "r" THEN [S EXCEPT !.fl[e.f].refR = e.on] ELSE IF e.what = "w" THEN [S EXCEPT !.fl[e.f].refW = e.on] ELSE [S EXCEPT !.fl[e.f].refQ = e.on])
    [] e.op = "conn" -> LET xa == Execute(S, e.a, e.t)
                            xb == Execute(xa[1], e.b, e.t)
                            self == e.a = e.b
                            T == IF self THEN S ELSE xb[1] IN
                        /\ (IF self THEN e.evsA = <<>> /\ e.evsB = <<>> ELSE e.evsA = xa[2] /\ e.evsB = xb[2])
                        /\ e.r = CanConnect(T, e.a, e.b, e.w, e.rd)
                        /\ Obs(e, IF e.r THEN Connect(T, e.a, e.b, e.w, e.rd) ELSE T)
    [] e.op = "share" -> /\ e.r = CanShare(S, e.a, e.b, e.ra, e.rb)
                         /\ Obs(e, IF e.r THEN Share(S, e.a, e.b, e.ra, e.rb) ELSE S)
    [] e.op = "discw" -> e.r /\ Obs(e, DropWriter(S, e.f, e.w))
    [] e.op = "discr" -> e.r /\ Obs(e, DropReader(S, e.f, e.rd))
    [] e.op = "run" -> RunOk(e)
    [] e.op = "ev" -> IF Immediate(S, e.f) THEN e.evs = (IF e.act \in {"a", "b"} THEN <<e.n>> ELSE <<>>) /\ Obs(e, S)
                      ELSE e.evs = <<>> /\ Obs(e, [S EXCEPT !.fl[e.f].evq = @ \cup {[ts |-> e.ts, n |-> e.n, delay |-> e.delay, known |-> e.act \in {"a", "b"}]}])
    [] e.op = "adv" -> Obs(e, S)
    [] e.op = "del" -> Obs(e, Destroy(S, e.f))
    [] e.op = "end" -> e.live = 0 /\ S' = S0
Next == l <= Len(Trace) /\ l' = l + 1 /\ \E e \in {E} : Step(e)
Spec == Init /\ [][Next]_<<S, l>>
Accepted == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

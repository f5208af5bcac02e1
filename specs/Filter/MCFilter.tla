------------------------------ MODULE MCFilter ------------------------------
(* Small worlds of filters: every reachable history within the bounds. World selects the filters and the operations. *)
EXTENDS Filter, TLC
CONSTANTS World, MaxV
VARIABLES S, nv, told, op
vars == <<S, nv, told, op>>
View == <<S, nv, told>>
X(x) == ToString(x)
H(mw, cap) == NewFilter("H", FALSE, FALSE, 0, FALSE, 0, mw, cap)
N(mr, ft) == NewFilter("N", FALSE, FALSE, ft, FALSE, mr, 1, 4)
T(mr, sync) == NewFilter("T", FALSE, FALSE, 0, sync, mr, 0, 4)
W == CASE World = "graph" -> [S0 EXCEPT !.fl = <<H(2, 3), N(1, 0), T(2, FALSE)>>]
       [] World = "share" -> [S0 EXCEPT !.fl = <<H(1, 4), T(1, FALSE), T(1, FALSE), T(1, FALSE)>>]
       [] World = "sync" -> Connect(Connect([S0 EXCEPT !.fl = <<H(1, 10), H(1, 4), T(2, TRUE)>>], 1, 3, 1, 1), 2, 3, 1, 2)
       [] World = "window" -> Connect(Connect([S0 EXCEPT !.fl = <<H(1, 4), H(1, 4), N(2, 40000), T(1, FALSE)>>], 1, 3, 1, 1), 2, 3, 1, 2)
Setup == CASE World = "graph" -> "F 1 H 0 0 0 0 0 2 3;F 2 N 0 0 0 0 1 1 4;F 3 T 0 0 0 0 2 0 4"
           [] World = "share" -> "F 1 H 0 0 0 0 0 1 4;F 2 T 0 0 0 0 1 0 4;F 3 T 0 0 0 0 1 0 4;F 4 T 0 0 0 0 1 0 4"
           [] World = "sync" -> "F 1 H 0 0 0 0 0 1 10;F 2 H 0 0 0 0 0 1 4;F 3 T 0 0 0 1 2 0 4;conn 1 3 1 1;conn 2 3 1 2"
           [] World = "window" -> "F 1 H 0 0 0 0 0 1 4;F 2 H 0 0 0 0 0 1 4;F 3 N 0 0 40000 0 2 1 4;F 4 T 0 0 0 0 1 0 4;conn 1 3 1 1;conn 2 3 1 2"
Init == S = W /\ nv = 0 /\ told = <<>> /\ op = Setup
Keep(U) == [k \in DOMAIN told \cap UNION {{<<f, U.lk[i].mem[f].rd>> : f \in DOMAIN U.lk[i].mem} : i \in DOMAIN U.lk} |-> told[k]]
Set(U) == S' = U /\ told' = Keep(U) /\ nv' = nv
Ts == CASE World \in {"graph", "share"} -> {nv * 1000} [] World = "sync" -> {20000 * nv, 60000 * nv} [] World = "window" -> {0, 20000, 40000, 60000, 130000}
Conn(a, b, w, rd) == op' = "conn " \o X(a) \o " " \o X(b) \o " " \o X(w) \o " " \o X(rd) /\ Set(IF CanConnect(S, a, b, w, rd) THEN Connect(S, a, b, w, rd) ELSE S)
Shr(a, b, ra, rb) == op' = "share " \o X(a) \o " " \o X(b) \o " " \o X(ra) \o " " \o X(rb) /\ Set(IF CanShare(S, a, b, ra, rb) THEN Share(S, a, b, ra, rb) ELSE S)
DW(f, w) == op' = "discw " \o X(f) \o " " \o X(w) /\ Set(DropWriter(S, f, w))
DR(f, rd) == op' = "discr " \o X(f) \o " " \o X(rd) /\ Set(DropReader(S, f, rd))
Run(f, ws, ts) == LET p == Prepare(S, f)
                      P == [w \in ws |-> [v |-> nv + w, ts |-> ts]]
                      U == IF p.called THEN Produce(S, f, p, P, 0, 0) ELSE Release(p.s, f, p.news)
                      new == {<<f, p.s.lk[i].mem[f].rd>> : i \in p.news} IN
  /\ ws # {} => p.called /\ ws \subseteq {p.s.lk[i].w : i \in p.outs}
  /\ nv + Cardinality(ws) <= MaxV
  /\ op' = "run " \o X(f) \o " 0" \o (IF 1 \in ws THEN " 1:" \o X(ts) ELSE "") \o (IF 2 \in ws THEN " 2:" \o X(ts) ELSE "")
  /\ S' = U /\ nv' = nv + (IF ws = {} THEN 0 ELSE MaxOf(ws))
  /\ told' = [k \in DOMAIN Keep(U) \cup new |-> IF k \in new THEN Head(p.s.lk[LinkAt(p.s, f, k[2])].q).v ELSE told[k]]
Outs(f) == IF S.fl[f].mw = 0 THEN {{}} ELSE IF S.fl[f].mw = 1 THEN {{}, {1}} ELSE {{}, {1}, {1, 2}}
Next ==
  \/ \E f \in DOMAIN S.fl : \E ws \in Outs(f) : \E ts \in Ts : Run(f, ws, ts)
  \/ World = "graph" /\ \/ \E x \in {<<1, 2, 1, 1>>, <<1, 3, 2, 1>>, <<2, 3, 1, 2>>, <<2, 2, 1, 1>>} : Conn(x[1], x[2], x[3], x[4])
                        \/ Shr(2, 3, 1, 1) \/ DW(1, 1) \/ DW(2, 1) \/ DR(2, 1) \/ DR(3, 1)
  \/ World = "share" /\ \/ Conn(1, 2, 1, 1) \/ DW(1, 1) \/ \E f \in 2..4 : DR(f, 1) \/ \E g \in 2..4 : Shr(f, g, 1, 1)
  \/ World = "sync" /\ (DW(1, 1) \/ DR(3, 2) \/ Conn(1, 3, 1, 1))
  \/ World = "window" /\ (Conn(3, 4, 1, 1) \/ DW(2, 1) \/ DR(4, 1))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
L == S.lk
Ends == /\ \A i \in DOMAIN L : L[i].wup \/ DOMAIN L[i].mem # {}
        /\ \A i, j \in DOMAIN L : i # j /\ L[i].wup /\ L[j].wup => <<L[i].wf, L[i].w>> # <<L[j].wf, L[j].w>>
        /\ \A f \in DOMAIN S.fl : /\ Cardinality(Rds(S, f)) = Cardinality(LinksOf(S, f)) /\ Cardinality(LinksOf(S, f)) <= S.fl[f].mr
                                  /\ Cardinality(OutsOf(S, f)) <= S.fl[f].mw /\ DOMAIN S.fl[f].seqn = {L[i].w : i \in OutsOf(S, f)}
Bounded == \A i \in DOMAIN L : Len(L[i].q) < L[i].cap
\* consecutive numbers: frames of a link are numbered one after the other, except for those counted as lost
Numbered == \A i \in DOMAIN L : LET q == L[i].q IN L[i].wup /\ L[i].lost = 0 /\ q # <<>> =>
              /\ \A k \in 1..(Len(q) - 1) : q[k + 1].seq = q[k].seq + 1
              /\ q[Len(q)].seq = S.fl[L[i].wf].seqn[L[i].w] - 1
              /\ L[i].last.v # 0 => q[1].seq = L[i].last.seq + 1
\* nobody is told twice, nor out of order
Once == [][\A k \in DOMAIN told : k \in DOMAIN told' => told'[k] >= told[k]]_vars
NoStall == \A i \in DOMAIN L : ~(L[i].latched /\ L[i].q # <<>> /\ DOMAIN L[i].mem # {} /\ \A f \in DOMAIN L[i].mem : L[i].mem[f].seen /\ L[i].mem[f].rel)
\* synchronised sinks: what is consumed is not ahead of what is held back, unless its queue is full; and a full queue is consumed
InOrder == \A f \in DOMAIN S.fl : S.fl[f].sync => LET go == ToConsume(S, f) IN
             /\ \A i \in go, j \in LinksOf(S, f) \ go : Has(S, i) /\ Has(S, j) => Full(S, i) \/ Cur(S, i) <= Cur(S, j) + Margin
             /\ (\E i \in LinksOf(S, f) : Full(S, i)) => go # {}
             /\ (LinksOf(S, f) # {} /\ \A i \in LinksOf(S, f) : Has(S, i)) => go # {}
Forward == [][\A f \in DOMAIN S.fl : S'.fl[f].sts >= S.fl[f].sts]_vars
=============================================================================

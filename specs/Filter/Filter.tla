------------------------------- MODULE Filter -------------------------------
(* Filters, the links between them and what one processing of a filter does. *)
(* Everything is a function of the state S = [fl, lk]:                       *)
(*  fl: filter id -> [kind, server, per, ft, sync, mr, mw, cap, sts (start of the current window), refR, refW, refQ, evq, seqn]
    lk: link id -> [wf, w, wup, cap, q, last, lost, latched, mem: filter id -> [rd, seen, rel]]
    frames: [v, ts, olo, ohi (bounds of the origin time), seq]; events: [ts, n, delay, known]                         *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in 1..Len(s)}
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxOf(X) == CHOOSE x \in X : \A y \in X : x >= y
NewFilter(kind, server, per, ft, sync, mr, mw, cap) ==
  [kind |-> kind, server |-> server, per |-> per, ft |-> ft, sync |-> sync, mr |-> mr, mw |-> mw, cap |-> cap, sts |-> 0,
   refR |-> FALSE, refW |-> FALSE, refQ |-> FALSE, evq |-> {}, seqn |-> <<>>]
S0 == [fl |-> <<>>, lk |-> <<>>]
Fresh(S) == MinOf((1..(Cardinality(DOMAIN S.lk) + 1)) \ DOMAIN S.lk)
NoFrame == [v |-> 0, ts |-> 0, olo |-> 0, ohi |-> 0, seq |-> 0]
Margin == 40000
-----------------------------------------------------------------------------
LinksOf(S, f) == {i \in DOMAIN S.lk : f \in DOMAIN S.lk[i].mem}        \* read by f
OutsOf(S, f) == {i \in DOMAIN S.lk : S.lk[i].wf = f /\ S.lk[i].wup}    \* f's writers
Rds(S, f) == {S.lk[i].mem[f].rd : i \in LinksOf(S, f)}
LinkAt(S, f, rd) == CHOOSE i \in LinksOf(S, f) : S.lk[i].mem[f].rd = rd
OutAt(S, f, w) == CHOOSE i \in OutsOf(S, f) : S.lk[i].w = w
Up(S, i) == S.lk[i].wup /\ DOMAIN S.lk[i].mem # {}
RConn(S) == UNION {{<<f, S.lk[i].mem[f].rd>> : f \in DOMAIN S.lk[i].mem} : i \in {j \in DOMAIN S.lk : Up(S, j)}}
WConn(S) == {<<S.lk[i].wf, S.lk[i].w>> : i \in {j \in DOMAIN S.lk : Up(S, j)}}
Gc(S) == [S EXCEPT !.lk = [i \in {j \in DOMAIN S.lk : S.lk[j].wup \/ DOMAIN S.lk[j].mem # {}} |-> S.lk[i]]]
-----------------------------------------------------------------------------
\* Links
CanConnect(S, a, b, w, rd) ==
  LET A == S.fl[a]  B == S.fl[b] IN
  /\ a # b /\ ~A.refW /\ ~A.refQ /\ ~B.refR
  /\ Cardinality(OutsOf(S, a)) < A.mw /\ w \notin {S.lk[i].w : i \in OutsOf(S, a)}
  /\ Cardinality(LinksOf(S, b)) < B.mr /\ rd \notin Rds(S, b)
Connect(S, a, b, w, rd) ==
  [S EXCEPT !.fl[a].seqn = Put(@, w, 0),
            !.lk = Put(@, Fresh(S), [wf |-> a, w |-> w, wup |-> TRUE, cap |-> S.fl[a].cap, q |-> <<>>, last |-> NoFrame, lost |-> 0, latched |-> FALSE,
                                 mem |-> Put(<<>>, b, [rd |-> rd, seen |-> FALSE, rel |-> FALSE])])]
CanShare(S, a, b, ra, rb) ==
  /\ a # b /\ ra \in Rds(S, a) /\ Up(S, LinkAt(S, a, ra)) /\ ~S.fl[b].refR
  /\ Cardinality(LinksOf(S, b)) < S.fl[b].mr /\ rb \notin Rds(S, b) /\ b \notin DOMAIN S.lk[LinkAt(S, a, ra)].mem
Share(S, a, b, ra, rb) == LET i == LinkAt(S, a, ra) IN
  [S EXCEPT !.lk[i].mem = Put(@, b, [rd |-> rb, seen |-> S.lk[i].latched, rel |-> S.lk[i].latched])]
Settle(L) == IF L.latched /\ L.q # <<>> /\ DOMAIN L.mem # {} /\ \A f \in DOMAIN L.mem : L.mem[f].seen /\ L.mem[f].rel
             THEN [L EXCEPT !.q = Tail(@), !.last = Head(L.q), !.latched = FALSE] ELSE L
DropWriter(S, f, w) == IF w \notin {S.lk[i].w : i \in OutsOf(S, f)} THEN S
                       ELSE Gc([S EXCEPT !.lk[OutAt(S, f, w)].wup = FALSE, !.fl[f].seqn = Drop(@, w)])
DropReader(S, f, rd) == IF rd \notin Rds(S, f) THEN S ELSE LET i == LinkAt(S, f, rd) IN
                        Gc([S EXCEPT !.lk[i] = Settle([@ EXCEPT !.mem = Drop(@, f)])])
RECURSIVE DropReaders(_, _, _), DropWriters(_, _, _)
DropReaders(S, f, X) == IF X = {} THEN S ELSE LET x == MinOf(X) IN DropReaders(DropReader(S, f, x), f, X \ {x})
DropWriters(S, f, X) == IF X = {} THEN S ELSE LET x == MinOf(X) IN DropWriters(DropWriter(S, f, x), f, X \ {x})
Destroy(S, f) == LET T == DropWriters(DropReaders(S, f, Rds(S, f)), f, {S.lk[i].w : i \in OutsOf(S, f)}) IN [T EXCEPT !.fl = Drop(@, f)]
-----------------------------------------------------------------------------
\* Events: executed in time order while the oldest one is due
RECURSIVE Execute(_, _, _)
Execute(S, f, tb) == \* <<state, executed>>
  LET Q == S.fl[f].evq IN
  IF Q = {} THEN <<S, <<>>>>
  ELSE LET e == CHOOSE x \in Q : \A y \in Q : x.ts <= y.ts
           due == tb - e.ts >= e.delay * 1000 IN
       IF ~due THEN <<S, <<>>>>
       ELSE LET r == Execute([S EXCEPT !.fl[f].evq = Q \ {e}], f, tb) IN
            <<r[1], (IF e.known THEN <<e.n>> ELSE <<>>) \o r[2]>>
Immediate(S, f) == S.fl[f].kind \in {"H", "T"}
-----------------------------------------------------------------------------
\* Inputs
Cur(S, i) == Head(S.lk[i].q).ts
Has(S, i) == S.lk[i].q # <<>>
Full(S, i) == Len(S.lk[i].q) * 10 >= S.lk[i].cap * 9
ToConsume(S, f) == \* the links it may consume from
  LET R == LinksOf(S, f)
      some == {i \in R : Has(S, i)}
      wall == IF some = {} THEN 0 ELSE MaxOf({Cur(S, i) : i \in some} \cup {0})
      go == {i \in some : Full(S, i) \/ Cur(S, i) < wall - Margin} IN
  IF ~S.fl[f].sync THEN R ELSE IF some # R \/ go # {} THEN go ELSE R
IsNew(S, f, i) == LET L == S.lk[i] IN Has(S, i) /\ (~L.latched \/ ~L.mem[f].seen)
Take(S, f, X) == \* f gets a frame from the links X
  [S EXCEPT !.lk = [i \in DOMAIN S.lk |-> LET L == S.lk[i] IN
     IF i \notin X \/ ~Has(S, i) THEN L
     ELSE [L EXCEPT !.latched = TRUE, !.mem = [g \in DOMAIN L.mem |->
        [rd |-> L.mem[g].rd, seen |-> (L.latched /\ L.mem[g].seen) \/ g = f, rel |-> L.latched /\ L.mem[g].rel]]]]]
Release(S, f, X) == [S EXCEPT !.lk = [i \in DOMAIN S.lk |-> IF i \in X THEN Settle([S.lk[i] EXCEPT !.mem[f].rel = TRUE]) ELSE S.lk[i]]]
Shown(S, i) == IF Has(S, i) THEN Head(S.lk[i].q) ELSE S.lk[i].last
\* Window of a filter with a frame time: <<process?, new start of the window>>
Window(S, f, N) ==
  LET F == S.fl[f]
      future == {i \in N : Cur(S, i) > F.sts + F.ft}
      past == {i \in N : Cur(S, i) < F.sts}
      valid == N \ (future \cup past) IN
  IF valid # {} THEN <<TRUE, F.sts + F.ft>>
  ELSE IF past # {} THEN <<FALSE, F.sts>>
  ELSE IF future # {} THEN <<TRUE, MinOf({Cur(S, i) : i \in future})>> ELSE <<FALSE, F.sts>>
\* What a processing starts with: [s, ok, ins (links shown), news (links with a new frame), outs (links to write)]
Origin(S, f) ==
  LET F == S.fl[f] IN
  IF F.mr = 0 THEN [s |-> S, ok |-> TRUE, ins |-> {}, news |-> {}]
  ELSE LET dead == {S.lk[i].mem[f].rd : i \in {j \in LinksOf(S, f) : ~Up(S, j)}}
           T == DropReaders(S, f, dead)
           go == ToConsume(T, f)
           X == IF F.ft = 0 \/ go = {} THEN go ELSE LinksOf(T, f)
           N == {i \in X : IsNew(T, f, i)}
           wn == IF F.ft = 0 THEN <<N # {}, F.sts>> ELSE Window(T, f, N) IN
       [s |-> [Take(T, f, X) EXCEPT !.fl[f].sts = wn[2]], ok |-> wn[1], ins |-> X, news |-> N]
Room(S, f) == \* every output gets a slot: a full queue loses its newest frame
  LET dead == {S.lk[i].w : i \in {j \in OutsOf(S, f) : ~Up(S, j)}}
      T == DropWriters(S, f, dead)
      full == {i \in OutsOf(T, f) : Len(T.lk[i].q) >= T.lk[i].cap - 1} IN
  [T EXCEPT !.lk = [i \in DOMAIN T.lk |-> IF i \in full THEN [T.lk[i] EXCEPT !.q = SubSeq(@, 1, Len(@) - 1), !.lost = @ + 1] ELSE T.lk[i]]]
Prepare(S, f) ==
  LET F == S.fl[f]
      o == Origin(S, f)
      need == o.ok \/ F.server
      T == IF F.mw > 0 /\ need THEN Room(o.s, f) ELSE o.s
      outs == IF need THEN OutsOf(T, f) ELSE {}
      called == F.server \/ (o.ok /\ (F.mw = 0 \/ outs # {})) IN
  [s |-> T, called |-> called, ins |-> o.ins, news |-> o.news, outs |-> outs]
\* P: function from produced writers to [v, ts]; origin times of new frames lie in lo..hi
Produce(S, f, p, P, lo, hi) ==
  LET F == S.fl[f]
      in == Shown(p.s, CHOOSE i \in p.ins : TRUE)
      fresh == F.kind \in {"H", "N"}
      Fr(w) == [v |-> P[w].v, ts |-> P[w].ts, olo |-> IF fresh THEN lo ELSE in.olo, ohi |-> IF fresh THEN hi ELSE in.ohi,
                seq |-> IF fresh THEN p.s.fl[f].seqn[w] ELSE in.seq]
      T == [p.s EXCEPT !.lk = [i \in DOMAIN p.s.lk |-> LET L == p.s.lk[i] IN
              IF i \in p.outs /\ L.w \in DOMAIN P THEN [L EXCEPT !.q = Append(@, Fr(L.w))] ELSE L],
            !.fl[f].seqn = [w \in DOMAIN @ |-> IF fresh /\ w \in DOMAIN P THEN @[w] + 1 ELSE @[w]]] IN
  Release(T, f, p.news)
Woken(S, f, p, P) == UNION {DOMAIN p.s.lk[i].mem : i \in {j \in p.outs : p.s.lk[j].w \in DOMAIN P}} \cup (IF S.fl[f].per THEN {f} ELSE {})
=============================================================================

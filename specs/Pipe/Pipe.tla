-------------------------------- MODULE Pipe --------------------------------
(* The pipeline graph and the commands that change it, as functions of the state
   S = [fl: filter id -> type, pa: path id -> [org, dst, w, rd, mids, hops], lk: link id -> [f, w, mem: set of <<filter, reader>>], pool, evq: set of <<filter, n>>]
   hops: sequence of [i: link id, f, rd]; writer and reader ids chosen by the manager are -1                               *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in 1..Len(s)}
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Types == {"receiver", "demuxer", "v4lcapture", "transmitter", "dasher", "videoDecoder", "videoEncoder", "videoResampler", "audioDecoder", "audioEncoder", "sharedMemory", "videoMixer", "audioMixer", "videoSplitter"}
MR(t) == CASE t \in {"receiver", "demuxer", "v4lcapture"} -> 0 [] t \in {"transmitter", "videoMixer"} -> 3 [] t \in {"dasher", "audioMixer"} -> 2 [] OTHER -> 1
MW(t) == CASE t \in {"receiver", "videoSplitter"} -> 3 [] t = "demuxer" -> 2 [] t \in {"transmitter", "dasher"} -> 0 [] OTHER -> 1
IsHead(t) == MR(t) = 0
IsTail(t) == MW(t) = 0
P0 == [fl |-> <<>>, pa |-> <<>>, lk |-> <<>>, pool |-> TRUE, evq |-> {}]
Fresh(S) == CHOOSE i \in 1..(Cardinality(DOMAIN S.lk) + 1) : i \notin DOMAIN S.lk
-----------------------------------------------------------------------------
OutsOf(S, f) == {i \in DOMAIN S.lk : S.lk[i].f = f}
Ws(S, f) == {S.lk[i].w : i \in OutsOf(S, f)} \ {-1}
InsOf(S, f) == {i \in DOMAIN S.lk : \E m \in S.lk[i].mem : m[1] = f}
NIns(S, f) == Cardinality(UNION {{<<i, m>> : m \in {x \in S.lk[i].mem : x[1] = f}} : i \in DOMAIN S.lk})
Rs(S, f) == {m[2] : m \in {x \in UNION {S.lk[i].mem : i \in DOMAIN S.lk} : x[1] = f}} \ {-1}
GenW(S, f) == IF MW(S.fl[f]) = 1 THEN 1 ELSE -1
GenR(S, f) == IF MR(S.fl[f]) = 1 THEN 1 ELSE -1
CanLink(S, a, b, w, rd) == /\ a # b /\ Cardinality(OutsOf(S, a)) < MW(S.fl[a]) /\ w \notin Ws(S, a)
                           /\ NIns(S, b) < MR(S.fl[b]) /\ rd \notin Rs(S, b)
Groupable(S, a, b, w, rd) == w # -1 /\ \E i \in OutsOf(S, a) : /\ S.lk[i].w = w /\ \A m \in S.lk[i].mem : m[1] # b
                             /\ NIns(S, b) < MR(S.fl[b]) /\ rd \notin Rs(S, b)
\* one hop of a path: [ok, s, hop]
Hop(S, a, b, w, rd, rdg, first) ==
  IF CanLink(S, a, b, w, rd) THEN LET i == Fresh(S) IN [ok |-> TRUE, s |-> [S EXCEPT !.lk = Put(@, i, [f |-> a, w |-> w, mem |-> {<<b, rd>>}])], hop |-> [i |-> i, f |-> b, rd |-> rd]]
  ELSE IF first /\ Groupable(S, a, b, w, rdg) THEN LET i == CHOOSE j \in OutsOf(S, a) : S.lk[j].w = w IN
       [ok |-> TRUE, s |-> [S EXCEPT !.lk[i].mem = @ \cup {<<b, rdg>>}], hop |-> [i |-> i, f |-> b, rd |-> rdg]]
  ELSE [ok |-> FALSE, s |-> S, hop |-> [i |-> 0, f |-> 0, rd |-> 0]]
RECURSIVE Hops(_, _, _, _, _)
Hops(S, ids, w, rd, k) == \* links filters k, k+1... of the path: [ok, s, hops]
  IF k = Len(ids) THEN [ok |-> TRUE, s |-> S, hops |-> <<>>]
  ELSE LET a == ids[k]  b == ids[k + 1]  last == k + 1 = Len(ids)
           h == Hop(S, a, b, IF k = 1 THEN w ELSE GenW(S, a), IF last THEN rd ELSE GenR(S, b), IF last THEN rd ELSE 1, k = 1)
           r == Hops(h.s, ids, w, rd, k + 1) IN
       IF ~h.ok THEN [ok |-> FALSE, s |-> S, hops |-> <<>>] ELSE [ok |-> r.ok, s |-> r.s, hops |-> <<h.hop>> \o r.hops]
-----------------------------------------------------------------------------
\* Commands: [s, ok]
CreateFilter(S, id, t) == IF id >= 0 /\ id \notin DOMAIN S.fl /\ t \in Types THEN [s |-> [S EXCEPT !.fl = Put(@, id, t), !.pool = TRUE], ok |-> TRUE] ELSE [s |-> S, ok |-> FALSE]
ValidPath(S, c) == /\ c.id \notin DOMAIN S.pa /\ c.org \in DOMAIN S.fl /\ c.dst \in DOMAIN S.fl
                   /\ Range(c.mids) \subseteq DOMAIN S.fl \ {c.org, c.dst} /\ Cardinality(Range(c.mids)) = Len(c.mids)
\* keep: a path that cannot be connected remains (created but not connected)
CreatePath(S, c, keep) ==
  IF ~ValidPath(S, c) THEN [s |-> S, ok |-> FALSE, valid |-> FALSE]
  ELSE LET w == IF c.w < 0 THEN GenW(S, c.org) ELSE c.w
           rd == IF c.rd < 0 THEN GenR(S, c.dst) ELSE c.rd
           r == Hops(S, <<c.org>> \o c.mids \o <<c.dst>>, w, rd, 1)
           P == [org |-> c.org, dst |-> c.dst, w |-> w, rd |-> rd, mids |-> c.mids, hops |-> r.hops] IN
       IF r.ok THEN [s |-> [r.s EXCEPT !.pa = Put(@, c.id, P)], ok |-> TRUE, valid |-> TRUE]
       ELSE [s |-> IF keep THEN [S EXCEPT !.pa = Put(@, c.id, [P EXCEPT !.hops = <<>>])] ELSE S, ok |-> FALSE, valid |-> TRUE]
Uses(S, p) == {S.pa[p].org, S.pa[p].dst} \cup Range(S.pa[p].mids)
Kill(S, F) == [S EXCEPT !.fl = [f \in DOMAIN S.fl \ F |-> S.fl[f]], !.evq = {e \in @ : e[1] \notin F}]
Unlink(S, H) == [S EXCEPT !.lk = LET L == [i \in DOMAIN S.lk |-> [S.lk[i] EXCEPT !.mem = @ \ {<<h.f, h.rd>> : h \in {x \in H : x.i = i}}]] IN
                                [i \in {j \in DOMAIN L : L[j].mem # {}} |-> L[i]]]
RemovePath(S, id) == IF id \notin DOMAIN S.pa THEN [s |-> S, ok |-> TRUE]
  ELSE LET T == [Unlink(S, Range(S.pa[id].hops)) EXCEPT !.pa = Drop(S.pa, id)] IN
       [s |-> Kill(T, Uses(S, id) \ UNION {Uses(T, p) : p \in DOMAIN T.pa}), ok |-> TRUE]
RemoveFilter(S, id) == IF id \in DOMAIN S.fl /\ \A p \in DOMAIN S.pa : id \notin Uses(S, p) THEN [s |-> Kill(S, {id}), ok |-> TRUE] ELSE [s |-> S, ok |-> FALSE]
Stop(S) == [s |-> [P0 EXCEPT !.pool = FALSE], ok |-> S.pool]
Send(S, f, n, known) == IF f \in DOMAIN S.fl THEN [s |-> IF known THEN [S EXCEPT !.evq = @ \cup {<<f, n>>}] ELSE S, ok |-> TRUE] ELSE [s |-> S, ok |-> FALSE]
-----------------------------------------------------------------------------
\* Flow: the sources whose frames reach an input
RECURSIVE Sources(_, _, _)
Sources(S, f, seen) == IF IsHead(S.fl[f]) THEN {f} ELSE UNION {Sources(S, S.lk[i].f, seen \cup {f}) : i \in {j \in InsOf(S, f) : S.lk[j].f \notin seen \cup {f}}}
\* Invariants
Whole(S) == /\ \A p \in DOMAIN S.pa : /\ Uses(S, p) \subseteq DOMAIN S.fl
                                      /\ S.pa[p].hops # <<>> => LET ids == <<S.pa[p].org>> \o S.pa[p].mids \o <<S.pa[p].dst>>  H == S.pa[p].hops IN
                                         /\ Len(H) = Len(ids) - 1
                                         /\ \A k \in 1..Len(H) : H[k].i \in DOMAIN S.lk /\ S.lk[H[k].i].f = ids[k] /\ H[k].f = ids[k + 1] /\ <<H[k].f, H[k].rd>> \in S.lk[H[k].i].mem
            /\ \A i \in DOMAIN S.lk : \A m \in S.lk[i].mem : \E p \in DOMAIN S.pa : \E k \in 1..Len(S.pa[p].hops) : S.pa[p].hops[k] = [i |-> i, f |-> m[1], rd |-> m[2]]
            /\ \A i \in DOMAIN S.lk : S.lk[i].mem # {}
Limits(S) == \A f \in DOMAIN S.fl : /\ NIns(S, f) <= MR(S.fl[f]) /\ Cardinality(OutsOf(S, f)) <= MW(S.fl[f])
                                    /\ \A i, j \in OutsOf(S, f) : i # j /\ S.lk[i].w # -1 => S.lk[i].w # S.lk[j].w
=============================================================================

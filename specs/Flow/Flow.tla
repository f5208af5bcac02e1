-------------------------------- MODULE Flow --------------------------------
(* A running pipeline: frames flow through the queues between the filters that the pool runs, while paths come and go.           *)
(* S = [q, run, kind, ctl, late, held, since, hush, bound]                                                                        *)
(*  q: queue -> [w (its writer), cap, vals (frames written and not discarded, in order), com (how many of them are published),
                 lo (frames discarded so far), nxt: reader -> [n (index of the next frame for it), x (known exactly)], up (most frames
                 it may have held since its writer began)]
    run: filters being run; kind: filter -> its kind; ctl: control operation in progress ("" for none) and the filters it names;
    late: <<f, q>> that leave when f ends; held: <<f, q>> read in the current run of f; since: filter that must run -> from when    *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in 1..Len(s)}
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, X) == [y \in DOMAIN f \ X |-> f[y]]
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxOf(X) == CHOOSE x \in X : \A y \in X : x >= y
Many == 1000000
Empty == [x \in {} |-> 0]
S0 == [q |-> Empty, run |-> {}, kind |-> Empty, ctl |-> [k |-> "", fs |-> {}], late |-> {}, held |-> {}, since |-> Empty, hush |-> FALSE, bound |-> 0]
Busy(S) == S.ctl.k # ""
NewQueue(w, r, cap) == [w |-> w, cap |-> cap, vals |-> <<>>, com |-> 0, lo |-> 0, nxt |-> Put(Empty, r, [n |-> 1, x |-> TRUE]), up |-> Many]
Exact(Q) == \A g \in DOMAIN Q.nxt : Q.nxt[g].x
\* frames it holds: at most, at least
Most(S, q) == LET Q == S.q[q] IN
  IF DOMAIN Q.nxt = {} \/ ~Exact(Q) THEN Many
  ELSE Len(Q.vals) - MinOf({Q.nxt[g].n - 1 - (IF <<g, q>> \in S.held THEN 1 ELSE 0) : g \in DOMAIN Q.nxt})
Least(S, q) == LET Q == S.q[q] IN
  IF DOMAIN Q.nxt = {} \/ ~Exact(Q) \/ Busy(S) \/ \E x \in S.late : x[2] = q THEN 0
  ELSE Len(Q.vals) - MinOf({Q.nxt[g].n - 1 : g \in DOMAIN Q.nxt})
-----------------------------------------------------------------------------
\* f has a frame to read in q: published, and the one before it is released by everybody
Ready(S, q, f) == LET Q == S.q[q] IN
  /\ f \in DOMAIN Q.nxt /\ Q.nxt[f].x /\ Q.nxt[f].n <= Q.com /\ <<f, q>> \notin S.late
  /\ \A g \in DOMAIN Q.nxt \ {f} : Q.nxt[g].x /\ (Q.nxt[g].n > Q.nxt[f].n \/ (Q.nxt[g].n = Q.nxt[f].n /\ <<g, q>> \notin S.held))
Due(S) == {f \in DOMAIN S.kind \ S.run : ~(Busy(S) /\ f \in S.ctl.fs) /\ IF S.kind[f] = "H" THEN ~S.hush ELSE \E q \in DOMAIN S.q : Ready(S, q, f)}
Timed(S, t) == [S EXCEPT !.since = [f \in Due(S) |-> IF f \in DOMAIN S.since THEN S.since[f] ELSE t]]
InTime(S, t) == \A f \in DOMAIN S.since : t - S.since[f] <= S.bound
\* a filter without a connected output discards its input
Dry(S, f) == S.kind[f] \notin {"H", "T"} /\ (Busy(S) \/ ~\E q \in DOMAIN S.q : S.q[q].w = f /\ DOMAIN S.q[q].nxt # {})
-----------------------------------------------------------------------------
CanBegin(S, f) == f \notin S.run /\ (f \in DOMAIN S.kind \/ (S.ctl.k = "filter" /\ f \in S.ctl.fs))
Begin(S, f) == [S EXCEPT !.run = @ \cup {f}, !.q = [q \in DOMAIN @ |-> IF @[q].w = f THEN [@[q] EXCEPT !.up = IF Busy(S) THEN Many ELSE Most(S, q)] ELSE @[q]]]
End(S, f) ==
  LET silent == f \in DOMAIN S.kind /\ ~(\E x \in S.held : x[1] = f) /\ Dry(S, f)
      gone(q) == IF <<f, q>> \in S.late THEN {f} ELSE {} IN
  [S EXCEPT !.run = @ \ {f}, !.held = {x \in @ : x[1] # f}, !.late = {x \in @ : x[1] # f},
            !.q = [q \in DOMAIN @ |-> LET Q == @[q] IN
                   [Q EXCEPT !.com = IF Q.w = f THEN Len(Q.vals) ELSE @,
                             !.nxt = LET N == Without(@, gone(q)) IN IF silent /\ f \in DOMAIN N THEN [N EXCEPT ![f].x = FALSE] ELSE N]]]
\* indexes that the frame x of q, which f reads, may have
Reads(S, q, f, x) == LET Q == S.q[q] IN
  IF f \in DOMAIN Q.nxt THEN IF Q.nxt[f].x THEN {i \in {Q.nxt[f].n} : i <= Len(Q.vals) /\ Q.vals[i] = x} ELSE {i \in Q.nxt[f].n..Len(Q.vals) : Q.vals[i] = x}
  ELSE IF Busy(S) /\ f \in S.ctl.fs THEN {i \in MaxOf({1} \cup {Q.nxt[g].n - 1 : g \in DOMAIN Q.nxt})..Len(Q.vals) : Q.vals[i] = x} ELSE {}
Read(S, q, f, i) == [S EXCEPT !.held = @ \cup {<<f, q>>}, !.q[q].nxt = Put(@, f, [n |-> i + 1, x |-> TRUE])]
Shows(S, q, f, x) == LET Q == S.q[q] IN f \in DOMAIN Q.nxt /\ Q.nxt[f].x /\ Q.nxt[f].n > 1 => Q.vals[Q.nxt[f].n - 1] = x
\* the writer takes a slot: a full queue loses its newest frame, which nobody has read; it is counted
CanSlot(S, q, lo) == LET Q == S.q[q] IN
  \/ lo = Q.lo /\ Least(S, q) <= Q.cap - 2
  \/ lo = Q.lo + 1 /\ Q.up >= Q.cap - 1 /\ Q.com > 0 /\ \A g \in DOMAIN Q.nxt : Q.nxt[g].n <= Len(Q.vals)
Slot(S, q, lo) == IF lo = S.q[q].lo THEN S ELSE [S EXCEPT !.q[q].lo = lo, !.q[q].vals = SubSeq(@, 1, Len(@) - 1), !.q[q].com = @ - 1]
Write(S, q, x, lo) == LET T == Slot(S, q, lo) IN [T EXCEPT !.q[q].vals = Append(@, x)]
-----------------------------------------------------------------------------
Call(S, k, fs) == [S EXCEPT !.ctl = [k |-> k, fs |-> fs], !.q = [q \in DOMAIN @ |-> [@[q] EXCEPT !.up = Many]]]
\* the operation ended: mem are the pairs <<reader, queue>> there are
Ret(S, mem) ==
  LET gone(q) == {f \in DOMAIN S.q[q].nxt : <<f, q>> \notin mem}
      new(q) == {f \in {x[1] : x \in {y \in mem : y[2] = q}} : f \notin DOMAIN S.q[q].nxt}
      from(q) == MaxOf({1} \cup {S.q[q].nxt[g].n - 1 : g \in DOMAIN S.q[q].nxt}) IN
  [S EXCEPT !.ctl = [k |-> "", fs |-> {}], !.late = UNION {{<<f, q>> : f \in gone(q) \cap S.run} : q \in DOMAIN S.q},
            !.q = [q \in DOMAIN @ |-> [@[q] EXCEPT !.nxt = LET N == Without(@, gone(q) \ S.run) IN [f \in DOMAIN N \cup new(q) |-> IF f \in DOMAIN N THEN N[f] ELSE [n |-> from(q), x |-> FALSE]]]]]
\* everything published is read by everybody
Drained(S) == \A q \in DOMAIN S.q : \A f \in DOMAIN S.q[q].nxt : S.q[q].nxt[f].x => S.q[q].nxt[f].n = Len(S.q[q].vals) + 1
=============================================================================

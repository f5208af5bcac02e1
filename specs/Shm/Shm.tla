--------------------------------- MODULE Shm ---------------------------------
(* The shared memory region: written only while marked writable, complete when marked readable, given back by the external reader; and *)
(* the grouping of the units of coded video into pictures, which an access unit delimiter separates.                                   *)
EXTENDS Integers, Sequences
CONSTANT Cap                    \* bytes of data that fit in the region
VARIABLES raw,                  \* raw or coded video
          readable,             \* what the mark says
          acc, info, nf, cur,   \* units of the picture being received, its header, a delimiter came last, number of the last picture begun
          pc, todo, must        \* processing: unit; what is to be shared in it (or NoShare); it has to be shared now
vars == <<raw, readable, acc, info, nf, cur, pc, todo, must>>
NoShare == [ids |-> <<>>]
Idle == [kind |-> "none"]
\* the region is writable from its creation on
ShInit(r) == raw = r /\ readable = FALSE /\ acc = <<>> /\ info = NoShare /\ nf = FALSE /\ cur = 1 /\ pc = Idle /\ todo = NoShare /\ must = FALSE
Parts == {"SPS", "PPS", "SEI", "IDR", "NON"}
Header(u, ids, len, codec) == [ids |-> ids, seq |-> u.seq % 65536, w |-> u.w, h |-> u.h, pix |-> u.pix + 1, sec |-> u.sec, usec |-> u.usec, len |-> len, codec |-> codec]
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE Head(s).len + Size(Tail(s))
Ids(s) == [i \in 1..Len(s) |-> s[i].v]
NewPicture(u) == nf /\ u.seq # cur
\* what processing unit u may share: a raw frame itself, a coded picture when the unit is the first after the delimiter of the next one
Share(u) == IF raw THEN (IF u.len <= Cap THEN Header(u, <<u.v>>, u.len, 4) ELSE NoShare)
            ELSE IF NewPicture(u) /\ acc # <<>> /\ Size(acc) <= Cap THEN Header(info, Ids(acc), Size(acc), 1) ELSE NoShare
Begin(u) ==
  /\ pc = Idle /\ pc' = u /\ todo' = Share(u) /\ must' = (~readable /\ todo' # NoShare)
  /\ IF raw THEN UNCHANGED <<acc, info, nf, cur>>
     ELSE LET a == IF NewPicture(u) THEN <<>> ELSE acc IN
          /\ cur' = IF NewPicture(u) THEN u.seq ELSE cur
          /\ acc' = IF u.kind \in Parts THEN Append(a, [v |-> u.v, len |-> 4 + u.body]) ELSE a
          /\ info' = IF u.kind \in Parts /\ a = <<>> THEN u ELSE info
          /\ nf' = IF u.kind = "AUD" THEN TRUE ELSE IF u.kind \in Parts THEN FALSE ELSE nf
  /\ UNCHANGED <<raw, readable>>
Store == pc # Idle /\ ~readable /\ UNCHANGED vars
Publish(r) == pc # Idle /\ ~readable /\ todo # NoShare /\ r = todo /\ readable' = TRUE /\ todo' = NoShare /\ must' = FALSE /\ UNCHANGED <<raw, acc, info, nf, cur, pc>>
Take == readable /\ readable' = FALSE /\ UNCHANGED <<raw, acc, info, nf, cur, pc, todo, must>>
End == pc # Idle /\ ~must /\ pc' = Idle /\ todo' = NoShare /\ UNCHANGED <<raw, readable, acc, info, nf, cur, must>>
=============================================================================

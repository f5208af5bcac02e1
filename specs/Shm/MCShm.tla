------------------------------- MODULE MCShm -------------------------------
(* The filter writes header and data piece by piece, the external reader reads them piece by piece, each at its own pace. *)
EXTENDS Shm, TLC, TLCExt
CONSTANTS Raw, VMax, Kinds, Grouped
VARIABLES op, v, sq, hdr, data, got, at   \* units so far, picture number, the region, what the reader has read, where it is
mvars == <<vars, op, v, sq, hdr, data, got, at>>
None == <<0>>
Init == ShInit(Raw) /\ op = "start" /\ v = 1 /\ sq = 0 /\ hdr = NoShare /\ data = None /\ got = <<>> /\ at = 0
U(k, s) == [kind |-> k, v |-> v, seq |-> s, w |-> 16, h |-> 16, pix |-> 0, sec |-> 0, usec |-> v, len |-> (IF k = "big" THEN Cap + 1 ELSE 2), body |-> 2]
\* a delimiter starts a picture; pictures without one are joined to the previous one
Seqs(k) == IF Grouped /\ k # "AUD" THEN {sq, sq + 1} ELSE {sq + 1}
BeginU == v <= VMax /\ \E k \in Kinds : \E s \in Seqs(k) : Begin(U(k, s)) /\ sq' = s /\ v' = v + 1 /\ op' = "begin" /\ UNCHANGED <<hdr, data, got, at>>
WriteHdr == todo # NoShare /\ hdr # todo /\ Store /\ hdr' = todo /\ op' = "store" /\ UNCHANGED <<v, sq, data, got, at>>
WriteData == todo # NoShare /\ data # todo.ids /\ Store /\ data' = todo.ids /\ op' = "store" /\ UNCHANGED <<v, sq, hdr, got, at>>
Pub == hdr = todo /\ data = todo.ids /\ Publish(todo) /\ op' = "pub" /\ UNCHANGED <<v, sq, hdr, data, got, at>>
EndU == (hdr = todo \/ ~must) /\ End /\ op' = "end" /\ UNCHANGED <<v, sq, hdr, data, got, at>>
Read == readable /\ at < 2 /\ at' = at + 1 /\ got' = Append(got, IF at = 0 THEN hdr ELSE data) /\ op' = "read" /\ UNCHANGED <<vars, v, sq, hdr, data>>
TakeU == at = 2 /\ Take /\ at' = 0 /\ op' = "take" /\ UNCHANGED <<v, sq, hdr, data, got>>
Next == BeginU \/ WriteHdr \/ WriteData \/ Pub \/ EndU \/ Read \/ TakeU
Spec == Init /\ [][Next]_mvars
Full == <<vars, v, sq, hdr, data, got, at>>
\* what the reader gets: whole pictures with their own header, each once, in order
Taken == Len(got) \div 2
Sound == \A i \in 1..Taken : got[2 * i - 1].ids = got[2 * i] /\ got[2 * i - 1].usec = got[2 * i][1]
Ordered == \A i, j \in 1..Taken : i < j => got[2 * i - 1].seq < got[2 * j - 1].seq /\ \A a \in DOMAIN got[2 * i], b \in DOMAIN got[2 * j] : got[2 * i][a] < got[2 * j][b]
OnePicture == ~Raw /\ Grouped => \A i \in 1..Taken : \A a \in DOMAIN got[2 * i] : a > 1 => got[2 * i][a] > got[2 * i][a - 1]
\* nothing changes while the reader may be reading; what is shared is not empty
Untouched == [][readable /\ readable' => hdr' = hdr /\ data' = data]_mvars
Complete == readable => hdr # NoShare /\ hdr.ids = data /\ data # <<>> /\ hdr.len <= Cap
=============================================================================

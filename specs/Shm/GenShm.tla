------------------------------ MODULE GenShm ------------------------------
(* The processing of a unit as one step, for scripts: the reader acts before it, after its first access or not at all. *)
EXTENDS Shm, TLC, TLCExt
CONSTANTS Raw, Pics
VARIABLES op, v, sq
Str(k, a) == "u " \o k \o " 16 16 1 " \o ToString(v * 1000) \o " " \o ToString(a)
U(k, s, n) == [kind |-> k, v |-> n, seq |-> s, w |-> 16, h |-> 16, pix |-> 1, sec |-> 0, usec |-> n, len |-> (IF k = "big" THEN Cap + 1 ELSE 2), body |-> 2]
Init == ShInit(Raw) /\ op = "start" /\ v = 1 /\ sq = 0
\* all at once
State == [acc |-> acc, nf |-> nf, cur |-> cur, rd |-> readable]
Do(st, u, a) == LET np == st.nf /\ u.seq # st.cur
                    rd == IF a = 0 THEN FALSE ELSE st.rd
                    sh == IF raw THEN u.len <= Cap ELSE np /\ st.acc # <<>>
                    ac == IF np THEN <<>> ELSE st.acc IN
  [acc |-> (IF raw THEN <<>> ELSE IF u.kind \in Parts THEN Append(ac, u.v) ELSE ac), nf |-> ~raw /\ (IF u.kind = "AUD" THEN TRUE ELSE IF u.kind \in Parts THEN FALSE ELSE st.nf),
   cur |-> (IF np THEN u.seq ELSE st.cur), rd |-> (IF rd THEN a # 1 ELSE sh)]
Put(st, n) == acc' = st.acc /\ nf' = st.nf /\ cur' = st.cur /\ readable' = st.rd /\ v' = v + n /\ sq' = sq + 1 /\ UNCHANGED <<raw, info, pc, todo, must>>
RECURSIVE Fold(_, _, _, _)
Fold(st, ks, i, a) == IF i > Len(ks) THEN st ELSE Fold(Do(st, U(ks[i], sq + 1, v + i - 1), IF i = 1 THEN a ELSE 0 - 1), ks, i + 1, a)
RECURSIVE Line(_, _, _)
Line(ks, i, a) == IF i > Len(ks) THEN "pic" ELSE Str(ks[i], IF i = 1 THEN a ELSE 0 - 1) \o ";" \o Line(ks, i + 1, a)
Kinds == IF Raw THEN {"raw"} ELSE {"AUD", "SPS", "SEI", "IDR", "NON", "OTH", "BAD", "EMP"}
Units == {<<"AUD", "IDR">>, <<"AUD", "SPS", "PPS", "IDR", "IDR">>, <<"AUD", "NON", "SEI">>, <<"AUD">>, <<"NON", "NON">>, <<"AUD", "OTH", "NON">>, <<"BAD", "NON">>, <<"IDR", "AUD", "NON">>}
Short == Len(acc) <= 4
Next == /\ Short
        /\ \/ readable /\ readable' = FALSE /\ op' = "take" /\ UNCHANGED <<raw, acc, info, nf, cur, pc, todo, must, v, sq>>
           \/ ~Pics /\ \E k \in Kinds, a \in {0 - 1, 0, 1} : Put(Do(State, U(k, sq + 1, v), a), 1) /\ op' = Str(k, a)
           \/ Pics /\ \E ks \in Units, a \in {0 - 1, 0, 1} : Put(Fold(State, ks, 1, a), Len(ks)) /\ op' = Line(ks, 1, a)
Spec == Init /\ [][Next]_<<vars, op, v, sq>>
Shape == <<readable, nf, Len(acc), cur = sq>>
ShapeNext == <<readable', nf', Len(acc'), cur' = sq'>>
Emit == PrintT("E" \o ToString(TLCFP(Shape)) \o "#" \o op' \o "#" \o ToString(TLCFP(ShapeNext)))
=============================================================================

------------------------------ MODULE MCUnits ------------------------------
(* One reader of coded video: every sequence of units, each at the time of the one before or later. *)
EXTENDS Dash, TLC, TLCExt
CONSTANTS K, UMax, CMax, GMax, Step     \* kind, most units, slices of a picture, pictures of a segment, time between pictures
VARIABLES s, op, n, t, made, sent, sets, lens
uvars == <<s, op, n, t, made, sent, sets, lens>>
R == s.rd[1]
Types == IF K = "avc" THEN {9, 7, 8, 6, 5, 1, 12} ELSE {35, 32, 33, 34, 39, 19, 21, 1, 0, 38}
UInit == s = Connect(NewState(1, 2, FALSE), 1, K) /\ op = "start" /\ n = 0 /\ t = 0 /\ made = <<>> /\ sent = <<>> /\ sets = <<>> /\ lens = <<>>
U(ty, new, len) ==
  LET t1 == IF new THEN t + Step ELSE t
      f == [ty |-> ty, len |-> len, c |-> n + 1, ts |-> t1, dts |-> None, w |-> 16, h |-> 16]
      b == Round(Arrive(s, 1, f)) IN
  /\ n < UMax /\ n' = n + 1 /\ t' = t1 /\ s' = b
  /\ (ty \in Slices(K) => Len(b.rd[1].cur) <= CMax) /\ Len(b.rd[1].seg) <= GMax
  /\ made' = made \o (IF b.disk \ s.disk = {} THEN <<>> ELSE <<(CHOOSE x \in b.disk \ s.disk : TRUE).s>>)
  /\ sent' = (IF ty \in Slices(K) /\ len > 0 THEN Append(sent, [c |-> n + 1, ts |-> t1, key |-> ty \in Intra(K)]) ELSE sent)
  /\ sets' = (IF ty \in ToSet(Sets(K)) /\ len > 0 THEN Append(sets, [ty |-> ty, c |-> n + 1]) ELSE sets)
  /\ lens' = (IF sent # <<>> /\ (ty = Delimiter(K) \/ t1 > Last(sent).ts) /\ ty \in Known(K) /\ len > 0 THEN Append(lens, Len(sent)) ELSE lens)
  /\ op' = "u " \o ToString(ty) \o " " \o (IF new THEN "1 " ELSE "0 ") \o ToString(len)
UNext == \E ty \in Types, new \in BOOLEAN : U(ty, new, 10) \/ (ty \in {6, 39} /\ U(ty, new, 0))
USpec == UInit /\ [][UNext]_uvars
Full == <<s, n, t, made, sent, sets, lens>>
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
\* pictures written or being gathered, each a sequence of slices
Pics == Flat([k \in 1..Len(made) |-> [x \in 1..Len(made[k].smp) |-> made[k].smp[x][2]]]) \o (IF R.done = <<>> THEN <<>> ELSE [x \in 1..Len(R.done[1].smp) |-> R.done[1].smp[x][2]]) \o [x \in 1..Len(R.seg) |-> R.seg[x].u]
Key(c) == (CHOOSE x \in ToSet(sent) : x.c = c).key
At(c) == (CHOOSE x \in ToSet(sent) : x.c = c).ts
\* every slice is in one picture, in order, from the first intra picture on
Whole == LET a == Flat(Pics) \o R.cur all == [k \in 1..Len(sent) |-> sent[k].c] IN
         /\ SubSeq(all, Len(all) - Len(a) + 1, Len(all)) = a
         /\ Pics # <<>> => Key(Pics[1][Len(Pics[1])])
\* a picture ends exactly where the next access unit begins
Grouped == LET a == Flat(Pics) \o R.cur skip == Len(sent) - Len(a)
               ends == {Len(Flat(SubSeq(Pics, 1, k))) + skip : k \in 1..Len(Pics)} IN
           \A e \in ends : e \in ToSet(lens)
NotSplit == \A x \in ToSet(lens) : LET a == Flat(Pics) \o R.cur skip == Len(sent) - Len(a) IN
            x > skip /\ x < Len(sent) => \E k \in 1..Len(Pics) : Len(Flat(SubSeq(Pics, 1, k))) + skip = x
\* the header written, or to be written, carries the latest complete group of parameter sets
Groups == LET Go[k \in 0..Len(sets)] == IF k = 0 THEN [p |-> Empty, last |-> <<>>]
                ELSE LET p == Put(Go[k - 1].p, sets[k].ty, sets[k].c) IN
                     IF DOMAIN p = ToSet(Sets(K)) THEN [p |-> Empty, last |-> [x \in 1..Len(Sets(K)) |-> p[Sets(K)[x]]]] ELSE [p |-> p, last |-> Go[k - 1].last] IN Go[Len(sets)].last
Headers == IF R.ext # <<>> THEN R.ext = Groups ELSE IF 1 \in DOMAIN s.inits THEN s.inits[1].ps = Groups ELSE Groups = <<>>
Shape0(x, tt) == <<Len(x.rd[1].cur), x.rd[1].cin, [y \in DOMAIN x.rd[1].ps |-> x.rd[1].ps[y] # 0], x.rd[1].ext # <<>>, [k \in 1..Len(x.rd[1].seg) |-> x.rd[1].seg[k].key], tt > x.rd[1].cd>>
Shape == Shape0(s, IF R.cur = <<>> THEN R.cd ELSE t)
ShapeNext == Shape0(s', IF s'.rd[1].cur = <<>> THEN s'.rd[1].cd ELSE t')
Emit == PrintT("E" \o ToString(TLCFP(Shape)) \o "#" \o op' \o "#" \o ToString(TLCFP(ShapeNext)))
=============================================================================

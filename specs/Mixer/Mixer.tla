------------------------------- MODULE Mixer -------------------------------
(* The video mixer: channels with their rectangle (in 64ths of the layout), layer, state and opacity (in 64ths); the inputs with the   *)
(* pictures that wait in their queue and the last one taken; and the picture that results.                                             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES max,     \* inputs, layers 0..max
          ow, oh,  \* layout size in pixels
          chans,   \* input |-> [w, h, x, y, l, en, o]
          q, last, \* input |-> pictures waiting, last taken (None before the first)
          pend     \* reconfigurations sent as events, executed before the next processing
mvars == <<max, ow, oh, chans, q, last, pend>>
None == [v |-> 0, w |-> 0, h |-> 0, kind |-> "none", ts |-> 0]
Default == [w |-> 64, h |-> 64, x |-> 0, y |-> 0, l |-> 0, en |-> FALSE, o |-> 64]
MaxW == 1920
MaxH == 1080
Del(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
Ins(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
MInit(n, w, h) == max = n /\ ow = w /\ oh = h /\ chans = <<>> /\ q = <<>> /\ last = <<>> /\ pend = <<>>
Valid(c, n) == c.x \in 0..64 /\ c.y \in 0..64 /\ c.w \in 1..64 /\ c.h \in 1..64 /\ c.o \in 0..64 /\ c.l \in 0..n
Accepted(ch, id, c) == id \in DOMAIN ch /\ Valid(c, max)
\* a reconfiguration, applied to the channels and the size of the layout
Apply(s, e) == IF e.id = 0 THEN (IF e.c.w \in 1..MaxW /\ e.c.h \in 1..MaxH THEN [s EXCEPT !.w = e.c.w, !.h = e.c.h] ELSE s)
               ELSE IF Accepted(s.ch, e.id, e.c) THEN [s EXCEPT !.ch[e.id] = e.c] ELSE s
RECURSIVE ApplyAll(_, _)
ApplyAll(s, es) == IF es = <<>> THEN s ELSE ApplyAll(Apply(s, Head(es)), Tail(es))
Now == ApplyAll([ch |-> chans, w |-> ow, h |-> oh], pend)
Flushed == LET s == Now IN ow' = s.w /\ oh' = s.h /\ pend' = <<>>
Connect(id, ok) ==
  /\ ok = (id \notin DOMAIN chans /\ Cardinality(DOMAIN chans) < max) /\ Flushed
  /\ chans' = IF ok THEN Ins(Now.ch, id, Default) ELSE Now.ch
  /\ q' = IF ok THEN Ins(q, id, <<>>) ELSE q
  /\ last' = IF ok THEN Ins(last, id, None) ELSE last
  /\ UNCHANGED max
Disconnect(id, ok) ==
  /\ ok = (id \in DOMAIN chans) /\ chans' = Del(chans, id) /\ q' = Del(q, id) /\ last' = Del(last, id) /\ UNCHANGED <<max, ow, oh, pend>>
Config(id, c, ok) == /\ ok = Accepted(chans, id, c) /\ chans' = IF ok THEN [chans EXCEPT ![id] = c] ELSE chans
                     /\ UNCHANGED <<max, ow, oh, q, last, pend>>
ConfigLater(id, c) == pend' = Append(pend, [id |-> id, c |-> c]) /\ UNCHANGED <<max, ow, oh, chans, q, last>>
LayoutLater(w, h) == ConfigLater(0, [Default EXCEPT !.w = w, !.h = h])
Put(x, p) == Append(IF Len(x) >= 3 THEN SubSeq(x, 1, Len(x) - 1) ELSE x, p)
NewPicture(id, p) == id \in DOMAIN q /\ q' = [q EXCEPT ![id] = Put(@, p)] /\ UNCHANGED <<max, ow, oh, chans, last, pend>>
(* ---- the picture that results, as the range of values each of its bytes may have ---- *)
Solid(v, c) == (v * 37 + c * 71 + 1) % 251
Pix(p, i, j, c) == CASE p.kind = "s" -> Solid(p.v, c)
                     [] p.kind = "h" -> (IF 2 * j < p.w THEN Solid(p.v, c) ELSE (p.v * 37 + c * 71 + 101) % 251)
                     [] OTHER -> (p.v * 37 + i * 11 + j * 5 + c * 71 + 1) % 251
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
X0(c) == (c.x * ow') \div 64
Y0(c) == (c.y * oh') \div 64
RW(c) == (c.w * ow') \div 64
RH(c) == (c.h * oh') \div 64
Covers(c, i, j) == j >= X0(c) /\ j < X0(c) + RW(c) /\ i >= Y0(c) /\ i < Y0(c) + RH(c)
\* byte k of the picture p scaled to the rectangle of c, at its row i and column j
Source(p, c, i, j, k) ==
  LET L == Solid(p.v, k) R == (p.v * 37 + k * 71 + 101) % 251 IN
  IF p.w = RW(c) /\ p.h = RH(c) THEN <<Pix(p, i, j, k), Pix(p, i, j, k)>>
  ELSE IF p.kind = "s" THEN <<L, L>>
  ELSE IF p.kind = "h" THEN (IF (2 * j + 1) * p.w <= RW(c) * (p.w - 2) /\ 2 * (j + 1) <= RW(c) THEN <<L, L>>
                             ELSE IF (2 * j + 1) * p.w >= RW(c) * (p.w + 2) /\ 2 * j >= RW(c) THEN <<R, R>> ELSE <<Min(L, R), Max(L, R)>>)
  ELSE IF p.kind = "none" THEN <<0, 0>>
  ELSE <<0, 255>>
Blend(b, s, o) == IF o = 64 THEN s ELSE <<(o * s[1] + (64 - o) * b[1]) \div 64, (o * s[2] + (64 - o) * b[2] + 63) \div 64>>
\* every range a byte may have when the channels of S are painted over b in layer order (any order in one layer; an input that never had a picture may be left out)
RECURSIVE Paint(_, _, _, _, _, _, _)
Paint(b, S, ch, pic, i, j, k) ==
  IF S = {} THEN {b} ELSE
  UNION {LET c == ch[id] IN
         Paint(Blend(b, Source(pic[id], c, i - Y0(c), j - X0(c), k), c.o), S \ {id}, ch, pic, i, j, k)
         \cup (IF pic[id].kind = "none" THEN Paint(b, S \ {id}, ch, pic, i, j, k) ELSE {})
         : id \in {x \in S : \A y \in S : ch[x].l <= ch[y].l}}
Composed(pix, ch, pic) ==
  LET on == {id \in DOMAIN ch : ch[id].en} IN
  \A i \in 0..(oh' - 1), j \in 0..(ow' - 1) :
    LET S == {id \in on : Covers(ch[id], i, j)} IN
    \A k \in 0..2 : LET z == pix[(i * ow' + j) * 3 + k + 1] IN
      IF S = {} THEN z = 0 ELSE \E r \in Paint(<<0, 0>>, S, ch, pic, i, j, k) : r[1] <= z /\ z <= r[2]
\* what each input shows: its first waiting picture or the last one it gave
Shown == [id \in DOMAIN q |-> IF q[id] = <<>> THEN last[id] ELSE Head(q[id])]
Newest(S, pic) == CHOOSE t \in {pic[x].ts : x \in S} : \A y \in S : pic[y].ts <= t
\* times an output may have without frame time: the newest of the inputs shown (inputs out of the layout may count or not)
Times(ch, pic) == LET on == {id \in DOMAIN ch : ch[id].en}
                      vis == {id \in on : RW(ch[id]) > 0 /\ RH(ch[id]) > 0 /\ X0(ch[id]) < ow' /\ Y0(ch[id]) < oh'} IN
                  {Newest(S, pic) : S \in {S \in SUBSET on : S # {} /\ vis \subseteq S}}
Take(id) == IF q[id] = <<>> THEN <<>> ELSE Tail(q[id])
=============================================================================

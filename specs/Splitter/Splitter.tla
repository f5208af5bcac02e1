------------------------------ MODULE Splitter ------------------------------
(* The video splitter: every output carries its own rectangle of the picture that comes in. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES crops, \* output |-> [w, h, x, y, d]
          ft,    \* frame time
          q,     \* pictures waiting [v, w, h, ts, s]
          n,     \* pictures that came
          pend   \* reconfigurations sent as events
svars == <<crops, ft, q, n, pend>>
Unset == [w |-> 0, h |-> 0, x |-> 0 - 1, y |-> 0 - 1, d |-> 0]
Del(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
Ins(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
SInit == crops = <<>> /\ ft = 0 /\ q = <<>> /\ n = 0 /\ pend = <<>>
Valid(c) == c.x >= 0 /\ c.y >= 0 /\ c.w > 0 /\ c.h > 0 /\ c.d >= 0 - 360 /\ c.d <= 360
Accepted(cr, id, c) == id \in DOMAIN cr /\ Valid(c)
Apply(s, e) == IF e.id = "time" THEN (IF e.c >= 0 THEN [s EXCEPT !.ft = e.c] ELSE s) ELSE IF Accepted(s.cr, e.k, e.c) THEN [s EXCEPT !.cr[e.k] = e.c] ELSE s
RECURSIVE ApplyAll(_, _)
ApplyAll(s, es) == IF es = <<>> THEN s ELSE ApplyAll(Apply(s, Head(es)), Tail(es))
Now == ApplyAll([cr |-> crops, ft |-> ft], pend)
Flushed == ft' = Now.ft /\ pend' = <<>>
Connect(id, ok) == /\ ok = (id \notin DOMAIN Now.cr) /\ Flushed /\ crops' = (IF ok THEN Ins(Now.cr, id, Unset) ELSE Now.cr) /\ UNCHANGED <<q, n>>
Disconnect(id, ok) == /\ (id \in DOMAIN crops => ok) /\ crops' = Del(crops, id) /\ UNCHANGED <<ft, q, n, pend>>
Crop(id, c, ok) == ok = Accepted(crops, id, c) /\ crops' = (IF ok THEN [crops EXCEPT ![id] = c] ELSE crops) /\ UNCHANGED <<ft, q, n, pend>>
CropLater(id, c) == pend' = Append(pend, [id |-> "crop", k |-> id, c |-> c]) /\ UNCHANGED <<crops, ft, q, n>>
TimeLater(t) == pend' = Append(pend, [id |-> "time", k |-> 0, c |-> t]) /\ UNCHANGED <<crops, ft, q, n>>
\* the queue of the source holds three pictures
NewPicture(p) == /\ q' = Append(IF Len(q) >= 3 THEN SubSeq(q, 1, Len(q) - 1) ELSE q, [v |-> p.v, w |-> p.w, h |-> p.h, ts |-> p.ts, s |-> n])
                 /\ n' = n + 1 /\ UNCHANGED <<crops, ft, pend>>
Inside(c, p) == c.w > 0 /\ c.x <= p.w - c.w /\ c.y <= p.h - c.h
Emits(cr, p) == {id \in DOMAIN cr : Inside(cr[id], p)}
Pix(p, i, j, c) == (p.v * 37 + i * 11 + j * 5 + c * 71 + 1) % 251
Cropped(pix, c, p) == \A i \in 0..(c.h - 1), j \in 0..(c.w - 1), k \in 0..2 : pix[(i * c.w + j) * 3 + k + 1] = Pix(p, c.y + i, c.x + j, k)
=============================================================================

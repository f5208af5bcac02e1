----------------------------- MODULE MCSplitter -----------------------------
EXTENDS Splitter, TLC, TLCExt
CONSTANTS N, PMax
VARIABLES op, p
Cr(w, h, x, y, d) == [w |-> w, h |-> h, x |-> x, y |-> y, d |-> d]
Good == {Cr(4, 4, 0, 0, 0), Cr(2, 3, 1, 1, 0), Cr(1, 1, 3, 3, 360), Cr(2, 2, 4, 4, 0), Cr(6, 5, 0, 0, 0)}
Wrong == {Cr(0, 2, 0, 0, 0), Cr(2, 2, 0, 0 - 1, 0), Cr(2, 2, 0, 0, 361)}
Str(c) == ToString(c.w) \o " " \o ToString(c.h) \o " " \o ToString(c.x) \o " " \o ToString(c.y) \o " " \o ToString(c.d)
Init == SInit /\ op = "start" /\ p = 1
Pic(w, h) == p <= PMax /\ Len(q) < 2 /\ NewPicture([v |-> p, w |-> w, h |-> h, ts |-> p * 1000]) /\ p' = p + 1 /\ op' = "frame " \o ToString(w) \o " " \o ToString(h) \o " " \o ToString(p * 1000)
Process == Flushed /\ crops' = Now.cr /\ q' = (IF q = <<>> THEN q ELSE Tail(q)) /\ UNCHANGED <<n, p>> /\ op' = "proc"
Next == \/ \E id \in 1..N : Connect(id, id \notin DOMAIN Now.cr) /\ UNCHANGED p /\ op' = "conn " \o ToString(id)
        \/ \E id \in 1..N : Disconnect(id, id \in DOMAIN crops) /\ UNCHANGED p /\ op' = "disc " \o ToString(id)
        \/ \E id \in 1..N, c \in Good \cup Wrong : Crop(id, c, Accepted(crops, id, c)) /\ UNCHANGED p /\ op' = "crop " \o ToString(id) \o " " \o Str(c)
        \/ Len(pend) < 1 /\ \E c \in {Cr(3, 2, 0, 1, 0), Cr(0, 0, 0, 0, 0)} : CropLater(1, c) /\ UNCHANGED p /\ op' = "ecrop 1 " \o Str(c)
        \/ \E s \in {<<4, 4>>, <<6, 5>>, <<3, 8>>} : Pic(s[1], s[2])
        \/ Process
Spec == Init /\ [][Next]_<<svars, op, p>>
Full == <<svars, p>>
Shape == <<crops, [k \in 1..Len(q) |-> <<q[k].w, q[k].h>>], pend>>
ShapeNext == <<crops', [k \in 1..Len(q') |-> <<q'[k].w, q'[k].h>>], pend'>>
Emit == PrintT("E" \o ToString(TLCFP(Shape)) \o "#" \o op' \o "#" \o ToString(TLCFP(ShapeNext)))
TypeOK == \A id \in DOMAIN crops : crops[id] = Unset \/ Valid(crops[id])
\* an output that emits shows only pixels of the picture; the crop of one output does not matter to the others
Sound == [][/\ \A id \in DOMAIN crops \cap DOMAIN crops' : crops'[id] # crops[id] => \A x \in DOMAIN crops \ {id} : x \in DOMAIN crops' => crops'[x] = crops[x] \/ pend # <<>>
            /\ (op' = "proc" /\ q # <<>> => \A id \in Emits(crops', Head(q)) : LET c == crops'[id] IN c.x >= 0 /\ c.y >= 0 /\ c.x + c.w <= Head(q).w /\ c.y + c.h <= Head(q).h)]_<<svars, op, p>>
=============================================================================

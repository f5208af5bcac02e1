------------------------------ MODULE MCMixer ------------------------------
EXTENDS Mixer, TLC, TLCExt
CONSTANTS N, W, H, PMax, Deep   \* inputs, layout, most pictures, all configurations or those for the scripts
VARIABLES op, p
Cfg(w, h, x, y, l, en, o) == [w |-> w, h |-> h, x |-> x, y |-> y, l |-> l, en |-> en, o |-> o]
Configs == {Cfg(64, 64, 0, 0, 0, TRUE, 64), Cfg(32, 64, 0, 0, N, TRUE, 64), Cfg(32, 32, 32, 32, 1, TRUE, 32), Cfg(64, 64, 0, 0, 1, FALSE, 64),
            Cfg(64, 64, 32, 0, 0, TRUE, 64), Cfg(1, 1, 64, 64, 0, TRUE, 64)}
Refused == {Cfg(0, 64, 0, 0, 0, TRUE, 64), Cfg(64, 64, 0, 0, N + 1, TRUE, 64), Cfg(64, 64, 65, 0, 0, TRUE, 64), Cfg(64, 64, 0, 0, 0, TRUE, 65), Cfg(64, 64, 0, 0 - 1, 0, TRUE, 64)}
Some == {Cfg(64, 64, 0, 0, 0, TRUE, 64), Cfg(32, 64, 0, 0, N, TRUE, 64), Cfg(64, 32, 32, 0, 1, TRUE, 32), Cfg(64, 64, 0, 0, 1, FALSE, 64), Cfg(0, 64, 0, 0, 0, TRUE, 64)}
Str(c) == ToString(c.w) \o " " \o ToString(c.h) \o " " \o ToString(c.x) \o " " \o ToString(c.y) \o " " \o ToString(c.l) \o " " \o (IF c.en THEN "1 " ELSE "0 ") \o ToString(c.o)
Init == MInit(N, W, H) /\ op = "start" /\ p = 1
Frame(id) == /\ p <= PMax /\ id \in DOMAIN q /\ Len(q[id]) < 2
             /\ LET c == chans[id] w == Max(1, (c.w * ow) \div 64) h == Max(1, (c.h * oh) \div 64) IN
                /\ NewPicture(id, [v |-> p, w |-> w, h |-> h, kind |-> "p", ts |-> p * 1000])
                /\ op' = "frame " \o ToString(id) \o " " \o ToString(w) \o " " \o ToString(h) \o " p " \o ToString(p * 1000)
             /\ p' = p + 1
Process == /\ (\E id \in DOMAIN q : q[id] # <<>>) /\ Flushed /\ chans' = Now.ch /\ UNCHANGED <<max, p>>
           /\ q' = [id \in DOMAIN q |-> Take(id)] /\ last' = Shown /\ op' = "proc"
Next == \/ \E id \in 1..N : Connect(id, id \notin DOMAIN chans) /\ UNCHANGED p /\ op' = "conn " \o ToString(id)
        \/ \E id \in 1..N : Disconnect(id, TRUE) /\ UNCHANGED p /\ op' = "disc " \o ToString(id)
        \/ \E id \in 1..N, c \in (IF Deep THEN Some ELSE Configs \cup Refused) : Config(id, c, Accepted(chans, id, c)) /\ UNCHANGED p /\ op' = "cfg " \o ToString(id) \o " " \o Str(c)
        \/ Len(pend) < 1 /\ \E c \in {Cfg(32, 32, 0, 32, 1, TRUE, 64), Cfg(64, 64, 0, 0, N + 1, TRUE, 64)} : ConfigLater(1, c) /\ UNCHANGED p /\ op' = "ecfg 1 " \o Str(c)
        \/ Len(pend) < 1 /\ LayoutLater(2 * W, H) /\ ow = W /\ UNCHANGED p /\ op' = "conf " \o ToString(2 * W) \o " " \o ToString(H)
        \/ \E id \in 1..N : Frame(id)
        \/ Process
Spec == Init /\ [][Next]_<<mvars, op, p>>
Full == <<mvars, p>>
Shape == <<ow, chans, [id \in DOMAIN q |-> <<Len(q[id]), last[id].kind>>], pend>>
ShapeNext == <<ow', chans', [id \in DOMAIN q' |-> <<Len(q'[id]), last'[id].kind>>], pend'>>
Emit == PrintT("E" \o ToString(TLCFP(Shape)) \o "#" \o op' \o "#" \o ToString(TLCFP(ShapeNext)))
(* what the composition must mean *)
\* a refused configuration changes nothing; an accepted one only its channel
OnlyIts == [][\A id \in DOMAIN chans \cap DOMAIN chans' : chans'[id] # chans[id] => Valid(chans'[id], max)]_<<mvars, op, p>>
\* the opaque channel in front decides; a disabled one does not matter; nothing there is black
Pictures == [id \in DOMAIN q |-> IF q[id] = <<>> THEN last[id] ELSE Head(q[id])]
Front == [][op' = "proc" =>
  LET ch == chans' pic == Shown on == {id \in DOMAIN ch : ch[id].en} IN
  \A i \in 0..(oh' - 1), j \in 0..(ow' - 1), k \in 0..2 :
    LET S == {id \in on : Covers(ch[id], i, j)} R == Paint(<<0, 0>>, S, ch, pic, i, j, k) IN
    /\ R # {} /\ (S = {} => R = {<<0, 0>>}) /\ \A r \in R : 0 <= r[1] /\ r[1] <= r[2] /\ r[2] <= 255
    /\ \A id \in S : (ch[id].o = 64 /\ pic[id].kind # "none" /\ \A x \in S \ {id} : ch[x].l < ch[id].l) => R = {Source(pic[id], ch[id], i - Y0(ch[id]), j - X0(ch[id]), k)}]_<<mvars, op, p>>
TypeOK == \A id \in DOMAIN chans : Valid(chans[id], max) /\ Len(q[id]) <= 3
=============================================================================

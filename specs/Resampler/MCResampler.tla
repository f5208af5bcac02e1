---------------------------- MODULE MCResampler ----------------------------
EXTENDS Resampler, TLC, TLCExt
CONSTANTS PMax, Fs, Deep, Pends, Ws, Cap \* bytes of an output frame
VARIABLES op, p, outs
Cf(w, h, fps, f) == [w |-> w, h |-> h, fps |-> fps, f |-> f]
A == Absent
Ok == {Cf(w, h, 0, f) : w \in Ws, h \in {0, 20}, f \in Fs}
Wrong == {Cf(0 - 16, 16, 0, 0), Cf(16, 0 - 1, 0, 0), Cf(16, 16, 0, 0 - 1), Cf(16, 16, 0, 7)}
Events == {Cf(A, A, A, 1), Cf(0 - 16, A, A, 1), Cf(24, A, A, A), Cf(A, 20, A, 7), Cf(A, A, A, A)}
S(x) == ToString(x)
Str(c) == S(c.w) \o " " \o S(c.h) \o " " \o S(c.fps) \o " " \o S(c.f)
Init == RInit /\ op = "start" /\ p = 1 /\ outs = <<>>
Pic(w, h, f) == p <= PMax /\ Len(q) < 2 /\ NewPicture([w |-> w, h |-> h, f |-> f, ts |-> p * 1000, c |-> <<p, 0, 1, 2>>]) /\ p' = p + 1 /\ op' = "frame " \o S(w) \o " " \o S(h) \o " " \o S(f) \o " " \o S(p * 1000) \o " " \o S(p % 8) \o " 0 1 2" /\ UNCHANGED outs
Process == /\ conf' = Now /\ pend' = <<>> /\ q' = (IF q = <<>> THEN q ELSE Tail(q)) /\ UNCHANGED <<n, p>> /\ op' = "proc"
           /\ outs' = IF Deep /\ q # <<>> /\ Fits(Now, Head(q), Cap) THEN Append(outs, [s |-> Head(q).s, w |-> OutW(Now, Head(q)), h |-> OutH(Now, Head(q)), f |-> Now.f]) ELSE outs
Next == \/ \E c \in Ok \cup Wrong : Configure(c, Valid(Given(conf, c))) /\ UNCHANGED <<p, outs>> /\ op' = "conf " \o Str(c)
        \/ Len(pend) < Pends /\ \E c \in Events : ConfigureLater(c) /\ UNCHANGED <<p, outs>> /\ op' = "econf " \o Str(c)
        \/ \E s \in {<<16, 16>>, <<24, 20>>}, f \in Fs \cup {0 - 1} : Pic(s[1], s[2], f)
        \/ Process
Spec == Init /\ [][Next]_<<rvars, op, p, outs>>
Full == <<rvars, p, outs>>
Shape == <<conf, [k \in 1..Len(q) |-> <<q[k].w, q[k].h, q[k].f>>], pend>>
ShapeNext == <<conf', [k \in 1..Len(q') |-> <<q'[k].w, q'[k].h, q'[k].f>>], pend'>>
Emit == PrintT("E" \o ToString(TLCFP(Shape)) \o "#" \o op' \o "#" \o ToString(TLCFP(ShapeNext)))
TypeOK == Valid(conf)
\* every picture goes out at most once, in order, in a format that was configured
Ordered == \A k \in 1..(Len(outs) - 1) : outs[k].s < outs[k + 1].s
Refused == [][\A c \in Wrong : op' = "conf " \o Str(c) => conf' = conf]_<<rvars, op, p, outs>>
\* what is pending takes effect before the next picture
Applied == [][op' = "proc" /\ outs' # outs => pend' = <<>> /\ outs'[Len(outs')].f = conf'.f]_<<rvars, op, p, outs>>
=============================================================================

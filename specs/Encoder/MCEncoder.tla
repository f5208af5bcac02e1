----------------------------- MODULE MCEncoder -----------------------------
EXTENDS Encoder, TLC, TLCExt
CONSTANTS PMax, EMax, Out, Confs, Sizes, Refs
VARIABLES op, t, q
vars == <<evars, op, t, q>>
SizesA == {<<32, 32, 0>>, <<64, 64, 3>>}
SizesB == {<<64, 64, 0>>}
RefsA == {0, 300000, 0 - 2500000}
Conf(x) == CASE x = "gopTime" -> [gopTime |-> 1000000] [] x = "short" -> [gopTime |-> 5] [] x = "none" -> [gopTime |-> 0 - 3] [] x = "gop" -> [gop |-> 2] [] x = "fps" -> [fps |-> 10] [] x = "nofps" -> [fps |-> 0 - 1]
             [] x = "bad" -> [gop |-> 0, gopTime |-> 3000000] [] x = "neg" -> [bitrate |-> 0 - 1, fps |-> 5] [] x = "raw" -> [annexb |-> FALSE]
Text(x) == CASE x = "gopTime" -> "gopTime 1000000" [] x = "short" -> "gopTime 5" [] x = "none" -> "gopTime -3" [] x = "gop" -> "gop 2" [] x = "fps" -> "fps 10" [] x = "nofps" -> "fps -1"
             [] x = "bad" -> "gop 0 gopTime 3000000" [] x = "neg" -> "bitrate -1 fps 5" [] x = "raw" -> "annexb 0"
Init == EInit /\ op = "start" /\ t = 21000000 /\ q = <<>>
Queue(e) == Len(evs) < EMax /\ evs' = Append(evs, e) /\ UNCHANGED <<codec, cfg, ft, src, s, t, q>>
Picture(step, z) == /\ Len(src) < PMax /\ Len(q) < 2 /\ t' = t + step /\ src' = Append(src, [n |-> 1, ts |-> t + step, w |-> z[1], h |-> z[2], fmt |-> z[3]]) /\ q' = Append(q, Len(src))
                    /\ op' = "pic " \o ToString(t + step) \o " " \o ToString(z[1]) \o " " \o ToString(z[2]) \o " " \o ToString(z[3]) /\ UNCHANGED <<codec, cfg, ft, evs, s>>
Before == LET x == Now IN IF q = <<>> THEN x ELSE LET i == Head(q) p == src[i + 1] IN [x EXCEPT !.s = Take(x.c, x.s, i, p.ts, p.w, p.h, p.fmt)]
\* the encoder reorders and delays as it likes
Coded(x) == {[seq |-> i, ts |-> x.s.pend[i].ts, dts |-> d, idr |-> b, ps |-> b /\ x.c.annexb, org |-> TRUE, w |-> src[i + 1].w, h |-> src[i + 1].h] : i \in DOMAIN x.s.pend, b \in BOOLEAN, d \in {src[k].ts : k \in 1..Len(src)}}
Process == /\ LET x == Before IN /\ cfg' = x.c /\ ft' = x.ft /\ evs' = <<>>
                                 /\ \/ s' = x.s
                                    \/ Out /\ q # <<>> /\ \E o \in Coded(x) : Leaves(x.c, x.s, o) /\ s' = Gone(x.s, o)
           /\ q' = (IF q = <<>> THEN q ELSE Tail(q)) /\ op' = "proc" /\ UNCHANGED <<codec, src, t>>
Next == \/ \E x \in Confs : Queue([k |-> "conf", v |-> Conf(x)]) /\ op' = "conf " \o Text(x)
        \/ Queue([k |-> "force"]) /\ op' = "force"
        \/ \E d \in Refs : Queue([k |-> "ref", v |-> t + d]) /\ op' = "ref " \o ToString(t + d)
        \/ \E d \in {400000, 2100000}, z \in Sizes : Picture(d, z)
        \/ Process
Spec == Init /\ [][Next]_vars
Full == <<evars, t, q>>
\* ---- for the graph: times relative to the present one
Cl(x) == IF x < 0 - 1000000 THEN 0 - 1000001 ELSE x
Rel(e, now) == IF e.k = "ref" THEN [e EXCEPT !.v = Cl(e.v - now)] ELSE e
Sh(c, e, z, qq, now, sr) == <<c, [k \in 1..Len(e) |-> Rel(e[k], now)], IF z.ref = 0 - 1 THEN 0 - 1 ELSE Cl(z.ref - now), z.force, z.dirty, z.size, [k \in 1..Len(qq) |-> <<now - sr[qq[k] + 1].ts, sr[qq[k] + 1].w, sr[qq[k] + 1].fmt>>]>>
Shape == Sh(cfg, evs, s, q, t, src)
ShapeNext == Sh(cfg', evs', s', q', t', src')
Emit == PrintT("E" \o ToString(TLCFP(Shape)) \o "#" \o op' \o "#" \o ToString(TLCFP(ShapeNext)))
\* ---- what holds
Once == s.out \cap DOMAIN s.pend = {} /\ \A i \in s.out \cup DOMAIN s.pend : i < Len(src)
Sane == Valid(cfg) /\ (cfg.gopTime = 0 \/ cfg.gopTime >= 1000000) /\ cfg.fps > 0
\* picture groups begin on a grid: its next point is always ahead, and no more than a group away
Grid == [][op' = "proc" /\ q # <<>> /\ src[Head(q) + 1].fmt \in Formats /\ Now.c.gopTime > 0 =>
             LET g == Now.c.gopTime r == Now.s.ref p == src[Head(q) + 1] i == Head(q) n == s'.ref
                 forced == s'.pend[i].intra new == Now.s.size # <<p.w, p.h, p.fmt>> IN
             /\ n > p.ts /\ (r # 0 - 1 => (n - r) % g = 0) /\ (n > p.ts + g => n = r)
             /\ (i \in DOMAIN s'.pend => (forced <=> new \/ Now.s.force \/ n # r))]_vars
\* requests last until the picture they are for
Requests == [][op' = "proc" /\ Now.s.force => s'.force \/ (q # <<>> /\ (Head(q) \in s'.out \/ s'.pend[Head(q)].intra))]_vars
\* a time to decode never comes back while the encoder remains as it is
Decode == [][op' = "proc" /\ s'.dts < s.dts => s'.first # s.first]_vars
=============================================================================

----------------------------- MODULE MCCapture -----------------------------
EXTENDS Capture, TLC, TLCExt
CONSTANTS Deep
VARIABLES op, n, outs
D0 == [kind |-> 1, maxw |-> 64, maxh |-> 64, f |-> 0 - 1, num |-> 0, den |-> 0, bufs |-> 4, caps |-> 3]
Kinds == {D0, [D0 EXCEPT !.kind = 0], [D0 EXCEPT !.maxw = 32, !.f = 4, !.bufs = 2]}
S(x) == ToString(x)
DevStr(i, d) == "dev " \o S(i) \o " " \o S(d.kind) \o " " \o S(d.maxw) \o " " \o S(d.maxh) \o " " \o S(d.f) \o " " \o S(d.num) \o " " \o S(d.den) \o " " \o S(d.bufs) \o " " \o S(d.caps)
Confs == {[d |-> d, w |-> w, h |-> 32, fps |-> 25, f |-> f, force |-> TRUE] : d \in 1..2, w \in {32, 64}, f \in {0, 1}} \cup {[d |-> 1, w |-> 32, h |-> 32, fps |-> 0, f |-> 0, force |-> TRUE]}
CStr(c) == "conf 0 " \o S(c.d) \o " " \o S(c.w) \o " " \o S(c.h) \o " " \o S(c.fps) \o " " \o S(c.f) \o " 1"
Calls == {"open", "querycap", "cropcap", "scrop", "sfmt", "sparm", "reqbufs", "querybuf", "mmap", "qbuf", "streamon", "streamoff"}
Init == CInit(<<D0, D0>>) /\ op = "start" /\ n = 0 /\ outs = <<>>
Keep == UNCHANGED <<n, outs>>
\* a device is given back when it is released: what cannot be stopped is closed anyway
Next ==
  \/ \E i \in 1..2, d \in Kinds : i # cur /\ Device(i, d) /\ Keep /\ op' = DevStr(i, d)
  \/ \E c \in Confs : LET ok == Valid(c) /\ Succeeds(c, {}) IN Configure(c, None, IF ok THEN devs[c.d].bufs ELSE 0, {}, ok) /\ Keep /\ op' = CStr(c)
  \/ \E c \in {x \in Confs : x.fps > 0 /\ x.w = 32 /\ x.f = 0}, f \in Calls : (f = "streamoff" => cur # 0) /\ LET ok == Succeeds(c, {f}) IN Configure(c, None, IF ok THEN devs[c.d].bufs ELSE 0, {f}, ok) /\ Keep /\ op' = "fail " \o f \o " 0 1 5|" \o CStr(c)
  \/ Release /\ Keep /\ op' = "rel"
  \/ Connect(100000, CanConnect) /\ Keep /\ op' = "conn"
  \/ cur # 0 /\ Len(fil) < tot /\ Len(fil) < 2 /\ Fill([len |-> 10, v |-> n + 1]) /\ n' = (IF Deep THEN n + 1 ELSE n) /\ n < 4 /\ UNCHANGED outs /\ op' = "fill " \o S(cur) \o " -1 7"
  \/ \E f \in {{}, {"select"}, {"dqbuf"}, {"qbuf"}} : (f = {} \/ (cur # 0 /\ cap > 0 /\ fil # <<>>)) /\ ("qbuf" \in f => tot > 2) /\ Run(f) /\ UNCHANGED n
       /\ outs' = (IF Deep /\ Taken(f) /\ f = {} THEN Append(outs, Head(fil).v) ELSE outs)
       /\ op' = IF f = {} THEN "proc" ELSE "fail " \o (CHOOSE x \in f : TRUE) \o " 0 1 5|proc"
Spec == Init /\ [][Next]_<<cvars, op, n, outs>>
Full == <<cvars, n, outs>>
Shape == <<devs, cur, fm, Len(fil), tot, cap>>
ShapeNext == <<devs', cur', fm', Len(fil'), tot', cap'>>
Emit == PrintT("E" \o ToString(TLCFP(Shape)) \o "#" \o op' \o "#" \o ToString(TLCFP(ShapeNext)))
TypeOK == cur \in 0..2 /\ (cur = 0 => fil = <<>> /\ tot = 0 /\ fm = None) /\ Len(fil) <= tot
\* the pictures go out once, in order
Ordered == \A k \in 1..(Len(outs) - 1) : outs[k] < outs[k + 1]
Within == cur # 0 => fm.w <= 64 /\ fm.h <= 64 /\ tot >= 1
=============================================================================

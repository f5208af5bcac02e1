------------------------------- MODULE MCAMix -------------------------------
(* Exhaustive model of the mix with short windows, and source of the operation scripts (variable op). *)
EXTENDS AMix, TLC, TLCExt
CONSTANTS KMax, Ns, Ps, Vals, Cmds, Ts0   \* rounds; lengths, places and values of frames; commands; time of the first frame
VARIABLES op, k, hist, outs, batch        \* hist: what was accepted since the mix started; outs: what came out; batch: frames of this round
mcvars == <<avars, op, k, hist, outs, batch>>
Init == AInit /\ op = "start" /\ k = 0 /\ hist = <<>> /\ outs = <<>> /\ batch = <<>>
Us(t) == (t.s * USec) + t.u
Norm(u) == [s |-> u \div USec, u |-> u % USec]
\* the time of the place p
TimeAt(p) == IF mix.sync = Unset THEN Norm(Ts0 + (p * (USec \div SPS))) ELSE Norm(Us(TimeOf(mix)) + (p * (USec \div SPS)))
Frame(id, n, p, v) == [id |-> id, s |-> TimeAt(p).s, u |-> TimeAt(p).u, n |-> n, segs |-> <<[n |-> n, a |-> v, b |-> 0 - v]>>]
Feed == /\ k < KMax /\ \E id \in DOMAIN gains, n \in Ns, p \in Ps, v \in Vals :
             /\ (\A i \in 1..Len(batch) : batch[i].id < id) /\ (mix.sync = Unset => p >= 0)
             /\ batch' = Append(batch, Frame(id, n, p, v)) /\ op' = "frame " \o ToString(id) \o " " \o ToString(n) \o " " \o ToString(p) \o " " \o ToString(v)
        /\ UNCHANGED <<avars, k, hist, outs>>
\* the frames of a round, one after the other, with what remains of each
RECURSIVE Accept(_, _, _)
Accept(m, h, xs) == IF xs = <<>> THEN [m |-> m, h |-> h] ELSE
  LET x == Head(xs)  g == Gain(Now.gs, Now.ms, x.id)  t == [s |-> x.s, u |-> x.u]
      m2 == CHOOSE y \in Push(m, x, g) : g = 0 => (y.win = m.win \/ y.win = NewMix.win)
      restarted == m.sync # Unset /\ m2.sync # m.sync
      in == Max - m.len >= x.n /\ (m.sync = Unset \/ restarted \/ Place(m, t) >= 0)
      h1 == IF restarted THEN <<>> ELSE h
      start == ((t.s - m2.sync.s) * SPS) + (((t.u - m2.sync.u) * SPS) \div USec) IN
  Accept(m2, IF in /\ g # 0 THEN Append(h1, [from |-> start, n |-> x.n, c |-> x.segs[1].a * g]) ELSE h1, Tail(xs))
Proc == /\ k < KMax /\ batch # <<>> /\ op' = "proc" /\ k' = k + 1 /\ batch' = <<>> /\ Flush /\ gains' = Now.gs
        /\ LET r == Accept(mix, hist, batch) IN
           /\ r.m \in PushAll({mix}, batch, Now.gs, Now.ms)
           /\ hist' = r.h
           /\ IF Ready(r.m) THEN mix' = Taken(r.m) /\ outs' = Append(outs, [ts |-> Us(TimeOf(r.m)), sync |-> r.m.sync, pos |-> (r.m.front.s * SPS) + r.m.front.r, w |-> Cut(r.m.win, Out), h |-> r.h])
              ELSE mix' = r.m /\ outs' = outs
Event == /\ Len(pend) < 1 /\ \E e \in Cmds : /\ Later(e) /\ op' = e.t
         /\ UNCHANGED <<k, hist, outs, batch>>
Conn == \E id \in 1..Inputs : Connect(id, TRUE) /\ op' = "conn " \o ToString(id) /\ UNCHANGED <<k, hist, outs, batch>>
Disc == \E id \in DOMAIN gains : Disconnect(id) /\ (\A i \in 1..Len(batch) : batch[i].id # id) /\ op' = "disc " \o ToString(id) /\ UNCHANGED <<k, hist, outs, batch>>
Next == Feed \/ Proc \/ Event \/ Conn \/ Disc
Spec == Init /\ [][Next]_mcvars
Full == <<avars, k, hist, outs, batch>>
E0(kind, id, v, t) == [k |-> kind, id |-> id, v |-> v, t |-> t]
AllCmds == {E0("gain", 1, 50, "gain 1 50"), E0("gain", 1, 150, "gain 1 150"), E0("gain", 3, 50, "gain 3 50"), E0("mute", 1, 0, "mute 1"), E0("solo", 2, 0, "solo 2"), E0("solo", 3, 0, "solo 3"),
            E0("master", 0, 100, "master 100"), E0("mutemaster", 0, 0, "mutemaster"), E0("bad", 0, 0, "bad 0")}
DeepPs == {0 - 1, 0, 1, 3, 4, 30}
GenPs == {0 - 1, 0, 2, 4, 5, 300}
FewCmds == {E0("gain", 1, 50, "gain 1 50"), E0("master", 0, 100, "master 100"), E0("mute", 2, 0, "mute 2")}
(* ---------------------------------------------------------- what is heard *)
\* sample i of the mix: what was accepted for it, one after the other, limited each time
RECURSIVE Level(_, _)
Level(h, i) == IF h = <<>> THEN 0 ELSE LET p == Level(SubSeq(h, 1, Len(h) - 1), i) x == h[Len(h)] IN IF x.from <= i /\ i < x.from + x.n THEN Limit(p + x.c) ELSE p
RECURSIVE Sum(_, _)
Sum(h, i) == IF h = <<>> THEN 0 ELSE (IF Head(h).from <= i /\ i < Head(h).from + Head(h).n THEN Head(h).c ELSE 0) + Sum(Tail(h), i)
RECURSIVE Nth(_, _)
Nth(w, i) == IF i < Head(w).n THEN Head(w) ELSE Nth(Tail(w), i - Head(w).n)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Heard == \A o \in {outs[i] : i \in 1..Len(outs)} : \A i \in 0..(Out - 1) :
           LET x == Nth(o.w, i) IN /\ x.a = Level(o.h, o.pos + i) /\ x.b = 0 - x.a /\ Abs(x.a) <= 100000000
                                   /\ ((\A j \in 1..Len(o.h) : Abs(Sum(SubSeq(o.h, 1, j), o.pos + i)) <= 60000000) => x.a = Sum(o.h, o.pos + i))
Contiguous == \A i \in 1..(Len(outs) - 1) : outs[i].sync = outs[i + 1].sync => outs[i + 1].pos = outs[i].pos + Out /\ Us(outs[i].sync) + ((outs[i].pos * USec) \div SPS) = outs[i].ts
\* nothing that came out is changed afterwards by what is accepted later
Settled == \A i \in 1..Len(outs) : outs[i].sync = mix.sync => \A j \in 0..(Out - 1) : Level(hist, outs[i].pos + j) = Nth(outs[i].w, j).a
Bounded == mix.len <= Max /\ Dur(mix.win) = Max /\ mix.front.r \in 0..(SPS - 1) /\ \A id \in DOMAIN gains : gains[id] \in 0..100
(* ---------------------------------------------------------------- scripts *)
Shape == <<mix.len, mix.sync = Unset, gains, master, pend, Len(batch)>>
ShapeNext == <<mix'.len, mix'.sync = Unset, gains', master', pend', Len(batch')>>
Emit == PrintT("E" \o ToString(TLCFP(Shape)) \o "#" \o op' \o "#" \o ToString(TLCFP(ShapeNext)))
=============================================================================

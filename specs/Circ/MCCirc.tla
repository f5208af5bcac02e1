------------------------------- MODULE MCCirc -------------------------------
(* Exhaustive model (one sample per microsecond), and source of the operation scripts (variable op). *)
EXTENDS Circ, TLC, TLCExt
CONSTANTS VMax, Ns, Devs, Outs, Gap, Room, Unit, Rate, Num, Den
VARIABLES op, v, ins, outs       \* ins[v]: when input v came and how long it was; outs: what was taken, with its time
MCDevs == {0 - 2, 0 - 1, 0, 1, 2, 3}
GenDevs == {0 - 500, 0 - 65, 0 - 64, 0, 64, 65, 99, 100, 5000}
C0(o) == [rate |-> Rate, num |-> Num, den |-> Den, out |-> o, gap |-> Gap, cap |-> Room, room |-> Room]
Init == op = "start" /\ v = 1 /\ ins = <<>> /\ outs = <<>> /\ \E o \in Outs : CInit(C0(o))
RearTs == IF sync = Unset THEN [s |-> 5, u |-> v * 100] ELSE Later(sync, Ahead(front, size))
Samples == Num \div Den                     \* microseconds per sample
AddOne == /\ v <= VMax
          /\ \E n \in Ns, d \in Devs :
               LET ts == Norm(RearTs.s, RearTs.u + (d * Samples)) IN
               Add(v, n, ts) /\ ins' = Append(ins, [n |-> n, ts |-> ts]) /\ op' = "add " \o ToString(n) \o " " \o ToString(d)
          /\ v' = v + 1 /\ UNCHANGED outs
GetOne == LET f == IF held # NoFrame THEN held ELSE IF size < cfg.out THEN NoFrame ELSE Frame(Stream) IN
          Get(f) /\ op' = "get" /\ outs' = (IF held = NoFrame /\ f # NoFrame THEN Append(outs, [ts |-> f.ts, runs |-> f.runs, ep |-> lost]) ELSE outs) /\ UNCHANGED <<v, ins>>
RelOne == Release /\ op' = "release" /\ UNCHANGED <<v, ins, outs>>
OutOne == \E o \in Outs : o # cfg.out /\ Configure(o) /\ op' = "out " \o ToString(o) /\ UNCHANGED <<v, ins, outs>>
Next == AddOne \/ GetOne \/ RelOne \/ OutOne
Spec == Init /\ [][Next]_<<cvars, op, v, ins, outs>>
Full == <<cvars, v, ins, outs>>
\* ------------------------------------------------------------- what the consumer sees
RECURSIVE Dur(_), Flat(_, _, _)
Dur(r) == IF r = <<>> THEN 0 ELSE Head(r).n + Dur(Tail(r))
Us(t) == (t.s * 1000000) + t.u
\* samples of a frame with their times, in microseconds
Flat(r, k, t) == IF r = <<>> THEN <<>> ELSE [i \in 1..Head(r).n |-> [v |-> Head(r).v, j |-> Head(r).j + i - 1, t |-> t + k + i - 1]] \o Flat(Tail(r), k + Head(r).n, t)
RECURSIVE All(_)
All(o) == IF o = <<>> THEN <<>> ELSE Flat(Head(o).runs, 0, Us(Head(o).ts)) \o All(Tail(o))
Heard == SelectSeq(All(outs), LAMBDA x : x.v # 0)
\* the frames follow each other without a gap; between restarts
Gapless == \A i \in 1..(Len(outs) - 1) : outs[i].ep = outs[i + 1].ep => Us(outs[i + 1].ts) = Us(outs[i].ts) + Dur(outs[i].runs)
\* each sample is heard at its time, give or take the tolerance, once, in order, and no input is heard in part
OnTime == \A i \in 1..Len(Heard) : LET h == Heard[i] d == h.t - (Us(ins[h.v].ts) + h.j) IN d <= Tol /\ 0 - d <= Tol
InOrder == \A i, k \in 1..Len(Heard) : i < k => (Heard[i].v < Heard[k].v \/ (Heard[i].v = Heard[k].v /\ Heard[i].j < Heard[k].j))
Whole == \A i \in 1..(Len(Heard) - 1) : LET a == Heard[i] b == Heard[i + 1] IN (a.v # b.v /\ b.j # 0) = FALSE /\ (a.v # b.v /\ a.j # ins[a.v].n - 1 => lost > 0)
Counted == size = Dur(buf) /\ size <= cfg.room /\ (size > 0 => sync # Unset)
\* adding never changes what is buffered already, unless the stream restarts
Undisturbed == [][v' # v => (lost' > lost /\ buf' = <<>>) \/ (size' >= size /\ First(buf', size) = buf)]_<<cvars, v>>
\* ------------------------------------------------------------- scripts
Shape == <<size \div Unit, sync = Unset, held # NoFrame, cfg.out, (front.r \div Unit) % 3>>
ShapeNext == <<size' \div Unit, sync' = Unset, held' # NoFrame, cfg'.out, (front'.r \div Unit) % 3>>
Emit == PrintT("E" \o ToString(TLCFP(Shape)) \o "#" \o op' \o "#" \o ToString(TLCFP(ShapeNext)))
=============================================================================

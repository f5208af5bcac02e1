------------------------------- MODULE MCDash -------------------------------
(* Readers 1 (H.264) and 2 (H.265) get the same pictures, one slice each, and reader 3 audio. The ghosts keep  *)
(* all the pictures sent, all the segments written and all the entries the manifest has ever had.              *)
EXTENDS Dash, TLC, TLCExt
CONSTANTS PMax, AMax, EMax, Kinds, Maxes, Aligned, Step, AStep   \* bounds, readers, windows, whether every intra picture ends a segment, times between frames
VARIABLES s, op, pics, auds, evs, sent, written, ever, since, c
mvars == <<s, op, pics, auds, evs, sent, written, ever, since, c>>
Kind(i) == <<"avc", "hevc", "aac">>[i]
Vid == Kinds \cap {1, 2}
MInit == s = NewState(1, Least(Maxes), FALSE) /\ op = "start" /\ pics = 0 /\ auds = 0 /\ evs = 0 /\ sent = Empty /\ written = Empty /\ ever = [k \in {"v", "a"} |-> <<>>] /\ since = None /\ c = 1
\* what a step wrote
Log(b) == /\ written' = [i \in Live(b) |-> (IF i \in DOMAIN written THEN written[i] ELSE <<>>) \o LET n == {f \in b.disk \ s.disk : f.r = i} IN IF n = {} THEN <<>> ELSE <<(CHOOSE f \in n : TRUE).s>>]
          /\ ever' = [k \in {"v", "a"} |-> IF k \in DOMAIN b.sets /\ b.sets[k].list # <<>> /\ (k \notin DOMAIN s.sets \/ s.sets[k].list = <<>> \/ Last(s.sets[k].list) # Last(b.sets[k].list)) THEN Append(ever[k], Last(b.sets[k].list)) ELSE ever[k]]
          /\ s' = b
Nal(ty, n, key) == [ty |-> ty, len |-> 10, c |-> n, ts |-> pics * Step, dts |-> None, w |-> 16, h |-> 16]
Slice(i, key) == IF Kind(i) = "avc" THEN (IF key THEN 5 ELSE 1) ELSE (IF key THEN 19 ELSE 1)
Pic(key) == /\ pics < PMax /\ Vid \cap Live(s) # {} /\ (since = None => key \/ ~Aligned) /\ (Aligned /\ since # None /\ since < 3 => ~key) /\ (since # None /\ since > 3 => key)
            /\ LET b == Round(FoldLeft(LAMBDA st, i : Arrive(st, i, Nal(Slice(i, key), c, key)), s, Up(Vid \cap Live(s)))) IN Log(b)
            /\ pics' = pics + 1 /\ c' = c + 1 /\ since' = (IF key THEN 1 ELSE IF since = None THEN None ELSE since + 1)
            /\ sent' = [i \in DOMAIN sent |-> IF i \in Vid THEN Append(sent[i], <<c, key>>) ELSE sent[i]]
            /\ op' = (IF key THEN "pic 1" ELSE "pic 0") /\ UNCHANGED <<auds, evs>>
Aud == /\ auds < AMax /\ 3 \in Live(s) /\ Len(s.rd[3].seg) < 7
       /\ LET b == Round(Arrive(s, 3, [len |-> 20, c |-> c, n |-> AStep, ts |-> auds * (AStep \div 48) * 1000, dts |-> None, rate |-> 48000, ch |-> 2, good |-> TRUE, cfg |-> <<2, 3, 2>>])) IN Log(b)
       /\ auds' = auds + 1 /\ c' = c + 1 /\ sent' = [sent EXCEPT ![3] = Append(@, <<c, TRUE>>)] /\ op' = "aud" /\ UNCHANGED <<pics, evs, since>>
\* the parameter sets of the next picture, before it
Params == /\ evs < EMax /\ pics < PMax /\ Vid \cap Live(s) # {} /\ \A i \in Vid \cap Live(s) : s.rd[i].ext = <<>>
          /\ LET b == Round(Round(Round(FoldLeft(LAMBDA st, i : FoldLeft(LAMBDA x, t : Arrive(x, i, Nal(t, c + t, FALSE)), st, Sets(Kind(i))), s, Up(Vid \cap Live(s)))))) IN Log(b)
          /\ evs' = evs + 1 /\ c' = c + 40 /\ op' = "sets" /\ UNCHANGED <<pics, auds, sent, since>>
Conn(i) == /\ evs < EMax /\ i \in Kinds \ Live(s) /\ (i \in Vid /\ ~Aligned => \A j \in Vid \cap Live(s) : s.rd[j].seg = <<>> /\ s.rd[j].cur = <<>>) /\ Log(Connect(s, i, Kind(i))) /\ evs' = evs + 1
           /\ sent' = Put(sent, i, <<>>) /\ since' = (IF i \in Vid /\ Vid \cap Live(s) = {} THEN None ELSE since) /\ op' = "conn " \o ToString(i) /\ UNCHANGED <<pics, auds, c>>
Disc(i) == /\ evs < EMax /\ i \in Live(s) /\ Log(Disconnect(s, i)) /\ evs' = evs + 1 /\ sent' = Without(sent, i) /\ op' = "disc " \o ToString(i) /\ UNCHANGED <<pics, auds, since, c>>
Conf(m) == /\ evs < EMax /\ s.evs = <<>> /\ m # s.max /\ s' = Later(s, [k |-> "conf", v |-> m]) /\ evs' = evs + 1 /\ op' = "conf " \o ToString(m) /\ UNCHANGED <<pics, auds, sent, written, ever, since, c>>
Rate(i) == /\ evs < EMax /\ s.evs = <<>> /\ i \in Live(s) /\ s.rd[i].bw = 0 /\ s' = Later(s, [k |-> "bitrate", r |-> i, v |-> 1000]) /\ evs' = evs + 1 /\ op' = "bitrate " \o ToString(i) \o " 1000"
           /\ UNCHANGED <<pics, auds, sent, written, ever, since, c>>
MNext == \/ \E k \in BOOLEAN : Pic(k) \/ Aud \/ Params
         \/ \E i \in Kinds : Conn(i) \/ Disc(i) \/ Rate(i)
         \/ \E m \in Maxes : Conf(m)
MSpec == MInit /\ [][MNext]_mvars
Full == <<s, pics, auds, evs, sent, written, ever, since>>
---------------------------------------------------------------------------
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Contents(seg) == [k \in 1..Len(seg.smp) |-> seg.smp[k][2][1]]
Ids(q) == [k \in 1..Len(q) |-> q[k][1]]
FirstKey(q) == IF \E k \in 1..Len(q) : q[k][2] THEN SubSeq(q, Least({k \in 1..Len(q) : q[k][2]}), Len(q)) ELSE <<>>
\* C15, C16, C18: everything sent from the first intra picture on is in exactly one segment, or in the one being made
Held(i) == LET r == s.rd[i] IN Flat([k \in 1..Len(written[i]) |-> Contents(written[i][k])]) \o (IF r.done = <<>> THEN <<>> ELSE Contents(r.done[1]))
                               \o [k \in 1..Len(r.seg) |-> r.seg[k].u[1]]
Pending(i) == s.rd[i].cur
NothingLost == \A i \in Live(s) : Held(i) \o (IF Held(i) = <<>> /\ ~s.rd[i].cin THEN <<>> ELSE Pending(i)) = Ids(FirstKey(sent[i]))
\* C15, C16: each segment starts where the one before ended, with an intra picture; numbers and durations are consistent
Consistent == \A i \in Live(s) : \A k \in 1..Len(written[i]) : LET g == written[i][k] IN
  /\ g.seq = k - 1 /\ g.smp[1][3] = 1 /\ Sum([x \in 1..Len(g.smp) |-> g.smp[x][1]]) = g.dur
  /\ (k < Len(written[i]) => written[i][k + 1].t = g.t + g.dur)
\* C15: a segment of video is long enough, and would not have been at an earlier intra picture
Cuts == \A i \in Live(s) \cap Vid : \A k \in 1..Len(written[i]) : LET g == written[i][k] n == Len(g.smp) At(x) == Sum([y \in 1..x |-> g.smp[y][1]]) IN
  /\ g.dur + g.smp[n][1] >= s.dur * VideoRate
  /\ \A x \in 2..n : g.smp[x][3] = 1 => At(x - 1) + g.smp[x - 1][1] < s.dur * VideoRate
\* C16: with video, the audio that was there when the segment of video ended is written with it; without, segments are as long as configured
AudioCuts == 3 \in Live(s) => /\ (Vid \cap Live(s) = {} => Total(s.rd[3].seg) < s.dur * 48000 + AStep \/ Len(s.rd[3].seg) = auds)
                              /\ s.rd[3].done = <<>>
\* C17: the manifest lists the latest segments, contiguous, and they are on disk; what has left it is not
Suffix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
Listed == \A k \in DOMAIN s.sets : Suffix(s.sets[k].list, ever[k]) /\ (s.evs = <<>> /\ EMax < 3 => Len(s.sets[k].list) <= 3)
Kept == \A i \in Live(s) : LET k == IF i \in Vid THEN "v" ELSE "a" own == {<<written[i][x].t, written[i][x].dur>> : x \in 1..Len(written[i])} IN
  k \in DOMAIN s.sets => {f.t : f \in {g \in s.disk : g.r = i /\ <<g.t, g.s.dur>> \in own}} = {e[1] : e \in ToSet(s.sets[k].list) \cap own}
Window == [][\A k \in DOMAIN s'.sets : LET a == IF k \in DOMAIN s.sets THEN s.sets[k].list ELSE <<>> b == s'.sets[k].list IN b # a => Len(b) = (IF Len(a) + 1 > s'.max THEN s'.max ELSE Len(a) + 1) /\ s'.mpd[k].list = b]_mvars
Reps == \A k \in DOMAIN s.sets : DOMAIN s.sets[k].reps = {i \in Of(s, k) : s.rd[i].n > 0}
\* removing an input leaves the other representations as they were
Alone == [][\A i \in Live(s) : i \notin Live(s') => \A k \in DOMAIN s.sets : s'.sets[k].list = s.sets[k].list /\ \A j \in DOMAIN s.sets[k].reps \ {i} : s'.sets[k].reps[j] = s.sets[k].reps[j]]_mvars
---------------------------------------------------------------------------
Shape0(x, n) == <<[i \in Live(x) |-> <<Len(x.rd[i].cur), x.rd[i].cin, [k \in 1..Len(x.rd[i].seg) |-> IF i \in Vid THEN x.rd[i].seg[k].key ELSE TRUE], x.rd[i].ext # <<>>, x.rd[i].bw, IF x.rd[i].n > 0 THEN 1 ELSE 0>>],
                  [k \in DOMAIN x.sets |-> <<Len(x.sets[k].list), DOMAIN x.sets[k].reps>>], x.max, x.evs, n>>
Shape == Shape0(s, since)
ShapeNext == Shape0(s', since')
Emit == PrintT("E" \o ToString(TLCFP(Shape)) \o "#" \o op' \o "#" \o ToString(TLCFP(ShapeNext)))
=============================================================================

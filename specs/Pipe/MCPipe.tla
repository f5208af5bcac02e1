------------------------------- MODULE MCPipe -------------------------------
(* Commands on a few filters, for exhaustive checking and for generating scripts. *)
EXTENDS Pipe, TLC, TLCExt
CONSTANTS Zoo, PathIds, Ws0, Rds0, MidLens, Api, MaxLinks
VARIABLES S, op
\* zoos: id -> type
ZA == (1 :> "receiver") @@ (2 :> "videoDecoder") @@ (3 :> "transmitter")
ZB == (1 :> "demuxer") @@ (2 :> "videoMixer") @@ (3 :> "dasher") @@ (4 :> "videoDecoder")
ZC == (1 :> "v4lcapture") @@ (2 :> "videoResampler") @@ (3 :> "videoEncoder") @@ (4 :> "dasher")
ZD == (1 :> "receiver") @@ (2 :> "videoSplitter") @@ (3 :> "audioMixer") @@ (4 :> "transmitter")
S1 == {1}
S12 == {1, 2}
S1m == {1, -1}
S12m == {1, 2, -1}
Mids == UNION {{s \in [1..n -> DOMAIN Zoo] : TRUE} : n \in MidLens}
Cmd == [id : PathIds, org : DOMAIN Zoo, dst : DOMAIN Zoo, w : Ws0, rd : Rds0, mids : Mids]
Str(s) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN " " \o ToString(s[1]) ELSE " " \o ToString(s[1]) \o " " \o ToString(s[2])
Init == S = [P0 EXCEPT !.fl = Zoo] /\ op = "start"
CF(i) == LET r == CreateFilter(S, i, Zoo[i]) IN S' = r.s /\ op' = "cf " \o ToString(i) \o " " \o Zoo[i]
CP(c, api) == LET r == CreatePath(S, c, api) IN
  /\ (r.ok \/ api \/ (c.mids = <<>> /\ c.w # -1))   \* most refusals are alike
  /\ S' = r.s /\ Cardinality(DOMAIN r.s.lk) <= MaxLinks
  /\ op' = (IF api THEN "ap " ELSE "cp ") \o ToString(c.id) \o " " \o ToString(c.org) \o " " \o ToString(c.dst) \o " " \o ToString(c.w) \o " " \o ToString(c.rd) \o Str(c.mids)
RP(i) == S' = RemovePath(S, i).s /\ op' = "rp " \o ToString(i)
RF(i) == S' = RemoveFilter(S, i).s /\ op' = "rf " \o ToString(i)
ST == S' = Stop(S).s /\ op' = "stop"
Next == \/ \E i \in DOMAIN Zoo : CF(i) \/ RF(i)
        \/ \E c \in Cmd : CP(c, FALSE)
        \/ Api /\ \E c \in Cmd : c.mids = <<>> /\ CP(c, TRUE)
        \/ \E i \in PathIds : RP(i)
        \/ ST
Spec == Init /\ [][Next]_<<S, op>>
view == S
Fp(x) == ToString(TLCFP(x)) \o "." \o ToString(TLCFP(<<x>>))
Emit == PrintT("E" \o Fp(S) \o "#" \o op' \o "#" \o Fp(S'))
Inv == Whole(S) /\ Limits(S)
\* what a command leaves alone
Others == [][
   /\ \A p \in PathIds : (S' = RemovePath(S, p).s) =>
        /\ \A q \in DOMAIN S.pa \ {p} : /\ q \in DOMAIN S'.pa /\ S'.pa[q] = S.pa[q] /\ Uses(S, q) \subseteq DOMAIN S'.fl
                                        /\ \A k \in 1..Len(S.pa[q].hops) : LET h == S.pa[q].hops[k] IN h.i \in DOMAIN S'.lk /\ <<h.f, h.rd>> \in S'.lk[h.i].mem
        /\ p \in DOMAIN S.pa => DOMAIN S.fl \ Uses(S, p) \subseteq DOMAIN S'.fl
   /\ \A f \in DOMAIN S.fl : f \notin DOMAIN S'.fl => (DOMAIN S'.fl = {} \/ \A q \in DOMAIN S'.pa : f \notin Uses(S', q))
   ]_<<S, op>>
=============================================================================

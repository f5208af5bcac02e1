------------------------------ MODULE MCShare ------------------------------
(* Consumers follow the protocol (get, then release what was new); each must be told about consecutive frames.       *)
EXTENDS Share, TLC
CONSTANTS MaxV, Cons, Size
VARIABLES nextv, told, op
mvars == <<svars, nextv, told, op>>
MInit == SInit(Size, 2) /\ nextv = 1 /\ told = [c \in Cons |-> 0] /\ op = ""
S(x) == ToString(x)
MAdd == nextv <= MaxV /\ Add(nextv, Conn /\ Len(q) < max - 1) /\ nextv' = (IF Conn /\ Len(q) < max - 1 THEN nextv + 1 ELSE nextv) /\ told' = told /\ op' = "add"
MGet(c) == \E null, nw \in BOOLEAN, v \in 0..MaxV :
   /\ Get(c, null, nw, v) /\ (~null /\ ~nw /\ q = <<>> => v = last) /\ (null => v = 0)
   /\ told' = (IF nw THEN [told EXCEPT ![c] = v] ELSE told) /\ nextv' = nextv /\ op' = "get " \o S(c)
MRel(c) == /\ c \in Members /\ latched /\ mem[c].seen /\ ~mem[c].rel
           /\ \E w \in {7, -1} : Release(c, w)
           /\ UNCHANGED <<nextv, told>> /\ op' = "rem " \o S(c)
MJoin(c) == /\ c \notin Members /\ Conn /\ Join(c) /\ UNCHANGED nextv /\ op' = "join " \o S(c)
            /\ told' = [told EXCEPT ![c] = IF latched THEN Head(q) ELSE last]
MLeave(c) == c \in Members /\ Leave(c, TRUE) /\ UNCHANGED <<nextv, told>> /\ op' = "leave " \o S(c)
MDisc == wup /\ WDisc(TRUE) /\ UNCHANGED <<nextv, told>> /\ op' = "wdisc"
MNext == MAdd \/ MDisc \/ \E c \in Cons : MGet(c) \/ MRel(c) \/ MJoin(c) \/ MLeave(c)
MSpec == MInit /\ [][MNext]_mvars
\* every consumer is told about each frame taken from the queue, exactly once and in order
EachOnce == [][\A c \in Members : told'[c] # told[c] /\ c \in Members /\ c \in DOMAIN mem' => told'[c] = told[c] + 1]_mvars
Valid == \A c \in Members : latched /\ mem[c].seen /\ ~mem[c].rel => told[c] = Head(q)      \* what is being consumed is not replaced
AllTold == [][last' # last => \A c \in Members \cap DOMAIN mem' : told[c] >= last']_mvars      \* it goes only when all have been told
=============================================================================

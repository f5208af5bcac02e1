----------------------------- MODULE TraceShare -----------------------------
EXTENDS Share, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Init == l = 1 /\ SInit(2, 1)
Obs(e) == /\ e.conn = (wup' /\ rup') /\ e.att = rup'
          /\ e.n = (IF rup' THEN Len(q') ELSE 0)
          /\ e.lost = 0
          /\ rup' => /\ e.full = FullAt(Len(q'), max')
                     /\ e.cur = (IF q' = <<>> THEN 0 ELSE Head(q'))
                     /\ {e.ids[i] : i \in 1..Len(e.ids)} = DOMAIN mem' /\ Len(e.ids) = Cardinality(DOMAIN mem')
Step(e) ==
  CASE e.op = "add" -> Add(e.v, e.ok)
    [] e.op = "get" -> Get(e.c, e.null, e.nw, e.v)
    [] e.op = "rem" -> Release(e.c, e.w)
    [] e.op = "join" -> Join(e.c)
    [] e.op = "leave" -> Leave(e.c, e.r)
    [] e.op = "wdisc" -> WDisc(e.r)
    [] e.op = "qry" -> UNCHANGED svars
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E e \in {E} :
           CASE e.op = "reset" -> /\ max' = e.max /\ q' = <<>> /\ last' = 0 /\ latched' = FALSE /\ wup' = TRUE /\ rup' = TRUE
                                  /\ mem' = [c \in 1..e.nc |-> [seen |-> FALSE, rel |-> FALSE]]
             [] e.op = "end" -> UNCHANGED svars
             [] OTHER -> Step(e) /\ Obs(e)
Spec == Init /\ [][Next]_<<svars, l>>
Accepted == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

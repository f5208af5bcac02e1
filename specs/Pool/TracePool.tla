------------------------------ MODULE TracePool ------------------------------
EXTENDS Pool, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
TInit == /\ l = 1 /\ nw = 0 /\ reg = <<>> /\ idof = <<>> /\ running = {} /\ may = <<>> /\ must = {} /\ due = <<>> /\ late = <<>>
         /\ total = <<>> /\ rmwait = <<>> /\ phase = "up" /\ stopwait = 0 /\ bound = 0 /\ timed = FALSE
Step ==
  CASE E.op = "reset" -> Init0(E.n, E.bound, E.timed)
    [] E.op = "AddCall" -> AddCall(E.o, E.id, E.t)
    [] E.op = "AddRet" -> AddRet(E.o, E.id, E.r, E.t)
    [] E.op = "Start" -> Start(E.o, E.t)
    [] E.op = "End" -> End(E.o, E.en, E.ret, E.pend, E.t)
    [] E.op = "Look" -> Look(E.o)
    [] E.op = "RmCall" -> RmCall(E.id)
    [] E.op = "RmRet" -> RmRet(E.id, E.r)
    [] E.op = "StopCall" -> StopCall
    [] E.op = "StopRet" -> StopRet
    [] E.op = "Idle" -> Idle(E.t, E.to)
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
==============================================================================

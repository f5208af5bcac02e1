---------------------------- MODULE TraceCapture ----------------------------
EXTENDS Capture, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l, wc, nout, seq
T == Trace[l]
tvars == <<wc, nout, seq>>
D0 == [kind |-> 1, maxw |-> 64, maxh |-> 64, f |-> 0 - 1, num |-> 0, den |-> 0, bufs |-> 4, caps |-> 3]
Never == 0 - 1000000000
TInit == l = 1 /\ CInit(<<D0, D0>>) /\ wc = Never /\ nout = 0 /\ seq = 0
Is(o) == l <= Len(Trace) /\ T.op = o /\ l' = l + 1
Set(s) == {s[k] : k \in 1..Len(s)}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* what is seen of the filter and of the devices after each operation
Seen ==
  /\ \A i \in 1..2 : LET x == T.d[i] IN
       IF i = cur' THEN x.fds = 1 /\ x.maps = x.bufs /\ x.on /\ x.filled = Len(fil') /\ x.queued + x.filled = tot' ELSE x.fds = 0 /\ x.maps = 0 /\ ~x.on
  /\ T.st = (IF cur' = 0 THEN "close" ELSE "capture")
  /\ (cur' # 0 => /\ T.w = fm'.w /\ T.h = fm'.h /\ T.fmt = Name(fm'.f) /\ T.dev = cur'
                  /\ (nout' < 120 => T.fps = 1000000 \div ft'))
E == [d |-> T.i, w |-> T.w0, h |-> T.h0, fps |-> T.fps0, f |-> T.f0, force |-> T.force]
Pre == [w |-> T.pw, h |-> T.ph, f |-> T.pf]
Conf(failed) == Configure(E, Pre, IF T.ok THEN T.d[T.i].bufs ELSE 0, failed, T.ok)
Time == \* when the next run is
  IF cur # 0 /\ cap > 0
  THEN LET w == IF Abs(T.t0 - wc) > ft \div 64 THEN T.t0 ELSE wc IN wc' = w + ft /\ (nout < 120 => T.ret = wc' - T.t)
  ELSE wc' = wc
Rn(failed) ==
  /\ Run(failed) /\ Outputs(T.outs, failed, T.t) /\ Time
  /\ T.t >= T.t0 /\ (nout < 120 => T.t - T.t0 <= ft)
  /\ nout' = nout + Len(T.outs) /\ seq' = seq + Len(T.outs) /\ (\A k \in 1..Len(T.outs) : T.outs[k].seq = seq /\ T.outs[k].org = T.t)
TNext ==
  \/ Is("reset") /\ devs' = <<D0, D0>> /\ cur' = 0 /\ fm' = None /\ ft' = 0 /\ fil' = <<>> /\ tot' = 0 /\ cap' = 0 /\ wc' = Never /\ nout' = 0 /\ seq' = 0 /\ T.left = 0
  \/ Is("dev") /\ Device(T.i, [kind |-> T.kind, maxw |-> T.maxw, maxh |-> T.maxh, f |-> T.f, num |-> T.num, den |-> T.den, bufs |-> T.bufs, caps |-> T.caps]) /\ UNCHANGED tvars /\ Seen
  \/ Is("conf") /\ Conf(Set(T.failed)) /\ UNCHANGED tvars /\ Seen
  \/ Is("badconf") /\ UNCHANGED <<cvars, tvars>> /\ ~T.ok /\ Seen
  \/ Is("rel") /\ Release /\ T.ok /\ UNCHANGED tvars /\ Seen
  \/ Is("conn") /\ Connect(T.cap, T.ok) /\ UNCHANGED tvars /\ Seen
  \/ Is("fill") /\ (IF T.ok THEN Fill([len |-> T.len, v |-> T.v]) ELSE UNCHANGED cvars) /\ UNCHANGED tvars /\ Seen
  \/ Is("proc") /\ Rn(Set(T.failed)) /\ Seen
  \* a configuration that arrives while a picture is being read takes effect after it
  \/ Is("proc2") /\ LET f == IF Taken({}) THEN Tail(fil) ELSE fil IN
       /\ Outputs(T.outs, {}, T.t) /\ Time /\ nout' = nout + Len(T.outs) /\ seq' = seq + Len(T.outs)
       /\ Configure(E, Pre, IF T.ok THEN T.d[T.i].bufs ELSE 0, {}, T.ok) /\ Valid(E) /\ Seen
TSpec == TInit /\ [][TNext]_<<cvars, tvars, l>>
AcceptedTrace == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

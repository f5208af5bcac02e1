--------------------------- MODULE TraceSplitter ---------------------------
EXTENDS Splitter, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Obs == /\ T.ft = ft' /\ Len(T.crops) = Cardinality(DOMAIN crops')
       /\ \A k \in 1..Len(T.crops) : LET x == T.crops[k] IN x[1] \in DOMAIN crops' /\ [w |-> x[2], h |-> x[3], x |-> x[4], y |-> x[5], d |-> x[6]] = crops'[x[1]]
C == [w |-> T.w, h |-> T.h, x |-> T.x, y |-> T.y, d |-> T.d]
TInit == l = 1 /\ SInit
Is(o) == l <= Len(Trace) /\ T.op = o /\ l' = l + 1
Proc ==
  LET st == Now taken == T.n = Len(q) - 1 IN
  /\ Flushed /\ crops' = st.cr /\ UNCHANGED n
  /\ (T.n = Len(q) \/ taken) /\ q' = IF taken THEN Tail(q) ELSE q
  /\ (st.ft = 0 => taken = (q # <<>>))
  /\ (q = <<>> => T.outs = <<>>)
  /\ (q # <<>> => LET p == Head(q) E == Emits(st.cr, p) ids == {T.outs[k].id : k \in 1..Len(T.outs)} IN
       /\ Len(T.outs) = Cardinality(ids)
       /\ (ids = E \/ (st.ft > 0 /\ ids = {}))
       /\ \A k \in 1..Len(T.outs) : LET o == T.outs[k] c == st.cr[o.id] IN
            /\ o.c = 1 /\ o.w = c.w /\ o.h = c.h /\ o.len \in {c.w * c.h, 3 * c.w * c.h} /\ o.ts = p.ts /\ o.dts = p.ts /\ o.seq = p.s /\ o.org
            /\ Cropped(o.pix, c, p))
TNext ==
  \/ Is("reset") /\ T.ok /\ crops' = <<>> /\ ft' = T.ft /\ q' = <<>> /\ n' = 0 /\ pend' = <<>> /\ Obs
  \/ Is("conn") /\ Connect(T.id, T.ok) /\ Obs
  \/ Is("disc") /\ Disconnect(T.id, T.ok) /\ Obs
  \/ Is("crop") /\ Crop(T.id, C, T.ok) /\ Obs
  \/ Is("ecrop") /\ CropLater(T.id, C)
  \/ Is("conf") /\ TimeLater(T.t)
  \/ Is("frame") /\ NewPicture(T)
  \/ Is("proc") /\ Proc /\ Obs
TSpec == TInit /\ [][TNext]_<<svars, l>>
AcceptedTrace == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

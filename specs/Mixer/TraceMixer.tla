----------------------------- MODULE TraceMixer -----------------------------
EXTENDS Mixer, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ft
T == Trace[l]
Obs == /\ T.ow = ow' /\ T.oh = oh' /\ Len(T.chans) = Cardinality(DOMAIN chans')
       /\ \A k \in 1..Len(T.chans) : LET x == T.chans[k] IN x[1] \in DOMAIN chans' /\
            [w |-> x[2], h |-> x[3], x |-> x[4], y |-> x[5], l |-> x[6], en |-> x[7] = 1, o |-> x[8]] = chans'[x[1]]
C == [w |-> T.w, h |-> T.h, x |-> T.x, y |-> T.y, l |-> T.l, en |-> T.en, o |-> T.o]
TInit == l = 1 /\ ft = 0 /\ MInit(1, 1, 1)
Is(o) == l <= Len(Trace) /\ T.op = o /\ l' = l + 1
Left(id) == CHOOSE n \in {T.n[k][2] : k \in {k \in 1..Len(T.n) : T.n[k][1] = id}} : TRUE
Proc ==
  LET st == Now sh == Shown any == \E id \in DOMAIN q : q[id] # <<>> IN
  /\ Flushed /\ chans' = st.ch /\ UNCHANGED max
  /\ {T.n[k][1] : k \in 1..Len(T.n)} = DOMAIN q
  /\ \A id \in DOMAIN q : Left(id) \in {Len(q[id]), Len(Take(id))}
  /\ q' = [id \in DOMAIN q |-> IF Left(id) = Len(q[id]) THEN q[id] ELSE Take(id)]
  /\ last' = [id \in DOMAIN q |-> IF Left(id) = Len(q[id]) THEN last[id] ELSE Head(q[id])]
  /\ (ft = 0 => T.called = any /\ \A id \in DOMAIN q : Left(id) = Len(Take(id)))
  /\ (T.called => any)
  /\ T.made = (IF T.called THEN 1 ELSE 0)
  /\ (T.called => /\ T.w = ow' /\ T.h = oh' /\ T.len = 3 * ow' * oh' /\ T.dts = T.ts
                  /\ {T.shown[k][1] : k \in 1..Len(T.shown)} = DOMAIN q
                  /\ Composed(T.pix, st.ch, sh)
                  /\ (IF ft > 0 THEN T.ts = T.sync
                      ELSE \A on \in {{id \in DOMAIN st.ch : st.ch[id].en}} : on # {} => T.ts \in Times(st.ch, sh)))
TNext ==
  \/ Is("reset") /\ T.ok /\ max' = T.max /\ ft' = T.ft /\ ow' = T.ow /\ oh' = T.oh /\ chans' = <<>> /\ q' = <<>> /\ last' = <<>> /\ pend' = <<>> /\ Obs
  \/ /\ UNCHANGED ft
     /\ \/ Is("conn") /\ Connect(T.id, T.ok) /\ Obs
        \/ Is("disc") /\ Disconnect(T.id, T.ok) /\ Obs
        \/ Is("cfg") /\ Config(T.id, C, T.ok)
        \/ Is("ecfg") /\ ConfigLater(T.id, C)
        \/ Is("conf") /\ LayoutLater(T.w, T.h)
        \/ Is("frame") /\ NewPicture(T.id, [v |-> T.v, w |-> T.w, h |-> T.h, kind |-> T.kind, ts |-> T.ts])
        \/ Is("proc") /\ Proc /\ Obs
TSpec == TInit /\ [][TNext]_<<mvars, l, ft>>
AcceptedTrace == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================

------------------------------- MODULE Capture -------------------------------
(* The camera capture: it holds at most one device, which is either capturing or released, whatever the devices answer. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES devs, \* what each device allows [kind, maxw, maxh, f, num, den, bufs, caps]
          cur,  \* the device that is capturing (0: none)
          fm,   \* what it captures [w, h, f]
          ft,   \* time of a picture
          fil,  \* the pictures it holds, oldest first [len, v]
          tot,  \* buffers that go round
          cap   \* largest picture of the output queue (0: there is none)
cvars == <<devs, cur, fm, ft, fil, tot, cap>>
\* formats: YUYV, YUV420, YUV422P, RGB24, H264, MJPEG and an unknown one
Pixel(f) == CASE f = 0 -> 5 [] f = 1 -> 2 [] f = 2 -> 3 [] f = 3 -> 0 [] OTHER -> 0 - 1
Name(f) == CASE f = 0 -> "YUYV422" [] f = 1 -> "YUV420P" [] f = 2 -> "YUV422P" [] f = 3 -> "RGB24" [] f = 4 -> "H264" [] f = 5 -> "MJPEG" [] OTHER -> "unknown format"
None == [w |-> 0, h |-> 0, f |-> 0]
CInit(D) == devs = D /\ cur = 0 /\ fm = None /\ ft = 0 /\ fil = <<>> /\ tot = 0 /\ cap = 0
Min(a, b) == IF a < b THEN a ELSE b
\* a configuration e on a device d whose format was pre
Granted(d, e, pre) == IF ~e.force THEN pre ELSE [w |-> Min(e.w, d.maxw), h |-> Min(e.h, d.maxh), f |-> IF d.f >= 0 THEN d.f ELSE IF e.f > 5 THEN 0 ELSE e.f]
Rate(d, e) == IF d.num = 0 \/ d.den = 0 THEN e.fps ELSE d.den \div d.num
Valid(e) == e.fps > 0
Usable(d) == d.kind = 1 /\ d.caps = 3 /\ d.bufs >= 2
\* calls whose failure does not prevent capturing
Optional == {"cropcap", "scrop", "streamoff"}
Succeeds(e, failed) == Usable(devs[e.d]) /\ failed \subseteq Optional
Closed == cur' = 0 /\ fm' = None /\ fil' = <<>> /\ tot' = 0 /\ UNCHANGED ft
Running(e, pre, n) == cur' = e.d /\ fm' = Granted(devs[e.d], e, pre) /\ ft' = 1000000 \div Rate(devs[e.d], e) /\ fil' = <<>> /\ tot' = n
Configure(e, pre, n, failed, ok) ==
  /\ ok = (Valid(e) /\ Succeeds(e, failed))
  /\ IF ~Valid(e) THEN UNCHANGED <<cur, fm, ft, fil, tot>> ELSE IF ok THEN Running(e, pre, n) /\ n >= 2 /\ n <= devs[e.d].bufs ELSE Closed
  /\ UNCHANGED <<devs, cap>>
Release == Closed /\ UNCHANGED <<devs, cap>>
Device(i, d) == devs' = [devs EXCEPT ![i] = d] /\ UNCHANGED <<cur, fm, ft, fil, tot, cap>>
CanConnect == cur # 0 /\ fm.f \in 0..4 /\ cap = 0
Connect(c, ok) == ok = CanConnect /\ cap' = (IF ok THEN c ELSE cap) /\ (ok => c > 0) /\ UNCHANGED <<devs, cur, fm, ft, fil, tot>>
Fill(p) == fil' = Append(fil, p) /\ UNCHANGED <<devs, cur, fm, ft, tot, cap>>
\* a run of the filter: the oldest picture goes out, its buffer goes back to the device
Taken(failed) == cur # 0 /\ cap > 0 /\ fil # <<>> /\ failed \cap {"select", "dqbuf"} = {}
Run(failed) == /\ fil' = (IF Taken(failed) THEN Tail(fil) ELSE fil) /\ tot' = (IF Taken(failed) /\ "qbuf" \in failed THEN tot - 1 ELSE tot)
               /\ UNCHANGED <<devs, cur, fm, ft, cap>>
Shows(o, p, t) == o.w = fm.w /\ o.h = fm.h /\ o.f = Pixel(fm.f) /\ o.len = p.len /\ o.v = p.v /\ o.ts = t /\ o.dts = t
Outputs(outs, failed, t) ==
  IF ~Taken(failed) \/ Head(fil).len > cap THEN outs = <<>>
  ELSE /\ Len(outs) <= 1 /\ ("qbuf" \notin failed => Len(outs) = 1)
       /\ \A k \in 1..Len(outs) : Shows(outs[k], Head(fil), t)
=============================================================================

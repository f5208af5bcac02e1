---------------------------- MODULE CaptureImpl ----------------------------
(* The calls of the capture one by one, any of which may fail: nothing of a device is kept unless it is capturing.
   Stubborn = TRUE: a device that cannot be stopped is kept; Leaky = TRUE: a failed initialisation leaves what it mapped. *)
EXTENDS Integers
CONSTANTS Devs, Bufs, Stubborn, Leaky
VARIABLES pc, status, dev, fd, maps, queued, on, goal
vars == <<pc, status, dev, fd, maps, queued, on, goal>>
Init == pc = "idle" /\ status = "close" /\ dev = 0 /\ goal = 0 /\ fd = [d \in Devs |-> FALSE] /\ maps = [d \in Devs |-> 0] /\ queued = [d \in Devs |-> 0] /\ on = [d \in Devs |-> FALSE]
Free(d) == ~fd[d] /\ maps[d] = 0
\* configure (goal: the device) and release (goal 0)
Begin(g) == pc = "idle" /\ goal' = g /\ pc' = (IF status = "close" THEN (IF g = 0 THEN "idle" ELSE "open") ELSE "stop") /\ UNCHANGED <<status, dev, fd, maps, queued, on>>
Stop(ok) == pc = "stop" /\ (IF status = "capture"
   THEN IF ok THEN on' = [on EXCEPT ![dev] = FALSE] /\ queued' = [queued EXCEPT ![dev] = 0] /\ status' = "init" /\ pc' = "unmap"
        ELSE UNCHANGED <<on, queued>> /\ (IF Stubborn THEN status' = status /\ pc' = "idle" ELSE status' = "init" /\ pc' = "unmap")
   ELSE UNCHANGED <<on, queued, status>> /\ pc' = "unmap") /\ UNCHANGED <<dev, fd, maps, goal>>
Unmap == pc = "unmap" /\ maps' = (IF status = "init" THEN [maps EXCEPT ![dev] = 0] ELSE maps) /\ status' = "open" /\ pc' = "close" /\ UNCHANGED <<dev, fd, queued, on, goal>>
Close == pc = "close" /\ fd' = [fd EXCEPT ![dev] = FALSE] /\ on' = [on EXCEPT ![dev] = FALSE] /\ queued' = [queued EXCEPT ![dev] = 0] /\ status' = "close" /\ dev' = 0 /\ pc' = (IF goal = 0 THEN "idle" ELSE "open") /\ UNCHANGED <<maps, goal>>
Open(ok) == pc = "open" /\ (IF ok THEN fd' = [fd EXCEPT ![goal] = TRUE] /\ dev' = goal /\ status' = "open" /\ pc' = "setup" ELSE UNCHANGED <<fd, dev, status>> /\ pc' = "idle") /\ UNCHANGED <<maps, queued, on, goal>>
Failed == goal' = 0 /\ pc' = "stop"
Setup(ok) == pc = "setup" /\ (IF ok THEN pc' = "map" /\ goal' = goal ELSE Failed) /\ UNCHANGED <<status, dev, fd, maps, queued, on>>
Map(ok) == pc = "map" /\ (IF ok THEN maps' = [maps EXCEPT ![dev] = @ + 1] /\ goal' = goal /\ (IF maps[dev] + 1 = Bufs THEN status' = "init" /\ pc' = "queue" ELSE status' = status /\ pc' = "map")
   ELSE maps' = (IF Leaky THEN maps ELSE [maps EXCEPT ![dev] = 0]) /\ status' = status /\ Failed) /\ UNCHANGED <<dev, fd, queued, on>>
Queue(ok) == pc = "queue" /\ (IF ok THEN queued' = [queued EXCEPT ![dev] = @ + 1] /\ goal' = goal /\ pc' = (IF queued[dev] + 1 = Bufs THEN "start" ELSE "queue") ELSE UNCHANGED queued /\ Failed) /\ UNCHANGED <<status, dev, fd, maps, on>>
Run(ok) == pc = "start" /\ (IF ok THEN on' = [on EXCEPT ![dev] = TRUE] /\ status' = "capture" /\ pc' = "idle" /\ goal' = goal ELSE UNCHANGED <<on, status>> /\ Failed) /\ UNCHANGED <<dev, fd, maps, queued>>
Next == (\E g \in Devs \cup {0} : Begin(g)) \/ Unmap \/ Close \/ \E ok \in BOOLEAN : Stop(ok) \/ Open(ok) \/ Setup(ok) \/ Map(ok) \/ Queue(ok) \/ Run(ok)
Spec == Init /\ [][Next]_vars /\ WF_vars(Unmap \/ Close \/ (\E ok \in BOOLEAN : Stop(ok) \/ Open(ok) \/ Setup(ok) \/ Map(ok) \/ Queue(ok) \/ Run(ok)))
NothingKept == pc = "idle" => \A d \in Devs : IF status = "capture" /\ d = dev THEN fd[d] /\ maps[d] = Bufs /\ queued[d] = Bufs /\ on[d] ELSE Free(d) /\ ~on[d]
OneAtATime == \A d, e \in Devs : fd[d] /\ fd[e] => d = e
Settled == pc = "idle" => status \in {"close", "capture"}
\* what was asked to be released is
Released == (goal = 0 /\ pc = "stop") ~> (pc = "idle" /\ status = "close")
Ends == pc # "idle" ~> pc = "idle"
=============================================================================

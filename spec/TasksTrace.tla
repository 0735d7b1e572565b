------------------------------- MODULE TasksTrace ------------------------------
(* Recorded schedules of the real pool and loops, checked against Tasks.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES h, i, st
vars == <<h, i, st>>
S == INSTANCE Tasks WITH Ids <- {}, Waiters <- {}, max <- 0, asked <- {}, added <- {}, running <- {}, ended <- {}, pending <- <<>>, stopped <- FALSE
T == ndJsonDeserialize("trace.ndjson")
Init == h = 1 /\ i = 1 /\ st = S!Fresh(T[1].max)
Ev == T[h].ev[i]
Turn == h' = h + 1 /\ i' = 1 /\ st' = IF h < Len(T) THEN S!Fresh(T[h + 1].max) ELSE st
Next == h <= Len(T) /\
        IF i > Len(T[h].ev) THEN Turn
        ELSE IF S!Can(st, Ev.e, Ev.t) THEN i' = i + 1 /\ st' = S!Do(st, Ev.e, Ev.t) /\ UNCHANGED h
        ELSE PrintT(<<"BEH", ToJson([reject |-> h, at |-> i])>>) /\ Turn
Spec == Init /\ [][Next]_vars
Done == h > Len(T) => PrintT(<<"BEH", ToJson([histories |-> Len(T)])>>)
=============================================================================

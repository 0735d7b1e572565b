------------------------------- MODULE PoolTrace ------------------------------
(* Recorded histories of the real pool, checked against Pool.  An event that    *)
(* the specification does not allow is reported and ends its history.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES cf, live, h, i
vars == <<cf, live, h, i>>
P == INSTANCE Pool WITH Steps <- 0, Gen <- "no", hist <- <<>>, done <- FALSE
T == ndJsonDeserialize("trace.ndjson")
Init == h = 1 /\ i = 1 /\ live = {} /\ cf = T[1].cf
Ev == T[h].ev[i]
Allowed(e) == CASE e.e = "a" -> IF e.at = -1 THEN ~P!Legal(cf, e.n) \/ ~e.s \/ ~P!Fits(cf, live, e.n)
                                ELSE P!Legal(cf, e.n) /\ P!Place(cf, live, e.at, e.n) /\ e.z
                [] e.e = "f" -> e.ok /\ e.z /\ [at |-> e.at, n |-> e.n] \in live
                [] e.e = "x" -> ~e.ok
                [] e.e = "r" -> TRUE
                [] e.e = "edge" -> e.ok
                [] OTHER -> FALSE
After(e) == CASE e.e = "a" /\ e.at # -1 -> live \cup {[at |-> e.at, n |-> e.n]}
              [] e.e = "f" -> live \ {[at |-> e.at, n |-> e.n]}
              [] e.e = "r" -> {}
              [] OTHER -> live
Next == h <= Len(T) /\
        IF i > Len(T[h].ev) THEN h' = h + 1 /\ i' = 1 /\ live' = {} /\ cf' = IF h < Len(T) THEN T[h + 1].cf ELSE cf
        ELSE IF Allowed(Ev) THEN i' = i + 1 /\ live' = After(Ev) /\ UNCHANGED <<h, cf>>
        ELSE /\ PrintT(<<"BEH", ToJson([reject |-> h, at |-> i])>>)
             /\ h' = h + 1 /\ i' = 1 /\ live' = {} /\ cf' = IF h < Len(T) THEN T[h + 1].cf ELSE cf
Spec == Init /\ [][Next]_vars
Safe == P!Safe
Done == h > Len(T) => PrintT(<<"BEH", ToJson([histories |-> Len(T)])>>)
=============================================================================

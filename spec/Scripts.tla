-------------------------------- MODULE Scripts --------------------------------
(* What is asked of the thread pool and of the parallel options in a run; what  *)
(* may come of it is judged by Tasks and ParOptions.                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS What, Steps, Gen
VARIABLES s, done
vars == <<s, done>>
Rand(S) == IF Gen = "walk" THEN {RandomElement(S)} ELSE S
Log(e) == s' = Append(s, e)
\* the pool: add, add detached, add one that adds another (with the steps each runs for), wait, have another thread wait
Pool == \/ \E o \in Rand({"a", "a", "d", "n"}), k \in Rand(IF Gen = "walk" THEN 0 .. 5 ELSE {0, 2}) : Log([o |-> o, k |-> k])
        \/ \E o \in {"w", "W"} : Log([o |-> o, k |-> -1])
PoolEnd == \E o \in {"j", "J", "-"} : s' = Append(s, [o |-> o, k |-> -1])
\* the options: sizes around the minimum are told by multiples of the block (m) and bytes beyond (d)
Kinds == {"auto", "forced", "manual"}
Fresh == \E k \in Rand(Kinds), b \in Rand({16, 64, 128, 136, 1024}), v \in Rand(BOOLEAN), p \in Rand(BOOLEAN), deg \in Rand({0, 1, 2, 3, 4, 6, 8, 200}), m \in Rand(0 .. 70), d \in Rand({0, 1, 15}), c \in Rand({0, 2048, 24576}), w \in Rand(BOOLEAN) :
            Log([o |-> "new", kind |-> k, bs |-> b, simd |-> v, on |-> p, deg |-> deg, m |-> m, d |-> d, cache |-> c, split |-> w])
Opts == IF s = <<>> THEN Fresh
        ELSE \/ \E m \in Rand(0 .. 140), d \in Rand({0, 0, 1, 15}) : Log([o |-> "size", m |-> m, d |-> d])
             \/ \E n \in Rand({0, 1, 2, 3, 4, 5, 6, 8, 12, 64}) : Log([o |-> "degree", n |-> n])
             \/ \E p \in Rand(BOOLEAN), m \in Rand({0, 0, 1} \cup 2 .. 140), d \in Rand({0, 0, 1, 15}), n \in Rand({0, 0, 1, 2, 3, 4, 8, 100}) : Log([o |-> "calc", on |-> p, m |-> m, d |-> d, n |-> n])
Init == s = <<>> /\ done = FALSE
Step == Len(s) < Steps /\ UNCHANGED done /\ IF What = "pool" THEN Pool ELSE Opts
Stop == Len(s) = Steps /\ ~done /\ done' = TRUE /\ IF What = "pool" THEN PoolEnd ELSE UNCHANGED s
Next == Step \/ Stop
Emit == done => PrintT(<<"BEH", ToJson([h |-> s])>>)
=============================================================================

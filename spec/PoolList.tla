------------------------------- MODULE PoolList -------------------------------
(* The pool's way of keeping its promise: a sorted list of free ranges, best    *)
(* fit, the padding before an aligned block kept as a range of its own, and     *)
(* ranges joined with their neighbours when a block returns.  It implements     *)
(* Pool (the refinement P!Spec is checked): no range is lost or given twice,    *)
(* and a length is refused only if no aligned place is left for it.             *)
EXTENDS Integers, Sequences, FiniteSets, PoolCfg
VARIABLES cf, live, free
vars == <<cf, live, free>>
P == INSTANCE Pool WITH Steps <- 0, Gen <- "no", hist <- <<>>, done <- FALSE

Pad(a, al) == IF a % al = 0 THEN 0 ELSE al - (a % al)
Init == cf \in Configs /\ live = {} /\ free = <<[f |-> 0, n |-> cf.size]>>
Room(r, n) == r.n >= n + Pad(r.f, cf.al)
Cut(i) == SubSeq(free, 1, i - 1) \o SubSeq(free, i + 1, Len(free))
Put(s, i, rs) == SubSeq(s, 1, i - 1) \o rs \o SubSeq(s, i + 1, Len(s))
Perfect(n) == {i \in 1 .. Len(free) : free[i].n = n /\ free[i].f % cf.al = 0}
Best(n) == {i \in 1 .. Len(free) : Room(free[i], n) /\ \A j \in 1 .. Len(free) : Room(free[j], n) => free[i].n <= free[j].n /\ (free[i].n = free[j].n => i <= j)}
Give(at, n) == live' = live \cup {[at |-> at, n |-> n]} /\ UNCHANGED cf
Allocate(n) ==
    /\ P!Legal(cf, n)
    /\ IF Perfect(n) # {} THEN LET i == CHOOSE x \in Perfect(n) : \A y \in Perfect(n) : x <= y IN Give(free[i].f, n) /\ free' = Cut(i)
       ELSE IF Best(n) # {} THEN
            LET i == CHOOSE x \in Best(n) : TRUE
                p == Pad(free[i].f, cf.al)
                rest == [f |-> free[i].f + n + p, n |-> free[i].n - n - p]
                pad == [f |-> free[i].f, n |-> p] IN
            /\ Give(free[i].f + p, n)
            /\ free' = Put(free, i, (IF p > 0 THEN <<pad>> ELSE <<>>) \o (IF rest.n > 0 THEN <<rest>> ELSE <<>>))
       ELSE UNCHANGED vars
Free(b) ==
    LET i == Cardinality({j \in 1 .. Len(free) : free[j].f < b.at})          \* ranges before the block
        l == i > 0 /\ free[i].f + free[i].n = b.at
        r == i < Len(free) /\ b.at + b.n = free[i + 1].f
        new == [f |-> IF l THEN free[i].f ELSE b.at, n |-> b.n + (IF l THEN free[i].n ELSE 0) + (IF r THEN free[i + 1].n ELSE 0)] IN
    /\ live' = live \ {b} /\ UNCHANGED cf
    /\ free' = SubSeq(free, 1, IF l THEN i - 1 ELSE i) \o <<new>> \o SubSeq(free, IF r THEN i + 2 ELSE i + 1, Len(free))
Reset == live' = {} /\ free' = <<[f |-> 0, n |-> cf.size]>> /\ UNCHANGED cf
Next == (\E n \in 1 .. cf.size : Allocate(n)) \/ (\E b \in live : Free(b)) \/ Reset
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
Cells(f, n) == f .. f + n - 1
Held == UNION {Cells(b.at, b.n) : b \in live}
Open == UNION {Cells(free[i].f, free[i].n) : i \in 1 .. Len(free)}
Conserved == Held \cap Open = {} /\ Held \cup Open = 0 .. cf.size - 1
Joined == \A i \in 1 .. Len(free) - 1 : free[i].n > 0 /\ free[i].f + free[i].n < free[i + 1].f
Enough == \A n \in 1 .. cf.size : P!Fits(cf, live, n) <=> \E i \in 1 .. Len(free) : Room(free[i], n)
Implements == P!Spec
=============================================================================

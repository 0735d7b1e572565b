--------------------------------- MODULE Pool ---------------------------------
(* The secure memory pool as its users see it: a range of Size bytes from which *)
(* blocks are handed out and to which they return.  Where a block goes is the   *)
(* pool's choice; what it may not do is go outside, out of line, over another   *)
(* block, or refuse a length for which there is room.  Invariants: Safe (live   *)
(* blocks in range, aligned, disjoint), Whole (when all is free the whole pool  *)
(* can be had again).                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, PoolCfg      \* Configs: the pools, [size, min, max, al]

CONSTANTS Steps, Gen
VARIABLES cf, live, hist, done
vars == <<cf, live, hist, done>>

Up(a, al) == ((a + al - 1) \div al) * al
Legal(c, n) == n >= c.min /\ n <= c.max /\ n <= c.size
Clear(l, at, n) == \A b \in l : b.at + b.n <= at \/ at + n <= b.at
Place(c, l, at, n) == at >= 0 /\ at % c.al = 0 /\ at + n <= c.size /\ Clear(l, at, n)
\* where a block of n can start: enough to look behind each live block
Behind(c, l) == {0} \cup {Up(b.at + b.n, c.al) : b \in l}
Fits(c, l, n) == \E at \in Behind(c, l) : Place(c, l, at, n)

Init == cf \in Configs /\ live = {} /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = IF Gen = "no" THEN hist ELSE Append(hist, e)
Allocate(n, at) == Legal(cf, n) /\ Place(cf, live, at, n) /\ live' = live \cup {[at |-> at, n |-> n]} /\ Log([e |-> "a", k |-> n])
Refuse(n) == (~Legal(cf, n) \/ ~Fits(cf, live, n)) /\ UNCHANGED live /\ Log([e |-> "a", k |-> n])
Free(b) == live' = live \ {b} /\ Log([e |-> "f", k |-> Cardinality({x \in live : x.at < b.at})])
Foreign == UNCHANGED live /\ Log([e |-> "x", k |-> 0])
Reset == live' = {} /\ Log([e |-> "r", k |-> 0])

Rand(S) == IF Gen = "walk" THEN {RandomElement(S)} ELSE S
Spots(n) == IF Gen = "no" THEN 0 .. cf.size ELSE {at \in Behind(cf, live) : Place(cf, live, at, n)}
\* lengths that meet the edges: the smallest, the alignment, halves, what is left behind the last block
Lengths == IF Gen = "no" THEN 1 .. cf.size + 1
           ELSE LET top == IF live = {} THEN 0 ELSE CHOOSE e \in {b.at + b.n : b \in live} : \A b \in live : b.at + b.n <= e IN
                {cf.min, cf.min + 1, cf.al, cf.al + 1, 3 * cf.al - 1, 2 * cf.al, cf.size \div 4, cf.max, cf.size - top, cf.size - Up(top, cf.al), RandomElement(1 .. 4 * cf.al + cf.min), RandomElement(1 .. cf.size)} \ {0}
One(S) == IF S = {} THEN {} ELSE Rand(S)
Step == /\ (Gen = "no" \/ Len(hist) < Steps) /\ UNCHANGED <<cf, done>>
        /\ \/ \E n \in Rand(Lengths) : \/ \E at \in One(Spots(n)) : Allocate(n, at)
                                       \/ Refuse(n)
           \/ \E b \in One(live) : Free(b)
           \/ (Gen = "no" \/ (Len(hist) > 4 /\ RandomElement(1 .. 9) = 1)) /\ (Foreign \/ Reset)
Stop == Gen # "no" /\ Len(hist) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<cf, live, hist>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
Safe == \A b \in live : b.at % cf.al = 0 /\ b.at + b.n <= cf.size /\ \A c \in live : c = b \/ c.at + c.n <= b.at \/ b.at + b.n <= c.at
Whole == live = {} => \A n \in 1 .. cf.size : Legal(cf, n) => Fits(cf, live, n)
\* the shortcut in Fits loses nothing
Exact == \A n \in 1 .. cf.size : Fits(cf, live, n) <=> \E at \in 0 .. cf.size : Place(cf, live, at, n)
Emit == done => PrintT(<<"BEH", ToJson([cf |-> cf, h |-> hist])>>)
=============================================================================

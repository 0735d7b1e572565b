------------------------------- MODULE AsymKey --------------------------------
(* Asymmetric key containers: the plain key, the sealed key (its polynomial kept *)
(* encrypted under a policy), serialized streams, and the pairs the primitives    *)
(* make.  A key is the record (id of its bytes, length, primitive, class,          *)
(* parameter set).  Every container and stream carries exactly one of the keys     *)
(* made (Exact); two keys work together exactly if they are the two halves of one  *)
(* pair, wherever they have been (Halves); a sealed key is not in the clear.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Params, UseParams, Lens, Policies, Steps, Gen, MaxObjs
VARIABLES objs, streams, pairs, hist, done
vars == <<objs, streams, pairs, hist, done>>

Prim(p) == CASE p <= 3 -> 5 [] p \in {5, 6} -> 1 [] p \in {7, 8} -> 6 [] p \in 9 .. 12 -> 2 [] p \in 13 .. 16 -> 3 [] p \in 17 .. 20 -> 9 [] p \in 21 .. 32 -> 10 [] OTHER -> 11
Cipher(p) == Prim(p) <= 3
NoKey == [id |-> 0, n |-> 0, prim |-> 0, cls |-> 0, par |-> 0]
Init == objs = <<>> /\ streams = <<>> /\ pairs = 0 /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = Append(hist, e)
Live(o) == objs[o].live
Room(n) == Len(objs) + n <= MaxObjs
Add(kind, k) == objs' = Append(objs, [kind |-> kind, k |-> k, live |-> TRUE])
Make(kind, p, c, n, pol, salt, sec) ==
    LET k == [id |-> Len(hist) + 1, n |-> n, prim |-> Prim(p), cls |-> c, par |-> p] IN
    /\ Room(1) /\ Add(kind, k) /\ Log([op |-> "make", obj |-> Len(objs) + 1, kind |-> kind, k |-> k, pol |-> pol, salt |-> salt, sec |-> sec]) /\ UNCHANGED <<streams, pairs>>
Refused(kind, p, what, sec) == /\ (what = "policy" => kind = "sealed")
                               /\ Log([op |-> "refused", kind |-> kind, p |-> p, prim |-> Prim(p), what |-> what, sec |-> sec]) /\ UNCHANGED <<objs, streams, pairs>>
\* a primitive makes a pair; odd id the public, even id the private half (ids of pairs begin at 1000)
Pair(p) == LET c == IF Cipher(p) THEN 2 ELSE 4
               K(i, cls) == [kind |-> "plain", k |-> [id |-> 1000 + 2 * pairs + i, n |-> 0, prim |-> Prim(p), cls |-> cls, par |-> p], live |-> TRUE] IN
           /\ Room(2) /\ pairs' = pairs + 1 /\ objs' = objs \o <<K(1, c), K(2, c - 1)>>
           /\ Log([op |-> "pair", p |-> p, pair |-> pairs + 1, pub |-> Len(objs) + 1, prv |-> Len(objs) + 2, ks |-> <<K(1, c).k, K(2, c - 1).k>>]) /\ UNCHANGED streams
Look(o) == Live(o) /\ Log([op |-> "look", obj |-> o, kind |-> objs[o].kind, k |-> objs[o].k]) /\ UNCHANGED <<objs, streams, pairs>>
Seal(o, pol, salt, sec) == /\ Live(o) /\ objs[o].k # NoKey /\ Room(1) /\ Add("sealed", objs[o].k)
                           /\ Log([op |-> "seal", obj |-> Len(objs) + 1, from |-> o, kind |-> objs[o].kind, k |-> objs[o].k, pol |-> pol, salt |-> salt, sec |-> sec]) /\ UNCHANGED <<streams, pairs>>
Store(o) == Live(o) /\ objs[o].k # NoKey /\ streams' = Append(streams, objs[o].k) /\ Log([op |-> "store", obj |-> o, kind |-> objs[o].kind, k |-> objs[o].k, stream |-> Len(streams) + 1]) /\ UNCHANGED <<objs, pairs>>
Restore(s, by) == Room(1) /\ Add("plain", streams[s]) /\ Log([op |-> "load", obj |-> Len(objs) + 1, stream |-> s, by |-> by, k |-> streams[s]]) /\ UNCHANGED <<streams, pairs>>
Short(s, n, by) == Log([op |-> "short", stream |-> s, n |-> n, by |-> by]) /\ UNCHANGED <<objs, streams, pairs>>
Reset(o) == Live(o) /\ objs' = [objs EXCEPT ![o].k = NoKey] /\ Log([op |-> "reset", obj |-> o, kind |-> objs[o].kind, k |-> objs[o].k, alone |-> ~\E x \in 1 .. Len(objs) : x # o /\ Live(x) /\ objs[x].k = objs[o].k]) /\ UNCHANGED <<streams, pairs>>
Drop(o) == Live(o) /\ objs' = [objs EXCEPT ![o].live = FALSE] /\ Log([op |-> "drop", obj |-> o, kind |-> objs[o].kind, k |-> objs[o].k]) /\ UNCHANGED <<streams, pairs>>
\* is a sealed key to be found in the clear?  (not while a plain one or a stream has it)
AtRest(o) == /\ Live(o) /\ objs[o].kind = "sealed" /\ objs[o].k.n >= 24
             /\ ~\E x \in 1 .. Len(objs) : Live(x) /\ objs[x].kind = "plain" /\ objs[x].k.id = objs[o].k.id
             /\ ~\E s \in 1 .. Len(streams) : streams[s].id = objs[o].k.id
             /\ Log([op |-> "atrest", k |-> objs[o].k]) /\ UNCHANGED <<objs, streams, pairs>>
Half(k) == IF k.id < 1000 THEN 0 ELSE (k.id - 1001) \div 2 + 1
Use(a, b) == LET j == objs[a].k
                 k == objs[b].k IN
             /\ Live(a) /\ Live(b) /\ objs[a].kind = "plain" /\ objs[b].kind = "plain" /\ Half(j) > 0 /\ Half(k) > 0 /\ j.par = k.par /\ j.cls \in {2, 4} /\ k.cls \in {1, 3}
             /\ Log([op |-> "use", pub |-> a, prv |-> b, par |-> j.par, yes |-> Half(j) = Half(k)]) /\ UNCHANGED <<objs, streams, pairs>>
PairBox(a, b, tag) == /\ Live(a) /\ Live(b) /\ objs[a].kind = "plain" /\ objs[b].kind = "plain" /\ objs[a].k # NoKey /\ objs[b].k # NoKey
                      /\ Log([op |-> "box", pub |-> a, prv |-> b, tag |-> tag]) /\ UNCHANGED <<objs, streams, pairs>>

Rand(S) == IF Gen = "walk" THEN {RandomElement(S)} ELSE S
Pick(q) == IF q = <<>> THEN {} ELSE Rand(1 .. Len(q))
Some(S) == IF S = {} THEN {} ELSE Rand(S)
Plain(c) == {o \in 1 .. Len(objs) : Live(o) /\ objs[o].kind = "plain" /\ objs[o].k.id >= 1000 /\ objs[o].k.cls \in c}
Step == /\ Len(hist) < Steps /\ done' = FALSE
        /\ \/ \E kind \in Rand({"plain", "sealed"}), p \in Rand(Params), c \in Rand(1 .. 4), n \in Rand(Lens), pol \in Rand(Policies), salt \in Rand({0, 8, 64}), sec \in Rand(BOOLEAN) :
                 Make(kind, p, c, n, IF kind = "plain" THEN 0 ELSE pol, IF kind = "plain" THEN 0 ELSE salt, sec)
           \/ \E kind \in Rand({"plain", "sealed"}), p \in Rand(Params), w \in Rand({"poly", "prim", "class", "param", "policy"}), sec \in Rand(BOOLEAN) : Len(hist) > 2 /\ Refused(kind, p, w, sec)
           \/ \E p \in Some(UseParams) : pairs < 2 /\ Pair(p)
           \/ \E o \in Pick(objs) : Look(o) \/ Store(o) \/ (Len(hist) > 4 /\ (Reset(o) \/ Drop(o))) \/ AtRest(o)
           \/ \E o \in Pick(objs), pol \in Rand(Policies), salt \in Rand({0, 8, 64}), sec \in Rand(BOOLEAN) : Seal(o, pol, salt, sec)
           \/ \E s \in Pick(streams), by \in Rand({"plain", "sealed"}) : Restore(s, by)
           \/ \E s \in Pick(streams), by \in Rand({"plain", "sealed"}), n \in Rand(0 .. 3) : Short(s, n, by)
           \/ \E a \in Some(Plain({2, 4})), b \in Some(Plain({1, 3})) : Use(a, b)
           \/ \E a \in Pick(objs), b \in Pick(objs), t \in Rand({0, 16}) : PairBox(a, b, t)
Stop == done' = TRUE /\ UNCHANGED <<objs, streams, pairs, hist>>
Next == Step \/ (Gen # "no" /\ Len(hist) = Steps /\ ~done /\ Stop)
MCSpec == Init /\ [][Step]_vars
At(i) == Len(hist) = i
\* every policy, class, parameter set and length: made, looked at, stored, loaded, erased
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ At(0) /\ \E kind \in {"plain", "sealed"}, p \in Params, n \in Lens, pol \in Policies : \E c \in IF n = 33 THEN 1 .. 4 ELSE {2} :
                          /\ (kind = "plain" => pol = 1) /\ (n # 33 => p = 10)
                          /\ Make(kind, p, c, n, IF kind = "plain" THEN 0 ELSE pol, IF kind = "plain" THEN 0 ELSE IF (p % 2) = 0 THEN 0 ELSE 16, ((p + n) % 2) = 0)
          \/ At(1) /\ IF objs[1].kind = "sealed" /\ objs[1].k.n >= 24 THEN AtRest(1) ELSE Look(1)
          \/ At(2) /\ Store(1)
          \/ At(3) /\ \E by \in {"plain", "sealed"} : (by = "plain") = ((objs[1].k.par % 2) = 0) /\ Restore(1, by)
          \/ At(4) /\ Look(2)
          \/ At(5) /\ Look(1)
          \/ At(6) /\ Drop(2)
          \/ At(7) /\ Reset(1)
          \/ At(8) /\ Look(1)
    \/ Len(hist) = 9 /\ ~done /\ Stop
\* every primitive's pair: stored and loaded halves, plain and sealed, work in place of the original
UseNext ==
    \/ /\ done' = FALSE
       /\ \/ At(0) /\ \E p \in UseParams : Pair(p)
          \/ At(1) /\ Look(1)
          \/ At(2) /\ Look(2)
          \/ At(3) /\ Store(1)
          \/ At(4) /\ Seal(2, 1 + (objs[1].k.par % 6), 8, TRUE)
          \/ At(5) /\ Store(3)
          \/ At(6) /\ Restore(1, "sealed")
          \/ At(7) /\ Restore(2, "plain")
          \/ At(8) /\ Use(4, 5)
          \/ At(9) /\ Use(1, 5)
          \/ At(10) /\ PairBox(4, 5, 16)
          \/ At(11) /\ Look(4)
          \/ At(12) /\ PairBox(1, 2, 0)
          \/ At(13) /\ Look(1)
    \/ Len(hist) = 14 /\ ~done /\ Stop
-------------------------------------------------------------------------------
Made == {NoKey} \cup UNION {CASE hist[i].op = "make" -> {hist[i].k} [] hist[i].op = "pair" -> {hist[i].ks[1], hist[i].ks[2]} [] OTHER -> {} : i \in 1 .. Len(hist)}
Exact == (\A o \in 1 .. Len(objs) : objs[o].k \in Made) /\ (\A s \in 1 .. Len(streams) : streams[s] \in Made)
Halves == \A i \in {j \in 1 .. Len(hist) : hist[j].op = "use"} : hist[i].yes => \E j \in 1 .. i : hist[j].op = "pair" /\ hist[j].p = hist[i].par
MCBound == Len(hist) <= Steps
Emit == done => PrintT(<<"BEH", ToJson([h |-> hist])>>)
=============================================================================

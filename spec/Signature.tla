------------------------------ MODULE Signature ------------------------------
(* Signature schemes: objects (one per scheme object), key pairs they make, and *)
(* the signatures made with them.  A signature is the term (pair, message,      *)
(* one-time index); what is presented to a verifier is such a term and what was *)
(* done to it on the way.  The verdict is yes exactly for an unchanged term of  *)
(* the verifier's own pair; a message comes back only then.  The hash based     *)
(* stateful schemes use the one-time keys of a pair one after the other and     *)
(* refuse when they are used up; `left' counts them, a private key may be       *)
(* presented with few of them left.  Invariants: yes only for what was signed   *)
(* (Genuine), no one-time key twice (OneTime), a refused call changes nothing.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Params,      \* the parameter sets (numbers of the library) of this run
          Msgs,        \* message lengths
          Steps, Gen, MaxObjs, MaxKeys, MaxSigs, Many
VARIABLES objs, keys, sigs, hist, done
vars == <<objs, keys, sigs, hist, done>>

Prim(p) == IF p <= 3 THEN 5 ELSE IF p \in {7, 8} THEN 6 ELSE IF p \in 17 .. 20 THEN 9 ELSE 10
Stateful(p) == p >= 21
Init == objs = <<>> /\ keys = <<>> /\ sigs = <<>> /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = Append(hist, e)
New(p, how) == /\ Len(objs) < MaxObjs /\ objs' = Append(objs, [p |-> p, role |-> "none", key |-> 0])
               /\ Log([op |-> "new", obj |-> Len(objs) + 1, p |-> p, how |-> how]) /\ UNCHANGED <<keys, sigs>>
\* few: a pair whose private key has only that many one-time keys left
GenPair(o, few) == /\ Len(keys) < MaxKeys /\ (~Stateful(objs[o].p) => few = 0)
                   /\ keys' = Append(keys, [p |-> objs[o].p, left |-> IF few = 0 THEN Many ELSE few, next |-> IF few = 0 THEN 0 ELSE Many - few])
                   /\ Log([op |-> "gen", obj |-> o, key |-> Len(keys) + 1, p |-> objs[o].p, few |-> few]) /\ UNCHANGED <<objs, sigs>>
\* the object takes over the parameter set of the key
Load(o, k, role) == /\ Prim(keys[k].p) = Prim(objs[o].p)
                    /\ objs' = [objs EXCEPT ![o] = [p |-> keys[k].p, role |-> role, key |-> k]]
                    /\ Log([op |-> "init", obj |-> o, key |-> k, role |-> role, p |-> keys[k].p]) /\ UNCHANGED <<keys, sigs>>
\* a key of another primitive, or one of another class (a cipher's)
Foreign(o, k, what) == /\ (what = "primitive") = (Prim(keys[k].p) # Prim(objs[o].p))
                       /\ Log([op |-> "foreign", obj |-> o, key |-> k, what |-> what, p |-> keys[k].p]) /\ UNCHANGED <<objs, keys, sigs>>
Sign(o, n, pre) ==
    LET k == objs[o].key IN
    /\ objs[o].role = "sign" /\ Len(sigs) < MaxSigs
    /\ (Stateful(keys[k].p) => keys[k].left > 1)
    /\ keys' = IF Stateful(keys[k].p) THEN [keys EXCEPT ![k].left = @ - 1, ![k].next = @ + 1] ELSE keys
    /\ sigs' = Append(sigs, [key |-> k, n |-> n, at |-> keys[k].next, p |-> keys[k].p])
    /\ Log([op |-> "sign", obj |-> o, key |-> k, p |-> keys[k].p, n |-> n, pre |-> pre, sig |-> Len(sigs) + 1, left |-> keys[k].left, at |-> keys[k].next]) /\ UNCHANGED objs
\* the last one-time key may be used or given up; after it there is none
SignLast(o, n) ==
    LET k == objs[o].key IN
    /\ objs[o].role = "sign" /\ Stateful(keys[k].p) /\ keys[k].left = 1
    /\ keys' = [keys EXCEPT ![k].left = 0] /\ Log([op |-> "last", obj |-> o, key |-> k, n |-> n]) /\ UNCHANGED <<objs, sigs>>
Why(o) == IF objs[o].role # "sign" THEN objs[o].role ELSE IF Stateful(objs[o].p) /\ keys[objs[o].key].left = 0 THEN "used up" ELSE "empty"
NoSign(o, n, pre) == /\ (Why(o) = "empty" => n = 0)
                     /\ Log([op |-> "nosign", obj |-> o, n |-> n, why |-> Why(o), pre |-> pre]) /\ UNCHANGED <<objs, keys, sigs>>

Whole == {"none"}
Flips == {"flip first", "flip head", "flip middle", "flip late", "flip last", "flip message", "flip any"}
Sizes == {"cut one", "cut message", "cut head", "cut all", "grow one", "grow many", "drop first"}
Crosses == {"message of other", "head of other", "flip key", "noise", "zeros"}
Changes == Whole \cup Flips \cup Sizes \cup Crosses
\* two signatures are crossed only if that makes something new
Crossed(s, t) == s # t /\ sigs[s].p = sigs[t].p
Verify(o, s, ch, t, pre) ==
    /\ objs[o].role = "verify"
    /\ (ch \in {"message of other", "head of other"} => Crossed(s, t))
    /\ Log([op |-> "verify", obj |-> o, key |-> objs[o].key, p |-> objs[o].p, sig |-> s, ch |-> ch, t |-> t, pre |-> pre, of |-> sigs[s].key, n |-> sigs[s].n,
            yes |-> ch = "none" /\ sigs[s].key = objs[o].key])
    /\ UNCHANGED <<objs, keys, sigs>>
NoVerify(o, s) == /\ objs[o].role # "verify" /\ Log([op |-> "noverify", obj |-> o, sig |-> s, why |-> objs[o].role]) /\ UNCHANGED <<objs, keys, sigs>>

Rand(S) == IF Gen = "walk" THEN {RandomElement(S)} ELSE S
Pick(q) == IF q = <<>> THEN {} ELSE Rand(1 .. Len(q))
Some(S) == IF S = {} THEN {} ELSE Rand(S)
Verifiers == {o \in 1 .. Len(objs) : objs[o].role = "verify"}
Signers == {o \in 1 .. Len(objs) : objs[o].role = "sign"}
\* signatures of the verifier's own pair; few others
Fitting(o) == LET S == {s \in 1 .. Len(sigs) : sigs[s].key = objs[o].key} IN IF S = {} THEN 1 .. Len(sigs) ELSE S
Prefills == {0, 1, 70, 9000}
Step ==
    /\ Len(hist) < Steps /\ done' = FALSE
    /\ \/ \E p \in Rand(Params), h \in Rand({"own", "lent"}) : New(p, h)
       \/ \E o \in Pick(objs), f \in Rand({0, 2, 3}) : GenPair(o, IF Stateful(objs[o].p) THEN f ELSE 0)
       \/ \E o \in Pick(objs), k \in Pick(keys), r \in Rand({"sign", "verify"}) : Load(o, k, r)
       \/ \E o \in Some({x \in 1 .. Len(objs) : objs[x].role = "none"}), k \in Pick(keys), r \in Rand({"sign", "verify"}) : Load(o, k, r)
       \/ \E o \in Pick(objs), k \in Pick(keys), w \in Rand({"primitive", "class"}) : Foreign(o, k, w)
       \/ \E o \in Some(Signers), n \in Rand(Msgs), pre \in Rand(Prefills) : Sign(o, n, pre)
       \/ \E o \in Some(Signers), n \in Rand(Msgs) : SignLast(o, n)
       \/ \E o \in Pick(objs), n \in Rand({0, 5}), pre \in Rand(Prefills) : Len(hist) > 1 /\ NoSign(o, n, pre)
       \/ \E o \in Some(Verifiers), t \in Pick(sigs), pre \in Rand(Prefills), i \in Rand(1 .. 3) :
             \E s \in Some(Fitting(o)), ch \in Rand(CASE i = 1 -> Whole [] i = 2 -> Flips [] OTHER -> Sizes \cup Crosses) : Verify(o, s, ch, t, pre)
       \/ \E o \in Some(Verifiers), s \in Pick(sigs), ch \in Rand(Changes) : Verify(o, s, ch, s, 0)
       \/ \E o \in Pick(objs), s \in Pick(sigs) : NoVerify(o, s)
Stop == done' = TRUE /\ UNCHANGED <<objs, keys, sigs, hist>>
Next == Step \/ (Gen # "no" /\ Len(hist) = Steps /\ ~done /\ Stop)
MCNext == Step
MCSpec == Init /\ [][MCNext]_vars
MCBound == Len(hist) <= Steps

\* one parameter set from end to end: every change of a signature, the pair of another, a verifier of a copy, the end of the one-time keys
Order == <<"none", "flip first", "flip head", "flip middle", "flip late", "flip last", "flip message", "flip any", "cut one", "cut message", "cut head", "cut all",
           "grow one", "grow many", "drop first", "message of other", "head of other", "flip key", "noise", "zeros", "none">>
At(i) == Len(hist) = i
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ At(0) /\ \E p \in Params : New(p, "own")
          \/ At(1) /\ GenPair(1, 0)
          \/ At(2) /\ NoSign(1, 5, 0)
          \/ At(3) /\ Load(1, 1, "sign")
          \/ At(4) /\ Sign(1, 33, 0)
          \/ At(5) /\ Sign(1, 33, 9000)
          \/ At(6) /\ NoVerify(1, 1)
          \/ At(7) /\ New(objs[1].p, "lent")
          \/ At(8) /\ Load(2, 1, "verify")
          \/ Len(hist) > 8 /\ Len(hist) <= 8 + Len(Order) /\ Verify(2, 1, Order[Len(hist) - 8], IF Order[Len(hist) - 8] = "none" THEN 1 ELSE 2, 70)
          \/ At(9 + Len(Order)) /\ Verify(2, 2, "none", 2, 0)
          \/ At(10 + Len(Order)) /\ GenPair(2, IF Stateful(objs[1].p) THEN 2 ELSE 0)
          \/ At(11 + Len(Order)) /\ Load(2, 2, "verify")
          \/ At(12 + Len(Order)) /\ Verify(2, 1, "none", 1, 0)
          \/ At(13 + Len(Order)) /\ Load(1, 2, "sign")
          \/ At(14 + Len(Order)) /\ Sign(1, 1, 70)
          \/ At(15 + Len(Order)) /\ Verify(2, 3, "none", 3, 0)
          \/ At(16 + Len(Order)) /\ (IF Stateful(objs[1].p) THEN SignLast(1, 5) ELSE NoSign(1, 0, 0))
          \/ At(17 + Len(Order)) /\ NoSign(1, IF Stateful(objs[1].p) THEN 5 ELSE 0, 0)
    \/ Len(hist) = 18 + Len(Order) /\ ~done /\ Stop
-------------------------------------------------------------------------------
Events(op) == {i \in 1 .. Len(hist) : hist[i].op = op}
Genuine == \A i \in Events("verify") : hist[i].yes => \E j \in Events("sign") : j < i /\ hist[j].sig = hist[i].sig /\ hist[j].key = hist[i].key /\ hist[i].ch = "none"
Complete == \A i \in Events("verify") : (hist[i].ch = "none" /\ hist[i].of = hist[i].key) => hist[i].yes
OneTime == \A s, t \in 1 .. Len(sigs) : (s # t /\ sigs[s].key = sigs[t].key /\ Stateful(sigs[s].p)) => sigs[s].at # sigs[t].at
Bounded == \A k \in 1 .. Len(keys) : keys[k].left >= 0
Emit == done => PrintT(<<"BEH", ToJson([h |-> hist])>>)
=============================================================================

--------------------------------- MODULE Kem ---------------------------------
(* Key encapsulation (Kyber, McEliece) and key exchange (ECDH).  A shared secret *)
(* is a term: the encapsulation (or the unordered two pairs of an exchange) it    *)
(* comes from, the domain key of the object, the length where the domain key      *)
(* leaves that to the caller.  Equal terms are equal bytes, different terms are    *)
(* different bytes.  A cipher-text yields its secret to an unchanged copy and the  *)
(* right private key only.  Invariants: a secret obtained was encapsulated to that *)
(* pair (Agreed), both sides of an exchange have the same term (Mutual).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Params, Lens, Steps, Gen, MaxObjs, MaxKeys, MaxCts
VARIABLES objs, keys, cts, hist, done
vars == <<objs, keys, cts, hist, done>>

Prim(p) == IF p \in {5, 6} THEN 1 ELSE IF p <= 12 THEN 2 ELSE 3
Exchange(p) == Prim(p) = 1
Init == objs = <<>> /\ keys = <<>> /\ cts = <<>> /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = Append(hist, e)
New(p, how) == /\ Len(objs) < MaxObjs /\ objs' = Append(objs, [p |-> p, role |-> IF Exchange(p) THEN "exchange" ELSE "none", key |-> 0, dom |-> 0])
               /\ Log([op |-> "new", obj |-> Len(objs) + 1, p |-> p, how |-> how]) /\ UNCHANGED <<keys, cts>>
GenPair(o) == /\ Len(keys) < MaxKeys /\ keys' = Append(keys, objs[o].p) /\ Log([op |-> "gen", obj |-> o, key |-> Len(keys) + 1, p |-> objs[o].p]) /\ UNCHANGED <<objs, cts>>
Load(o, k, role) == /\ ~Exchange(objs[o].p) /\ Prim(keys[k]) = Prim(objs[o].p)
                    /\ objs' = [objs EXCEPT ![o].p = keys[k], ![o].role = role, ![o].key = k]
                    /\ Log([op |-> "init", obj |-> o, key |-> k, role |-> role, p |-> keys[k]]) /\ UNCHANGED <<keys, cts>>
Foreign(o, k, what) == /\ ~Exchange(objs[o].p) /\ (what = "primitive") = (Prim(keys[k]) # Prim(objs[o].p))
                       /\ Log([op |-> "foreign", obj |-> o, key |-> k, what |-> what, p |-> keys[k]]) /\ UNCHANGED <<objs, keys, cts>>
\* domain keys 1 and 2 differ in one byte, 3 is longer; 0: none
Domain(o, d) == /\ objs[o].dom # d /\ objs' = [objs EXCEPT ![o].dom = d] /\ Log([op |-> "domain", obj |-> o, d |-> d]) /\ UNCHANGED <<keys, cts>>
\* with a domain key the name of the object goes into the secret
By(o) == IF objs[o].dom = 0 THEN 0 ELSE objs[o].p
Size(o, n) == IF objs[o].dom = 0 THEN 0 ELSE n
Enc(o, n, pre) == /\ objs[o].role = "enc" /\ Len(cts) < MaxCts
                  /\ cts' = Append(cts, [key |-> objs[o].key, p |-> objs[o].p])
                  /\ Log([op |-> "enc", obj |-> o, key |-> objs[o].key, p |-> objs[o].p, ct |-> Len(cts) + 1, pre |-> pre, want |-> n,
                          ss |-> [of |-> Len(cts) + 1, dom |-> objs[o].dom, n |-> Size(o, n), by |-> By(o)]])
                  /\ UNCHANGED <<objs, keys>>
NoEnc(o) == objs[o].role \in {"none", "dec"} /\ Log([op |-> "noenc", obj |-> o, why |-> objs[o].role]) /\ UNCHANGED <<objs, keys, cts>>
Changes == {"none", "flip", "flip ends", "cut one", "cut more", "cut all", "grow", "drop first", "cross", "noise", "zeros"}
Dec(o, c, ch, t, n) ==
    /\ objs[o].role = "dec" /\ (ch = "cross" => c # t /\ cts[c].p = cts[t].p)
    /\ LET yes == ch = "none" /\ cts[c].key = objs[o].key IN
       Log([op |-> "dec", obj |-> o, key |-> objs[o].key, p |-> objs[o].p, ct |-> c, ch |-> ch, t |-> t, want |-> n, yes |-> yes, of |-> cts[c].key,
            ss |-> [of |-> c, dom |-> objs[o].dom, n |-> Size(o, n), by |-> By(o)]])
    /\ UNCHANGED <<objs, keys, cts>>
NoDec(o, c) == objs[o].role \in {"none", "enc"} /\ Log([op |-> "nodec", obj |-> o, ct |-> c, why |-> objs[o].role]) /\ UNCHANGED <<objs, keys, cts>>
\* encapsulating to a public key changed on the way (Kyber binds it to the secret): the owner does not get that secret
Changed(o, k, d) == /\ objs[o].role = "enc" /\ objs[d].role = "dec" /\ objs[o].key = k /\ objs[d].key = k /\ Prim(keys[k]) = 2 /\ objs[o].dom = objs[d].dom
                    /\ Log([op |-> "changed", obj |-> o, by |-> d, key |-> k, p |-> keys[k]]) /\ UNCHANGED <<objs, keys, cts>>
Lo(i, j) == IF i < j THEN i ELSE j
Hi(i, j) == IF i < j THEN j ELSE i
\* own private key i, the other's public key j
Agree(o, i, j, n) == /\ Exchange(objs[o].p) /\ Prim(keys[i]) = 1 /\ Prim(keys[j]) = 1
                     /\ Log([op |-> "agree", obj |-> o, i |-> i, j |-> j, want |-> n, ss |-> [of |-> 1000 + 50 * Lo(i, j) + Hi(i, j), dom |-> objs[o].dom, n |-> Size(o, n), by |-> By(o)]])
                     /\ UNCHANGED <<objs, keys, cts>>
\* a public key changed on the way, or no point of use
Disagree(o, i, j, ch) == /\ Exchange(objs[o].p) /\ Prim(keys[i]) = 1 /\ Prim(keys[j]) = 1
                         /\ Log([op |-> "disagree", obj |-> o, i |-> i, j |-> j, ch |-> ch, dom |-> objs[o].dom, by |-> By(o)]) /\ UNCHANGED <<objs, keys, cts>>

Rand(S) == IF Gen = "walk" THEN {RandomElement(S)} ELSE S
Pick(q) == IF q = <<>> THEN {} ELSE Rand(1 .. Len(q))
Some(S) == IF S = {} THEN {} ELSE Rand(S)
Role(r) == {o \in 1 .. Len(objs) : objs[o].role = r}
Own(o) == LET S == {c \in 1 .. Len(cts) : cts[c].key = objs[o].key} IN IF S = {} THEN 1 .. Len(cts) ELSE S
Step ==
    /\ Len(hist) < Steps /\ done' = FALSE
    /\ \/ \E p \in Rand(Params), h \in Rand({"own", "lent"}) : New(p, h)
       \/ \E o \in Pick(objs) : GenPair(o)
       \/ \E o \in Pick(objs), k \in Pick(keys), r \in Rand({"enc", "dec"}) : Load(o, k, r)
       \/ \E o \in Some(Role("none")), k \in Pick(keys), r \in Rand({"enc", "dec"}) : Load(o, k, r)
       \/ \E o \in Pick(objs), k \in Pick(keys), w \in Rand({"primitive", "class"}) : Foreign(o, k, w)
       \/ \E o \in Pick(objs), d \in Rand(0 .. 3) : Domain(o, d)
       \/ \E o \in Some(Role("enc")), n \in Rand(Lens), pre \in Rand({0, 5, 3000}) : Enc(o, n, pre)
       \/ \E o \in Pick(objs) : Len(hist) > 1 /\ NoEnc(o)
       \/ \E o \in Some(Role("dec")), i \in Rand({1, 2}), t \in Pick(cts), n \in Rand(Lens) : \E c \in Some(Own(o)), ch \in Rand(IF i = 1 THEN {"none"} ELSE Changes) : Dec(o, c, ch, t, n)
       \/ \E o \in Some(Role("dec")), c \in Pick(cts), n \in Rand(Lens) : Dec(o, c, "none", c, n)
       \/ \E o \in Pick(objs), c \in Pick(cts) : NoDec(o, c)
       \/ \E o \in Some(Role("enc")), d \in Some(Role("dec")), k \in Pick(keys) : Changed(o, k, d)
       \/ \E o \in Some(Role("exchange")), i, j \in Pick(keys), n \in Rand(Lens) : Agree(o, i, j, n)
       \/ \E o \in Some(Role("exchange")), i, j \in Pick(keys), ch \in Rand({"flip", "zeros", "cut", "one"}) : Disagree(o, i, j, ch)
Stop == done' = TRUE /\ UNCHANGED <<objs, keys, cts, hist>>
Next == Step \/ (Gen # "no" /\ Len(hist) = Steps /\ ~done /\ Stop)
MCSpec == Init /\ [][Step]_vars

At(i) == Len(hist) = i
Order == <<"none", "flip", "flip ends", "cut one", "cut more", "cut all", "grow", "drop first", "cross", "noise", "zeros", "none">>
\* one parameter set from end to end
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ At(0) /\ \E p \in Params : New(p, "own")
          \/ At(1) /\ New(objs[1].p, "lent")
          \/ At(2) /\ GenPair(1)
          \/ At(3) /\ IF Exchange(objs[1].p) THEN GenPair(2) ELSE NoEnc(1)
          \/ Len(hist) >= 4 /\ ~Exchange(objs[1].p) /\
             \/ At(4) /\ Load(1, 1, "enc")
             \/ At(5) /\ Enc(1, 32, 0)
             \/ At(6) /\ Enc(1, 32, 3000)
             \/ At(7) /\ NoDec(2, 1)
             \/ At(8) /\ Load(2, 1, "dec")
             \/ Len(hist) \in 9 .. 20 /\ Dec(2, 1, Order[Len(hist) - 8], IF Order[Len(hist) - 8] = "cross" THEN 2 ELSE 1, 64)
             \/ At(21) /\ Dec(2, 2, "none", 2, 32)
             \/ At(22) /\ Domain(1, 1)
             \/ At(23) /\ Enc(1, 64, 5)
             \/ At(24) /\ Domain(2, 2)
             \/ At(25) /\ Dec(2, 3, "none", 3, 64)
             \/ At(26) /\ Domain(2, 1)
             \/ At(27) /\ Dec(2, 3, "none", 3, 64)
             \/ At(28) /\ Dec(2, 3, "flip", 3, 64)
             \/ At(29) /\ Domain(2, 3)
             \/ At(30) /\ Dec(2, 3, "none", 3, 64)
             \/ At(31) /\ GenPair(1)
             \/ At(32) /\ Load(2, 2, "dec")
             \/ At(33) /\ Dec(2, 3, "none", 3, 64)
             \/ At(34) /\ NoEnc(2)
             \/ At(35) /\ NoDec(1, 1)
          \/ Len(hist) >= 4 /\ Exchange(objs[1].p) /\
             \/ At(4) /\ GenPair(1)
             \/ Len(hist) \in {5, 9, 13, 17, 21, 25, 29} /\ Agree(1, 1, 2, 64)
             \/ Len(hist) \in {6, 10, 14, 18, 22, 26, 30} /\ Agree(2, 2, 1, 64)
             \/ Len(hist) \in {7, 15, 23} /\ Agree(2, 3, 1, 64)
             \/ Len(hist) \in {8, 19, 27} /\ Domain(1, IF Len(hist) = 8 THEN 1 ELSE IF Len(hist) = 19 THEN 3 ELSE 2)
             \/ Len(hist) \in {11, 20, 31} /\ Domain(2, IF Len(hist) = 11 THEN 1 ELSE IF Len(hist) = 20 THEN 3 ELSE 2)
             \/ At(12) /\ Disagree(1, 1, 2, "flip")
             \/ At(16) /\ Disagree(1, 1, 2, "zeros")
             \/ At(24) /\ Disagree(2, 2, 1, "flip")
             \/ At(28) /\ Disagree(1, 1, 2, "cut")
             \/ At(32) /\ Disagree(2, 1, 2, "one")
             \/ Len(hist) \in {33, 34} /\ Agree(Len(hist) - 32, 3, 3, 64)
             \/ At(35) /\ Agree(2, 2, 1, 64)
    \/ Len(hist) = 36 /\ ~done /\ Stop
-------------------------------------------------------------------------------
Events(op) == {i \in 1 .. Len(hist) : hist[i].op = op}
Agreed == \A i \in Events("dec") : hist[i].yes => \E j \in Events("enc") : j < i /\ hist[j].ct = hist[i].ct /\ hist[j].key = hist[i].key /\ hist[i].ss.of = hist[j].ss.of
Mutual == \A i, j \in Events("agree") : ({hist[i].i, hist[i].j} = {hist[j].i, hist[j].j} /\ hist[i].ss.dom = hist[j].ss.dom /\ hist[i].ss.by = hist[j].ss.by /\ hist[i].ss.n = hist[j].ss.n) <=> hist[i].ss = hist[j].ss
MCBound == Len(hist) <= Steps
Emit == done => PrintT(<<"BEH", ToJson([h |-> hist])>>)
=============================================================================

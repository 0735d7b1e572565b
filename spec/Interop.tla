------------------------------- MODULE Interop -------------------------------
(* Two parties use the asymmetric primitives: the library and an independent    *)
(* implementation of the published algorithms.  Each makes key pairs, signs,    *)
(* encapsulates; what one makes the other must read.  Everything is a term: a   *)
(* key pair of the library is Pair(object, place in its random source), a       *)
(* signature Sig(pair, message), a cipher-text Ct(pair, coins); the bytes of    *)
(* every term are those the independent implementation computes.  A forger who  *)
(* holds the private key makes signatures by almost the rules: each kind leaves *)
(* out exactly one condition of the verification algorithm, and has to be       *)
(* refused for it alone.  Random bytes are drawn from a source that is counted: *)
(* no two uses share a byte (Disjoint), what is accepted follows the rules      *)
(* (Sound), what follows the rules is accepted (Interoperable).                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Params, Msgs, Steps, Gen, MaxObjs, MaxKeys, MaxMade
VARIABLES objs, keys, made, draws, hist, done
vars == <<objs, keys, made, draws, hist, done>>

\* 1..3 Dilithium, 5..6 ECDH, 7..8 EdDSA, 9..12 Kyber
Kind(p) == IF p <= 3 THEN "dil" ELSE IF p <= 6 THEN "dh" ELSE IF p <= 8 THEN "ed" ELSE "kyb"
Signs(p) == Kind(p) \in {"dil", "ed"}
KeyDraw(p) == IF Kind(p) = "kyb" THEN 64 ELSE 32
Init == objs = <<>> /\ keys = <<>> /\ made = <<>> /\ draws = {} /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = Append(hist, e)
Make(p, how) == /\ Len(objs) < MaxObjs /\ objs' = Append(objs, [p |-> p, role |-> "none", key |-> 0, pos |-> 0, dom |-> 0])
                /\ Log([op |-> "make", obj |-> Len(objs) + 1, p |-> p, how |-> how]) /\ UNCHANGED <<keys, made, draws>>
Draw(o, n) == draws' = draws \cup {[obj |-> o, at |-> objs[o].pos, n |-> n]}
\* the library makes a pair
LibPair(o) ==
    LET p == objs[o].p IN
    /\ Len(keys) < MaxKeys /\ Draw(o, KeyDraw(p))
    /\ keys' = Append(keys, [p |-> p, by |-> "lib"]) /\ objs' = [objs EXCEPT ![o].pos = @ + KeyDraw(p)]
    /\ Log([op |-> "libpair", obj |-> o, key |-> Len(keys) + 1, p |-> p, at |-> objs[o].pos]) /\ UNCHANGED made
\* the other party makes one; `odd' pairs break a rule: their public key is of small order, or is not encoded canonically
RefPair(p, form) ==
    /\ Len(keys) < MaxKeys /\ (form # "good" => Kind(p) \in {"ed", "dh"}) /\ (form = "noncanonical" => Kind(p) = "ed")
    /\ keys' = Append(keys, [p |-> p, by |-> form]) /\ Log([op |-> "refpair", key |-> Len(keys) + 1, p |-> p, form |-> form]) /\ UNCHANGED <<objs, made, draws>>
\* an object takes over the parameters of the key - and an EdDSA object its hash
Load(o, k, role) ==
    /\ Kind(keys[k].p) = Kind(objs[o].p) /\ Kind(objs[o].p) # "dh" /\ (role = "own" => keys[k].by \in {"lib", "good"})
    /\ objs' = [objs EXCEPT ![o].p = keys[k].p, ![o].role = role, ![o].key = k]
    /\ Log([op |-> "load", obj |-> o, key |-> k, role |-> role, p |-> keys[k].p]) /\ UNCHANGED <<keys, made, draws>>
\* signatures: the library's, the other party's, the forger's
LibSign(o, n) == /\ objs[o].role = "own" /\ Signs(objs[o].p) /\ Len(made) < MaxMade
                 /\ made' = Append(made, [key |-> objs[o].key, n |-> n, flaw |-> "none", by |-> "lib"])
                 /\ Log([op |-> "libsign", obj |-> o, key |-> objs[o].key, p |-> objs[o].p, n |-> n, sig |-> Len(made) + 1]) /\ UNCHANGED <<objs, keys, draws>>
Flaws(p) == IF Kind(p) = "dil" THEN {"long z", "edge z", "hint order", "hint twice", "hint padding", "hint counts", "hint many", "challenge"}
            ELSE {"S plus L", "S plus 2L", "S high", "R shifted", "R small", "R not canonical", "key not hashed"}
RefSign(k, n, flaw) ==
    /\ Signs(keys[k].p) /\ Len(made) < MaxMade /\ flaw \in {"none"} \cup Flaws(keys[k].p) /\ (keys[k].by \notin {"lib", "good"} => flaw = "none")
    /\ made' = Append(made, [key |-> k, n |-> n, flaw |-> IF keys[k].by \in {"lib", "good"} THEN flaw ELSE keys[k].by, by |-> "ref"])
    /\ Log([op |-> "refsign", key |-> k, p |-> keys[k].p, n |-> n, flaw |-> flaw, sig |-> Len(made) + 1]) /\ UNCHANGED <<objs, keys, draws>>
Verify(o, s) ==
    LET yes == made[s].key = objs[o].key /\ made[s].flaw = "none" IN
    /\ objs[o].role = "other" /\ Signs(objs[o].p)
    /\ Log([op |-> "verify", obj |-> o, sig |-> s, p |-> objs[o].p, n |-> made[s].n, yes |-> yes, flaw |-> made[s].flaw]) /\ UNCHANGED <<objs, keys, made, draws>>
\* encapsulation
LibEnc(o, want) ==
    /\ objs[o].role = "other" /\ Kind(objs[o].p) = "kyb" /\ Len(made) < MaxMade /\ Draw(o, 32)
    /\ objs' = [objs EXCEPT ![o].pos = @ + 32] /\ made' = Append(made, [key |-> objs[o].key, n |-> 32, flaw |-> "none", by |-> "lib"])
    /\ Log([op |-> "libenc", obj |-> o, key |-> objs[o].key, p |-> objs[o].p, at |-> objs[o].pos, ct |-> Len(made) + 1, dom |-> objs[o].dom, want |-> want]) /\ UNCHANGED keys
KFlaws == {"other coins", "other message", "other hash", "altered"}
RefEnc(k, flaw) ==
    /\ Kind(keys[k].p) = "kyb" /\ Len(made) < MaxMade
    /\ made' = Append(made, [key |-> k, n |-> 32, flaw |-> flaw, by |-> "ref"])
    /\ Log([op |-> "refenc", key |-> k, p |-> keys[k].p, flaw |-> flaw, ct |-> Len(made) + 1]) /\ UNCHANGED <<objs, keys, draws>>
Dec(o, c, want) ==
    /\ objs[o].role = "own" /\ Kind(objs[o].p) = "kyb"
    /\ Log([op |-> "dec", obj |-> o, ct |-> c, p |-> objs[o].p, yes |-> made[c].key = objs[o].key /\ made[c].flaw = "none", flaw |-> made[c].flaw, key |-> objs[o].key, dom |-> objs[o].dom, want |-> want])
    /\ UNCHANGED <<objs, keys, made, draws>>
SetDomain(o, d) == /\ Kind(objs[o].p) \in {"kyb", "dh"} /\ objs' = [objs EXCEPT ![o].dom = d] /\ Log([op |-> "domain", obj |-> o, d |-> d]) /\ UNCHANGED <<keys, made, draws>>
Agree(o, i, j, want) ==
    /\ Kind(objs[o].p) = "dh" /\ Kind(keys[i].p) = "dh" /\ Kind(keys[j].p) = "dh" /\ keys[i].by \in {"lib", "good"}
    /\ Log([op |-> "agree", obj |-> o, i |-> i, j |-> j, p |-> objs[o].p, yes |-> keys[j].by \in {"lib", "good"}, dom |-> objs[o].dom, want |-> want]) /\ UNCHANGED <<objs, keys, made, draws>>

Rand(S) == IF Gen = "walk" /\ S # {} THEN {RandomElement(S)} ELSE S
Objs(R(_)) == Rand({o \in 1 .. Len(objs) : R(o)})
Keys(R(_)) == Rand({k \in 1 .. Len(keys) : R(k)})
Of(k, s) == made[s].key = k
Wants == {0, 16, 32, 64, 100, 200}
SignsO(o) == Signs(objs[o].p)   KybO(o) == Kind(objs[o].p) = "kyb"   DhO(o) == Kind(objs[o].p) = "dh"
Step ==
    /\ Len(hist) < Steps /\ done' = FALSE
    /\ \/ \E p \in Rand(Params), h \in Rand({"own", "lent"}) : Make(p, h)
       \/ \E o \in Rand(1 .. Len(objs)) : LibPair(o)
       \/ \E p \in Rand(Params), f \in Rand({"good", "small", "noncanonical"}) : RefPair(p, f)
       \/ \E p \in Rand(Params) : RefPair(p, "good")
       \/ \E o \in Objs(LAMBDA x : ~DhO(x)), r \in Rand({"own", "other"}) : \E k \in Keys(LAMBDA x : Kind(keys[x].p) = Kind(objs[o].p)) : Load(o, k, r)
       \/ \E o \in Objs(LAMBDA x : SignsO(x) /\ objs[x].role = "own"), n \in Rand(Msgs) : LibSign(o, n)
       \/ \E k \in Keys(LAMBDA x : Signs(keys[x].p)), n \in Rand(Msgs) : RefSign(k, n, "none")
       \/ \E k \in Keys(LAMBDA x : Signs(keys[x].p)), n \in Rand(Msgs) : \E f \in Rand(Flaws(keys[k].p)) : RefSign(k, n, f)
       \/ \E o \in Objs(LAMBDA x : SignsO(x) /\ objs[x].role = "other") : \E s \in Rand({s \in 1 .. Len(made) : Kind(keys[made[s].key].p) = Kind(objs[o].p)}) : Verify(o, s)
       \/ \E o \in Objs(LAMBDA x : SignsO(x) /\ objs[x].role = "other") : \E s \in Rand({s \in 1 .. Len(made) : Of(objs[o].key, s)}) : Verify(o, s)
       \/ \E o \in Objs(LAMBDA x : KybO(x) /\ objs[x].role = "other"), w \in Rand(Wants) : LibEnc(o, w)
       \/ \E k \in Keys(LAMBDA x : Kind(keys[x].p) = "kyb"), f \in Rand({"none"} \cup KFlaws) : RefEnc(k, f)
       \/ \E o \in Objs(LAMBDA x : KybO(x) /\ objs[x].role = "own"), w \in Rand(Wants) : \E c \in Rand({s \in 1 .. Len(made) : Kind(keys[made[s].key].p) = "kyb"}) : Dec(o, c, w)
       \/ \E o \in Objs(LAMBDA x : KybO(x) /\ objs[x].role = "own"), w \in Rand(Wants) : \E c \in Rand({s \in 1 .. Len(made) : Of(objs[o].key, s)}) : Dec(o, c, w)
       \/ \E o \in Objs(LAMBDA x : KybO(x) \/ DhO(x)), d \in Rand({0, 0, 1, 7, 32, 200}) : SetDomain(o, d)
       \/ \E o \in Objs(DhO), w \in Rand(Wants) : \E i \in Keys(LAMBDA x : Kind(keys[x].p) = "dh"), j \in Keys(LAMBDA x : Kind(keys[x].p) = "dh") : Agree(o, i, j, w)
Stop == done' = TRUE /\ UNCHANGED <<objs, keys, made, draws, hist>>
Next == Step \/ (Gen # "no" /\ Len(hist) = Steps /\ ~done /\ Stop)
MCNext == Step
MCSpec == Init /\ [][MCNext]_vars
MCBound == Len(hist) <= Steps

\* one parameter set, every message length, every flaw, both directions
At(i) == Len(hist) = i
Q == Kind(objs[1].p)
MsgSeq == LET RECURSIVE S(_)
              S(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o S(T \ {x})
          IN S(Msgs)
RECURSIVE List(_)
List(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o List(S \ {x})
SweepStep ==
    /\ \/ At(0) /\ \E p \in Params : Make(p, "lent")
       \/ At(1) /\ Make(objs[1].p, "own")
       \/ At(2) /\ LibPair(1)
       \/ At(3) /\ RefPair(objs[1].p, "good")
       \/ At(4) /\ LibPair(1)
       \/ /\ Len(hist) >= 5 /\ Q \in {"dil", "ed"}
          /\ LET i == Len(hist) - 5   m == Len(MsgSeq)   fl == List(Flaws(objs[1].p))   f == 3 * Len(fl) IN
             \/ i = 0 /\ Load(1, 1, "own")
             \/ i = 1 /\ Load(2, 1, "other")
             \/ i \in 2 .. m + 1 /\ LibSign(1, MsgSeq[i - 1])
             \/ i = m + 2 /\ Load(1, 2, "own")
             \/ i \in m + 3 .. 2 * m + 2 /\ LibSign(1, MsgSeq[i - m - 2])
             \/ i \in 2 * m + 3 .. 3 * m + 2 /\ RefSign(1, MsgSeq[i - 2 * m - 2], "none")
             \/ i \in 3 * m + 3 .. 3 * m + 2 + f /\ RefSign(1, 30 + i, fl[((i - 3 * m - 3) % Len(fl)) + 1])
             \/ i \in 3 * m + 3 + f .. 3 * m + 2 + f + Len(made) /\ Verify(2, i - 3 * m - 2 - f)
       \/ /\ Len(hist) >= 5 /\ Q = "kyb"
          /\ LET i == Len(hist) - 5   fl == List(KFlaws)   c == 3 * Len(fl) IN
             \/ i = 0 /\ Load(1, 2, "own")
             \/ i = 1 /\ Load(2, 2, "other")
             \/ i \in 2 .. 9 /\ LibEnc(2, 32)
             \/ i \in 10 .. 15 /\ RefEnc(2, "none")
             \/ i \in 16 .. 15 + c /\ RefEnc(2, fl[((i - 16) % Len(fl)) + 1])
             \/ i \in 16 + c .. 15 + c + Len(made) /\ Dec(1, i - 15 - c, 16)
             \/ i = 16 + c + Len(made) /\ Load(1, 1, "own")
       \/ /\ Len(hist) >= 5 /\ Q = "dh"
          /\ LET i == Len(hist) - 5 IN
             \/ i = 0 /\ RefPair(objs[1].p, "small")
             \/ i \in 1 .. 9 /\ Agree(1, ((i - 1) % 3) + 1, ((i - 1) \div 3) + 1, 32)
             \/ i = 10 /\ SetDomain(1, 32)
             \/ i \in 11 .. 19 /\ Agree(1, ((i - 11) % 3) + 1, ((i - 11) \div 3) + 1, 100)
             \/ i = 20 /\ Agree(2, 1, 4, 32)
             \/ i = 21 /\ Agree(1, 2, 4, 32)
Over == /\ Len(hist) > 5
        /\ Len(hist) = 5 + (CASE Q \in {"dil", "ed"} -> LET m == Len(MsgSeq)  f == 3 * Cardinality(Flaws(objs[1].p)) IN 3 * m + 3 + f + Len(made)
                              [] Q = "kyb" -> 17 + 3 * Cardinality(KFlaws) + Len(made)
                              [] OTHER -> 22)
SweepNext == ~done /\ ((done' = FALSE /\ SweepStep) \/ (Over /\ Stop))
-------------------------------------------------------------------------------
Ops(op) == {i \in 1 .. Len(hist) : hist[i].op = op}
Disjoint == \A a, b \in draws : (a # b /\ a.obj = b.obj) => (a.at + a.n <= b.at \/ b.at + b.n <= a.at)
Sound == /\ \A i \in Ops("verify") : hist[i].yes => hist[i].flaw = "none"
         /\ \A i \in Ops("dec") : hist[i].yes => hist[i].flaw = "none"
Interoperable == \A i \in Ops("verify") : \A s \in {hist[i].sig} : (made[s].flaw = "none" /\ \E j \in Ops("load") : j < i /\ hist[j].obj = hist[i].obj /\ hist[j].key = made[s].key
                      /\ \A m \in j + 1 .. i : ~(hist[m].op = "load" /\ hist[m].obj = hist[i].obj)) => hist[i].yes
Emit == done => PrintT(<<"BEH", ToJson([h |-> hist])>>)
=============================================================================

-------------------------------- MODULE Stream --------------------------------
(* The counter-driven stream ciphers, without a MAC.                            *)
(*                                                                              *)
(* Definition: after initialization, block i of everything transformed is       *)
(* XORed with the keystream block of counter (nonce + i); a ragged last piece   *)
(* uses up its block.                                                           *)
(* Machine: a counter made of digits (bytes or words) that is stepped with a    *)
(* carry, or increased by a block count with the implementation's carry rule;   *)
(* calls of any size; a wide path taking W blocks at a time; and a parallel     *)
(* path: g threads each from its own counter, then a tail from the last one's.  *)
(* Invariants: the blocks' counters are those of the definition, no counter is  *)
(* used twice before the counter space is used up, and every byte is produced   *)
(* exactly once at its own place.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Profiles,   \* records of a cipher: block size, legal and refused keys, nonces, infos, parallel settings
          Base, Digits, Steps, Gen
VARIABLES pf, par, st, dir, key, ctr, start, used, pos, hist, done
vars == <<pf, par, st, dir, key, ctr, start, used, pos, hist, done>>

RECURSIVE Val(_), Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Space == Pow(Base, Digits)
Val(c) == IF c = <<>> THEN 0 ELSE Head(c) + Base * Val(Tail(c))
Dig(v) == [i \in 1 .. Digits |-> (v \div Pow(Base, i - 1)) % Base]
\* step: increase the first digit, carry on while a digit becomes zero
RECURSIVE IncFrom(_, _)
IncFrom(c, i) == IF i > Digits THEN c
                 ELSE LET d == [c EXCEPT ![i] = (@ + 1) % Base] IN IF d[i] = 0 THEN IncFrom(d, i + 1) ELSE d
Inc(c) == IncFrom(c, 1)
\* increase by n: digit-wise, with the carry recognized from the wrapped digit alone
RECURSIVE AddFrom(_, _, _, _)
AddFrom(c, n, i, carry) ==
    IF i > Digits THEN c
    ELSE LET o == c[i]
             s == (n \div Pow(Base, i - 1)) % Base
             r == (o + s + carry) % Base
             cr == IF r < o \/ (carry = 1 /\ r = o) THEN 1 ELSE 0
         IN AddFrom([c EXCEPT ![i] = r], n, i + 1, cr)
Add(c, n) == AddFrom(c, n, 1, 0)

\* -- the machine on block counters: <<counters used, next counter>> -----------
RECURSIVE Run(_, _)
Run(c, n) == IF n = 0 THEN <<<<>>, c>> ELSE LET r == Run(Inc(c), n - 1) IN <<<<c>> \o r[1], r[2]>>
RECURSIVE Wide(_, _, _)
Wide(c, n, w) == IF n < w THEN Run(c, n)
                 ELSE LET h == Run(c, w) r == Wide(h[2], n - w, w) IN <<h[1] \o r[1], r[2]>>
RECURSIVE CatSeg(_, _, _, _)
CatSeg(c, z, g, i) == IF i = g THEN <<>> ELSE Wide(Add(c, z * i), z, 2)[1] \o CatSeg(c, z, g, i + 1)
Parallel(c, n, g) ==
    LET z == n \div g
        last == Wide(Add(c, z * (g - 1)), z, 2)[2]
        tail == Wide(last, n - z * g, 2)
    IN <<CatSeg(c, z, g, 0) \o tail[1], tail[2]>>

NoKey == [k |-> 0, iv |-> 0, ivl |-> 0, info |-> 0, s |-> 0]
Init == /\ pf \in Profiles /\ par = [on |-> FALSE, size |-> 0, degree |-> 0]
        /\ st = "raw" /\ dir = "enc" /\ key = NoKey /\ ctr = Dig(0) /\ start = 0 /\ used = <<>> /\ pos = 0 /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = IF Gen = "no" THEN hist ELSE Append(hist, e)
Toy == UNCHANGED <<ctr, start, used>>
Same == UNCHANGED pf

Load(d, k, iv, info) ==
    /\ st' = "ready" /\ dir' = d /\ pos' = 0
    /\ key' = [k |-> k, iv |-> iv[1], ivl |-> iv[2], info |-> info, s |-> Len(hist) + 1]
    /\ Log([op |-> "init", d |-> d, key |-> key', exp |-> "ok"]) /\ UNCHANGED par /\ Toy /\ Same
Flip ==
    /\ st = "ready" /\ dir' = (IF dir = "enc" THEN "dec" ELSE "enc") /\ pos' = 0
    /\ Log([op |-> "init", d |-> dir', key |-> key, exp |-> "ok"]) /\ UNCHANGED <<par, st, key>> /\ Toy /\ Same
LoadBad(d, k, iv, info) ==
    /\ Log([op |-> "init", d |-> d, key |-> [k |-> k, iv |-> iv[1], ivl |-> iv[2], info |-> info, s |-> Len(hist) + 1], exp |-> "throw"])
    /\ UNCHANGED <<par, st, dir, key, pos>> /\ Toy /\ Same
Configure(p) ==
    /\ par' = p /\ Log([op |-> "par", par |-> p]) /\ UNCHANGED <<st, dir, key, pos>> /\ Toy /\ Same
BadDegree(n) == Log([op |-> "deg", n |-> n]) /\ UNCHANGED <<par, st, dir, key, pos>> /\ Toy /\ Same
Blocks(n) == (n + pf.b - 1) \div pf.b
Transform(n, io, oo) ==
    /\ st = "ready" /\ pos' = pos + Blocks(n)
    /\ Log([op |-> "tr", d |-> dir, n |-> n, io |-> io, oo |-> oo, s |-> Len(hist) + 1, key |-> key, pos |-> pos])
    /\ UNCHANGED <<par, st, dir, key>> /\ Toy /\ Same
\* the state is stored and a new object continues from it
Restore ==
    /\ st = "ready" /\ pf.ser /\ Log([op |-> "ser"]) /\ UNCHANGED <<par, st, dir, key, pos>> /\ Toy /\ Same
Query == Log([op |-> "q", st |-> st = "ready", d |-> dir]) /\ UNCHANGED <<par, st, dir, key, pos>> /\ Toy /\ Same

PLen == IF par.on THEN par.size ELSE 8 * pf.b
Lens == {pf.b, 2 * pf.b, 4 * pf.b, 5 * pf.b, 8 * pf.b, 9 * pf.b, PLen, PLen + pf.b, PLen - pf.b, 2 * PLen, 2 * PLen + 9 * pf.b, 3 * PLen}
        \cup {1, pf.b - 1, pf.b + 1, 5 * pf.b + 7, PLen - 1, PLen + 1, 2 * PLen + 4 * pf.b + 13}
Step == /\ Len(hist) < Steps /\ done' = FALSE
        /\ \/ \E d \in {"enc", "dec"}, k \in pf.keys, iv \in pf.ivs, i \in pf.infos : Load(d, k, iv, i)
           \/ Flip
           \/ \E d \in {"enc", "dec"}, k \in pf.bad, iv \in pf.ivs : LoadBad(d, k, iv, 0)
           \/ \E d \in {"enc", "dec"}, k \in pf.keys, iv \in pf.badivs : LoadBad(d, k, iv, 0)
           \/ \E d \in {"enc", "dec"}, k \in pf.keys, iv \in pf.ivs, i \in pf.badinfos : LoadBad(d, k, iv, i)
           \/ \E p \in pf.pars : Configure(p)
           \/ \E n \in {0, 3, 1000} : BadDegree(n)
           \/ \E n \in Lens, io \in {0, 1, 16}, oo \in {0, 3, 16} : Transform(n, io, oo)
           \/ Restore
           \/ Query
Stop == done' = TRUE /\ UNCHANGED <<pf, par, st, dir, key, ctr, start, used, pos, hist>>
Next == Step \/ (Len(hist) = Steps /\ ~done /\ Stop)
Spec == Init /\ [][Next]_vars
\* every profile, path, key size and nonce shape, lengths around the path's thresholds, then a continuation
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ Len(hist) = 0 /\ \E p \in pf.pars : Configure(p)
          \/ Len(hist) = 1 /\ \E k \in pf.keys, iv \in pf.ivs, i \in pf.infos : Load("enc", k, iv, i)
          \/ Len(hist) = 2 /\ \E n \in {3 * pf.b, PLen, 2 * PLen + 9 * pf.b, PLen + 2 * pf.b + 5} : Transform(n, 1, 3)
          \/ Len(hist) = 3 /\ \E n \in {9 * pf.b + 1, 2 * PLen} : Transform(n, 0, 0)
    \/ Len(hist) = 4 /\ ~done /\ Stop
\* -- the toy machine -----------------------------------------------------------
MCNext == /\ done' = FALSE
          /\ \/ st = "raw" /\ \E v \in 0 .. Space - 1 : start' = v /\ ctr' = Dig(v) /\ used' = <<>> /\ st' = "ready"
             \/ st = "ready" /\ UNCHANGED <<start, st>> /\
                \E n \in 1 .. 7, g \in {1, 2, 4} :
                   /\ n + Len(used) <= Steps /\ (g > 1 => n >= g)
                   /\ LET r == IF g = 1 THEN Wide(ctr, n, 2) ELSE Parallel(ctr, n, g) IN used' = used \o r[1] /\ ctr' = r[2]
          /\ UNCHANGED <<pf, par, dir, key, pos, hist>>
MCSpec == Init /\ [][MCNext]_vars
-------------------------------------------------------------------------------
Follows == Gen = "no" /\ st = "ready" => /\ \A i \in 1 .. Len(used) : Val(used[i]) = (start + i - 1) % Space
                                         /\ Val(ctr) = (start + Len(used)) % Space
NoRepeat == \A i, j \in 1 .. Len(used) : (i - j) % Space # 0 => used[i] # used[j]
\* the carry rule is integer addition for every increment below the counter space
CarryRule == Gen = "no" /\ st = "raw" => \A v, n \in 0 .. Space - 1 : Val(Add(Dig(v), n)) = (v + n) % Space /\ Val(Inc(Dig(v))) = (v + 1) % Space
TypeOK == st \in {"raw", "ready"} /\ pos >= 0
MCProfiles == {[n |-> "toy", b |-> 1, keys |-> {}, bad |-> {}, ivs |-> {}, badivs |-> {}, infos |-> {}, badinfos |-> {}, pars |-> {}, ser |-> FALSE]}
\* nonces: <<kind, length>>; 0 random, 1 all ff, 2 low word/half about to carry, 3 a few blocks before the wrap, 4 long ff run inside
Off == [on |-> FALSE, size |-> 0, degree |-> 0]
Par(b, g, f) == [on |-> TRUE, size |-> g * b * 8 * f, degree |-> g]
P(n, b, keys, bad, ivl, infos, badinfos, ser) ==
  [n |-> n, b |-> b, keys |-> keys, bad |-> bad, ivs |-> {<<k, ivl>> : k \in 0 .. 4}, badivs |-> {<<0, 0>>, <<0, ivl - 1>>, <<0, ivl + 1>>},
   infos |-> infos, badinfos |-> badinfos, pars |-> {Off, Par(b, 2, 1), Par(b, 4, 1), Par(b, 6, 2), Par(b, 8, 1), Par(b, 8, 3)}, ser |-> ser]
Ciphers == {P("RCS", 32, {32, 64}, {16, 31}, 32, {0, 16}, {}, TRUE),
            P("RWS", 64, {16, 32, 64}, {15, 128}, 64, {0, 16}, {}, TRUE),
            P("ChaChaP20", 64, {32}, {16, 33}, 8, {0, 16}, {15, 17}, TRUE),
            P("CSX512", 128, {64}, {32, 65}, 16, {0, 48}, {}, TRUE),
            P("TSX256", 32, {32}, {16, 64}, 16, {0, 16}, {15, 17}, FALSE),
            P("TSX512", 64, {64}, {32, 63}, 16, {0, 16}, {17}, FALSE),
            P("TSX1024", 128, {128}, {64, 127}, 16, {0, 16}, {17}, FALSE)}
Emit == done => PrintT(<<"BEH", ToJson([pf |-> pf.n, b |-> pf.b, h |-> hist])>>)
=============================================================================

--------------------------------- MODULE Mode ---------------------------------
(* The confidentiality modes as state machines.                                 *)
(*                                                                              *)
(* Def* are the modes' definitions: closed functions from (key, iv, message) to *)
(* the output, on a toy block cipher over two-bit blocks (a "byte" is a bit).   *)
(* The machine mirrors the implementation: a chaining register, calls of any    *)
(* aligned size, single-block calls, and a parallel path that cuts a call into  *)
(* segments whose start register is computed from the input alone.  Invariants: *)
(* the machine's output is always the definition of everything it consumed, and *)
(* the opposite direction of the definition returns the input.                  *)
(*                                                                              *)
(* For code generation the same steps run on profiles with the real sizes; the  *)
(* expected output is the term (mode, direction, key, iv, pieces consumed).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Modes,   \* profiles [m, n (cipher), b (block), regs, keys, bad, ivs, infos, pars, unit]
          Steps, Gen
VARIABLES md, reg, eng, par, st, dir, key, chain, inp, out, pieces, hist, done
vars == <<md, reg, eng, par, st, dir, key, chain, inp, out, pieces, hist, done>>

Bits == {0, 1}
Blocks == [1 .. 2 -> Bits]
N(x) == x[1] * 2 + x[2]
Bl(v) == <<v \div 2, v % 2>>
\* toy keyed permutations of 0..3; neither linear nor an involution
Perm == << <<1, 3, 0, 2>>, <<2, 3, 1, 0>>, <<3, 0, 2, 1>> >>
E(k, x) == Bl(Perm[k][N(x) + 1])
D(k, y) == CHOOSE x \in Blocks : E(k, x) = y
Gap == 2      \* the unused rest of a ragged call's last key-stream block
Xor(x, y) == [i \in 1 .. Len(x) |-> IF y[i] = Gap THEN Gap ELSE (x[i] + y[i]) % 2]
FillUp(m, s) == IF m \in {"CTR", "ICM"} /\ Len(s) % 2 = 1 THEN Append(s, Gap) ELSE s
Blk(s, i) == SubSeq(s, 2 * i + 1, IF 2 * i + 2 <= Len(s) THEN 2 * i + 2 ELSE Len(s))
Add(iv, n) == Bl((N(iv) + n) % 4)                       \* CTR: big endian
Rev(x) == <<x[2], x[1]>>
AddLe(iv, n) == Rev(Add(Rev(iv), n))                    \* ICM: little endian
NBlk(s) == (Len(s) + 1) \div 2

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Part(x, n) == SubSeq(x, 1, n)
Stream(s, K(_)) == Cat([i \in 1 .. NBlk(s) |-> Xor(Part(K(i - 1), Len(Blk(s, i - 1))), Blk(s, i - 1))])
\* -- the definitions ---------------------------------------------------------
RECURSIVE Iter(_, _, _)
Iter(k, x, n) == IF n = 0 THEN x ELSE Iter(k, E(k, x), n - 1)
RECURSIVE CbcEnc(_, _, _), CfbEnc(_, _, _, _)
CbcEnc(k, c, s) == IF s = <<>> THEN <<>>
                   ELSE LET y == E(k, Xor(Blk(s, 0), c)) IN y \o CbcEnc(k, y, SubSeq(s, 3, Len(s)))
CbcDec(k, iv, s) == Cat([i \in 1 .. NBlk(s) |-> Xor(D(k, Blk(s, i - 1)), IF i = 1 THEN iv ELSE Blk(s, i - 2))])
Shift(r, x) == SubSeq(r \o x, Len(x) + 1, Len(x) + 2)
CfbEnc(k, c, s, r) == IF s = <<>> THEN <<>>
                      ELSE LET y == Xor(Part(E(k, c), r), Part(s, r)) IN y \o CfbEnc(k, Shift(c, y), SubSeq(s, r + 1, Len(s)), r)
CfbDec(k, iv, s, r) == Cat([i \in 1 .. (Len(s) \div r) |->
                            LET seen == Shift(iv, <<>>) \o SubSeq(s, 1, (i - 1) * r)
                            IN Xor(Part(E(k, SubSeq(seen, Len(seen) - 1, Len(seen))), r), SubSeq(s, (i - 1) * r + 1, i * r))])
Def(m, d, k, iv, r, s) ==
    CASE m = "ECB" -> Cat([i \in 1 .. NBlk(s) |-> IF d = "enc" THEN E(k, Blk(s, i - 1)) ELSE D(k, Blk(s, i - 1))])
      [] m = "CBC" -> IF d = "enc" THEN CbcEnc(k, iv, s) ELSE CbcDec(k, iv, s)
      [] m = "CFB" -> IF d = "enc" THEN CfbEnc(k, iv, s, r) ELSE CfbDec(k, iv, s, r)
      [] m = "OFB" -> LET K(i) == Iter(k, iv, i + 1) IN Stream(s, K)
      [] m = "CTR" -> LET K(i) == E(k, Add(iv, i)) IN Stream(s, K)
      [] OTHER     -> LET K(i) == E(k, AddLe(iv, i)) IN Stream(s, K)
\* -- the machine: one call on the register -----------------------------------
Last2(s) == SubSeq(s, Len(s) - 1, Len(s))
Call(m, d, k, c, r, s) ==      \* <<output, next register>>
    LET o == Def(m, d, k, c, r, s) IN
    <<o, CASE m = "ECB" \/ s = <<>> -> c
           [] m = "CBC" -> Last2(IF d = "enc" THEN o ELSE s)
           [] m = "CFB" -> Last2(c \o (IF d = "enc" THEN o ELSE s))
           [] m = "OFB" -> Iter(k, c, NBlk(s))
           [] m = "CTR" -> Add(c, NBlk(s))
           [] OTHER     -> AddLe(c, NBlk(s))>>
\* the parallel path: g segments of z bits each, each from a register known before any segment runs
SegStart(m, c, s, i, z) ==
    CASE m = "ECB" \/ i = 0 -> c
      [] m \in {"CBC", "CFB"} -> SubSeq(s, i * z - 1, i * z)
      [] m = "CTR" -> Add(c, (i * z) \div 2)
      [] OTHER     -> AddLe(c, (i * z) \div 2)
Seg(s, i, z) == SubSeq(s, i * z + 1, (i + 1) * z)
ParCall(m, d, k, c, r, s, g) ==
    LET z == Len(s) \div g
        res == [i \in 1 .. g |-> Call(m, d, k, SegStart(m, c, s, i - 1, z), r, Seg(s, i - 1, z))]
    IN <<Cat([i \in 1 .. g |-> res[i][1]]), res[g][2]>>
CanPar(m, d, r) == m \in {"ECB", "CTR", "ICM"} \/ (m \in {"CBC", "CFB"} /\ d = "dec" /\ r = 2)

NoKey == [k |-> 0, iv |-> 0, ivl |-> 0, info |-> 0, s |-> 0]
Init == /\ md \in Modes /\ reg \in md.regs /\ eng \in md.engs /\ par = [on |-> FALSE, size |-> 0, degree |-> 0]
        /\ st = "raw" /\ dir = "enc" /\ key = NoKey
        /\ chain = <<0, 0>> /\ inp = <<>> /\ out = <<>> /\ pieces = <<>> /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = IF Gen = "no" THEN hist ELSE Append(hist, e)
Same == UNCHANGED <<md, reg, eng>>

Load(d, k, iv, info) ==
    /\ st' = "ready" /\ dir' = d /\ pieces' = <<>>
    /\ key' = [k |-> k, iv |-> iv[1], ivl |-> iv[2], info |-> info, s |-> IF Gen = "no" THEN 0 ELSE Len(hist) + 1]
    /\ chain' = (IF Gen = "no" THEN Bl(iv[1]) ELSE chain) /\ inp' = <<>> /\ out' = <<>>
    /\ Log([op |-> "init", d |-> d, key |-> key', exp |-> "ok"]) /\ UNCHANGED par /\ Same
\* the peer: same key and vector, other direction
Flip ==
    /\ st = "ready" /\ Gen # "no"
    /\ st' = "ready" /\ dir' = (IF dir = "enc" THEN "dec" ELSE "enc") /\ pieces' = <<>>
    /\ Log([op |-> "init", d |-> dir', key |-> key, exp |-> "ok"])
    /\ UNCHANGED <<par, key, chain, inp, out>> /\ Same
LoadBad(d, k, iv) ==
    /\ Log([op |-> "init", d |-> d, key |-> [k |-> k, iv |-> iv[1], ivl |-> iv[2], info |-> 0, s |-> Len(hist) + 1], exp |-> "throw"])
    /\ UNCHANGED <<par, st, dir, key, chain, inp, out, pieces>> /\ Same
Configure(p) ==
    /\ par' = p /\ Log([op |-> "par", par |-> p])
    /\ UNCHANGED <<st, dir, key, chain, inp, out, pieces>> /\ Same
BadDegree(n) ==
    /\ Log([op |-> "deg", n |-> n]) /\ UNCHANGED <<par, st, dir, key, chain, inp, out, pieces>> /\ Same

Piece(n, src) == [s |-> IF Gen = "no" THEN 0 ELSE Len(hist) + 1, n |-> n, src |-> src]
\* CTR and ICM take pieces of any length; a ragged one uses up its last key-stream block, which is never used again
Allowed(n) == CASE md.m = "CFB" -> n % reg = 0 [] md.m \in {"CTR", "ICM"} -> TRUE [] OTHER -> n % md.b = 0
Transform(n, io, oo) ==
    /\ st = "ready" /\ Allowed(n)
    /\ st' = st
    /\ pieces' = Append(pieces, Piece(n, "new"))
    /\ Log([op |-> "tr", d |-> dir, n |-> n, io |-> io, oo |-> oo, s |-> Len(hist) + 1, key |-> key, reg |-> reg, term |-> pieces'])
    /\ UNCHANGED <<par, dir, key, chain, inp, out>> /\ Same
Block(io, oo) ==
    /\ st = "ready"
    /\ LET n == IF md.m = "CFB" THEN reg ELSE md.b IN
       /\ pieces' = Append(pieces, Piece(n, "new"))
       /\ Log([op |-> "blk", d |-> dir, n |-> n, io |-> io, oo |-> oo, s |-> Len(hist) + 1, key |-> key, reg |-> reg, term |-> pieces'])
    /\ UNCHANGED <<par, st, dir, key, chain, inp, out>> /\ Same
\* the toy machine's transform, on concrete data and on either path
ToyTransform(s, g) ==
    /\ st = "ready" /\ Gen = "no" /\ Allowed(Len(s)) /\ (g > 1 => CanPar(md.m, dir, reg) /\ Len(s) % (2 * g) = 0 /\ s # <<>>)
    /\ LET r == IF g > 1 THEN ParCall(md.m, dir, key.k, chain, reg, s, g) ELSE Call(md.m, dir, key.k, chain, reg, s) IN
       out' = out \o FillUp(md.m, r[1]) /\ chain' = r[2]
    /\ inp' = inp \o FillUp(md.m, s) /\ st' = st
    /\ UNCHANGED <<par, dir, key, pieces, hist>> /\ Same
Query == Log([op |-> "q", st |-> st # "raw", d |-> dir]) /\ UNCHANGED <<par, st, dir, key, chain, inp, out, pieces>> /\ Same

PLen == IF par.on THEN par.size ELSE 256
Lens == {16, 32, 64, 112, 128, 144, 240, 256, PLen, PLen + 16, PLen - 16, 2 * PLen, 2 * PLen + 144, 3 * PLen}
        \cup {0, 1, 15, 17, 129, PLen - 1, PLen + 1, 2 * PLen + 77}
        \cup (IF md.m = "CFB" THEN {reg, 3 * reg, 5 * reg} ELSE {})
Step == /\ Len(hist) < Steps /\ done' = FALSE
        /\ \/ \E d \in {"enc", "dec"}, k \in md.keys, iv \in md.ivs, i \in md.infos : Load(d, k, iv, i)
           \/ Flip
           \/ \E d \in {"enc", "dec"}, k \in md.bad, iv \in md.ivs : LoadBad(d, k, iv)
           \/ \E d \in {"enc", "dec"}, k \in md.keys, iv \in md.badivs : LoadBad(d, k, iv)
           \/ \E p \in md.pars : Configure(p)
           \/ \E n \in md.baddeg : BadDegree(n)
           \/ \E n \in {l \in Lens : l >= 0}, io \in {0, 1, 16}, oo \in {0, 3, 16} : Transform(n, io, oo)
           \/ \E io \in {0, 5}, oo \in {0, 9} : Block(io, oo)
           \/ Query
Stop == done' = TRUE /\ UNCHANGED <<md, reg, eng, par, st, dir, key, chain, inp, out, pieces, hist>>
Next == Step \/ (Gen # "no" /\ Len(hist) = Steps /\ ~done /\ Stop)
MCNext == /\ done' = FALSE
          /\ \/ st = "raw" /\ \E d \in {"enc", "dec"}, k \in md.keys, iv \in md.ivs : Load(d, k, iv, 0)
             \/ \E n \in 0 .. 8 : n + Len(inp) <= 8 /\ \E s \in [1 .. n -> Bits], g \in {1, 2, 4} : ToyTransform(s, g)
MCSpec == Init /\ [][MCNext]_vars
Spec == Init /\ [][Next]_vars

\* Exhaustive sweep: every profile, path and total length in blocks around the path's thresholds, both directions
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ Len(hist) = 0 /\ \E p \in md.pars : Configure(p)
          \/ Len(hist) = 1 /\ \E d \in {"enc", "dec"}, iv \in md.ivs : Load(d, CHOOSE k \in md.keys : TRUE, iv, CHOOSE i \in md.infos : TRUE)
          \/ Len(hist) = 2 /\ \E n \in {PLen - 16, PLen, PLen + 16, 2 * PLen + 144} : Transform(n, 1, 3)
          \/ Len(hist) = 3 /\ \E n \in {16, 2 * PLen, IF md.m \in {"CTR", "ICM"} THEN PLen + 21 ELSE 160} : Transform(n, 0, 0)
    \/ Len(hist) = 4 /\ ~done /\ Stop
-------------------------------------------------------------------------------
Computes == Gen = "no" /\ st # "raw" => out = Def(md.m, dir, key.k, Bl(key.iv), reg, inp)
Opp == IF dir = "enc" THEN "dec" ELSE "enc"
Inverts == Gen = "no" /\ st # "raw" => Def(md.m, Opp, key.k, Bl(key.iv), reg, out) = inp
NoKeyStreamTwice == Gen = "no" /\ md.m \in {"CTR", "ICM"} /\ st # "raw" => Len(inp) % 2 = 0 /\ N(IF md.m = "CTR" THEN chain ELSE Rev(chain)) = (N(IF md.m = "CTR" THEN Bl(key.iv) ELSE Rev(Bl(key.iv))) + Len(inp) \div 2) % 4
LengthKept == Len(out) = Len(inp)
TypeOK == st \in {"raw", "ready"} /\ (st = "raw" => inp = <<>>)
MCView == <<md, reg, st, dir, key, chain, inp, out>>
MCIvs == {<<0, 0>>, <<2, 0>>, <<3, 0>>}
M(m, n, regs, engs, keys, bad, ivs, badivs, infos, pars, baddeg) ==
  [m |-> m, n |-> n, b |-> IF n = "toy" THEN 2 ELSE 16, regs |-> regs, engs |-> engs, keys |-> keys, bad |-> bad, ivs |-> ivs, badivs |-> badivs,
   infos |-> infos, pars |-> pars, baddeg |-> baddeg]
MCModes == {M(m, "toy", IF m = "CFB" THEN {1, 2} ELSE {2}, {"enum"}, {1, 3}, {}, MCIvs, {}, {0}, {}, {}) : m \in {"ECB", "CBC", "CFB", "OFB", "CTR", "ICM"}}
\* vectors: <<kind, length>>; kinds 0 random, 1 all ff, 2 one before all ff, 3 a long carry inside, 4 ff at the other end
Full == {<<k, 16>> : k \in 0 .. 4}
Par(m, g, f) == [on |-> TRUE, size |-> g * 16 * (IF m = "CFB" THEN 1 ELSE 8) * f, degree |-> g]
Off == [on |-> FALSE, size |-> 0, degree |-> 0]
Pars(m) == {Off, Par(m, 2, 1), Par(m, 2, 3), Par(m, 4, 1), Par(m, 6, 2), Par(m, 8, 1)}
Ivs(m) == CASE m = "CFB" -> Full \cup {<<0, 1>>, <<0, 7>>, <<0, 15>>} [] m = "ECB" -> {<<0, 0>>, <<0, 16>>} [] OTHER -> Full
BadIvs(m) == CASE m = "CFB" -> {<<0, 0>>} [] m = "ECB" -> {} [] OTHER -> {<<0, 0>>, <<0, 15>>, <<0, 17>>}
ModeOf(m, n, keys, bad, infos) == M(m, n, IF m = "CFB" THEN {1, 5, 8, 16} ELSE {16}, {"enum", "engine"}, keys, bad, Ivs(m), BadIvs(m), infos,
                        IF m = "OFB" THEN {} ELSE Pars(m), IF m = "OFB" THEN {} ELSE {0, 3, 1000})
SixModes == {"ECB", "CBC", "CFB", "OFB", "CTR", "ICM"}
AllModes == {ModeOf(m, "AES", {16, 24, 32}, {15, 64}, {0}) : m \in SixModes}
       \cup {ModeOf(m, "Serpent", {16, 24, 32}, {15, 64}, {0}) : m \in SixModes}
       \cup {ModeOf(m, "RHXS256", {32, 64, 128}, {16}, {0, 9}) : m \in SixModes}
       \cup {ModeOf(m, "SHXH256", {32, 64, 128}, {16}, {0, 9}) : m \in SixModes}
SweepModes == {[x EXCEPT !.regs = {16}, !.engs = {"enum"}] : x \in {y \in AllModes : y.m # "OFB" /\ y.n \in {"AES", "Serpent"}}}
Emit == done => PrintT(<<"BEH", ToJson([md |-> md, reg |-> reg, eng |-> eng, h |-> hist])>>)
=============================================================================

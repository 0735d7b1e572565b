------------------------------- MODULE Permute -------------------------------
(* A permutation and its implementations: the scalar forms work on one state,  *)
(* the wide forms on several, kept interleaved in vector registers (register i *)
(* holds word i of every lane).  Whatever mixture of forms processes the lanes,*)
(* each lane is where the scalar function takes it, and no lane disturbs       *)
(* another (Lanewise); a wide call is the scalar calls on every lane.          *)
(* The toy permutation here mixes words with carries, so that registers that   *)
(* leak across lanes, or a lane given another's message, would be seen.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS L, M, Steps, Gen
VARIABLES fam, regs, ideal, n, hist, done
vars == <<fam, regs, ideal, n, hist, done>>

\* -- the toy: two words modulo M, a message word ------------------------------
P(w, x) == LET a == (w[1] + w[2] + x) % M
               b == (w[2] * 2 + a + 1) % M IN <<a, b>>
\* register arithmetic, lane by lane
Add(x, y) == [l \in 1 .. L |-> (x[l] + y[l]) % M]
All(c) == [l \in 1 .. L |-> c]
WideP(r, x) == LET a == Add(Add(r[1], r[2]), x)
                   b == Add(Add(Add(r[2], r[2]), a), All(1)) IN <<a, b>>
Column(r, l) == <<r[1][l], r[2][l]>>
Put(r, l, w) == <<[r[1] EXCEPT ![l] = w[1]], [r[2] EXCEPT ![l] = w[2]]>>

Log(e) == n' = n + 1 /\ hist' = IF Gen = "no" THEN hist ELSE Append(hist, e)
MInit == fam = "toy" /\ regs = <<All(0), All(0)>> /\ ideal = [l \in 1 .. L |-> <<0, 0>>] /\ n = 0 /\ hist = <<>> /\ done = FALSE
MScalar == \E l \in 1 .. L, x \in 0 .. M - 1 : regs' = Put(regs, l, P(Column(regs, l), x)) /\ ideal' = [ideal EXCEPT ![l] = P(@, x)]
MWide == \E x \in [1 .. L -> 0 .. M - 1] : regs' = WideP(regs, x) /\ ideal' = [l \in 1 .. L |-> P(ideal[l], x[l])]
MNext == n < Steps /\ (MScalar \/ MWide) /\ Log(<<>>) /\ UNCHANGED <<fam, done>>
Lanewise == \A l \in 1 .. L : Column(regs, l) = ideal[l]

\* -- the library's permutations: forms, whether wide, rounds each can do ----------
F(nm, wide, rounds) == [n |-> nm, wide |-> wide, rounds |-> rounds]
Fam(nm, state, input, shared, lanes, forms) == [n |-> nm, state |-> state, input |-> input, shared |-> shared, lanes |-> lanes, forms |-> forms]
Tf(b, r, u) == {F("tf" \o b \o "C", FALSE, {r, 72, 80, 120}), F("tf" \o b \o u, FALSE, {r}), F("tf" \o b \o "x", TRUE, {r, 72, 80, 120})}
Families ==
  { Fam("keccak", 200, 0, 0, 4, {F("keccak", FALSE, {12, 24, 36, 48}), F("keccak24U", FALSE, {24}), F("keccak48U", FALSE, {48}), F("keccak4x", TRUE, {12, 24}), F("keccak48x4", TRUE, {48})}),
    Fam("sha256", 32, 64, 0, 8, {F("sha256C", FALSE, {64}), F("sha256U", FALSE, {64}), F("sha256V", FALSE, {64}), F("sha256x8", TRUE, {64})}),
    Fam("sha512", 64, 128, 0, 4, {F("sha512C", FALSE, {80}), F("sha512U", FALSE, {80}), F("sha512x4", TRUE, {80})}),
    Fam("blake2s", 32, 96, 0, 8, {F("blake2sC", FALSE, {10}), F("blake2sU", FALSE, {10}), F("blake2sV", FALSE, {10}), F("blake2sx8", TRUE, {10})}),
    Fam("blake2b", 64, 192, 0, 4, {F("blake2bC", FALSE, {12}), F("blake2bU", FALSE, {12}), F("blake2bV", FALSE, {12}), F("blake2bx4", TRUE, {12})}),
    Fam("chacha", 64, 8, 56, 8, {F("chachaC", FALSE, {8, 12, 20, 40}), F("chachaU", FALSE, {20}), F("chachax8", TRUE, {8, 12, 20, 40})}),
    Fam("csx", 128, 16, 112, 4, {F("csxC", FALSE, {20, 40, 80}), F("csxx4", TRUE, {20, 40, 80})}),
    Fam("tf4", 32, 16, 48, 4, Tf("4", 72, "U")), Fam("tf8", 64, 16, 80, 4, Tf("8", 96, "U")), Fam("tf1", 128, 16, 144, 4, Tf("1", 120, "U")),
    Fam("skein4", 32, 32, 16, 1, {F("skein4C", FALSE, {72, 80}), F("skein4U", FALSE, {72})}),
    Fam("skein8", 64, 64, 16, 1, {F("skein8C", FALSE, {72, 96}), F("skein8U", FALSE, {72, 96}), F("skein8V", FALSE, {72})}),
    Fam("skein1", 128, 128, 16, 1, {F("skein1C", FALSE, {80, 120}), F("skein1U", FALSE, {80, 120})}),
    Fam("cmul", 16, 16, 16, 1, {F("cmulU", FALSE, {128}), F("cmulC", FALSE, {128}), F("cmulV", FALSE, {128})}) }
Classes == {"rnd", "zero", "ones", "low", "high"}
GInit == /\ fam \in Families /\ regs = <<>> /\ ideal = <<>> /\ n = 0 /\ hist = <<>> /\ done = FALSE
\* every form on every class of state, message and shared value; then walks that chain the forms
Run(f, r, l, c, cs, k, off) == Log([op |-> "run", f |-> f.n, wide |-> f.wide, rounds |-> r, lane |-> l, cls |-> c, start |-> cs, sh |-> k, off |-> off, id |-> n + 1])
Sweep == /\ n = 0 /\ ~done
         /\ \E f \in fam.forms, c \in Classes, cs \in Classes, k \in Classes : \E r \in f.rounds :
                /\ (fam.input = 0 => c = "rnd") /\ (fam.shared = 0 => k = "rnd")
                /\ (fam.shared > 0 /\ fam.state > 16 /\ fam.input = 16 => cs = "rnd")
                /\ (fam.n \in {"chacha", "csx"} => cs = "rnd")
                /\ Run(f, r, 0, c, cs, k, 0)
         /\ done' = TRUE /\ UNCHANGED <<fam, regs, ideal>>
Walk == \/ /\ n < Steps /\ ~done
           /\ \E f \in fam.forms, c \in {"rnd", "rnd2", "ones"}, off \in {0, 1, 8, 13}, l \in 0 .. fam.lanes - 1 : \E r \in f.rounds :
                  (f.wide => l = 0) /\ Run(f, r, l, c, IF n = 0 THEN "rnd" ELSE "keep", "rnd", off)
           /\ UNCHANGED <<fam, regs, ideal, done>>
        \/ n = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<fam, regs, ideal, n, hist>>
GNext == IF Gen = "sweep" THEN Sweep ELSE Walk
Emit == done => PrintT(<<"BEH", ToJson([fam |-> fam.n, state |-> fam.state, input |-> fam.input, shared |-> fam.shared, lanes |-> fam.lanes, h |-> hist])>>)
=============================================================================

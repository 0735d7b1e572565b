---------------------------------- MODULE Kdf ----------------------------------
(* A key derivation function as a stream of blocks.                             *)
(*                                                                              *)
(* Loading (key, salt, info) fixes an infinite sequence of b-byte blocks, the   *)
(* published function of those inputs.  A request of n bytes takes the next     *)
(* ceil(n/b) blocks and returns their first n bytes; no block is ever handed    *)
(* out twice, none is skipped, and a construction with a limit refuses a        *)
(* request that would pass it.  A refused request takes nothing.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kdfs,   \* profiles [n, b, limit, keys, badkeys, salts, badsalts, infos, ctors, alien]
          Steps, Gen
VARIABLES kdf, ctor, st, key, cnt, calls, given, hist, done
vars == <<kdf, ctor, st, key, cnt, calls, given, hist, done>>

NoKey == [k |-> 0, salt |-> 0, info |-> 0, s |-> 0]
Blocks(n) == (n + kdf.b - 1) \div kdf.b
Init == /\ kdf \in Kdfs /\ ctor \in kdf.ctors /\ st = "raw" /\ key = NoKey /\ cnt = 0 /\ calls = <<>> /\ given = <<>>
        /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = IF Gen = "no" THEN hist ELSE Append(hist, e)
Same == UNCHANGED <<kdf, ctor>>
Clear == cnt' = 0 /\ calls' = <<>> /\ given' = <<>>

Load(k, salt, info) ==
    /\ st' = "ready" /\ key' = [k |-> k, salt |-> salt, info |-> info, s |-> IF Gen = "no" THEN 0 ELSE Len(hist) + 1] /\ Clear
    /\ Log([op |-> "init", key |-> key', exp |-> "ok"]) /\ Same
\* the same inputs again: what a second party does
Again ==
    /\ st = "ready" /\ cnt > 0 /\ Clear
    /\ Log([op |-> "init", key |-> key, exp |-> "ok"]) /\ UNCHANGED <<st, key>> /\ Same
\* a refused key leaves nothing that later calls may rely on: only another initialization is specified
LoadBad(k, salt) ==
    /\ Log([op |-> "init", key |-> [k |-> k, salt |-> salt, info |-> 0, s |-> Len(hist) + 1], exp |-> "throw"])
    /\ st' = "refused" /\ key' = NoKey /\ Clear /\ Same
Generate(n, off, tail, sec) ==
    /\ st = "ready" /\ n > 0
    /\ IF kdf.limit = 0 \/ cnt + Blocks(n) <= kdf.limit
       THEN /\ cnt' = cnt + Blocks(n) /\ calls' = Append(calls, n)
            /\ given' = (IF Gen = "no" THEN given \o [i \in 1 .. Blocks(n) |-> cnt + i] ELSE given)
            /\ Log([op |-> "gen", n |-> n, off |-> off, tail |-> tail, sec |-> sec, exp |-> "ok", key |-> key, from |-> cnt, calls |-> calls])
       ELSE /\ UNCHANGED <<cnt, calls, given>> /\ Log([op |-> "gen", n |-> n, off |-> off, tail |-> tail, sec |-> sec, exp |-> "throw"])
    /\ UNCHANGED <<st, key>> /\ Same
\* a buffer too small, or no key yet
GenerateBad(n, off, sec) ==
    /\ st \in {"raw", "ready"}
    /\ Log([op |-> "gen", n |-> n, off |-> off, tail |-> 0, short |-> (st = "ready"), sec |-> sec, exp |-> "throw"])
    /\ UNCHANGED <<st, key, cnt, calls, given>> /\ Same
Reset == Log([op |-> "reset"]) /\ st' = "raw" /\ key' = NoKey /\ Clear /\ Same
Query == st \in {"raw", "ready"} /\ Log([op |-> "q", v |-> (st = "ready")]) /\ UNCHANGED <<st, key, cnt, calls, given>> /\ Same

B == kdf.b
Lens == {1, B - 1, B, B + 1, 2 * B, 2 * B + 3, 5 * B, 5 * B + 7}
        \cup (IF kdf.limit > 0 /\ kdf.limit < 1000 THEN {kdf.limit * B, kdf.limit * B + 1, kdf.limit * B - 1, (kdf.limit - 1) * B, (kdf.limit - 3) * B + 1, (kdf.limit - 5) * B} ELSE {})
Step == /\ Len(hist) < Steps /\ done' = FALSE
        /\ \/ \E k \in kdf.keys, s \in kdf.salts, i \in kdf.infos : Load(k, s, i)
           \/ Again
           \/ \E k \in kdf.badkeys, s \in kdf.salts : LoadBad(k, s)
           \/ \E k \in kdf.keys, s \in kdf.badsalts : LoadBad(k, s)
           \/ \E n \in Lens, o \in {0, 1, 19}, t \in {0, 4}, sec \in {TRUE, FALSE} : Generate(n, o, t, sec)
           \/ \E o \in {0, 5}, sec \in {TRUE, FALSE} : GenerateBad(B, o, sec)
           \/ Reset
           \/ Query
Stop == done' = TRUE /\ UNCHANGED <<kdf, ctor, st, key, cnt, calls, given, hist>>
Next == Step \/ (Gen # "no" /\ Len(hist) = Steps /\ ~done /\ Stop)
Spec == Init /\ [][Next]_vars

\* Exhaustive sweep: every key, salt and info size of the profile, two requests
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ Len(hist) = 0 /\ \E k \in kdf.keys, s \in kdf.salts, i \in kdf.infos : Load(k, s, i)
          \/ Len(hist) = 1 /\ Generate(B + 3, 2, 1, FALSE)
          \/ Len(hist) = 2 /\ Generate(2 * B + 1, 3, 2, TRUE)
    \/ Len(hist) = 3 /\ ~done /\ Stop
-------------------------------------------------------------------------------
TypeOK == st \in {"raw", "ready", "refused"} /\ (st # "ready" => key = NoKey /\ cnt = 0)
NoRepeat == \A i, j \in 1 .. Len(given) : i # j => given[i] # given[j]
InOrder == \A i \in 1 .. Len(given) : given[i] = i
WithinLimit == kdf.limit > 0 => cnt <= kdf.limit
RECURSIVE Sum(_)
Sum(c) == IF c = <<>> THEN 0 ELSE Blocks(Head(c)) + Sum(Tail(c))
Accounted == cnt = Sum(calls)
OneWay == [][key' = key /\ st' = st /\ cnt' # 0 => cnt' >= cnt]_vars
MCBound == cnt <= 9 /\ Len(calls) <= 3
MCKdfs == { [n |-> "limited", b |-> 3, limit |-> 7, keys |-> {1, 2}, badkeys |-> {0}, salts |-> {0, 1}, badsalts |-> {}, infos |-> {0, 1}, ctors |-> {"x"}],
            [n |-> "open", b |-> 4, limit |-> 0, keys |-> {1}, badkeys |-> {}, salts |-> {1}, badsalts |-> {0}, infos |-> {0}, ctors |-> {"x"}] }
P(n, b, limit, keys, badkeys, salts, badsalts, infos, ctors) ==
  [n |-> n, b |-> b, limit |-> limit, keys |-> keys, badkeys |-> badkeys, salts |-> salts, badsalts |-> badsalts, infos |-> infos, ctors |-> ctors]
Shake(n, b) == P(n, b, 0, {4, 32, b - 1, b, b + 1, 3 * b}, {0, 3}, {0, 4, 17, b - 6, b - 4, b - 3, b}, {1, 3}, {0, 1, 20, b - 5, b - 3, b}, {"enum"})
Scb(n, b, cpu) == P(n, b, 0, {16, 64, b - 1, b}, {0, 15}, {0, 3, b - 4}, {}, {0, 9, b - 4}, cpu)
AllKdfs == {
  P("HKDF256", 32, 255, {16, 32, 63, 64, 65, 200}, {0, 15}, {0, 4, 7, 8, 32, 64, 65}, {3}, {0, 1, 10, 55, 64}, {"enum", "digest"}),
  P("HKDF512", 64, 255, {16, 64, 127, 128, 129, 200}, {0, 15}, {0, 4, 7, 8, 64, 128, 129}, {3}, {0, 1, 10, 111, 128}, {"enum", "digest"}),
  P("KDF2256", 32, 0, {16, 32, 63, 64, 65, 100, 128, 200}, {0, 15}, {0, 4, 32, 55, 64}, {3}, {0, 1, 20, 64}, {"enum", "digest"}),
  P("KDF2512", 64, 0, {16, 64, 127, 128, 129, 180, 256}, {0, 15}, {0, 4, 64, 111, 128}, {3}, {0, 1, 20, 128}, {"enum", "digest"}),
  P("PBKDF2256", 32, 0, {4, 7, 8, 32, 64, 65, 200}, {0, 3}, {0, 4, 16, 64}, {3}, {0, 5, 30}, {"enum:1", "enum:2", "digest:7", "enum:33"}),
  P("PBKDF2512", 64, 0, {4, 7, 8, 64, 128, 129, 200}, {0, 3}, {0, 4, 16, 128}, {3}, {0, 5, 30}, {"enum:1", "enum:2", "digest:7", "enum:33"}),
  Shake("SHAKE128", 168), Shake("SHAKE256", 136), Shake("SHAKE512", 72),
  Scb("SCBKDF128", 168, {"cost:1:1", "cost:2:0", "cost:9:1", "cost:40:3"}),
  Scb("SCBKDF256", 136, {"cost:1:1", "cost:2:0", "cost:9:1", "cost:40:3"}),
  Scb("SCBKDF512", 72, {"cost:1:1", "cost:2:0", "cost:9:1", "cost:40:3"}) }
SweepKdfs == {[x EXCEPT !.ctors = {CHOOSE c \in x.ctors : \A d \in x.ctors : c = d \/ TRUE}] : x \in AllKdfs}
Emit == done => PrintT(<<"BEH", ToJson([kdf |-> kdf, ctor |-> ctor, h |-> hist])>>)
=============================================================================

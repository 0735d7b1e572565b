------------------------------- MODULE KeyStore -------------------------------
(* Symmetric key containers: the plain one (SymmetricKey) and the sealed one   *)
(* (SymmetricSecureKey, whose fields are kept encrypted under a policy and an  *)
(* optional salt), their serialized streams, their sizes.  A field is named by *)
(* the source its bytes come from and its length.  objs: the containers of the *)
(* behaviour, streams: the serialized keys.  Memory: clear is the set of       *)
(* sources held in the clear by a live container.  Invariants: a container     *)
(* holds what it was made of or nothing (Exact), a stream splits back into the *)
(* fields it was made of (Inverse), nothing sealed, erased or destroyed is     *)
(* held in the clear (Sealed).                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Lens, Policies, Steps, Gen, MaxObjs
VARIABLES objs, streams, clear, hist, done
vars == <<objs, streams, clear, hist, done>>

Field(s, n) == [s |-> s, n |-> n]
None == Field(0, 0)
NoKey == [key |-> None, iv |-> None, info |-> None]
Init == objs = <<>> /\ streams = <<>> /\ clear = {} /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = Append(hist, e)
Id == Len(hist) + 1
\* the sources a container holds
Held(f) == {x.s : x \in {f.key, f.iv, f.info}} \ {0}
ClearOf(os) == UNION {IF os[i].kind = "plain" /\ os[i].live THEN Held(os[i].f) ELSE {} : i \in 1 .. Len(os)}
Upd(os) == objs' = os /\ clear' = ClearOf(os)
Src(i, n) == IF n = 0 THEN None ELSE Field(10 * Id + i, n)
Make(kind, arity, k, v, i, pol, salt, sec) ==
    /\ Len(objs) < MaxObjs
    /\ (arity < 3 => i = 0) /\ (arity < 2 => v = 0) /\ k + v + i > 0 /\ (arity = 1 => k > 0)
    /\ (kind = "plain" => pol = 0) /\ (pol = 0 => salt = 0) /\ (pol > 0 => salt > 0)
    /\ LET f == [key |-> Src(1, k), iv |-> Src(2, v), info |-> Src(3, i)] IN
       /\ Upd(Append(objs, [kind |-> kind, f |-> f, live |-> TRUE, pol |-> pol, salt |-> salt]))
       /\ Log([op |-> "make", kind |-> kind, arity |-> arity, f |-> f, pol |-> pol, salt |-> salt, sec |-> sec, obj |-> Len(objs) + 1])
    /\ UNCHANGED streams
\* nothing at all, or no key where there is nothing but a key; a policy without a salt
Refused(kind, arity, what, sec) == Log([op |-> "refused", kind |-> kind, arity |-> arity, what |-> what, sec |-> sec]) /\ UNCHANGED <<objs, streams, clear>>
Look(o) == objs[o].live /\ Log([op |-> "look", obj |-> o, kind |-> objs[o].kind, f |-> objs[o].f]) /\ UNCHANGED <<objs, streams, clear>>
Clone(o) == /\ objs[o].live /\ Len(objs) < MaxObjs /\ objs[o].f # NoKey
            /\ Upd(Append(objs, objs[o])) /\ Log([op |-> "clone", obj |-> Len(objs) + 1, from |-> o, kind |-> objs[o].kind, f |-> objs[o].f]) /\ UNCHANGED streams
Store(o) == /\ objs[o].live /\ streams' = Append(streams, objs[o].f) /\ Log([op |-> "store", from |-> o, kind |-> objs[o].kind, f |-> objs[o].f, stream |-> Len(streams) + 1])
            /\ UNCHANGED <<objs, clear>>
\* either class reads a stream, and makes a plain key of it
Load(s, by) == /\ Len(objs) < MaxObjs /\ streams[s] # NoKey
               /\ Upd(Append(objs, [kind |-> "plain", f |-> streams[s], live |-> TRUE, pol |-> 0, salt |-> 0]))
               /\ Log([op |-> "load", stream |-> s, by |-> by, obj |-> Len(objs) + 1, f |-> streams[s]]) /\ UNCHANGED streams
Reset(o) == /\ objs[o].live /\ Upd([objs EXCEPT ![o].f = NoKey]) /\ Log([op |-> "reset", obj |-> o, kind |-> objs[o].kind, gone |-> Held(objs[o].f) \ clear'])
            /\ UNCHANGED streams
Drop(o) == /\ objs[o].live /\ Upd([objs EXCEPT ![o].live = FALSE]) /\ Log([op |-> "drop", obj |-> o, gone |-> Held(objs[o].f) \ clear']) /\ UNCHANGED streams
\* is a sealed key's field to be found in memory?  (not while a plain container has it, or a stream was made of it)
Streamed == UNION {Held(streams[i]) : i \in 1 .. Len(streams)}
AtRest(o) == LET f == objs[o].f IN
             /\ objs[o].live /\ objs[o].kind = "sealed" /\ Held(f) # {}
             /\ Log([op |-> "atrest", f |-> SelectSeq(<<f.key, f.iv, f.info>>, LAMBDA x : x.s # 0 /\ x.s \notin clear \cup Streamed)])
             /\ UNCHANGED <<objs, streams, clear>>

Rand(S) == IF Gen = "walk" THEN {RandomElement(S)} ELSE S
Objs == {o \in 1 .. Len(objs) : objs[o].live}
OneObj == IF Objs = {} THEN {} ELSE Rand(Objs)
Step == /\ Len(hist) < Steps /\ done' = FALSE
        /\ \/ \E kind \in Rand({"plain", "sealed"}), a \in Rand(1 .. 3), k \in Rand(Lens), v \in Rand(Lens), i \in Rand(Lens), p \in Rand(Policies), s \in Rand({8, 16, 64}), sec \in Rand(BOOLEAN) :
                Make(kind, a, k, IF a > 1 THEN v ELSE 0, IF a > 2 THEN i ELSE 0, IF kind = "plain" THEN 0 ELSE p, IF kind = "plain" \/ p = 0 THEN 0 ELSE s, sec)
           \/ \E kind \in Rand({"plain", "sealed"}), a \in Rand(1 .. 3), w \in Rand({"none", "salt"}), sec \in Rand(BOOLEAN) : (kind = "plain" => w = "none") /\ Len(hist) > 2 /\ Refused(kind, a, w, sec)
           \/ \E o \in OneObj : Look(o) \/ Clone(o) \/ Store(o) \/ (Len(hist) > 1 /\ Reset(o)) \/ AtRest(o) \/ (Len(objs) > 1 /\ Drop(o))
           \/ \E s \in (IF streams = <<>> THEN {} ELSE Rand(1 .. Len(streams))), by \in Rand({"plain", "sealed"}) : Load(s, by)
Stop == done' = TRUE /\ UNCHANGED <<objs, streams, clear, hist>>
Next == Step \/ (Gen # "no" /\ Len(hist) = Steps /\ ~done /\ Stop)
MCNext == Step
MCSpec == Init /\ [][MCNext]_vars
\* every way to make a key, looked at, cloned, stored and loaded, reset
SweepNext ==
    \/ /\ done' = FALSE
       /\ CASE Len(hist) = 0 -> \E kind \in {"plain", "sealed"}, a \in 1 .. 3, k, v, i \in Lens, p \in Policies, sec \in BOOLEAN :
                                    (sec = (((k + v + i) % 2) = 0)) /\ Make(kind, a, k, v, i, p, IF p = 0 THEN 0 ELSE 8, sec)
            [] Len(hist) = 1 -> (IF objs[1].kind = "sealed" THEN AtRest(1) ELSE Look(1))
            [] Len(hist) = 2 -> Clone(1)
            [] Len(hist) = 3 -> Look(2)
            [] Len(hist) = 4 -> Store(1)
            [] Len(hist) = 5 -> Load(1, "plain") \/ Load(1, "sealed")
            [] Len(hist) = 6 -> Look(3)
            [] Len(hist) = 7 -> Reset(1)
            [] Len(hist) = 8 -> Look(1)
            [] OTHER -> FALSE
    \/ Len(hist) = 9 /\ ~done /\ Stop
-------------------------------------------------------------------------------
Made == {hist[i].f : i \in {j \in 1 .. Len(hist) : hist[j].op = "make"}} \cup {NoKey}
Exact == \A o \in 1 .. Len(objs) : objs[o].f \in Made
Inverse == \A s \in 1 .. Len(streams) : streams[s] \in Made
Sealed == \A s \in clear : \E o \in Objs : objs[o].kind = "plain" /\ s \in Held(objs[o].f)
MCBound == Len(hist) <= 4
Emit == done => PrintT(<<"BEH", ToJson([h |-> hist, live |-> [o \in 1 .. Len(objs) |-> objs[o].live], fs |-> [o \in 1 .. Len(objs) |-> objs[o].f]])>>)
=============================================================================

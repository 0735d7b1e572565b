--------------------------------- MODULE Tasks ---------------------------------
(* What users of the thread pool and of the parallel loops rely on: a task that *)
(* was added is started once and ends; whoever waits for the tasks is let go    *)
(* only when those added before have ended; no more run at a time than there    *)
(* are threads; once stopped, nothing more is started.                          *)
EXTENDS Integers, FiniteSets
CONSTANTS Ids, Waiters
VARIABLES max, asked, added, running, ended, pending, stopped
vars == <<max, asked, added, running, ended, pending, stopped>>

Fresh(m) == [max |-> m, asked |-> {}, added |-> {}, running |-> {}, ended |-> {}, pending |-> [w \in {} |-> {}], stopped |-> FALSE]
State == [max |-> max, asked |-> asked, added |-> added, running |-> running, ended |-> ended, pending |-> pending, stopped |-> stopped]
\* may event e with argument t happen in state s, and what then
Can(s, e, t) ==
    CASE e = "add" -> t \notin s.asked              \* the call that adds it begins
      [] e = "in" -> t \in s.asked \ s.added   \* and returns
      [] e = "start" -> t \in s.asked /\ t \notin s.running \cup s.ended /\ ~s.stopped /\ (s.max = 0 \/ Cardinality(s.running) < s.max)
      [] e = "end" -> t \in s.running
      [] e = "call" -> t \notin DOMAIN s.pending
      [] e = "ret" -> t \in DOMAIN s.pending /\ s.pending[t] \subseteq s.ended
      [] e = "all" -> s.asked = s.ended
      [] e = "must" -> t \in s.ended
      [] e = "stop" -> TRUE
      [] e = "stopped" -> s.running = {}
      [] e = "threads" -> s.max = 0 \/ t <= s.max
      [] e = "gone" -> s.running = {}
      [] OTHER -> FALSE
Do(s, e, t) ==
    CASE e = "add" -> [s EXCEPT !.asked = @ \cup {t}]
      [] e = "in" -> [s EXCEPT !.added = @ \cup {t}]
      [] e = "start" -> [s EXCEPT !.running = @ \cup {t}]
      [] e = "end" -> [s EXCEPT !.running = @ \ {t}, !.ended = @ \cup {t}]
      [] e = "call" -> [s EXCEPT !.pending = [w \in DOMAIN s.pending \cup {t} |-> IF w = t THEN s.added ELSE s.pending[w]]]
      [] e = "ret" -> [s EXCEPT !.pending = [w \in DOMAIN s.pending \ {t} |-> s.pending[w]]]
      [] e = "stopped" -> [s EXCEPT !.stopped = TRUE]
      [] OTHER -> s
Be(s) == max' = s.max /\ asked' = s.asked /\ added' = s.added /\ running' = s.running /\ ended' = s.ended /\ pending' = s.pending /\ stopped' = s.stopped
Init == \E m \in {0, 2} : max = m /\ asked = {} /\ added = {} /\ running = {} /\ ended = {} /\ pending = [w \in {} |-> {}] /\ stopped = FALSE
Next == \E e \in {"add", "in", "start", "end", "call", "ret", "stopped"}, t \in Ids : Can(State, e, t) /\ Be(Do(State, e, t))
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
Once == running \cap ended = {} /\ running \cup ended \subseteq asked /\ added \subseteq asked
Bounded == max > 0 => Cardinality(running) <= max
=============================================================================

------------------------------- MODULE ThreadPool ------------------------------
(* The thread pool down to its mutexes and condition variables: one owner that  *)
(* adds tasks, waits for all, and joins; workers that take tasks from the queue *)
(* under the queue's mutex, run them outside it, and count down under the wait  *)
(* mutex.  A wait on a condition gives up its mutex and sleeps until notified.  *)
(* Checked: it implements Tasks, and always comes to its end (no lost wake-up). *)
(* The constants Loose* weaken it to what was wrong once, to show that the      *)
(* model sees it: LooseCount counts down outside the wait mutex, LooseStop sets *)
(* the flag outside the queue's.                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Max, LooseCount, LooseStop
VARIABLES pc, wpc, next, queue, remaining, abort, qm, wm, sleepQ, sleepW, task, running, ended, called
vars == <<pc, wpc, next, queue, remaining, abort, qm, wm, sleepQ, sleepW, task, running, ended, called>>
Workers == 1 .. Max
Owner == 0
Init == /\ pc = "add" /\ wpc = [w \in Workers |-> "none"] /\ next = 1 /\ queue = <<>> /\ remaining = 0 /\ abort = FALSE
        /\ qm = -1 /\ wm = -1 /\ sleepQ = {} /\ sleepW = FALSE /\ task = [w \in Workers |-> 0] /\ running = {} /\ ended = {} /\ called = {}
Started == {w \in Workers : wpc[w] # "none"}
Free(m) == m = -1
\* notify_one on the queue's condition: one sleeper, if there is one
NotifyQ(s) == IF s = {} THEN sleepQ' = {} ELSE \E w \in s : sleepQ' = s \ {w}
\* ---- the owner
Ask == pc = "add" /\ next <= N /\ pc' = "adding" /\ UNCHANGED <<wpc, next, queue, remaining, abort, qm, wm, sleepQ, sleepW, task, running, ended, called>>
Add == /\ pc = "adding" /\ Free(qm) /\ pc' = "add"
       /\ (IF Cardinality(Started) < Max THEN \E w \in Workers : wpc[w] = "none" /\ (\A v \in Workers : wpc[v] = "none" => w <= v) /\ wpc' = [wpc EXCEPT ![w] = "loop"] ELSE UNCHANGED wpc)
       /\ queue' = Append(queue, next) /\ remaining' = remaining + 1 /\ next' = next + 1 /\ NotifyQ(sleepQ)
       /\ UNCHANGED <<abort, qm, wm, sleepW, task, running, ended, called>>
Waiting == /\ pc = "add" /\ next > N /\ called' = 1 .. N
           /\ pc' = IF remaining > 0 THEN "lockw" ELSE "waited"
           /\ UNCHANGED <<wpc, next, queue, remaining, abort, qm, wm, sleepQ, sleepW, task, running, ended>>
LockW == pc = "lockw" /\ Free(wm) /\ wm' = Owner /\ pc' = "testw" /\ UNCHANGED <<wpc, next, queue, remaining, abort, qm, sleepQ, sleepW, task, running, ended, called>>
TestW == /\ pc = "testw"
         /\ (IF remaining = 0 THEN wm' = -1 /\ pc' = "waited" /\ UNCHANGED sleepW ELSE wm' = wm /\ pc' = "sleepw" /\ UNCHANGED sleepW)
         /\ UNCHANGED <<wpc, next, queue, remaining, abort, qm, sleepQ, task, running, ended, called>>
SleepW == pc = "sleepw" /\ wm' = -1 /\ sleepW' = TRUE /\ pc' = "asleepw" /\ UNCHANGED <<wpc, next, queue, remaining, abort, qm, sleepQ, task, running, ended, called>>
WakeW == pc = "asleepw" /\ ~sleepW /\ pc' = "lockw" /\ UNCHANGED <<wpc, next, queue, remaining, abort, qm, wm, sleepQ, sleepW, task, running, ended, called>>
Stop == /\ pc = "waited" /\ (LooseStop \/ Free(qm)) /\ abort' = TRUE /\ pc' = "stopped"
        /\ UNCHANGED <<wpc, next, queue, remaining, qm, wm, sleepQ, sleepW, task, running, ended, called>>
WakeAll == pc = "stopped" /\ sleepQ' = {} /\ pc' = "join" /\ UNCHANGED <<wpc, next, queue, remaining, abort, qm, wm, sleepW, task, running, ended, called>>
Join == pc = "join" /\ (\A w \in Started : wpc[w] = "exit") /\ pc' = "done" /\ UNCHANGED <<wpc, next, queue, remaining, abort, qm, wm, sleepQ, sleepW, task, running, ended, called>>
\* ---- a worker
At(w, l) == wpc[w] = l
Go(w, l) == wpc' = [wpc EXCEPT ![w] = l]
Loop(w) == At(w, "loop") /\ Go(w, IF abort THEN "exit" ELSE "lockq") /\ UNCHANGED <<pc, next, queue, remaining, abort, qm, wm, sleepQ, sleepW, task, running, ended, called>>
LockQ(w) == At(w, "lockq") /\ Free(qm) /\ qm' = w /\ Go(w, "testq") /\ UNCHANGED <<pc, next, queue, remaining, abort, wm, sleepQ, sleepW, task, running, ended, called>>
TestQ(w) == At(w, "testq") /\ Go(w, IF queue # <<>> \/ abort THEN "take" ELSE "sleepq") /\ UNCHANGED <<pc, next, queue, remaining, abort, qm, wm, sleepQ, sleepW, task, running, ended, called>>
SleepQ(w) == At(w, "sleepq") /\ qm' = -1 /\ sleepQ' = sleepQ \cup {w} /\ Go(w, "asleep") /\ UNCHANGED <<pc, next, queue, remaining, abort, wm, sleepW, task, running, ended, called>>
WakeQ(w) == At(w, "asleep") /\ w \notin sleepQ /\ Go(w, "lockq") /\ UNCHANGED <<pc, next, queue, remaining, abort, qm, wm, sleepQ, sleepW, task, running, ended, called>>
Take(w) == /\ At(w, "take") /\ qm' = -1 /\ Go(w, "run")
           /\ (IF abort THEN task' = [task EXCEPT ![w] = 0] /\ remaining' = remaining + 1 /\ UNCHANGED <<queue, running>>
               ELSE task' = [task EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue) /\ running' = running \cup {Head(queue)} /\ UNCHANGED remaining)
           /\ UNCHANGED <<pc, next, abort, wm, sleepQ, sleepW, ended, called>>
Run(w) == /\ At(w, "run") /\ Go(w, "count")
          /\ (IF task[w] = 0 THEN UNCHANGED <<running, ended>> ELSE running' = running \ {task[w]} /\ ended' = ended \cup {task[w]})
          /\ UNCHANGED <<pc, next, queue, remaining, abort, qm, wm, sleepQ, sleepW, task, called>>
Count(w) == At(w, "count") /\ (LooseCount \/ Free(wm)) /\ remaining' = remaining - 1 /\ Go(w, "notify") /\ UNCHANGED <<pc, next, queue, abort, qm, wm, sleepQ, sleepW, task, running, ended, called>>
Notify(w) == At(w, "notify") /\ sleepW' = FALSE /\ Go(w, "loop") /\ UNCHANGED <<pc, next, queue, remaining, abort, qm, wm, sleepQ, task, running, ended, called>>
OwnerStep == Ask \/ Add \/ Waiting \/ LockW \/ TestW \/ SleepW \/ WakeW \/ (pc = "waited" /\ Stop) \/ WakeAll \/ Join
WorkerStep(w) == Loop(w) \/ LockQ(w) \/ TestQ(w) \/ SleepQ(w) \/ WakeQ(w) \/ Take(w) \/ Run(w) \/ Count(w) \/ Notify(w)
Over == pc = "done" /\ UNCHANGED vars
Next == OwnerStep \/ (\E w \in Workers : WorkerStep(w)) \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(OwnerStep) /\ \A w \in Workers : WF_vars(WorkerStep(w))
-------------------------------------------------------------------------------
Ends == <>(pc = "done")
\* the owner goes on only when what it added has ended, each once
All == pc \in {"waited", "stopped", "join", "done"} => ended = 1 .. N /\ running = {}
T == INSTANCE Tasks WITH Ids <- 1 .. N, Waiters <- {1}, max <- Max, asked <- 1 .. (IF pc = "adding" THEN next ELSE next - 1), added <- 1 .. next - 1, running <- running, ended <- ended,
       pending <- [w \in (IF pc \in {"lockw", "testw", "sleepw", "asleepw"} THEN {1} ELSE {}) |-> called], stopped <- FALSE
Waits == pc \in {"lockw", "testw", "sleepw", "asleepw"}
\* every step is one of Tasks or changes nothing there (Bounded and Once then hold of the pool)
Implements == [][T!Next]_<<pc = "adding", next, running, ended, Waits>>
Sound == T!Once /\ T!Bounded
=============================================================================

----------------------------- MODULE ThreadPool -----------------------------
(* What a user of the thread pool relies on: the abstract state of a pool, its queue and its tasks, and the   *)
(* atomic steps in which it changes.  Calls that overlap are linearised by these steps.                       *)
(*                                                                                                            *)
(* Life of a task:  none -> pending -> taken -> exec -> ended -> ready -> retired                             *)
(*                            \-> canceled                                                                    *)
(*   taken    a worker has removed it from the queue      exec    its function has been entered               *)
(*   ended    its function is about to return or throw    ready   the result is available to the handle       *)
(*   retired  the worker has given up the task and may take another one                                       *)
(*                                                                                                            *)
(* Asp is the set of aspects whose rules are enforced; a check of one property enforces the aspects that the  *)
(* property is about and lets the log decide everything else.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Asp, NTasks
On(a) == a \in Asp
Tasks == 1..NTasks
VARIABLES nthr, cap,   \* configuration of the pool
          now,         \* time
          q,           \* pending tasks in the order in which they were added
          st, start, name, out, \* per task: status, start time, name, outcome of the function
          wk,          \* per task: the worker that runs it
          hv,          \* per task: "valid", "consumed" (result retrieved) or "none" (handle without result)
          stop         \* shutdown has been requested
tvars == <<nthr, cap, now, q, st, start, name, out, wk, hv, stop>>
Range(s) == {s[i] : i \in 1..Len(s)}
Occupied == {k \in Tasks : st[k] \in {"taken", "exec", "ended", "ready"}}
Finished(k) == st[k] \in {"ready", "retired"}
Eligible == {i \in 1..Len(q) : start[q[i]] <= now}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
IndexOf(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE 0

PoolInit(n, c) == /\ nthr = n /\ cap = c /\ now = 0 /\ q = <<>> /\ stop = FALSE
                  /\ st = [k \in Tasks |-> "none"] /\ start = [k \in Tasks |-> 0] /\ name = [k \in Tasks |-> ""]
                  /\ out = [k \in Tasks |-> ""] /\ wk = [k \in Tasks |-> 0] /\ hv = [k \in Tasks |-> "none"]

\* ------------------------------------------------------------------ steps of the callers
Accepts == Len(q) < cap
AddOk(k, s, nm) == /\ st[k] = "none"
                   /\ q' = Append(q, k) /\ st' = [st EXCEPT ![k] = "pending"] /\ start' = [start EXCEPT ![k] = s]
                   /\ name' = [name EXCEPT ![k] = nm] /\ hv' = [hv EXCEPT ![k] = "valid"]
                   /\ UNCHANGED <<nthr, cap, now, out, wk, stop>>
CancelOk(k) == /\ k \in Range(q) /\ q' = Without(q, IndexOf(q, k)) /\ st' = [st EXCEPT ![k] = "canceled"]
               /\ hv' = [hv EXCEPT ![k] = "none"]
               /\ UNCHANGED <<nthr, cap, now, start, name, out, wk, stop>>
CancelAll == /\ q' = <<>> /\ st' = [k \in Tasks |-> IF k \in Range(q) THEN "canceled" ELSE st[k]]
             /\ UNCHANGED <<nthr, cap, now, start, name, out, wk, hv, stop>>
Consume(k) == /\ hv' = [hv EXCEPT ![k] = "consumed"]
              /\ UNCHANGED <<nthr, cap, now, q, st, start, name, out, wk, stop>>
Stop == stop' = TRUE /\ UNCHANGED <<nthr, cap, now, q, st, start, name, out, wk, hv>>

\* ------------------------------------------------------------------ steps of the workers
\* Steps that no enforced aspect can tell apart are merged: the moment in which the result becomes available and
\* the one in which the worker gives up the task coincide with the end of the function.
Fine(s) == IF s = "ready" THEN On("state") \/ On("result") \/ On("progress") ELSE On("state") \/ On("conc") \/ On("shutdown")
AfterReady == IF Fine("retired") THEN "ready" ELSE "retired"
\* Which entries of the queue may be taken: the eligible one that was added first.
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
FirstUpTo(m) == {i \in 1..Len(q) : i <= m}
MayTake == LET E == Eligible IN
           IF On("fifo") THEN IF E = {} THEN (IF On("time") THEN {} ELSE 1..Len(q))
                              ELSE IF On("time") THEN {MinOf(E)} ELSE FirstUpTo(MinOf(E))
           ELSE IF On("time") THEN E ELSE 1..Len(q)
Take(i) == /\ i \in MayTake
           /\ (On("shutdown") => ~stop)
           /\ (On("conc") => Cardinality(Occupied) < nthr)
           /\ q' = Without(q, i) /\ st' = [st EXCEPT ![q[i]] = "taken"]
           /\ UNCHANGED <<nthr, cap, now, start, name, out, wk, hv, stop>>
Begin(w, k) == /\ st[k] = "taken"
               /\ (On("conc") => \A j \in Occupied : j # k => wk[j] # w)
               /\ st' = [st EXCEPT ![k] = "exec"] /\ wk' = [wk EXCEPT ![k] = w]
               /\ UNCHANGED <<nthr, cap, now, q, start, name, out, hv, stop>>
End(w, k, o) == /\ st[k] = "exec" /\ wk[k] = w /\ st' = [st EXCEPT ![k] = IF Fine("ready") THEN "ended" ELSE AfterReady] /\ out' = [out EXCEPT ![k] = o]
                /\ UNCHANGED <<nthr, cap, now, q, start, name, wk, hv, stop>>
Ready(k) == /\ st[k] = "ended" /\ st' = [st EXCEPT ![k] = AfterReady]
            /\ UNCHANGED <<nthr, cap, now, q, start, name, out, wk, hv, stop>>
Retire(k) == /\ st[k] = "ready" /\ st' = [st EXCEPT ![k] = "retired"]
             /\ UNCHANGED <<nthr, cap, now, q, start, name, out, wk, hv, stop>>
\* shutdown: once nothing runs any more, what has not been started is canceled
CancelRest == /\ stop /\ Occupied = {} /\ q # <<>> /\ CancelAll
Down == stop /\ Occupied = {} /\ q = <<>>
Tick(t) == /\ t >= now /\ now' = t /\ UNCHANGED <<nthr, cap, q, st, start, name, out, wk, hv, stop>>

\* ------------------------------------------------------------------ what callers see
StateOf(k) == CASE st[k] = "pending" -> "pending"
                [] st[k] \in {"taken", "exec", "ended"} -> "running"
                [] st[k] \in {"ready", "retired"} -> "complete"
                [] OTHER -> "canceled"
PendingNames == [i \in 1..Len(q) |-> name[q[i]]]
\* bag of the names of the tasks that occupy a worker, as a function from names to counts
NamesOf(S) == [x \in {name[k] : k \in S} |-> Cardinality({k \in S : name[k] = x})]
BagOf(s) == [x \in Range(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
\* No task that could run waits while a worker is idle.
WorkConserving == ~(~stop /\ Eligible # {} /\ Cardinality(Occupied) < nthr)

\* ------------------------------------------------------------------ invariants of the abstract pool
PoolInv == /\ Len(q) <= cap /\ Cardinality(Occupied) <= nthr
           /\ \A k \in Tasks : (st[k] = "pending") <=> (k \in Range(q))
           /\ Cardinality(Range(q)) = Len(q)
=============================================================================

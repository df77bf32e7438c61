--------------------------- MODULE ThreadPoolImpl ---------------------------
(* The design of the thread pool as implemented in src/ThreadPool.cc: worker threads that share a queue, a    *)
(* mutex and a condition variable.  A critical section is one step (the harness shows with its race detector  *)
(* that the shared variables are only touched under the mutex); notifications happen outside of it, so they   *)
(* are steps of their own, and which waiter a notification wakes is left open.                                *)
(* Checked here: invariants, refinement of ThreadPool (what users see), work conservation in every quiescent  *)
(* state and liveness under fairness.                                                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W,            \* worker threads
          C,            \* client threads
          NTasks, MaxTime, Cap, MaxSpurious,
          PassOn        \* TRUE: a worker that takes a task wakes another one if tasks remain
ASSUME W \in Nat /\ C \in Nat
Asp == {"fifo", "time", "conc", "shutdown", "cap", "cancel", "state", "progress", "result"}
Tasks == 1..NTasks
WS == 1..W
CS == 1..C
VARIABLES now, q, start, shut,
          wpc,          \* worker: "run" (wants the mutex), "wait", "timed", "exec", "post" (result delivered), "done"
          wt, wd,       \* worker: its task, its deadline
          cpc,          \* client: "idle", "notify" (added a task, not notified yet)
          dpc,          \* destruction: "no", "shut", "notified", "done"
          st, spur
vars == <<now, q, start, shut, wpc, wt, wd, cpc, dpc, st, spur>>
Range(s) == {s[i] : i \in 1..Len(s)}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Due == {i \in 1..Len(q) : start[q[i]] <= now}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Waiting == {w \in WS : wpc[w] \in {"wait", "timed"}}

Init == /\ now = 0 /\ q = <<>> /\ start = [k \in Tasks |-> 0] /\ shut = FALSE
        /\ wpc = [w \in WS |-> "run"] /\ wt = [w \in WS |-> 0] /\ wd = [w \in WS |-> 0]
        /\ cpc = [c \in CS |-> "idle"] /\ dpc = "no" /\ st = [k \in Tasks |-> "none"] /\ spur = 0
\* ---------------------------------------------------------------- clients
Next1Task == {k \in Tasks : st[k] = "none" /\ \A j \in Tasks : j < k => st[j] # "none"}
Add(c) == /\ cpc[c] = "idle" /\ dpc = "no" /\ Len(q) < Cap
          /\ \E k \in Next1Task, s \in 0..MaxTime :
               /\ q' = Append(q, k) /\ start' = [start EXCEPT ![k] = s] /\ st' = [st EXCEPT ![k] = "pending"]
          /\ cpc' = [cpc EXCEPT ![c] = "notify"] /\ UNCHANGED <<now, shut, wpc, wt, wd, dpc, spur>>
\* wake one waiter, if there is any; WakeOne(ws) is the new wpc
WakeOne(p) == LET S == {w \in WS : p[w] \in {"wait", "timed"}} IN
              IF S = {} THEN {p} ELSE {[p EXCEPT ![w] = "run"] : w \in S}
Notify(c) == /\ cpc[c] = "notify" /\ wpc' \in WakeOne(wpc) /\ cpc' = [cpc EXCEPT ![c] = "idle"]
             /\ UNCHANGED <<now, q, start, shut, wt, wd, dpc, st, spur>>
Cancel == /\ dpc = "no" /\ \E i \in 1..Len(q) : q' = Without(q, i) /\ st' = [st EXCEPT ![q[i]] = "canceled"]
          /\ UNCHANGED <<now, start, shut, wpc, wt, wd, cpc, dpc, spur>>
Shut == /\ dpc = "no" /\ \A c \in CS : cpc[c] = "idle" /\ shut' = TRUE /\ dpc' = "shut"
        /\ UNCHANGED <<now, q, start, wpc, wt, wd, cpc, st, spur>>
NotifyAll == /\ dpc = "shut" /\ dpc' = "notified" /\ wpc' = [w \in WS |-> IF w \in Waiting THEN "run" ELSE wpc[w]]
             /\ UNCHANGED <<now, q, start, shut, wt, wd, cpc, st, spur>>
Joined == /\ dpc = "notified" /\ \A w \in WS : wpc[w] = "done" /\ dpc' = "done"
          /\ st' = [k \in Tasks |-> IF k \in Range(q) THEN "canceled" ELSE st[k]] /\ q' = <<>>
          /\ UNCHANGED <<now, start, shut, wpc, wt, wd, cpc, spur>>
\* ---------------------------------------------------------------- workers
Run(w) ==
  /\ wpc[w] = "run"
  /\ CASE shut -> wpc' = [wpc EXCEPT ![w] = "done"] /\ wd' = [wd EXCEPT ![w] = 0] /\ UNCHANGED <<q, st, wt>>
       [] ~shut /\ q = <<>> -> wpc' = [wpc EXCEPT ![w] = "wait"] /\ wd' = [wd EXCEPT ![w] = 0] /\ UNCHANGED <<q, st, wt>>
       [] ~shut /\ q # <<>> /\ Due = {} -> /\ wpc' = [wpc EXCEPT ![w] = "timed"]
                                           /\ wd' = [wd EXCEPT ![w] = MinOf({start[k] : k \in Range(q)})] /\ UNCHANGED <<q, st, wt>>
       [] OTHER -> LET i == MinOf(Due) p == [wpc EXCEPT ![w] = "exec"] IN
                   /\ q' = Without(q, i) /\ st' = [st EXCEPT ![q[i]] = "exec"] /\ wt' = [wt EXCEPT ![w] = q[i]] /\ wd' = [wd EXCEPT ![w] = 0]
                   /\ wpc' \in IF PassOn /\ Len(q) > 1 THEN WakeOne(p) ELSE {p}
  /\ UNCHANGED <<now, start, shut, cpc, dpc, spur>>
Finish(w) == /\ wpc[w] = "exec" /\ wpc' = [wpc EXCEPT ![w] = "post"] /\ st' = [st EXCEPT ![wt[w]] = "ready"]
             /\ UNCHANGED <<now, q, start, shut, wt, wd, cpc, dpc, spur>>
Retire(w) == /\ wpc[w] = "post" /\ wpc' = [wpc EXCEPT ![w] = "run"] /\ st' = [st EXCEPT ![wt[w]] = "retired"]
             /\ wt' = [wt EXCEPT ![w] = 0] /\ UNCHANGED <<now, q, start, shut, wd, cpc, dpc, spur>>
Timeout(w) == /\ wpc[w] = "timed" /\ wd[w] <= now /\ wpc' = [wpc EXCEPT ![w] = "run"]
              /\ UNCHANGED <<now, q, start, shut, wt, wd, cpc, dpc, st, spur>>
Spurious(w) == /\ w \in Waiting /\ spur < MaxSpurious /\ spur' = spur + 1 /\ wpc' = [wpc EXCEPT ![w] = "run"]
               /\ UNCHANGED <<now, q, start, shut, wt, wd, cpc, dpc, st>>
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<q, start, shut, wpc, wt, wd, cpc, dpc, st, spur>>
WStep(w) == Run(w) \/ Finish(w) \/ Retire(w) \/ Timeout(w)
Next == \/ \E c \in CS : Add(c) \/ Notify(c)
        \/ Cancel \/ Shut \/ NotifyAll \/ Joined \/ Tick
        \/ \E w \in WS : WStep(w) \/ Spurious(w)
Spec == Init /\ [][Next]_vars
Fair == /\ \A w \in WS : WF_vars(WStep(w))
        /\ \A c \in CS : WF_vars(Notify(c))
        /\ WF_vars(Tick) /\ WF_vars(NotifyAll) /\ WF_vars(Joined)
LiveSpec == Spec /\ Fair
\* ---------------------------------------------------------------- invariants
TypeOK == /\ Len(q) <= Cap /\ \A w \in WS : wpc[w] \in {"run", "wait", "timed", "exec", "post", "done"}
          /\ \A k \in Tasks : (st[k] = "pending") <=> (k \in Range(q))
          /\ \A k \in Tasks : st[k] \in {"exec", "ready"} => Cardinality({w \in WS : wt[w] = k}) = 1
Busy == {w \in WS : wpc[w] \in {"exec", "post"}}
\* nothing can happen until time passes, a task ends or a client acts
Quiescent == /\ \A c \in CS : cpc[c] = "idle" /\ dpc \in {"no", "notified"}
             /\ \A w \in WS : wpc[w] \in {"wait", "exec", "done"} \/ (wpc[w] = "timed" /\ wd[w] > now)
QuietConserving == Quiescent /\ ~shut /\ Due # {} => \A w \in WS : wpc[w] = "exec"
ShutdownEnds == Quiescent /\ shut => \A w \in WS : wpc[w] \in {"exec", "done"}
DestroyedClean == dpc = "done" => /\ \A w \in WS : wpc[w] = "done"
                                  /\ \A k \in Tasks : st[k] \in {"none", "retired", "canceled"}
\* ---------------------------------------------------------------- what users see
Abs == INSTANCE ThreadPool WITH nthr <- W, cap <- Cap, stop <- shut,
          st <- st, name <- [k \in Tasks |-> ""], out <- [k \in Tasks |-> ""],
          wk <- [k \in Tasks |-> IF \E w \in WS : wt[w] = k THEN CHOOSE w \in WS : wt[w] = k ELSE 0],
          hv <- [k \in Tasks |-> IF st[k] = "none" THEN "none" ELSE "valid"]
\* Every change of the implementation's state is one that the abstract pool permits.
AbsStep ==
  \/ now' > now /\ q' = q /\ st' = st /\ shut' = shut
  \/ \E k \in Tasks : /\ Abs!Accepts /\ st[k] = "none" /\ st'[k] = "pending" /\ q' = Append(q, k) /\ UNCHANGED <<now, shut>>
  \/ \E i \in 1..Len(q) : /\ q' = Without(q, i) /\ st' = [st EXCEPT ![q[i]] = "canceled"] /\ UNCHANGED <<now, shut>>
  \/ \E i \in Abs!MayTake : /\ ~shut /\ Cardinality(Abs!Occupied) < W
                            /\ q' = Without(q, i) /\ st' = [st EXCEPT ![q[i]] = "exec"] /\ UNCHANGED <<now, shut>>
  \/ \E k \in Tasks : \/ st[k] = "exec" /\ st' = [st EXCEPT ![k] = "ready"] /\ UNCHANGED <<now, q, shut>>
                      \/ st[k] = "ready" /\ st' = [st EXCEPT ![k] = "retired"] /\ UNCHANGED <<now, q, shut>>
  \/ ~shut /\ shut' /\ UNCHANGED <<now, q, st>>
  \/ shut /\ Abs!Occupied = {} /\ q' = <<>> /\ st' = [k \in Tasks |-> IF k \in Range(q) THEN "canceled" ELSE st[k]] /\ UNCHANGED <<now, shut>>
Refines == [][AbsStep]_<<now, q, st, shut>>
\* ---------------------------------------------------------------- liveness
EventuallyRuns == \A k \in Tasks : (st[k] = "pending") ~> (st[k] # "pending" \/ shut)
EventuallyEnds == \A k \in Tasks : (st[k] = "exec") ~> (st[k] = "retired")
ShutdownTerminates == shut ~> (dpc = "done")
=============================================================================

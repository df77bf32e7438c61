---------------------------- MODULE TriggerImpl ----------------------------
(* The design of Trigger (include/gul14/Trigger.h, src/Trigger.cc): a flag, a condition variable, a count of  *)
(* waiting threads and a destructor that waits until they are gone.  Critical sections are atomic; notifying  *)
(* after trigger() is a step of its own; wakeups may be spurious.                                             *)
EXTENDS Integers, FiniteSets
CONSTANTS NWaiters, MaxSets, CountWaiters \* FALSE: the destructor does not wait (the design before the repair)
VARIABLES high, dying, dead, pc, tpc, dpc, sets, nwait
vars == <<high, dying, dead, pc, tpc, dpc, sets, nwait>>
Ws == 1..NWaiters
Init == /\ high = FALSE /\ dying = FALSE /\ dead = FALSE /\ pc = [w \in Ws |-> "idle"] /\ tpc = "idle" /\ dpc = "idle" /\ sets = 0 /\ nwait = 0
Leave(w) == /\ pc' = [pc EXCEPT ![w] = "gone"]
Enter(w) == /\ pc[w] = "idle" /\ dpc = "idle"
            /\ IF high THEN Leave(w) /\ UNCHANGED nwait ELSE pc' = [pc EXCEPT ![w] = "blocked"] /\ nwait' = nwait + 1
            /\ UNCHANGED <<high, dying, dead, tpc, dpc, sets>>
Spurious(w) == pc[w] = "blocked" /\ pc' = [pc EXCEPT ![w] = "check"] /\ UNCHANGED <<high, dying, dead, tpc, dpc, sets, nwait>>
Check(w) == /\ pc[w] = "check"
            /\ IF high \/ dying
               THEN Leave(w) /\ nwait' = nwait - 1 /\ dpc' = IF nwait = 1 /\ dying /\ dpc = "wait" THEN "woken" ELSE dpc
               ELSE pc' = [pc EXCEPT ![w] = "blocked"] /\ UNCHANGED <<nwait, dpc>>
            /\ UNCHANGED <<high, dying, dead, tpc, sets>>
NotifyAll == [w \in Ws |-> IF pc[w] = "blocked" THEN "check" ELSE pc[w]]
Set == tpc = "idle" /\ dpc = "idle" /\ sets < MaxSets /\ sets' = sets + 1 /\ high' = TRUE /\ tpc' = "notify" /\ UNCHANGED <<dying, dead, pc, dpc, nwait>>
Notify == tpc = "notify" /\ pc' = NotifyAll /\ tpc' = "idle" /\ UNCHANGED <<high, dying, dead, dpc, sets, nwait>>
Clear == tpc = "idle" /\ dpc = "idle" /\ high /\ sets < MaxSets /\ high' = FALSE /\ UNCHANGED <<dying, dead, pc, tpc, dpc, sets, nwait>>
Destroy == /\ dpc = "idle" /\ tpc = "idle" /\ high' = TRUE /\ dying' = TRUE /\ pc' = NotifyAll
           /\ dpc' = IF nwait = 0 \/ ~CountWaiters THEN "done" ELSE "wait"
           /\ dead' = (nwait = 0 \/ ~CountWaiters) /\ UNCHANGED <<tpc, sets, nwait>>
DSpurious == dpc = "wait" /\ dpc' = "woken" /\ UNCHANGED <<high, dying, dead, pc, tpc, sets, nwait>>
DCheck == /\ dpc = "woken" /\ IF nwait = 0 THEN dpc' = "done" /\ dead' = TRUE ELSE dpc' = "wait" /\ UNCHANGED dead
          /\ UNCHANGED <<high, dying, pc, tpc, sets, nwait>>
Next == \/ \E w \in Ws : Enter(w) \/ Spurious(w) \/ Check(w)
        \/ Set \/ Notify \/ Clear \/ Destroy \/ DSpurious \/ DCheck
Spec == Init /\ [][Next]_vars /\ (\A w \in Ws : WF_vars(Check(w))) /\ WF_vars(Notify) /\ WF_vars(DCheck)
Inv == /\ nwait = Cardinality({w \in Ws : pc[w] \in {"blocked", "check"}})
       /\ dead => nwait = 0                         \* nobody uses the object after its destruction
       /\ (high /\ tpc = "idle") => \A w \in Ws : pc[w] # "blocked"
NoLostWakeup == (high /\ tpc = "idle" /\ sets = MaxSets) => \A w \in Ws : pc[w] # "blocked"
DestroyEnds == dying ~> dead
WaitersLeave == \A w \in Ws : (pc[w] \in {"blocked", "check"} /\ dying) ~> (pc[w] = "gone")
=============================================================================

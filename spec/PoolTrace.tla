----------------------------- MODULE PoolTrace -----------------------------
(* Validation of recorded executions of the real thread pool against ThreadPool.                              *)
(* Every line of TRACE_FILE is one execution: configuration and the sequence of events that the harness       *)
(* recorded (call and return of every public function, begin and end of every task function, passing of time, *)
(* quiescence).  The steps in between are inferred.                                                           *)
EXTENDS ThreadPool, Json, IOUtils
VARIABLES ti, l,       \* trace and position in it
          pend,        \* per thread: the call in progress
          refs,        \* threads that own the pool
          hold,        \* threads that keep the pool alive inside a call although nobody owns it any more
          owner        \* thread that destroys the pool (0-based fiber + 1; 0: nobody or a helper thread)
vars == <<tvars, ti, l, pend, refs, hold, owner>>
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
NTraces == Len(Traces)
Fibers == 0..23
None == [op |-> "", ph |-> "", k |-> 0, d |-> 0, r |-> "", v |-> 0, n |-> "", l |-> <<>>, own |-> FALSE, held |-> FALSE, rf |-> 0]
T == Traces[ti].ev
E == T[l]
Workers == 1..Traces[ti].n
TInit == /\ ti \in 1..NTraces /\ l = 1
         /\ PoolInit(Traces[ti].n, Traces[ti].cap)
         /\ pend = [f \in Fibers |-> None]
         /\ refs = {Traces[ti].cl[i] : i \in 1..Len(Traces[ti].cl)}
         /\ hold = {} /\ owner = 0
Next1 == l' = l + 1 /\ ti' = ti
Silent == l' = l /\ ti' = ti /\ l <= Len(T)
Alive == refs # {} \/ hold # {}
HolderOps == {"cancel", "state", "add"}

\* ------------------------------------------------------------------ events
EvCall == /\ E.e = "call" /\ pend[E.f].op = ""
          /\ pend' = [pend EXCEPT ![E.f] = [op |-> E.op, ph |-> "called", k |-> E.k, d |-> E.d, r |-> "", v |-> 0, n |-> E.n, l |-> <<>>, own |-> FALSE, held |-> FALSE, rf |-> E.rf]]
          /\ Next1 /\ UNCHANGED <<tvars, refs, hold, owner>>
Lax(a, b) == On(a) => b
SameNames(a, b) == IF On("state") THEN a = b ELSE TRUE
\* calls that do not matter for the aspects of this check: any result, no linearisation point needed
Free(op) == \/ ~On("state") /\ op \in {"count", "idle", "full", "shut", "pnames", "rnames", "complete"}
            \/ ~On("result") /\ op = "result"
RetOk(p) ==
    /\ (p.ph = "lin" \/ Free(p.op)) /\ p.op = E.op /\ E.f \notin hold
    /\ (p.own /\ On("shutdown") => Down)
    /\ CASE p.op \in {"count", "idle", "full", "shut"} -> Lax("state", E.v = p.v)
         [] p.op = "capacity" -> E.v = cap
         [] p.op = "threads"  -> E.v = nthr
         [] p.op = "pnames" -> Lax("state", E.l = p.l)
         [] p.op = "rnames" -> Lax("state", BagOf(E.l) = p.l)
         [] p.op = "state"  -> Lax("state", E.r = p.r)
         [] p.op = "complete" -> Lax("state", E.v = p.v)
         [] p.op = "result" -> Lax("result", E.r = p.r /\ E.v = p.v)
         [] p.op \in {"add", "cancel"} -> E.r = p.r /\ E.v = p.v
         [] p.op = "cancelall" -> Lax("cancel", E.v = p.v)
         [] p.op = "reset" -> TRUE
EvRet == /\ E.e = "ret" /\ RetOk(pend[E.f]) /\ pend' = [pend EXCEPT ![E.f] = None]
         /\ owner' = IF pend[E.f].own THEN 0 ELSE owner
         /\ Next1 /\ UNCHANGED <<tvars, refs, hold>>
\* an object that belongs to a function object of a task shares the ownership; it acts as a thread of its own
\* (its real thread, rf, is the one that destroys it)
EvOwn == /\ E.e = "own" /\ Alive /\ E.f \notin refs /\ refs' = refs \union {E.f} /\ Next1 /\ UNCHANGED <<tvars, pend, hold, owner>>
EvBegin == /\ E.e = "begin" /\ Begin(E.f, E.k) /\ (On("signals") => E.v = 1) /\ Next1 /\ UNCHANGED <<pend, refs, hold, owner>>
EvEnd == E.e = "end" /\ End(E.f, E.k, E.r) /\ Next1 /\ UNCHANGED <<pend, refs, hold, owner>>
EvTick == E.e = "tick" /\ Tick(E.t) /\ Next1 /\ UNCHANGED <<pend, refs, hold, owner>>
\* nothing can run until time passes: every thread has to be where it may legitimately wait
MayWait(f) == LET p == pend[f] IN
    \/ \E g \in Fibers : g # f /\ pend[g].op # "" /\ pend[g].rf = f
    \/ p.op = ""
    \/ ~On("result") /\ p.op = "result"
    \/ p.op = "result" /\ p.ph = "called" /\ hv[p.k] = "valid" /\ st[p.k] \in {"pending", "taken", "exec"}
    \/ p.own /\ (On("shutdown") => Occupied # {})
EvQuiet == /\ E.e = "quiet"
           /\ (On("progress") => /\ WorkConserving
                                 /\ \A f \in Fibers : MayWait(f)
                                 /\ \A k \in Occupied : st[k] = "exec")
           /\ Next1 /\ UNCHANGED <<tvars, pend, refs, hold, owner>>
\* all threads have ended: everybody is done, everything that was accepted has finished or has been canceled
EvFin == /\ E.e = "fin" /\ \A f \in Fibers : pend[f].op = ""
         /\ refs = {} /\ hold = {} /\ Down
         /\ \A k \in Tasks : st[k] \in {"none", "retired", "canceled"}
         /\ Next1 /\ UNCHANGED <<tvars, pend, refs, hold, owner>>

\* creation of a pool: permitted arguments, and what happens if the E.d-th thread cannot be started
EvCtor == /\ E.e = "ctor" /\ E.l = 1
          /\ LET valid == E.n \in 1..10000 /\ E.c \in 1..10000000 IN
             On("cap") => E.r = IF ~valid THEN "invalid" ELSE IF E.d >= 0 /\ E.d < E.n THEN "system" ELSE "ok"
          /\ (E.r = "ok" => E.v = E.n /\ E.k = E.c)
          /\ Next1 /\ UNCHANGED <<tvars, pend, refs, hold, owner>>

\* ------------------------------------------------------------------ inferred steps
Res(f, r, v) == pend' = [pend EXCEPT ![f].ph = "lin", ![f].r = r, ![f].v = v]
ResL(f, x) == pend' = [pend EXCEPT ![f].ph = "lin", ![f].l = x]
B(x) == IF x THEN 1 ELSE 0
CanUse(f) == refs # {} \/ pend[f].held
\* the recorded result of the call in progress of thread f (used where an aspect is not enforced)
Lin(f) ==
  LET p == pend[f] IN
  /\ p.ph = "called" /\ ~Free(p.op)
  /\ CASE p.op = "add" ->
            \/ /\ (On("cap") => Accepts) /\ AddOk(p.k, p.d, p.n) /\ Res(f, "ok", 0)
            \/ /\ (On("cap") => ~Accepts) /\ UNCHANGED tvars /\ Res(f, "full", 0)
            \/ /\ ~CanUse(f) /\ UNCHANGED tvars /\ Res(f, "gone", 0)
       [] p.op = "cancel" ->
            \/ CanUse(f) /\ p.k \in Range(q) /\ CancelOk(p.k) /\ Res(f, "ok", 1)
            \/ CanUse(f) /\ (On("cancel") => p.k \notin Range(q)) /\ UNCHANGED tvars /\ Res(f, "ok", 0)
            \/ ~CanUse(f) /\ UNCHANGED tvars /\ Res(f, "gone", 0)
       [] p.op = "cancelall" -> CancelAll /\ Res(f, "ok", Len(q))
       [] p.op = "count" -> UNCHANGED tvars /\ Res(f, "", Len(q))
       [] p.op = "full"  -> UNCHANGED tvars /\ Res(f, "", B(~Accepts))
       [] p.op = "idle"  -> UNCHANGED tvars /\ Res(f, "", B(q = <<>> /\ Occupied = {}))
       [] p.op = "shut"  -> UNCHANGED tvars /\ Res(f, "", B(stop))
       [] p.op \in {"capacity", "threads"} -> UNCHANGED tvars /\ Res(f, "", 0)
       [] p.op = "pnames" -> UNCHANGED tvars /\ ResL(f, PendingNames)
       [] p.op = "rnames" -> UNCHANGED tvars /\ ResL(f, NamesOf(Occupied))
       [] p.op = "state" -> UNCHANGED tvars /\ IF CanUse(f) THEN Res(f, StateOf(p.k), 0) ELSE Res(f, "gone", 0)
       [] p.op = "complete" -> UNCHANGED tvars /\ Res(f, "", B(Finished(p.k)))
       [] p.op = "result" ->
            \/ /\ hv[p.k] = "valid" /\ Finished(p.k) /\ Consume(p.k) /\ Res(f, out[p.k], p.k)
            \/ /\ hv[p.k] # "valid" /\ UNCHANGED tvars /\ Res(f, "logic", 0)
            \/ /\ hv[p.k] = "valid" /\ st[p.k] = "canceled" /\ Consume(p.k) /\ Res(f, "logic", 0)
       [] p.op = "reset" -> FALSE
  /\ Silent /\ UNCHANGED <<refs, hold, owner>>
\* the thread gives up its ownership; whoever holds the pool last destroys it
Drop(f) ==
  /\ pend[f].op = "reset" /\ pend[f].ph = "called" /\ f \in refs
  /\ refs' = refs \ {f} /\ Silent
  /\ IF refs' # {} THEN UNCHANGED <<tvars, hold, owner>> /\ pend' = [pend EXCEPT ![f].ph = "lin"]
     ELSE \E H \in SUBSET {g \in Fibers : pend[g].op \in HolderOps} :
             /\ hold' = H
             /\ IF H = {} THEN IF pend[f].rf \in Workers THEN UNCHANGED owner /\ pend' = [pend EXCEPT ![f].ph = "lin"]
                                ELSE owner' = f + 1 /\ pend' = [pend EXCEPT ![f].ph = "lin", ![f].own = TRUE]
                ELSE UNCHANGED owner /\ pend' = [g \in Fibers |-> IF g = f THEN [pend[g] EXCEPT !.ph = "lin"] ELSE IF g \in H THEN [pend[g] EXCEPT !.held = TRUE] ELSE pend[g]]
             /\ UNCHANGED tvars
\* as long as somebody holds it, other calls may take hold of it as well
Join(f) == /\ hold # {} /\ f \notin hold /\ ~pend[f].held /\ pend[f].op \in HolderOps /\ pend[f].ph = "called"
           /\ hold' = hold \union {f} /\ pend' = [pend EXCEPT ![f].held = TRUE]
           /\ Silent /\ UNCHANGED <<tvars, refs, owner>>
Unhold(f) ==
  /\ f \in hold /\ (pend[f].ph = "lin" \/ pend[f].op = "state") /\ hold' = hold \ {f} /\ Silent /\ UNCHANGED refs
  /\ IF hold' # {} THEN UNCHANGED <<tvars, owner, pend>>
     ELSE /\ UNCHANGED tvars
          /\ IF pend[f].rf \in Workers THEN UNCHANGED <<owner, pend>>
             ELSE owner' = f + 1 /\ pend' = [pend EXCEPT ![f].own = TRUE]
\* the destruction of the pool has begun
Destroy == ~Alive /\ ~stop /\ Stop /\ Silent /\ UNCHANGED <<pend, refs, hold, owner>>
\* Only steps that the rest of the log can confirm are inferred: a worker takes a task only after it has
\* given up the one that it ran before.  pv[k] is that previous task (0: none, -1: k is never started).
StartsSoon(k) == LET p == Traces[ti].pv[k] IN p = 0 \/ (p > 0 /\ st[p] = "retired")
Inferred ==
    \/ Destroy
    \/ \E f \in Fibers : pend[f].op # "" /\ (Lin(f) \/ Drop(f) \/ Join(f) \/ Unhold(f))
    \/ /\ Silent /\ UNCHANGED <<pend, refs, hold, owner>>
       /\ \/ \E i \in MayTake : StartsSoon(q[i]) /\ Take(i)
          \/ \E k \in Tasks : Ready(k) \/ Retire(k)
          \/ CancelRest
Event == l <= Len(T) /\ (EvOwn \/ EvCall \/ EvRet \/ EvBegin \/ EvEnd \/ EvTick \/ EvQuiet \/ EvFin \/ EvCtor)
TNext == Event \/ Inferred
TSpec == TInit /\ [][TNext]_vars
\* one line of output per accepted execution; the states behind the end are not distinguished any further
TView == IF l > Len(T) THEN <<ti, l>> ELSE vars
Accepted == l <= Len(T) \/ PrintT(<<"ACC", ti>>)
\* how far an execution could be followed (for the report of a rejected one)
Progress == PrintT(<<"AT", ti, l>>)
=============================================================================

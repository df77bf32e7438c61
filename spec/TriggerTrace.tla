---------------------------- MODULE TriggerTrace ----------------------------
(* Validation of recorded executions of Trigger, sleep(), tic() and toc() against Trigger.                    *)
EXTENDS Trigger, Json, IOUtils
VARIABLES ti, l, pend
vars == <<trvars, ti, l, pend>>
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Fibers == 0..7
None == [op |-> "", ph |-> "", d |-> 0, v |-> 0]
T == Traces[ti].ev
E == T[l]
TInit == /\ ti \in 1..Len(Traces) /\ l = 1 /\ TrInit(Traces[ti].init) /\ pend = [f \in Fibers |-> None]
Next1 == l' = l + 1 /\ ti' = ti
Silent == l' = l /\ ti' = ti /\ l <= Len(T)
EvCall == /\ E.e = "call" /\ pend[E.f].op = ""
          /\ pend' = [pend EXCEPT ![E.f] = [op |-> E.op, ph |-> "called", d |-> E.d, v |-> 0]]
          /\ Next1 /\ UNCHANGED trvars
Waits == {"wait", "timed"}
Abs(x) == IF x < 0 THEN -x ELSE x
EvRet == /\ E.e = "ret" /\ LET p == pend[E.f] IN
            /\ p.op = E.op
            /\ CASE p.op = "sleep" -> E.v = 1 /\ Late(p.d)
                 [] p.op = "toc" -> LET el == now - p.d IN Abs(E.v * E.u - (IF E.u = 1 THEN el ELSE (el \div E.u) * E.u)) <= (IF E.u = 1 THEN 1 ELSE 0)
                 [] p.op = "destroy" -> p.ph = "lin" /\ E.v = 0 /\ \A f \in Fibers : pend[f].op \in Waits => pend[f].ph = "lin"
                 [] OTHER -> p.ph = "lin" /\ E.v = p.v
         /\ pend' = [pend EXCEPT ![E.f] = None] /\ Next1 /\ UNCHANGED trvars
EvTick == E.e = "tick" /\ Pass(E.t) /\ Next1 /\ UNCHANGED pend
\* (the clock may have advanced between the recorded call and the moment in which the callee read it: slack)
\* nothing can run until time passes: only those may wait who have a reason to
MayWait(p) == \/ p.op = ""
              \/ p.ph = "called" /\ p.op = "wait" /\ ~Released
              \/ p.ph = "called" /\ p.op = "timed" /\ ~Released /\ ~Overdue(p.d + Traces[ti].slack)
              \/ p.op = "sleep" /\ ~Overdue(p.d + Traces[ti].slack)
              \/ p.op = "toc"
EvQuiet == E.e = "quiet" /\ (\A f \in Fibers : MayWait(pend[f])) /\ Next1 /\ UNCHANGED <<trvars, pend>>
EvFin == E.e = "fin" /\ ~alive /\ (\A f \in Fibers : pend[f].op = "") /\ Next1 /\ UNCHANGED <<trvars, pend>>
Done(f, v) == pend' = [pend EXCEPT ![f].ph = "lin", ![f].v = v]
Lin(f) == LET p == pend[f] IN
    /\ p.ph = "called" /\ Silent
    /\ CASE p.op = "set" -> Raise /\ Done(f, 0)
         [] p.op = "clear" -> Lower /\ Done(f, 0)
         [] p.op = "read" -> alive /\ UNCHANGED trvars /\ Done(f, IF high THEN 1 ELSE 0)
         [] p.op = "wait" -> Released /\ UNCHANGED trvars /\ Done(f, 1)
         [] p.op = "timed" -> UNCHANGED trvars /\ \/ Released /\ Done(f, 1)
                                                  \/ ~Released /\ Late(p.d) /\ Done(f, 0)
         [] p.op = "destroy" -> Kill /\ Done(f, 0)
         [] OTHER -> FALSE
Event == l <= Len(T) /\ (EvCall \/ EvRet \/ EvTick \/ EvQuiet \/ EvFin)
TNext == Event \/ \E f \in Fibers : Lin(f)
TSpec == TInit /\ [][TNext]_vars
TView == IF l > Len(T) THEN <<ti, l>> ELSE vars
Accepted == l <= Len(T) \/ PrintT(<<"ACC", ti>>)
Progress == PrintT(<<"AT", ti, l>>)
=============================================================================

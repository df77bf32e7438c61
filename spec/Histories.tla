----------------------------- MODULE Histories -----------------------------
(* Validation of recorded histories of the real code against a state machine.                                 *)
(* REC_FILE holds one JSON object per history with its events in field ev.  The state machine is given by     *)
(* Start(h), the initial state, Allowed(h, s, e), whether event e (with everything that was observed of it)    *)
(* may happen in state s, and After(h, s, e), the state that it leads to.                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Start(_), Allowed(_, _, _), After(_, _, _)
VARIABLES ti, l, s
Hist == ndJsonDeserialize(IOEnv.REC_FILE)
HInit == /\ ti \in 1..Len(Hist) /\ l = 1 /\ s = Start(Hist[ti])
HNext == /\ l <= Len(Hist[ti].ev)
         /\ Allowed(Hist[ti], s, Hist[ti].ev[l])
         /\ s' = After(Hist[ti], s, Hist[ti].ev[l]) /\ l' = l + 1 /\ ti' = ti
HSpec == HInit /\ [][HNext]_<<ti, l, s>>
Conforms == \/ l > Len(Hist[ti].ev)
            \/ Allowed(Hist[ti], s, Hist[ti].ev[l])
            \/ PrintT(<<"MISMATCH", ti, l>>) /\ PrintT(<<"STATE", s>>) /\ FALSE
=============================================================================

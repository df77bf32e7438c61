------------------------------ MODULE Trigger ------------------------------
(* A trigger line: high or low.  Any number of threads wait for it to be high, with or without a time limit;  *)
(* its destruction releases all of them and is over only when they are gone.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES high, alive, now
trvars == <<high, alive, now>>
TrInit(h) == high = h /\ alive = TRUE /\ now = 0
Raise == alive /\ high' = TRUE /\ UNCHANGED <<alive, now>>
Lower == alive /\ high' = FALSE /\ UNCHANGED <<alive, now>>
Kill  == alive /\ alive' = FALSE /\ UNCHANGED <<high, now>>
Pass(t) == t >= now /\ now' = t /\ UNCHANGED <<high, alive>>
\* a waiting thread may go on because of the trigger, or because its time (deadline d, in microseconds with
\* one microsecond of rounding) is over
Released == high \/ ~alive
Late(d) == now + 1 >= d
Overdue(d) == now > d
=============================================================================

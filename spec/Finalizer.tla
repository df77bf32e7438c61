----------------------------- MODULE Finalizer -----------------------------
(* Guards that run an action once, when the guard that owns it goes away.  A slot is 0 (no guard), a positive number  *)
(* (a guard that owns the action of this number), or -1 (a guard whose action has been moved to another guard).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ran(o) == IF o > 0 THEN <<o>> ELSE <<>>
Reversed(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
FStart(h) == h.init
Range(q) == {q[j] : j \in 1..Len(q)}
\* the slots after an event
After(h, s, e) ==
    CASE e.o \in {"newr", "newx", "newl", "newcl"} -> [s EXCEPT ![e.a] = e.id]
      [] e.o \in {"movec", "movea"} -> [s EXCEPT ![e.a] = s[e.b], ![e.b] = IF s[e.b] = 0 THEN 0 ELSE -1]
      [] e.o = "die" -> [s EXCEPT ![e.a] = 0]
      [] e.o = "end" -> <<0, 0, 0>>
      [] OTHER -> s
FAfter(h, s, e) == After(h, s, e)
\* which actions run, and in which order
FAllowed(h, s, e) ==
    CASE e.o = "die" -> e.ran = Ran(s[e.a])
      [] e.o = "end" -> e.ran = Ran(s[1]) \o Ran(s[2]) \o Ran(s[3])
      [] e.o = "return" -> e.ran = Reversed(e.ids)                       \* scopes are left from the inside out
      [] e.o = "throw" -> e.ran = Append(Reversed(e.ids), 1000)          \* ... before the exception is handled
      [] e.o = "grow" -> e.lv = 0 /\ Len(e.ran) = Len(e.ids) /\ Range(e.ran) = Range(e.ids)
      [] e.o \in {"newl", "newcl"} -> e.ran = <<>> /\ e.lv = e.id        \* the callable passed in is still intact
      [] OTHER -> e.ran = <<>>                                           \* nothing runs while a guard exists
=============================================================================

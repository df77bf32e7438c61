---------------------------- MODULE SmallVector ----------------------------
(* SmallVector: a sequence with a capacity, stored within the object as long as the inner capacity suffices.    *)
(* An event is one operation on one of two vectors (or on both) together with everything that was observed of   *)
(* both vectors before and after it; the specification says which observations are allowed.                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANT Asp     \* aspects that are enforced: "seq", "life", "value"
On(a) == a \in Asp
Larger(a, b) == IF a > b THEN a ELSE b
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Rep(n, v) == [i \in 1..n |-> v]
Ins(q, i, xs) == SubSeq(q, 1, i) \o xs \o SubSeq(q, i + 1, Len(q))
Del(q, i, j) == SubSeq(q, 1, i) \o SubSeq(q, j + 1, Len(q))
Fresh == 0       \* the value of a default-constructed element
Sized(q, n, v) == IF n <= Len(q) THEN SubSeq(q, 1, n) ELSE q \o Rep(n - Len(q), v)
\* The value of the argument of e: a new value, or an element of the vector itself (e.a, counted from 1) as it is before the call
Arg(q, e) == IF e.a > 0 THEN q[e.a] ELSE e.v
\* ---- contents after a successful operation on vector x
Contents(s, e) == LET q == s[e.x].q  w == s[3 - e.x].q IN
    CASE e.o \in {"push", "pushm", "emplb"} -> Append(q, Arg(q, e))
      [] e.o \in {"ins1", "ins1m", "empl"} -> Ins(q, e.i, <<Arg(q, e)>>)
      [] e.o = "insn" -> Ins(q, e.i, Rep(e.n, Arg(q, e)))
      [] e.o = "insr" -> Ins(q, e.i, e.vs)
      [] e.o = "erase1" -> Del(q, e.i, e.i + 1)
      [] e.o = "eraser" -> Del(q, e.i, e.n)
      [] e.o = "pop" -> SubSeq(q, 1, Len(q) - 1)
      [] e.o = "clear" -> <<>>
      [] e.o = "resize" -> Sized(q, e.n, Fresh)
      [] e.o = "resizev" -> Sized(q, e.n, Arg(q, e))
      [] e.o = "assignn" -> Rep(e.n, Arg(q, e))
      [] e.o \in {"assignr", "newr"} -> e.vs
      [] e.o = "newn" -> Rep(e.n, Fresh)
      [] e.o = "newv" -> Rep(e.n, e.v)
      [] e.o = "set" -> [q EXCEPT ![e.i + 1] = e.v]
      [] e.o \in {"copyc", "copya", "movec", "movea", "swap"} -> w
      [] e.o \in {"reserve", "shrink", "at", "self", "selfm", "selfswap", "look"} -> q
OtherContents(s, e) == LET q == s[e.x].q  w == s[3 - e.x].q IN
    CASE e.o \in {"movec", "movea"} -> <<>>
      [] e.o = "swap" -> q
      [] OTHER -> w
\* operations that carry values between two vectors or within one
IsValueOp(e) == e.a > 0 \/ e.o \in {"copyc", "copya", "movec", "movea", "swap", "self", "selfm", "selfswap"}
\* operations that leave the storage where it is as long as the capacity suffices
Keeps == {"push", "pushm", "emplb", "ins1", "ins1m", "empl", "insn", "insr", "erase1", "eraser", "pop", "clear", "resize", "resizev", "set", "at", "look"}
\* ---- one vector as seen through its public functions
WellFormed(h, o) ==
    /\ o.z = Len(o.q) /\ o.z <= o.c /\ o.c >= h.inner /\ o.ic = h.inner
    /\ (h.inner > 0 => (o.inn <=> o.c = h.inner))
    /\ o.e = (o.z = 0) /\ o.f = o.q /\ o.r = Rev(o.q)
    /\ (o.z > 0 => o.fr = o.q[1] /\ o.bk = o.q[o.z])
    /\ o.al
Returned(s, e) ==
    CASE e.o \in {"ins1", "ins1m", "empl", "insn", "insr", "erase1", "eraser"} -> e.ri = e.i
      [] e.o = "emplb" -> e.ri = Len(s[e.x].q)
      [] e.o = "at" -> e.ri = (IF e.i < Len(s[e.x].q) THEN s[e.x].q[e.i + 1] ELSE -77)
      [] OTHER -> TRUE
CapacityOk(h, s, e, o) ==
    CASE e.o \in Keeps -> IF o.z <= s[e.x].c THEN o.c = s[e.x].c /\ o.same /\ (e.na = 0 \/ e.w = 2) ELSE TRUE   \* (a range that can be traversed only once may be buffered)
      [] e.o = "reserve" -> o.c >= e.n /\ (e.n <= s[e.x].c => o.c = s[e.x].c /\ o.same /\ e.na = 0)
      [] e.o = "shrink" -> o.c = Larger(h.inner, o.z)
      [] e.o \in {"copyc", "copya", "newn", "newv", "newr", "assignn", "assignr"} -> (o.z <= h.inner /\ s[e.x].c = h.inner /\ e.w # 2 => e.na = 0)
      [] e.o \in {"movec", "movea"} -> e.na = 0
      [] OTHER -> TRUE
Succeeded(h, s, e) == LET o == e.ob[e.x]  p == e.ob[3 - e.x] IN
    /\ (IF IsValueOp(e) THEN On("value") ELSE On("seq")) =>
           /\ o.q = Contents(s, e) /\ p.q = OtherContents(s, e) /\ Returned(s, e) /\ CapacityOk(h, s, e, o)
           /\ e.eq = (o.q = p.q) /\ e.ne = (o.q # p.q)
\* ---- an operation that ended with an exception (e.th says which operation of the element type, or "alloc", threw it)
Strong(h, e) == \/ e.o \in {"push", "pushm", "emplb", "reserve", "shrink", "resize"} /\ h.kind # "X"
                \/ e.o = "empl" /\ e.th = "ctor"
Failed(h, s, e) == LET o == e.ob[e.x]  p == e.ob[3 - e.x] IN
    On("life") => /\ (Strong(h, e) => o.q = s[e.x].q)
                  /\ (e.o # "swap" /\ (e.o \notin {"movec", "movea"} \/ h.kind # "X") => p.q = s[3 - e.x].q)
\* every element is constructed once, used while it lives and destroyed once, whatever happens
Lifetimes(e) == On("life") => e.errs = 0 /\ e.live = e.ob[1].z + e.ob[2].z
VStart(h) == h.init
VAllowed(h, s, e) == /\ WellFormed(h, e.ob[1]) /\ WellFormed(h, e.ob[2])
                     /\ Lifetimes(e)
                     /\ IF e.th = "" THEN Succeeded(h, s, e) ELSE Failed(h, s, e)
VAfter(h, s, e) == e.ob
=============================================================================

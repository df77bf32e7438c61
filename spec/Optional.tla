------------------------------ MODULE Optional ------------------------------
(* optional<T>: nothing or one value.  An event is an operation on one of two optionals with everything that can *)
(* be observed of both of them afterwards, including all comparisons.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [e |-> FALSE, v |-> 0]
Some(v) == [e |-> TRUE, v |-> v]
Gone == -1
\* what is left of an element that has been moved from (elements without move operations are copied)
Left(h, v) == IF h.kind \in {"N", "T", "M", "X"} THEN Gone ELSE v
MovedFrom(h, o) == IF o.e THEN Some(Left(h, o.v)) ELSE None
\* ---- order: nothing is less than any value
Less(a, b) == b.e /\ (~a.e \/ a.v < b.v)
Same(a, b) == a.e = b.e /\ (a.e => a.v = b.v)
Six(a, b) == <<Same(a, b), ~Same(a, b), Less(a, b), ~Less(b, a), Less(b, a), ~Less(a, b)>>
BothWays(a, c) == <<Same(a, c), Same(c, a), ~Same(a, c), ~Same(c, a), Less(a, c), Less(c, a), ~Less(c, a), ~Less(a, c), Less(c, a), Less(a, c), ~Less(a, c), ~Less(c, a)>>
\* ---- contents after a successful operation: <<the optional operated on, the other one>>
Result(h, s, e) == LET o == s[e.x]  w == s[3 - e.x] IN
    CASE e.o \in {"null", "reset", "newn", "newd", "braces"} -> <<None, w>>
      [] e.o \in {"setv", "setm", "empl", "emplv", "newv", "newm", "newip", "make", "write", "emplil", "newil"} -> <<Some(e.v), w>>
      [] e.o \in {"copya", "copyc"} -> <<w, w>>
      [] e.o \in {"movea", "movec"} -> <<w, MovedFrom(h, w)>>
      [] e.o \in {"swap", "fswap"} -> <<w, o>>
      [] e.o \in {"valorm", "take"} -> <<MovedFrom(h, o), w>>
      [] e.o \in {"self", "selfswap", "valor", "look"} -> <<o, w>>
\* what a failed operation leaves behind
Remains(h, s, e, n, m) == LET o == s[e.x]  w == s[3 - e.x] IN
    CASE e.o \in {"empl", "emplv", "emplil"} -> Same(n, None) /\ Same(m, w)
      [] e.o \in {"swap", "fswap"} /\ o.e /\ w.e -> n.e /\ m.e
      [] e.o = "selfswap" -> n.e = o.e /\ Same(m, w)
      [] OTHER -> Same(n, o) /\ Same(m, w)
Returned(h, s, e) == LET o == s[e.x] IN
    CASE e.o \in {"null", "setv", "setm", "copya", "movea"} -> e.r = <<1>>
      [] e.o \in {"valor", "valorm"} -> e.r = <<IF o.e THEN o.v ELSE e.v>>
      [] e.o = "take" -> e.r = <<IF o.e THEN o.v ELSE -77>>
      [] OTHER -> TRUE
\* the argument is moved exactly if it is given as an rvalue and needed
ArgOk(h, s, e) == LET o == s[e.x] IN
    e.ag = IF e.o \in {"setm", "emplv", "newm", "make"} \/ (e.o = "valorm" /\ ~o.e) THEN Left(h, e.v) ELSE e.v
WellFormed(o) == /\ o.b = o.e
                 /\ IF o.e THEN o.bad = 0 /\ \A i \in 1..Len(o.ac) : o.ac[i] = o.v ELSE o.bad = 2 /\ o.ac = <<>>
Engaged(ob) == (IF ob[1].e THEN 1 ELSE 0) + (IF ob[2].e THEN 1 ELSE 0)
Comparisons(e) == /\ e.cm = Six(e.ob[1], e.ob[2]) /\ e.cn = BothWays(e.ob[e.x], None) /\ e.cv = BothWays(e.ob[e.x], Some(e.c))
                  /\ (Same(e.ob[1], e.ob[2]) => e.hs[1]) /\ e.hs[2] /\ e.hs[3]
\* ---- references: p is the object referred to (0: none); the objects are in m
RNone == [e |-> FALSE, p |-> 0]
RTo(p) == [e |-> TRUE, p |-> p]
RVal(m, o) == IF o.e THEN Some(m[o.p]) ELSE None
RSame(a, b) == a.e = b.e /\ a.p = b.p
RResult(s, e) == LET o == s.o[e.x]  w == s.o[3 - e.x] IN
    CASE e.o \in {"rnew", "rnewip", "rempl", "rmake"} -> <<RTo(e.i), w>>
      [] e.o \in {"rcopyc", "rassign", "rmovea"} -> <<w, w>>
      [] e.o \in {"rnull", "rreset"} -> <<RNone, w>>
      [] e.o \in {"rswap", "rfswap"} -> <<w, o>>
      [] OTHER -> <<o, w>>
RAllowed(s, e) == LET o == s.o[e.x]  n == e.ob.o[e.x]  m == e.ob.o[3 - e.x]  r == RResult(s, e)  c == e.ob.m IN
    /\ RSame(n, r[1]) /\ RSame(m, r[2])
    /\ c = IF e.o = "rwrite" THEN [s.m EXCEPT ![o.p] = e.v] ELSE s.m
    /\ (e.o = "rvalor" => e.r = <<IF o.e THEN s.m[o.p] ELSE e.v>>)
    /\ \A x \in 1..2 : LET q == e.ob.o[x] IN q.b = q.e /\ IF q.e THEN q.bad = 0 /\ \A i \in 1..Len(q.ac) : q.ac[i] = q.p ELSE q.bad = 1
    /\ e.ck = BothWays(RVal(c, n), Some(e.c))                             \* the same seen through a reference to const
    /\ (IF n.e THEN e.am = [i \in 1..8 |-> n.p] ELSE e.am = <<>>)         \* an overloaded operator& does not matter
    /\ e.tmp = <<FALSE, FALSE, FALSE, FALSE>>                             \* no reference to a temporary
    /\ e.cm = Six(RVal(c, e.ob.o[1]), RVal(c, e.ob.o[2])) /\ e.cn = BothWays(RVal(c, n), None) /\ e.cv = BothWays(RVal(c, n), Some(e.c))
\* ----
OStart(h) == h.init
OAllowed(h, s, e) ==
    IF e.o = "end" THEN e.live = 0 /\ e.errs = 0
    ELSE IF h.kind = "R" THEN RAllowed(s, e)
    ELSE LET n == e.ob[e.x]  m == e.ob[3 - e.x]  r == Result(h, s, e) IN
         /\ WellFormed(e.ob[1]) /\ WellFormed(e.ob[2])
         /\ e.errs = 0 /\ e.live = Engaged(e.ob)
         /\ Comparisons(e)
         /\ IF e.th = "" THEN Same(n, r[1]) /\ Same(m, r[2]) /\ Returned(h, s, e) /\ ArgOk(h, s, e) ELSE Remains(h, s, e, n, m)
OAfter(h, s, e) == IF e.o = "end" THEN s ELSE e.ob
=============================================================================

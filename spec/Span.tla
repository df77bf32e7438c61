-------------------------------- MODULE Span --------------------------------
(* Windows onto an array.  State: w, two windows [at, n] (first element, number of elements), and m, the array.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Win(at, n) == [at |-> at, n |-> n]
Part(m, w) == SubSeq(m, w.at + 1, w.at + w.n)
\* ---- what the operations do to the window they are applied to
Result(h, s, e) == LET w == s.w[e.x]  o == s.w[3 - e.x]  size == Len(s.m) IN
    CASE e.o = "whole" -> Win(0, size)
      [] e.o = "default" -> Win(-1, 0)
      [] e.o \in {"ptr", "ptrs"} -> Win(e.c, e.b)
      [] e.o \in {"first", "sfirst"} -> Win(w.at, e.a)
      [] e.o \in {"last", "slast"} -> Win(w.at + (w.n - e.a), e.a)
      [] e.o \in {"sub", "ssub", "chain"} -> Win(w.at + e.a, e.b)
      [] e.o \in {"subrest", "ssubrest"} -> Win(w.at + e.a, w.n - e.a)
      [] e.o \in {"copy", "assign"} -> o
      [] OTHER -> w
Memory(h, s, e) == LET w == s.w[e.x] IN
    CASE e.o \in {"write", "bytes", "get"} -> [s.m EXCEPT ![w.at + e.a + 1] = e.v]
      [] e.o = "fill" -> [j \in 1..Len(s.m) |-> IF w.n > 0 /\ j > w.at /\ j <= w.at + w.n THEN e.v + (j - w.at) ELSE s.m[j]]
      [] OTHER -> s.m
\* ---- further spans that the operation shows
Shown(h, s, e) == LET w == s.w[e.x]  o == s.w[3 - e.x] IN
    CASE e.o \in {"sfirst", "slast", "ssub"} -> <<Result(h, s, e)>>
      [] e.o = "chain" -> <<Win(w.at + e.a, e.c - e.a), Win(w.at + e.a, e.b), Win(w.at, e.b), Win(w.at + (e.c - e.b), e.b), Win(w.at + e.a, e.b), Win(w.at + e.a, e.c - e.a)>>
      [] e.o = "convert" -> <<o, Win(0, Len(s.m)), Win(0, Len(s.m))>>
      [] OTHER -> <<>>
Extents(h, s, e) ==
    CASE e.o \in {"sfirst", "slast"} -> <<e.a, e.a>>
      [] e.o = "ssub" -> <<e.b, e.b>>
      [] e.o = "chain" -> <<e.c - e.a, e.b, e.b, e.b>>
      [] e.o = "convert" -> <<3, 1>>                \* a view of a list of three elements begins where the list does
      [] e.o = "whole" -> IF e.ex = <<>> THEN <<>> ELSE <<Len(s.m), Len(s.m)>>
      [] OTHER -> <<>>
\* ---- observers: o is what was seen of a span that is window w onto m
\* (an empty span has no particular address)
Agrees(h, m, w, o) == LET p == IF w.n = 0 THEN <<>> ELSE Part(m, w) IN
    /\ o.n = w.n /\ (w.n > 0 => o.at = w.at) /\ o.em = (w.n = 0) /\ o.sb = w.n * h.size /\ o.by
    /\ o.ends = (IF w.n = 0 THEN <<>> ELSE <<p[1], p[w.n]>>)
    /\ \A j \in 1..Len(o.seen) : o.seen[j] = p
RECURSIVE LessFrom(_, _, _)
LessFrom(p, q, j) == IF j > Len(q) THEN FALSE ELSE IF j > Len(p) THEN TRUE ELSE IF p[j] # q[j] THEN p[j] < q[j] ELSE LessFrom(p, q, j + 1)
Less(p, q) == LessFrom(p, q, 1)
Six(p, q) == <<p = q, p # q, Less(p, q), ~Less(q, p), Less(q, p), ~Less(p, q)>>
Content(m, w) == IF w.n = 0 THEN <<>> ELSE Part(m, w)
SpStart(h) == [w |-> <<Win(-1, 0), Win(-1, 0)>>, m |-> h.init.m]
SpAfter(h, s, e) == [w |-> [s.w EXCEPT ![e.x] = Result(h, s, e)], m |-> Memory(h, s, e)]
\* ---- comparisons of sequences whose elements need not be ordered (-9: unordered and unequal to everything)
Lt(a, b) == a # -9 /\ b # -9 /\ a < b
RECURSIVE PLessFrom(_, _, _)
PLessFrom(p, q, j) == IF j > Len(p) \/ j > Len(q) THEN Len(p) < Len(q) ELSE IF Lt(p[j], q[j]) THEN TRUE ELSE IF Lt(q[j], p[j]) THEN FALSE ELSE PLessFrom(p, q, j + 1)
PLess(p, q) == PLessFrom(p, q, 1)
PEq(p, q) == Len(p) = Len(q) /\ \A j \in 1..Len(p) : p[j] = q[j] /\ p[j] # -9
PSix(p, q) == <<PEq(p, q), ~PEq(p, q), PLess(p, q), ~PLess(q, p), PLess(q, p), ~PLess(p, q)>>
SpAllowed(h, s, e) == IF e.o = "cmp" THEN \A j \in 1..Len(e.cm) : e.cm[j] = PSix(e.p, e.q) ELSE LET t == SpAfter(h, s, e)  sh == Shown(h, s, e)  p == Content(t.m, t.w[1])  q == Content(t.m, t.w[2]) IN
    /\ e.m = t.m
    /\ Agrees(h, t.m, t.w[1], e.ob[1]) /\ Agrees(h, t.m, t.w[2], e.ob[2])
    /\ Len(e.res) = Len(sh) /\ \A j \in 1..Len(sh) : Agrees(h, t.m, sh[j], e.res[j])
    /\ e.ex = Extents(h, s, e)
    /\ e.cm = <<Six(p, q), Six(q, p), Six(p, q)>>
=============================================================================

------------------------------ MODULE Variant ------------------------------
(* variant<A0, A1, ...>: exactly one alternative, or (after a failed change of alternative only) none.  An event is an *)
(* operation on one of two variants with everything that can be observed of both of them afterwards.                   *)
(* i: index of the alternative (-1: valueless), v: value, k: kinds of the alternatives.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Alt(i, v) == [i |-> i, v |-> v]
None == Alt(-1, 0)
Gone == -1
Kind(h, i) == h.k[i + 1]
Tracked == {"N", "T", "M", "X", "C"}
\* ---- what moving leaves behind
Left(k, was, got) == CASE k \in {"N", "T", "M", "X"} -> got = Gone
                       [] k = "S" -> TRUE                        \* unspecified
                       [] OTHER -> got = was
Same(a, b) == a.i = b.i /\ a.v = b.v
MovedFrom(h, was, n) == n.i = was.i /\ (was.i >= 0 => Left(Kind(h, was.i), was.v, n.v))
One(b) == IF b THEN 1 ELSE 0
NothrowMove(k) == k \in {"N", "M", "I", "U", "S"}
NothrowCopy(k) == k \in {"I", "U"}
\* ---- contents after a successful operation (n: the variant operated on, m: the other one)
MovesOther == {"movea", "movec"}
Succeeds(h, s, e, n, m) == LET o == s[e.x]  w == s[3 - e.x] IN
    CASE e.o \in {"empi", "empt", "setc", "setm", "newi", "newt", "newc", "newm"} -> Same(n, Alt(e.a, e.v)) /\ Same(m, w)
      [] e.o = "newd" -> Same(n, Alt(0, 0)) /\ Same(m, w)
      [] e.o \in {"copya", "copyc"} -> Same(n, w) /\ Same(m, w)
      [] e.o \in MovesOther -> Same(n, w) /\ MovedFrom(h, w, m)
      [] e.o \in {"swap", "fswap"} -> Same(n, w) /\ Same(m, o)
      [] e.o = "write" -> Same(n, IF o.i = e.a THEN Alt(e.a, e.v) ELSE o) /\ Same(m, w)
      [] e.o = "vwrite" -> Same(n, IF o.i >= 0 THEN Alt(o.i, e.v) ELSE o) /\ Same(m, w)
      [] e.o = "take" -> (IF o.i = e.a THEN MovedFrom(h, o, n) ELSE Same(n, o)) /\ Same(m, w)
      [] e.o = "vtake" -> MovedFrom(h, o, n) /\ Same(m, w)
      [] e.o = "bomb" -> FALSE                                   \* always fails
      [] OTHER -> Same(n, o) /\ Same(m, w)
Returned(s, e) == LET o == s[e.x] IN
    CASE e.o \in {"setc", "setm", "copya", "movea"} -> e.r = <<1>>
      [] e.o \in {"empi", "empt"} -> e.r = <<1, e.v>>
      [] e.o = "write" -> e.r = <<One(o.i = e.a)>>
      [] e.o = "vwrite" -> e.r = <<One(o.i >= 0)>>
      [] e.o = "take" -> e.r = IF o.i = e.a THEN <<1, o.v>> ELSE <<0, 0>>
      [] e.o = "vtake" -> e.r = IF o.i >= 0 THEN <<o.v>> ELSE <<-77>>
      [] OTHER -> TRUE
ArgOk(h, s, e) == e.o \in {"setc", "setm", "newc", "newm"} => IF e.o \in {"setm", "newm"} THEN Left(Kind(h, e.a), e.v, e.ag) ELSE e.ag = e.v
\* ---- what a failed operation leaves behind
Unchanged(h, s, n, m, e) == Same(n, s[e.x]) /\ Same(m, s[3 - e.x])
OrNothing(h, s, n, m, e) == (Same(n, s[e.x]) \/ Same(n, None)) /\ Same(m, s[3 - e.x])
\* a new alternative is put in place: if that may fail in place and need not, the new object is made first
PutsInPlace(k, copying) == IF copying THEN NothrowCopy(k) \/ ~NothrowMove(k) ELSE TRUE
Fails(h, s, e, n, m) == LET o == s[e.x]  w == s[3 - e.x] IN
    CASE e.o \in {"empi", "empt", "bomb"} -> OrNothing(h, s, n, m, e)
      [] e.o \in {"setc", "setm"} -> IF o.i = e.a THEN n.i = o.i /\ Same(m, w)
                                     ELSE IF PutsInPlace(Kind(h, e.a), e.o = "setc") THEN OrNothing(h, s, n, m, e) ELSE Unchanged(h, s, n, m, e)
      [] e.o \in {"copya", "movea"} -> /\ w.i >= 0 /\ Same(m, w)
                                       /\ IF o.i = w.i THEN n.i = o.i
                                          ELSE IF PutsInPlace(Kind(h, w.i), e.o = "copya") THEN OrNothing(h, s, n, m, e) ELSE Unchanged(h, s, n, m, e)
      [] e.o = "self" -> n.i = o.i /\ Same(m, w)
      [] e.o = "selfswap" -> n.i = o.i /\ Same(m, w)
      [] e.o \in {"swap", "fswap"} -> IF o.i = w.i THEN n.i = o.i /\ m.i = w.i ELSE n.i \in {o.i, w.i, -1} /\ m.i \in {o.i, w.i, -1}
      [] e.o \in {"take", "vtake"} -> n.i = o.i /\ Same(m, w)
      [] OTHER -> Unchanged(h, s, n, m, e)                        \* a new object has failed to come to life
\* ---- observers
All(sq, x) == \A j \in 1..Len(sq) : sq[j] = x
WellFormed(h, o) == /\ o.i \in -1..(Len(h.k) - 1) /\ o.np = (o.i = -1)
                    /\ IF o.i = -1 THEN o.hit = <<>> /\ o.got = <<>> /\ o.vis = <<>>
                       ELSE All(o.hit, o.i) /\ Len(o.hit) = o.nh /\ All(o.got, o.v) /\ Len(o.got) > 0 /\ o.vis = <<o.v, o.v>>
                            /\ LET t == IF Len(h.k) = 36 THEN ToString(o.i) ELSE Kind(h, o.i) IN o.vt = <<t, t>>
Live(h, o) == One(o.i >= 0 /\ Kind(h, o.i) \in Tracked)
Less(a, b) == a.i < b.i \/ (a.i = b.i /\ a.v < b.v)
Visited(a, b) == IF a.i < 0 \/ b.i < 0 THEN <<>> ELSE <<a.v, b.v>>
Comparisons(e) == LET a == e.ob[1]  b == e.ob[2] IN
    /\ e.cm = <<Same(a, b), ~Same(a, b), Less(a, b), ~Less(b, a), Less(b, a), ~Less(a, b)>>
    /\ e.v2 = <<Visited(a, b), Visited(b, a), Visited(a, b)>>
    /\ e.v3 = IF a.i < 0 \/ b.i < 0 THEN <<>> ELSE <<a.v, b.v, a.v>>
    /\ (Len(e.hs) > 0 => e.hs[2] /\ (Same(a, b) => e.hs[1]))
\* ---- a value of another type goes where overload resolution puts it, if nothing is lost on the way
\* (three alternatives, all different; on a machine with 16-bit short, 32-bit int and 64-bit long)
Ints == {"bool", "char", "short", "int", "long", "unsigned"}
Floats == {"float", "double"}
Text == {"cstr", "string"}
Bits == [bool |-> 1, char |-> 7, short |-> 15, int |-> 31, long |-> 63, unsigned |-> 32]
Signed(t) == t \in {"char", "short", "int", "long"}
Fits(s, t) == CASE t = "bool" -> s = "bool"
                [] t \in Ints -> s \in Ints /\ Bits[s] <= Bits[t] /\ (Signed(s) => Signed(t))
                [] t \in Floats -> s \in Floats /\ (s = t \/ t = "double")
                [] t = "string" -> s \in Text
\* an exact match is better than a promotion, which is better than any other conversion
Rank(s, t) == CASE s = t -> 3
                [] (s \in {"bool", "char", "short"} /\ t = "int") \/ (s = "float" /\ t = "double") -> 2
                [] OTHER -> 1
Candidates(s, t) == {i \in 1..Len(t) : Fits(s, t[i])}
Best(s, t) == {i \in Candidates(s, t) : \A j \in Candidates(s, t) \ {i} : Rank(s, t[i]) > Rank(s, t[j])}
Chosen(e) == LET b == Best(e.s, e.t) IN
    IF b = {} THEN ~e.can /\ ~e.some
    ELSE LET i == (CHOOSE i \in b : TRUE) - 1 IN e.can /\ e.i = <<i, i, i, i>> /\ e.same
VStart(h) == h.init
VAllowed(h, s, e) ==
    IF e.o = "end" THEN e.live = 0 /\ e.errs = 0
    ELSE IF e.o = "pick" THEN Chosen(e)
    ELSE LET n == e.ob[e.x]  m == e.ob[3 - e.x] IN
         /\ WellFormed(h, e.ob[1]) /\ WellFormed(h, e.ob[2])
         /\ e.errs = 0 /\ e.live = Live(h, e.ob[1]) + Live(h, e.ob[2])
         /\ Comparisons(e)
         /\ IF e.th = "" THEN Succeeds(h, s, e, n, m) /\ Returned(s, e) /\ ArgOk(h, s, e) ELSE Fails(h, s, e, n, m)
VAfter(h, s, e) == IF e.o \in {"end", "pick"} THEN s ELSE e.ob
=============================================================================

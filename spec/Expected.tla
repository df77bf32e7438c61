------------------------------ MODULE Expected ------------------------------
(* expected<T, E>: a value or an error.  An event is an operation on one of two objects with everything that can *)
(* be observed of both of them afterwards.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Val(v) == [h |-> TRUE, v |-> v]
Err(v) == [h |-> FALSE, v |-> v]
Gone == -1
Movable == {"N", "T", "M", "X"}
Tracked == {"N", "T", "M", "X", "C"}
LeftV(h, v) == IF h.t \in Movable THEN Gone ELSE v
LeftE(h, v) == IF h.e \in Movable THEN Gone ELSE v
MovedFrom(h, o) == IF o.h THEN Val(LeftV(h, o.v)) ELSE Err(LeftE(h, o.v))
Same(a, b) == a.h = b.h /\ a.v = b.v
One(b) == IF b THEN 1 ELSE 0
\* ---- the monadic operations: the functions add 1000 to what they are given; w says whether the result is a success
Monadic == {"andl", "andr", "mapl", "mapr", "mapvl", "mapvr", "merrl", "merrr", "merrvl", "merrvr", "orl", "orr", "orvl", "orvr"}
OnValue == {"andl", "andr", "mapl", "mapr", "mapvl", "mapvr"}
ByMove == {"andr", "mapr", "mapvr", "merrr", "merrvr", "orr", "orvr"}
Seen(h, o) == o.v
\* <<success?, value or error>> of the result
Outcome(h, o, e) ==
    CASE e.o \in {"andl", "andr"} -> IF o.h THEN <<e.w, o.v + 1000>> ELSE <<0, o.v>>
      [] e.o \in {"mapl", "mapr"} -> IF o.h THEN <<1, o.v + 1000>> ELSE <<0, o.v>>
      [] e.o \in {"mapvl", "mapvr"} -> IF o.h THEN <<1, 0>> ELSE <<0, o.v>>
      [] e.o \in {"merrl", "merrr"} -> IF o.h THEN <<1, o.v>> ELSE <<0, o.v + 1000>>
      [] e.o \in {"merrvl", "merrvr"} -> IF o.h THEN <<1, o.v>> ELSE <<0, 0>>
      [] e.o \in {"orl", "orr"} -> IF o.h THEN <<1, o.v>> ELSE <<e.w, IF e.w = 1 /\ h.t = "V" THEN 0 ELSE o.v + 1000>>
      [] e.o \in {"orvl", "orvr"} -> <<One(o.h), o.v>>
\* what passes through unchanged is moved out of an rvalue
Passed(h, o, e) == IF e.o \in OnValue THEN ~o.h ELSE (o.h \/ e.o = "orvr")
\* ---- contents after a successful operation: <<the object operated on, the other one>>
Result(h, s, e) == LET o == s[e.x]  w == s[3 - e.x] IN
    CASE e.o \in {"setv", "setm", "empl", "newv", "newm", "newip", "conv", "convm", "emplil", "newil", "setx", "newx"} -> <<Val(e.v), w>>
      [] e.o \in {"sete", "setem", "newe", "newem", "newu", "conve", "convem", "newul", "newg", "newgm"} -> <<Err(e.v), w>>
      [] e.o = "newd" -> <<Val(0), w>>
      [] e.o \in {"copya", "copyc"} -> <<w, w>>
      [] e.o \in {"movea", "movec"} -> <<w, MovedFrom(h, w)>>
      [] e.o \in {"swap", "fswap"} -> <<w, o>>
      [] e.o = "take" -> <<MovedFrom(h, o), w>>
      [] e.o = "valorm" -> <<IF o.h THEN MovedFrom(h, o) ELSE o, w>>
      [] e.o = "write" -> <<[h |-> o.h, v |-> e.v], w>>
      [] e.o \in ByMove -> <<IF Passed(h, o, e) THEN MovedFrom(h, o) ELSE o, w>>
      [] OTHER -> <<o, w>>
Returned(h, s, e) == LET o == s[e.x] IN
    CASE e.o \in {"setv", "setm", "setx", "sete", "setem", "copya", "movea"} -> e.r = <<1>>
      [] e.o \in {"valor", "valorm"} -> e.r = <<IF o.h THEN o.v ELSE e.v>>
      [] e.o = "take" -> e.r = <<o.v>>
      [] e.o \in Monadic -> /\ e.r = Outcome(h, o, e)
                            /\ e.calls = One((e.o \in OnValue) = o.h)
                            /\ (e.calls = 1 => e.seen = o.v)
      [] OTHER -> TRUE
ArgsOk(h, s, e) == /\ e.ag = IF e.o \in {"setm", "newm"} \/ (e.o = "valorm" /\ ~s[e.x].h) THEN LeftV(h, e.v) ELSE e.v
                   /\ e.eg = IF e.o \in {"setem", "newem"} THEN LeftE(h, e.v) ELSE e.v
\* ---- what a failed operation leaves behind: the object has what it had before, if that is possible without failing again
NothrowMove(k) == k \in {"N", "M", "I"}
Remains(h, s, e, n, m) == LET o == s[e.x]  w == s[3 - e.x] IN
    CASE e.o \in {"swap", "fswap"} /\ o.h = w.h -> n.h = o.h /\ m.h = w.h
      [] e.o = "selfswap" -> n.h = o.h /\ Same(m, w)
      [] e.o = "empl" /\ o.h /\ ~NothrowMove(h.t) -> n.h /\ Same(m, w)
      [] e.o \in ByMove \union {"take", "valorm"} -> n.h = o.h /\ Same(m, w)
      [] OTHER -> Same(n, o) /\ Same(m, w)
WellFormed(o) == o.b = o.h /\ o.bad = (IF o.h THEN 0 ELSE 2) /\ Len(o.ac) > 0 /\ \A i \in 1..Len(o.ac) : o.ac[i] = o.v
Live(h, o) == One(IF o.h THEN h.t \in Tracked ELSE h.e \in Tracked)
\* functions are given an lvalue or rvalue, constant or not, just as the object is
Categories(c) == \A i \in 1..Len(c) : c[i] = <<"l", "cl", "cr", "r">>[((i - 1) % 4) + 1]
Eq2(b) == <<b, b, ~b, ~b>>
Comparisons(h, e) == LET a == e.ob[1]  b == e.ob[2]  o == e.ob[e.x] IN
    /\ e.cm = <<Same(a, b), ~Same(a, b), Same(a, b), ~Same(a, b)>>
    /\ (h.t # "V" => e.cv = Eq2(o.h /\ o.v = e.c))
    /\ (h.t # "V" => LET p == e.ux.a[1]  q == e.ux.b IN
                      /\ Categories(e.cats) /\ (e.o = "look" /\ h.t # "M" => Len(e.cats) > 0)
                      /\ e.ux.a = <<e.ce, e.ce>>
                      /\ e.ux.cm = <<p = q, p # q, p < q, p <= q, p > q, p >= q, q < p, TRUE>>)
    /\ e.cu = Eq2(~o.h /\ o.v = e.ce)
EStart(h) == h.init
EAllowed(h, s, e) ==
    IF e.o = "end" THEN e.live = 0 /\ e.errs = 0
    ELSE LET n == e.ob[e.x]  m == e.ob[3 - e.x]  r == Result(h, s, e) IN
         /\ WellFormed(e.ob[1]) /\ WellFormed(e.ob[2])
         /\ e.errs = 0 /\ e.live = Live(h, e.ob[1]) + Live(h, e.ob[2])
         /\ Comparisons(h, e)
         /\ IF e.th = "" THEN Same(n, r[1]) /\ Same(m, r[2]) /\ Returned(h, s, e) /\ ArgsOk(h, s, e) ELSE Remains(h, s, e, n, m)
EAfter(h, s, e) == IF e.o = "end" THEN s ELSE e.ob
=============================================================================

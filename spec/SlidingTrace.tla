---------------------------- MODULE SlidingTrace ----------------------------
(* Recorded histories of SlidingBuffer and SlidingBufferExposed.  Two buffers take part; an event names the    *)
(* operation o, the buffer x that it is applied to, further arguments, and the observation ob of one or both   *)
(* buffers afterwards.                                                                                        *)
EXTENDS SlidingBuffer, TLC
CONSTANT Asp     \* aspects that are enforced: "access", "resize", "iter"
On(a) == a \in Asp
SStart(h) == [i \in 1..2 |-> Buf(h.cap)]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Count(q, v) == Cardinality({i \in 1..Len(q) : q[i] = v})
IsRotation(f, q) == Len(f) = Len(q) /\ (f = q \/ \E k \in 1..Len(q) : f = SubSeq(q, k + 1, Len(q)) \o SubSeq(q, 1, k))
Text(q) == IF q = <<>> THEN "\n" ELSE FoldLeft(LAMBDA t, v : t \o ToString(v) \o "  ", "", q) \o "\n"
\* what the traversal of an exposed buffer may show: every element, and nothing else if they are stored contiguously
ExposedOk(b, f) == /\ Len(f) <= b.cap
                   /\ \A i \in 1..Len(b.q) : Count(f, b.q[i]) >= Count(b.q, b.q[i])
                   /\ (b.q = <<>> => f = <<>>)
                   /\ (Full(b) => IsRotation(f, b.q))
                   /\ (Cardinality(b.used) = 1 /\ b.np <= b.cap => f = b.q)
\* one buffer as seen through its public functions
Seen(h, b, o) ==
    /\ o.z = Len(b.q) /\ o.c = b.cap
    /\ (On("access") => /\ o.q = b.q
                        /\ o.fl = (b.cap > 0 /\ Len(b.q) = b.cap) /\ o.e = (b.q = <<>>)
                        /\ (b.q # <<>> => o.fr = b.q[1] /\ o.bk = b.q[Len(b.q)])
                        /\ (~b.old => o.u = [i \in 1..(b.cap - Len(b.q)) |-> 0])
                        /\ (h.text => o.t = Text(b.q)))
    /\ (On("resize") => o.q = b.q)
    /\ (On("iter") => IF h.exposed THEN ExposedOk(b, o.f) /\ o.r = Rev(o.f)
                      ELSE o.f = b.q /\ o.r = Rev(b.q))
\* a buffer that has been moved from: anything that is consistent in itself
Consistent(h, o) == /\ o.z = Len(o.q) /\ o.z <= o.c /\ o.e = (o.z = 0) /\ o.fl = (o.c > 0 /\ o.z = o.c)
                    /\ (h.exposed \/ (o.f = o.q /\ o.r = Rev(o.q)))
Observed(o) == [q |-> o.q, cap |-> o.c, used |-> {"b", "f"}, np |-> 0, pop |-> TRUE, old |-> TRUE]
Pre(s, e) == LET b == s[e.x] IN
    CASE e.o \in {"pushb", "pushf"} -> b.cap > 0
      [] e.o \in {"popb", "popf"} -> b.q # <<>>
      [] e.o \in {"set", "alias_b", "alias_f", "iter"} -> e.i \in 1..Len(b.q)
      [] OTHER -> TRUE
Post(h, s, e) == LET b == s[e.x] IN
    CASE e.o = "pushb" -> [s EXCEPT ![e.x] = PushBack(b, e.v)]
      [] e.o = "pushf" -> [s EXCEPT ![e.x] = PushFront(b, e.v)]
      [] e.o = "alias_b" -> [s EXCEPT ![e.x] = PushBack(b, b.q[e.i])]
      [] e.o = "alias_f" -> [s EXCEPT ![e.x] = PushFront(b, b.q[e.i])]
      [] e.o = "popb" -> [s EXCEPT ![e.x] = PopBack(b)]
      [] e.o = "popf" -> [s EXCEPT ![e.x] = PopFront(b)]
      [] e.o = "clear" -> [s EXCEPT ![e.x] = Clear(b)]
      [] e.o = "resize" -> [s EXCEPT ![e.x] = Resize(b, e.n, e.k)]
      [] e.o = "new" -> [s EXCEPT ![e.x] = Buf(e.n)]
      [] e.o = "set" -> [s EXCEPT ![e.x] = Set(b, e.i, e.v)]
      [] e.o = "sort" -> [s EXCEPT ![e.x].q = SortSeq(b.q, <)]
      [] e.o = "reverse" -> [s EXCEPT ![e.x].q = Rev(b.q)]
      [] e.o = "copy" -> [s EXCEPT ![e.x] = s[3 - e.x]]
      [] e.o = "selfcopy" -> s
      [] e.o = "move" -> [s EXCEPT ![e.x] = s[3 - e.x], ![3 - e.x] = Observed(e.ob[2])]
      [] e.o = "swap" -> [i \in 1..2 |-> s[3 - i]]
      [] OTHER -> s       \* at, iter, hold
SAfter(h, s, e) == Post(h, s, e)
SAllowed(h, s, e) ==
    /\ Pre(s, e)
    /\ LET t == Post(h, s, e)  b == t[e.x] IN
       /\ Seen(h, b, e.ob[1])
       /\ (e.o = "move" => Consistent(h, e.ob[2]) /\ (On("access") => e.ob[2].z = 0))
       /\ (e.o \in {"swap", "copy"} => Seen(h, t[3 - e.x], e.ob[2]))
       /\ CASE e.o = "at" -> (On("access") => IF e.i \in 1..Len(b.q) THEN e.v = b.q[e.i] ELSE e.v = -77)
            [] e.o = "iter" -> (On("iter") => e.l = <<b.q[e.i], b.q[e.i], b.q[e.i], b.q[e.i], b.q[e.i], Len(b.q) - e.i + 1, e.i - 1, b.q[e.i], b.q[e.i],
                                     b.q[IF e.i < Len(b.q) THEN e.i + 1 ELSE e.i], 1>>)
            [] OTHER -> TRUE
       \* an iterator obtained before keeps showing the element at its index
       /\ (On("iter") /\ e.hi \in 1..Len(b.q) => e.hv = b.q[e.hi])
=============================================================================

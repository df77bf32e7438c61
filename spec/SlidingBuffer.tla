--------------------------- MODULE SlidingBuffer ---------------------------
(* The sliding buffer: a double-ended queue of bounded capacity that drops an element at the other end when    *)
(* one is added to a full buffer.                                                                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
\* A buffer is [q |-> elements from front to back, cap |-> capacity,
\*   used |-> sides at which elements have been added since it was created or cleared, np |-> how many,
\*   pop |-> whether one has been removed since, old |-> whether unused places may still hold earlier elements]
Buf(c) == [q |-> <<>>, cap |-> c, used |-> {}, np |-> 0, pop |-> FALSE, old |-> FALSE]
Size(b) == Len(b.q)
Full(b) == b.cap > 0 /\ Len(b.q) = b.cap
PushBack(b, v) == [b EXCEPT !.q = IF Full(b) THEN Append(Tail(@), v) ELSE Append(@, v), !.used = @ \union {"b"}, !.np = @ + 1]
PushFront(b, v) == [b EXCEPT !.q = IF Full(b) THEN <<v>> \o SubSeq(@, 1, Len(@) - 1) ELSE <<v>> \o @, !.used = @ \union {"f"}, !.np = @ + 1]
PopBack(b) == [b EXCEPT !.q = SubSeq(@, 1, Len(@) - 1), !.pop = TRUE, !.old = TRUE]
PopFront(b) == [b EXCEPT !.q = Tail(@), !.pop = TRUE, !.old = TRUE]
Clear(b) == Buf(b.cap)
\* Changing the capacity keeps the order and as many elements as fit, at the front or at the back.
Kept(q, c, keep) == IF Len(q) <= c THEN q ELSE IF keep = "front" THEN SubSeq(q, 1, c) ELSE SubSeq(q, Len(q) - c + 1, Len(q))
Aligned(b, keep) == ~b.pop /\ (b.used \subseteq {"b"} \/ (b.used = {"f"} /\ keep = "front" /\ ~Full(b)))
Resize(b, c, keep) == IF c = b.cap THEN b ELSE IF c = 0 THEN Buf(0)
    ELSE [b EXCEPT !.q = Kept(@, c, keep), !.cap = c, !.used = IF Aligned(b, keep) THEN @ ELSE {"b", "f"}, !.np = Len(Kept(b.q, c, keep)), !.old = TRUE]
Set(b, i, v) == [b EXCEPT !.q[i] = v]
BufInv(b) == Len(b.q) <= b.cap
=============================================================================

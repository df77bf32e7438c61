---------------------------- MODULE SlidingImpl ----------------------------
(* How SlidingBuffer is implemented: a ring of places with an index of the first element, an index of the next *)
(* free place and a flag.  Checked exhaustively to refine the bounded double-ended queue of SlidingBuffer.tla.  *)
EXTENDS SlidingBuffer
CONSTANTS Vals, MaxCap
VARIABLES st, ib, ie, full,   \* storage (a function on 0..capacity-1), idx_begin, idx_end, full
          b                   \* the abstract buffer
vars == <<st, ib, ie, full, b>>
Cap == Cardinality(DOMAIN st)
None == 0
Ring(c) == [i \in 0..(c - 1) |-> None]
SizeI == IF full THEN Cap ELSE IF ie >= ib THEN ie - ib ELSE ie + Cap - ib
At(i) == LET j == ib + i IN IF j >= Cap THEN st[j - Cap] ELSE st[j]
Inc(i, c) == IF i + 1 >= c THEN 0 ELSE i + 1
Dec(i, c) == IF i = 0 THEN c - 1 ELSE i - 1
Init == \E c \in 0..MaxCap : st = Ring(c) /\ ib = 0 /\ ie = 0 /\ full = FALSE /\ b = Buf(c)
Norm(x) == [x EXCEPT !.np = 0, !.used = {}, !.pop = FALSE, !.old = FALSE]
PushB(v) == /\ Cap > 0 /\ st' = [st EXCEPT ![ie] = v] /\ ie' = Inc(ie, Cap)
            /\ ib' = (IF full THEN Inc(ib, Cap) ELSE ib) /\ full' = (full \/ Inc(ie, Cap) = ib)
            /\ b' = Norm(PushBack(b, v))
PushF(v) == /\ Cap > 0 /\ ib' = Dec(ib, Cap) /\ st' = [st EXCEPT ![Dec(ib, Cap)] = v]
            /\ ie' = (IF full THEN Dec(ie, Cap) ELSE ie) /\ full' = (full \/ ie = Dec(ib, Cap))
            /\ b' = Norm(PushFront(b, v))
PopB == /\ SizeI > 0 /\ ie' = Dec(ie, Cap) /\ full' = FALSE /\ b' = Norm(PopBack(b)) /\ UNCHANGED <<st, ib>>
PopF == /\ SizeI > 0 /\ ib' = Inc(ib, Cap) /\ full' = FALSE /\ b' = Norm(PopFront(b)) /\ UNCHANGED <<st, ie>>
Clr == st' = Ring(Cap) /\ ib' = 0 /\ ie' = 0 /\ full' = FALSE /\ b' = Clear(b)
\* rotate so that place f becomes place 0, then cut or extend to c places
Turned(f, c) == [i \in 0..(c - 1) |-> IF i < Cap THEN st[(f + i) % Cap] ELSE None]
Res(c, keep) ==
    /\ c # Cap /\ b' = Norm(Resize(b, c, keep))
    /\ IF c = 0 THEN st' = Ring(0) /\ ib' = 0 /\ ie' = 0 /\ full' = FALSE
       ELSE IF c > Cap \/ SizeI < c
            THEN st' = (IF Cap = 0 THEN Ring(c) ELSE Turned(ib, c)) /\ ib' = 0 /\ ie' = SizeI /\ full' = FALSE
            ELSE /\ st' = Turned(IF keep = "back" THEN (ie + Cap - c) % Cap ELSE ib, c)
                 /\ ib' = 0 /\ ie' = 0 /\ full' = TRUE
Next == (\E v \in Vals : PushB(v) \/ PushF(v)) \/ PopB \/ PopF \/ Clr \/ \E c \in 0..MaxCap, k \in {"front", "back"} : Res(c, k)
Spec == Init /\ [][Next]_vars
IndicesOk == /\ (Cap > 0 => ib \in 0..(Cap - 1) /\ ie \in 0..(Cap - 1)) /\ (Cap = 0 => ib = 0 /\ ie = 0 /\ ~full) /\ (full => ib = ie)
Refines == /\ Cap = b.cap /\ SizeI = Len(b.q) /\ full = Full(b) /\ BufInv(b)
           /\ \A i \in 1..SizeI : At(i - 1) = b.q[i]
=============================================================================

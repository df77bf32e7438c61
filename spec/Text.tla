-------------------------------- MODULE Text --------------------------------
(* Byte strings are sequences over 0..255.  Positions are 0-based as in the API; None stands for npos.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
None == -1
Byte == 0..255
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Chars(s) == {s[k] : k \in 1..Len(s)}

\* n occurs in h at 0-based position p
OccursAt(h, n, p) == /\ p >= 0 /\ p + Len(n) <= Len(h)
                     /\ \A k \in 1..Len(n) : h[p + k] = n[k]

\* First / last p in lo..hi with P(p), or None
FirstFrom(P(_), lo, hi) == IF \E p \in lo..hi : P(p)
                           THEN CHOOSE p \in lo..hi : P(p) /\ \A q \in lo..(p - 1) : ~P(q)
                           ELSE None
LastFrom(P(_), hi, lo)  == IF \E p \in lo..hi : P(p)
                           THEN CHOOSE p \in lo..hi : P(p) /\ \A q \in (p + 1)..hi : ~P(q)
                           ELSE None

Find(h, n, pos)  == LET P(p) == OccursAt(h, n, p) IN FirstFrom(P, pos, Len(h) - Len(n))
\* pos = None means "no limit"
RFind(h, n, pos) == LET top == Len(h) - Len(n)
                        P(p) == OccursAt(h, n, p)
                    IN LastFrom(P, IF pos = None \/ pos > top THEN top ELSE pos, 0)
FindFirstOf(h, n, pos)    == LET P(p) == h[p + 1] \in Chars(n)    IN FirstFrom(P, pos, Len(h) - 1)
FindFirstNotOf(h, n, pos) == LET P(p) == h[p + 1] \notin Chars(n) IN FirstFrom(P, pos, Len(h) - 1)
FindLastOf(h, n, pos)     == LET P(p) == h[p + 1] \in Chars(n)
                             IN LastFrom(P, IF pos = None \/ pos >= Len(h) THEN Len(h) - 1 ELSE pos, 0)
FindLastNotOf(h, n, pos)  == LET P(p) == h[p + 1] \notin Chars(n)
                             IN LastFrom(P, IF pos = None \/ pos >= Len(h) THEN Len(h) - 1 ELSE pos, 0)

\* characters at 0-based positions [from, from+len)
Sub(s, from, len) == SubSeq(s, from + 1, from + len)
\* the standard's substr: clamped length; pos <= Len(s) required; n = None means the rest
SubStr(s, pos, n) == IF n = None THEN Sub(s, pos, Len(s) - pos) ELSE Sub(s, pos, Min2(n, Len(s) - pos))

\* unsigned lexicographic comparison: -1, 0, 1
Compare(a, b) == LET m == Min2(Len(a), Len(b))
                     P(k) == a[k + 1] # b[k + 1]
                     d == FirstFrom(P, 0, m - 1)
                 IN IF d # None THEN (IF a[d + 1] < b[d + 1] THEN -1 ELSE 1)
                    ELSE IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
LowerStr(s) == [k \in 1..Len(s) |-> Lower(s[k])]
UpperStr(s) == [k \in 1..Len(s) |-> Upper(s[k])]

RECURSIVE Concat(_)
Concat(parts) == IF parts = <<>> THEN <<>> ELSE Head(parts) \o Concat(Tail(parts))
Rep(s, n) == [k \in 1..(n * Len(s)) |-> s[((k - 1) % Len(s)) + 1]]
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
Blank == {32, 9, 13, 10, 7, 8, 12, 11}     \* the default set of white-space characters
=============================================================================

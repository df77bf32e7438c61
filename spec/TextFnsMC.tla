----------------------------- MODULE TextFnsMC -----------------------------
(* Theorems about the string functions, checked by TLC for every pair of strings over small alphabets that   *)
(* contain each class of character the definitions distinguish.                                               *)
EXTENDS TextFns
CONSTANTS Alpha, MaxLen, MaxLen2
VARIABLES s, d, done
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Init == s \in Strings(Alpha, MaxLen) /\ d = <<>> /\ done = 0
Next == done = 0 /\ done' = 1 /\ s' = s /\ d' \in Strings(Alpha, MaxLen2)
Spec == Init /\ [][Next]_<<s, d, done>>
EscapeRoundTrip == Unescape(Escape(s)) = s
EscapePrintable == Printable(Escape(s))
EscapeHead == \A t \in {Escape(s)} : Unescape(t) = s
JoinSplit == done = 1 => Join(Split(s, d), d) = s
SplitCount == done = 1 /\ d # <<>> => \A k \in 1..Len(Split(s, d)) : ~HasSub(Split(s, d)[k], d)
TokensClean == done = 1 => LET T == Tokens(s, Chars(d)) IN
    /\ \A k \in 1..Len(T) : T[k] # <<>> /\ Chars(T[k]) \cap Chars(d) = {}
    /\ FlattenSeq(T) = SelectSeq(s, LAMBDA c : c \notin Chars(d))
ReplaceId == done = 1 => Replace(s, d, d) = s
ReplaceIsJoinSplit == done = 1 /\ d # <<>> => Replace(s, d, <<65>>) = Join(Split(s, d), <<65>>)
TrimIdem == done = 1 => Trim(Trim(s, Chars(d)), Chars(d)) = Trim(s, Chars(d))
TrimCommutes == done = 1 => Trim(s, Chars(d)) = TrimLeft(TrimRight(s, Chars(d)), Chars(d))
AffixImpliesContains == done = 1 => (StartsWith(s, d) \/ EndsWith(s, d) => HasSub(s, d))
ContainsIff == done = 1 => (HasSub(s, d) <=> \E p \in 0..Len(s) : OccursAt(s, d, p))
FindFirstLast == done = 1 => LET a == Find(s, d, 0) b == RFind(s, d, None) IN
    (a = None <=> b = None) /\ (a # None => a <= b)
CompareTotal == done = 1 => Compare(s, d) = -Compare(d, s) /\ (Compare(s, d) = 0 <=> s = d)
=============================================================================

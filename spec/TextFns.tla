------------------------------ MODULE TextFns ------------------------------
(* Meaning of the string functions: escape/unescape, split/join, tokenize, replace, trim, case, substring    *)
(* checks, cat/repeat/safe_string, hex_string and hexdump.                                                    *)
EXTENDS Text

\* ------------------------------------------------------------------ escape / unescape
BSL == 92
EscapeChar(c) == CASE c = 34 -> <<BSL, 34>>
                   [] c = 92 -> <<BSL, BSL>>
                   [] c = 10 -> <<BSL, 110>>
                   [] c = 13 -> <<BSL, 114>>
                   [] c = 9  -> <<BSL, 116>>
                   [] c \in (0..255) \ ({34, 92, 10, 13, 9} \cup (32..126)) ->
                          <<BSL, 120, HexDigit(c \div 16), HexDigit(c % 16)>>
                   [] OTHER  -> <<c>>
Escape(s) == FlattenSeq([k \in 1..Len(s) |-> EscapeChar(s[k])])

IsHex(c) == c \in (48..57) \cup (65..70) \cup (97..102)
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
\* One scanning step at 1-based position k: <<bytes produced, characters consumed>>.  Anything that is not a
\* complete sequence produced by escaping is left alone.
UnescapeStep(s, k) ==
    IF s[k] # BSL \/ k = Len(s) THEN <<<<s[k]>>, 1>>
    ELSE LET d == s[k + 1] IN
         CASE d = 34  -> <<<<34>>, 2>>
           [] d = 92  -> <<<<92>>, 2>>
           [] d = 110 -> <<<<10>>, 2>>
           [] d = 114 -> <<<<13>>, 2>>
           [] d = 116 -> <<<<9>>, 2>>
           [] d = 120 /\ k + 3 <= Len(s) /\ IsHex(s[Min2(k + 2, Len(s))]) /\ IsHex(s[Min2(k + 3, Len(s))]) ->
                 <<<<16 * HexVal(s[k + 2]) + HexVal(s[k + 3])>>, 4>>
           [] OTHER -> <<<<s[k]>>, 1>>
RECURSIVE UnescapeFrom(_, _)
UnescapeFrom(s, k) == IF k > Len(s) THEN <<>>
                      ELSE LET st == UnescapeStep(s, k) IN st[1] \o UnescapeFrom(s, k + st[2])
Unescape(s) == UnescapeFrom(s, 1)
Printable(s) == \A k \in 1..Len(s) : s[k] \in 32..126

\* ------------------------------------------------------------------ split / join
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, d, from) == LET p == Find(s, d, from) IN
    IF p = None THEN <<Sub(s, from, Len(s) - from)>>
    ELSE <<Sub(s, from, p - from)>> \o SplitFrom(s, d, p + Len(d))
Split(s, d) == IF d = <<>> THEN <<<<>>>> \o [k \in 1..Len(s) |-> <<s[k]>>] \o <<<<>>>>
               ELSE SplitFrom(s, d, 0)
Join(parts, glue) == IF parts = <<>> THEN <<>>
                     ELSE FlattenSeq([k \in 1..(2 * Len(parts) - 1) |->
                              IF k % 2 = 1 THEN parts[(k + 1) \div 2] ELSE glue])
\* split at maximal runs (plus = TRUE) or single members of a character set: the regular expressions [set]+ / [set]
RECURSIVE SplitSetFrom(_, _, _, _)
SplitSetFrom(s, set, plus, from) ==
    LET In(p)  == s[p + 1] \in set
        Out(p) == s[p + 1] \notin set
        p == FirstFrom(In, from, Len(s) - 1) IN
    IF p = None THEN <<Sub(s, from, Len(s) - from)>>
    ELSE LET e == IF plus THEN FirstFrom(Out, p, Len(s) - 1) ELSE p + 1
             nxt == IF e = None THEN Len(s) ELSE e
         IN <<Sub(s, from, p - from)>> \o SplitSetFrom(s, set, plus, nxt)
SplitRegex(s, t, mode) == CASE mode = "one" -> SplitSetFrom(s, Chars(t), FALSE, 0)
                            [] mode = "plus" -> SplitSetFrom(s, Chars(t), TRUE, 0)
                            [] mode = "word" -> Split(s, t)

\* ------------------------------------------------------------------ tokenize
RECURSIVE TokensFrom(_, _, _)
TokensFrom(s, set, from) ==
    LET In(p)  == s[p + 1] \in set
        Out(p) == s[p + 1] \notin set
        b == FirstFrom(Out, from, Len(s) - 1) IN
    IF b = None THEN <<>>
    ELSE LET e == FirstFrom(In, b, Len(s) - 1) IN
         IF e = None THEN <<Sub(s, b, Len(s) - b)>>
         ELSE <<Sub(s, b, e - b)>> \o TokensFrom(s, set, e)
Tokens(s, set) == TokensFrom(s, set, 0)

\* ------------------------------------------------------------------ replace: leftmost, non-overlapping, not rescanned
RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(s, n, r, from) == LET p == Find(s, n, from) IN
    IF p = None THEN Sub(s, from, Len(s) - from)
    ELSE Sub(s, from, p - from) \o r \o ReplaceFrom(s, n, r, p + Len(n))
Replace(s, n, r) == IF n = <<>> THEN s ELSE ReplaceFrom(s, n, r, 0)

\* ------------------------------------------------------------------ trim
TrimLeft(s, set)  == LET Out(p) == s[p + 1] \notin set
                         b == FirstFrom(Out, 0, Len(s) - 1)
                     IN IF b = None THEN <<>> ELSE Sub(s, b, Len(s) - b)
TrimRight(s, set) == LET Out(p) == s[p + 1] \notin set
                         e == LastFrom(Out, Len(s) - 1, 0)
                     IN IF e = None THEN <<>> ELSE Sub(s, 0, e + 1)
Trim(s, set) == TrimRight(TrimLeft(s, set), set)

\* ------------------------------------------------------------------ substring checks
HasSub(h, n)   == Find(h, n, 0) # None
StartsWith(h, n) == OccursAt(h, n, 0)
EndsWith(h, n)   == OccursAt(h, n, Len(h) - Len(n))

\* ------------------------------------------------------------------ hexadecimal formatting
HexByte(b) == <<HexDigit(b \div 16), HexDigit(b % 16)>>
\* a value is a sequence of bytes, most significant first
HexVal8(bytes) == FlattenSeq([k \in 1..Len(bytes) |-> HexByte(bytes[k])])
\* n in hexadecimal with at least w digits
RECURSIVE HexNum(_)
HexNum(n) == IF n < 16 THEN <<HexDigit(n)>> ELSE HexNum(n \div 16) \o <<HexDigit(n % 16)>>
PadHex(n, w) == LET h == HexNum(n) IN IF Len(h) >= w THEN h ELSE Rep(<<48>>, w - Len(h)) \o h
PrintChar(c) == IF c \in 32..126 THEN c ELSE 46
\* elems: sequence of values (bytes MSB first), all of the same width w bytes
DumpLine(elems, w, i, prompt) ==
    LET n == Min2(16, Len(elems) - i)
        cell(j) == IF j <= n THEN HexVal8(elems[i + j]) \o <<32>>
                   ELSE IF w = 1 THEN <<32, 32, 32>> ELSE <<>>
        text == IF w = 1 THEN <<32>> \o [j \in 1..n |-> PrintChar(elems[i + j][1])] ELSE <<>>
    IN (IF i = 0 THEN prompt ELSE Rep(<<32>>, Len(prompt))) \o PadHex(i, 6) \o <<58, 32>>
       \o FlattenSeq([j \in 1..16 |-> cell(j)]) \o text \o <<10>>
MaxDump == 16000
HexDump(elems, w, prompt) ==
    LET shown == Min2(Len(elems), MaxDump)
        lines == IF shown = 0 THEN 1 ELSE (shown + 15) \div 16
    IN FlattenSeq([k \in 1..lines |-> DumpLine(elems, w, 16 * (k - 1), prompt)])
Truncated == <<91,111,117,116,112,117,116,32,116,114,117,110,99,97,116,101,100,46,46,46,93,10>>
=============================================================================

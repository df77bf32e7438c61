------------------------------- MODULE NumFns -------------------------------
(* Meaning of the numeric functions: string-to-number conversion, bit manipulation, gcd/lcm, tolerance       *)
(* comparisons, statistics and the civil calendar.  Wide numbers are decimal digit sequences or bit vectors. *)
EXTENDS Text, FiniteSetsExt
Abs(x) == IF x < 0 THEN -x ELSE x
Digit == 48..57
IsDigits(s) == \A k \in 1..Len(s) : s[k] \in Digit
StripZeros(s) == LET NZ(p) == s[p + 1] # 48
                     b == FirstFrom(NZ, 0, Len(s) - 1)
                 IN IF b = None THEN <<>> ELSE Sub(s, b, Len(s) - b)
\* decimal digit sequences without leading zeros
DecLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Compare(a, b) <= 0)

\* ------------------------------------------------------------------ integers
MaxText(bits, sg, neg) ==
    CASE bits = 8  /\ ~sg -> <<50,53,53>>
      [] bits = 8  /\ sg  -> IF neg THEN <<49,50,56>> ELSE <<49,50,55>>
      [] bits = 16 /\ ~sg -> <<54,53,53,51,53>>
      [] bits = 16 /\ sg  -> IF neg THEN <<51,50,55,54,56>> ELSE <<51,50,55,54,55>>
      [] bits = 32 /\ ~sg -> <<52,50,57,52,57,54,55,50,57,53>>
      [] bits = 32 /\ sg  -> <<50,49,52,55,52,56,51,54,52>> \o (IF neg THEN <<56>> ELSE <<55>>)
      [] bits = 64 /\ ~sg -> <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
      [] bits = 64 /\ sg  -> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48>> \o (IF neg THEN <<56>> ELSE <<55>>)
\* the canonical decimal text of the value denoted by s for the type, or "no value"
IntParse(s, bits, sg) ==
    LET neg  == sg /\ s # <<>> /\ s[1] = 45
        body == IF neg THEN Tail(s) ELSE s
        mag  == StripZeros(body)
        ok   == body # <<>> /\ IsDigits(body) /\ DecLeq(mag, MaxText(bits, sg, neg))
    IN [has |-> ok, text |-> IF ~ok THEN <<>> ELSE IF mag = <<>> THEN <<48>> ELSE IF neg THEN <<45>> \o mag ELSE mag]
TrueText == <<116,114,117,101>>
FalseText == <<102,97,108,115,101>>
BoolParse(s) == IF s = <<49>> \/ LowerStr(s) = TrueText THEN 1
                ELSE IF s = <<48>> \/ LowerStr(s) = FalseText THEN 0 ELSE -1

\* ------------------------------------------------------------------ floating point
Word(s, w) == LowerStr(s) = w
InfWord == <<105,110,102>>
InfinityWord == <<105,110,102,105,110,105,116,121>>
NanWord == <<110,97,110>>
NanChar == (48..57) \cup (65..90) \cup (97..122) \cup {95}
IsNan(s) == \/ Word(s, NanWord)
            \/ /\ Len(s) >= 5 /\ LowerStr(Sub(s, 0, 3)) = NanWord /\ s[4] = 40 /\ s[Len(s)] = 41
               /\ \A k \in 5..(Len(s) - 1) : s[k] \in NanChar
IsInf(s) == Word(s, InfWord) \/ Word(s, InfinityWord)
\* decimal part: digits with at most one point and at least one digit
MantDigits(m) == LET p == Find(m, <<46>>, 0) IN
    IF p = None THEN m ELSE Sub(m, 0, p) \o Sub(m, p + 1, Len(m) - p - 1)
IsMant(m) == MantDigits(m) # <<>> /\ IsDigits(MantDigits(m))
ExpDigits(e) == IF e # <<>> /\ e[1] \in {43, 45} THEN Tail(e) ELSE e
IsExp(e) == ExpDigits(e) # <<>> /\ IsDigits(ExpDigits(e))
FloatParse(s0) ==
    LET neg == s0 # <<>> /\ s0[1] = 45
        s == IF neg THEN Tail(s0) ELSE s0
        e == FindFirstOf(s, <<101, 69>>, 0)
        mant == IF e = None THEN s ELSE Sub(s, 0, e)
        expo == IF e = None THEN <<48>> ELSE Sub(s, e + 1, Len(s) - e - 1)
        num == IsMant(mant) /\ IsExp(expo)
        hugeExp == num /\ Len(StripZeros(ExpDigits(expo))) > 9
    IN [neg  |-> neg,
        kind |-> IF s = <<>> THEN "none" ELSE IF IsInf(s) THEN "inf" ELSE IF IsNan(s) THEN "nan"
                 ELSE IF ~num THEN "none"
                 ELSE IF StripZeros(MantDigits(mant)) = <<>> THEN (IF hugeExp THEN "zeroHuge" ELSE "zero")
                 ELSE IF hugeExp THEN "huge" ELSE "number"]
\* permitted distance from the correctly rounded value, in representable steps
MaxSteps(w, subnormal) == IF w = 10 THEN (IF subnormal THEN 32 ELSE 24) ELSE 3
FloatOk(r) == LET p == FloatParse(r.s)
                  close == r.c \in {"fin", "zero", "inf"} /\ r.neg = p.neg /\ r.d <= MaxSteps(r.w, r.sub) IN
    CASE p.kind = "none" -> r.c = "none"
      [] p.kind = "inf"  -> r.c = "inf" /\ r.neg = p.neg
      [] p.kind = "nan"  -> r.c = "nan"
      [] p.kind = "zero" -> r.c = "zero" /\ r.neg = p.neg
      [] p.kind = "zeroHuge" -> r.c = "none" \/ (r.c = "zero" /\ r.neg = p.neg)
      [] p.kind = "huge" -> r.c = "none" \/ close      \* exponents of ten and more digits may be refused
      [] p.kind = "number" -> close

\* ------------------------------------------------------------------ bits (index 1 is bit 0)
BitOnly(w, b) == [k \in 1..w |-> IF k = b + 1 THEN 1 ELSE 0]
BitSet(x, b) == [x EXCEPT ![b + 1] = 1]
BitReset(x, b) == [x EXCEPT ![b + 1] = 0]
BitFlip(x, b) == [x EXCEPT ![b + 1] = 1 - @]
RECURSIVE BitSeq(_, _)
BitSeq(x, ops) == IF ops = <<>> THEN x ELSE
    LET o == Head(ops) \div 64  b == Head(ops) % 64 IN
    BitSeq(CASE o = 0 -> BitSet(x, b) [] o = 1 -> BitReset(x, b) [] o = 2 -> BitFlip(x, b), Tail(ops))

\* ------------------------------------------------------------------ gcd, lcm, tolerances
RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
Gcd(a, b) == GcdN(Abs(a), Abs(b))
Lcm(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (Abs(a) \div Gcd(a, b)) * Abs(b)
WithinOrders(a, b, n) == a = b \/ Abs(a - b) * (10 ^ n) < Max2(Abs(a), Abs(b))
WithinAbs(a, b, t) == Abs(a - b) <= Abs(t)
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
\* which of its arguments (1: v, 2: lo, 3: hi) clamp returns
ClampId(v, lo, hi) == IF v < lo THEN 2 ELSE IF hi < v THEN 3 ELSE 1
\* the special floating-point values by name; the signs of zeros are kept
FOrd(n) == CASE n = "minf" -> -2 [] n = "mone" -> -1 [] n \in {"nz", "z"} -> 0 [] n = "one" -> 1 [] n = "inf" -> 2
ClampF(v, lo, hi) == IF v = "nan" THEN v ELSE IF FOrd(v) < FOrd(lo) THEN lo ELSE IF FOrd(hi) < FOrd(v) THEN hi ELSE v
AbsF(v) == CASE v \in {"nz", "z"} -> "z" [] v \in {"one", "mone"} -> "one" [] v \in {"inf", "minf"} -> "inf" [] v = "nan" -> "nan"
WithinUlp(kind, k, u) ==
    CASE k = 0 -> TRUE
      [] k # 0 /\ kind = "den"  -> Abs(k) <= u
      [] k # 0 /\ kind = "mid"  -> 2 * Abs(k) <= 3 * u
      [] k # 0 /\ kind = "one"  -> IF k > 0 THEN k <= u ELSE -k <= 2 * u
      [] k # 0 /\ kind = "mone" -> IF k < 0 THEN -k <= u ELSE k <= 2 * u
FVal(n) == CASE n \in {"z", "nz"} -> 0 [] n = "one" -> 2 [] n = "mone" -> -2 [] n = "half" -> 1
             [] n = "max" -> 2 [] n = "low" -> -2 [] n = "den" -> 2 [] OTHER -> 0
FScale(n) == CASE n \in {"z", "nz"} -> {} [] n \in {"one", "mone", "half"} -> {1} [] n \in {"max", "low"} -> {2} [] n = "den" -> {3} [] OTHER -> {4}
SpecialOk(r) ==
    LET names == {r.a, r.b, r.t}
        same == r.a = r.b \/ {r.a, r.b} \subseteq {"z", "nz"}
        infs == {"inf", "minf"} IN
    /\ r.o = r.o2
    /\ IF "nan" \in names THEN ~r.o
       ELSE IF r.t \in infs THEN ({r.a, r.b} \cap infs = {} => r.o)
       ELSE IF same THEN r.o
       ELSE IF {r.a, r.b} \cap infs # {} THEN (r.t \notin {"max", "low"} => ~r.o)   \* a bound beyond the range is unspecified
       ELSE Cardinality(UNION {FScale(n) : n \in names}) <= 1 => r.o = (Abs(FVal(r.a) - FVal(r.b)) <= Abs(FVal(r.t)))
    /\ r.u0 = (same /\ r.a # "nan")
    /\ r.u1 = (r.a # "nan" /\ (same \/ (r.a \in {"z", "nz", "den"} /\ r.b \in {"z", "nz", "den"})))

\* ------------------------------------------------------------------ statistics of integer samples (exact, scaled)
NaN == -999999
SumSeq(x) == FoldLeft(LAMBDA a, b : a + b, 0, x)
SumSq(x) == FoldLeft(LAMBDA a, b : a + b * b, 0, x)
MeanN(x) == IF x = <<>> THEN NaN ELSE SumSeq(x)                       \* n * mean
VarN(x) == IF Len(x) < 2 THEN NaN ELSE Len(x) * SumSq(x) - SumSeq(x) * SumSeq(x)    \* n (n-1) sigma^2
CountLess(x, v) == Cardinality({k \in 1..Len(x) : x[k] < v})
CountLeq(x, v) == Cardinality({k \in 1..Len(x) : x[k] <= v})
\* k-th smallest, 1-based
Kth(x, k) == CHOOSE v \in Chars(x) : CountLess(x, v) < k /\ CountLeq(x, v) >= k
Median2(x) == LET n == Len(x) IN                                        \* 2 * median
    IF n = 0 THEN NaN ELSE IF n % 2 = 1 THEN 2 * Kth(x, (n + 1) \div 2)
    ELSE Kth(x, n \div 2) + Kth(x, n \div 2 + 1)
MinOf(x) == IF x = <<>> THEN NaN ELSE SetMin(Chars(x))
MaxOf(x) == IF x = <<>> THEN NaN ELSE SetMax(Chars(x))
AllEq(s, v) == \A k \in 1..Len(s) : s[k] = v
\* the sets of index sequences that remain after removing k outliers from x restricted to the indices idx
Dist(x, idx, i) == Abs(Len(idx) * x[i] - SumSeq([k \in 1..Len(idx) |-> x[idx[k]]]))
RECURSIVE Outl(_, _, _)
Outl(x, idxs, k) == IF k = 0 THEN idxs ELSE
    Outl(x, UNION { IF idx = <<>> THEN {idx}
                    ELSE LET far == SetMax({Dist(x, idx, idx[j]) : j \in 1..Len(idx)})
                         IN {RemoveAt(idx, j) : j \in {j \in 1..Len(idx) : Dist(x, idx, idx[j]) = far}} : idx \in idxs}, k - 1)
Outliers(x, k) == Outl(x, {[j \in 1..Len(x) |-> j]}, k)
Pickx(x, idx) == [j \in 1..Len(idx) |-> x[idx[j]]]

\* ------------------------------------------------------------------ civil calendar (proleptic Gregorian)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
\* leap years in [.., y-1], up to a constant
LeapsBefore(y) == ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
DayNum(y, m, d) == 365 * (y - 1970) + (LeapsBefore(y) - LeapsBefore(1970)) + CumDays[m]
                   + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
WeekDay(z) == (z + 4) % 7                            \* 1970-01-01 was a Thursday; 0 = Sunday
ValidYmd(y, m, d) == m \in 1..12 /\ d \in 1..MonthLen(y, m)
NthWeekday(y, m, w, i) == LET f == DayNum(y, m, 1) IN f + ((w - WeekDay(f)) % 7) + 7 * (i - 1)
LastWeekday(y, m, w) == LET l == DayNum(y, m, MonthLen(y, m)) IN l - ((WeekDay(l) - w) % 7)
AddMonths(y, m, k) == LET t == 12 * y + (m - 1) + k IN <<t \div 12, (t % 12) + 1>>
=============================================================================

------------------------------ MODULE Calendar ------------------------------
(* The calendar types: which values exist, how they are ordered, what calendar arithmetic does to them and    *)
(* how they map to days.  A value is a kind and a sequence of fields:                                          *)
(*   day <<d>>  month <<m>>  year <<y>>  wd <<w>>  wdi <<w, i>>  wdl <<w>>  ym <<y, m>>  md <<m, d>>  mdl <<m>> *)
(*   mwd <<m, w, i>>  mwdl <<m, w>>  ymd <<y, m, d>>  ymdl <<y, m>>  ymwd <<y, m, w, i>>  ymwdl <<y, m, w>>     *)
EXTENDS NumFns
IsYear(y) == y \in -32767..32767
IsMonth(m) == m \in 1..12
IsWd(w) == w \in 0..6
ExistsNth(y, m, w, i) == i \in 1..5 /\ NthWeekday(y, m, w, i) <= DayNum(y, m, MonthLen(y, m))
Exists(k, v) ==
    CASE k = "day"   -> v[1] \in 1..31
      [] k = "month" -> IsMonth(v[1])
      [] k = "year"  -> IsYear(v[1])
      [] k = "wd"    -> IsWd(v[1])
      [] k = "wdi"   -> IsWd(v[1]) /\ v[2] \in 1..5
      [] k = "wdl"   -> IsWd(v[1])
      [] k = "ym"    -> IsYear(v[1]) /\ IsMonth(v[2])
      [] k = "md"    -> IsMonth(v[1]) /\ v[2] \in 1..MonthLen(2000, v[1])
      [] k = "mdl"   -> IsMonth(v[1])
      [] k = "mwd"   -> IsMonth(v[1]) /\ IsWd(v[2]) /\ v[3] \in 1..5
      [] k = "mwdl"  -> IsMonth(v[1]) /\ IsWd(v[2])
      [] k = "ymd"   -> IsYear(v[1]) /\ ValidYmd(v[1], v[2], v[3])
      [] k = "ymdl"  -> IsYear(v[1]) /\ IsMonth(v[2])
      [] k = "ymwd"  -> IsYear(v[1]) /\ IsMonth(v[2]) /\ IsWd(v[3]) /\ ExistsNth(v[1], v[2], v[3], v[4])
      [] k = "ymwdl" -> IsYear(v[1]) /\ IsMonth(v[2]) /\ IsWd(v[3])
\* ------------------------------------------------------------------ order: lexicographic, the larger unit first
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
Compared(a, b, ordered) == LET lt == LexLess(a, b) gt == LexLess(b, a) IN
    IF ordered THEN <<a = b, a # b, lt, gt, ~gt, ~lt>> ELSE <<a = b, a # b>>
Ordered(k) == k \in {"day", "month", "year", "ym", "md", "mdl", "ymd", "ymdl"}
\* ------------------------------------------------------------------ arithmetic
PlusMonths(k, v, n) == IF k = "month" THEN <<((v[1] - 1 + n) % 12) + 1>>
                       ELSE AddMonths(v[1], v[2], n) \o SubSeq(v, 3, Len(v))
PlusYears(v, n) == <<v[1] + n>> \o SubSeq(v, 2, Len(v))
PlusDays(k, v, n) == IF k = "wd" THEN <<(v[1] + n) % 7>> ELSE <<v[1] + n>>
Plus(k, u, v, n) == CASE u = "m" -> PlusMonths(k, v, n) [] u = "y" -> PlusYears(v, n) [] u = "d" -> PlusDays(k, v, n)
StepUnit(k) == CASE k \in {"day", "wd"} -> "d" [] k = "month" -> "m" [] k = "year" -> "y"
Difference(k, a, b) == CASE k \in {"day", "year"} -> a[1] - b[1] [] k = "month" -> (a[1] - b[1]) % 12 [] k = "wd" -> (a[1] - b[1]) % 7
                         [] k = "ym" -> 12 * (a[1] - b[1]) + a[2] - b[2]
\* ------------------------------------------------------------------ days since 1970-01-01; the day of a month and the index of a weekday may lie outside of it
Days(k, v) == CASE k = "ymd" -> DayNum(v[1], v[2], 1) + v[3] - 1
                [] k = "ymdl" -> DayNum(v[1], v[2], MonthLen(v[1], v[2]))
                [] k = "ymwd" -> NthWeekday(v[1], v[2], v[3], v[4])
                [] k = "ymwdl" -> LastWeekday(v[1], v[2], v[3])
IsYmdOf(v, z) == IsYear(v[1]) /\ ValidYmd(v[1], v[2], v[3]) /\ DayNum(v[1], v[2], v[3]) = z
\* ------------------------------------------------------------------ durations: t * n / d units
DivFloor(t, n, d) == (t * n) \div d
DivCeil(t, n, d) == -((-(t * n)) \div d)
DivTrunc(t, n, d) == IF t >= 0 THEN DivFloor(t, n, d) ELSE DivCeil(t, n, d)
DivRound(t, n, d) == LET f == DivFloor(t, n, d) r == 2 * ((t * n) % d) IN IF r < d \/ (r = d /\ f % 2 = 0) THEN f ELSE f + 1
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
\* decimal places that show k/den seconds exactly, 6 if there are none
FracWidth(den) == CASE den = 1 -> 0 [] den \in {2, 10} -> 1 [] den \in {4, 100} -> 2 [] den \in {8, 1000} -> 3 [] den = 1000000 -> 6
                    [] den = 1000000000 -> 9 [] den = 3 -> 6
Subsec(k, den) == LET w == FracWidth(den) IN IF den = 1 THEN 0 ELSE IF den >= 1000 THEN k ELSE (k * Pow10(w)) \div den
TimeSplit(sec, k, den) == <<sec \div 3600, (sec \div 60) % 60, sec % 60, Subsec(k, den)>>
Hour12(h) == IF h % 12 = 0 THEN 12 ELSE h % 12
Hour24(h, pm) == (h % 12) + (IF pm THEN 12 ELSE 0)
=============================================================================

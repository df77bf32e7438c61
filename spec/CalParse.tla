------------------------------ MODULE CalParse ------------------------------
(* What a text that was read according to a format means.  P is the sequence of <<c, n>>: the text gave the    *)
(* number n for the field c (Y y C m d, a u w: weekday, j: day of the year, U W V: week, G g: year of the ISO   *)
(* week, H I p M S).  All of it must fit together; what it fits is the result.                                  *)
EXTENDS CalText
Given(P, c) == {P[j][2] : j \in {j \in 1..Len(P) : P[j][1] = c}}
Has(P, c) == Given(P, c) # {}
The(P, c) == CHOOSE n \in Given(P, c) : TRUE
Codes(P) == {P[j][1] : j \in 1..Len(P)}
WdGiven(P) == Given(P, "a") \cup {n % 7 : n \in Given(P, "u")} \cup Given(P, "w")
HasWd(P) == WdGiven(P) # {}
TheWd(P) == CHOOSE n \in WdGiven(P) : TRUE
\* a two-digit year belongs to 1969..2068 unless the century is known
Pivot(n) == IF n >= 69 THEN 1900 + n ELSE 2000 + n
TwoDigit(P) == IF Has(P, "C") THEN 100 * The(P, "C") + The(P, "y")
               ELSE IF Has(P, "Y") THEN 100 * (The(P, "Y") \div 100) + The(P, "y") ELSE Pivot(The(P, "y"))
HasYear(P) == Has(P, "Y") \/ Has(P, "y")
TheYear(P) == IF Has(P, "Y") THEN The(P, "Y") ELSE TwoDigit(P)
HasIso(P) == Has(P, "G") \/ Has(P, "g")
TheIso(P) == IF Has(P, "G") THEN The(P, "G") ELSE Pivot(The(P, "g"))
Contradicts(P) == \/ \E c \in Codes(P) : Cardinality(Given(P, c)) > 1
                  \/ Cardinality(WdGiven(P)) > 1 \/ (\E n \in Given(P, "u") : n \notin 1..7) \/ (\E n \in Given(P, "w") : n \notin 0..6)
                  \/ (Has(P, "Y") /\ Has(P, "y") /\ TwoDigit(P) # The(P, "Y"))
NoDay == -99999999
FromMonday(w) == (w + 6) % 7
IsoStart(g) == LET z == DayNum(g, 1, 4) IN z - FromMonday(WeekDay(z))
TheDay(P) ==
    IF HasIso(P) /\ Has(P, "V") /\ HasWd(P) THEN IsoStart(TheIso(P)) + 7 * (The(P, "V") - 1) + FromMonday(TheWd(P))
    ELSE IF ~HasYear(P) THEN NoDay
    ELSE IF Has(P, "U") /\ HasWd(P) THEN NthWeekday(TheYear(P), 1, 0, 1) + 7 * (The(P, "U") - 1) + TheWd(P)
    ELSE IF Has(P, "W") /\ HasWd(P) THEN NthWeekday(TheYear(P), 1, 1, 1) + 7 * (The(P, "W") - 1) + FromMonday(TheWd(P))
    ELSE IF Has(P, "j") THEN DayNum(TheYear(P), 1, 1) + The(P, "j") - 1
    ELSE IF Has(P, "m") /\ Has(P, "d") /\ ValidYmd(TheYear(P), The(P, "m"), The(P, "d")) THEN DayNum(TheYear(P), The(P, "m"), The(P, "d")) ELSE NoDay
YearOf(z) == LET g == 1970 + (z * 400) \div 146097 IN CHOOSE y \in (g - 2)..(g + 2) : DayNum(y, 1, 1) <= z /\ z < DayNum(y + 1, 1, 1)
MonthOf(z) == LET y == YearOf(z) IN CHOOSE m \in 1..12 : DayNum(y, m, 1) <= z /\ z < DayNum(y, m, 1) + MonthLen(y, m)
YmdOf(z) == <<YearOf(z), MonthOf(z), z - DayNum(YearOf(z), MonthOf(z), 1) + 1>>
Fits(P, z) == LET v == YmdOf(z) F == [y |-> v[1], m |-> v[2], d |-> v[3], w |-> 8] IN
    /\ (HasYear(P) => TheYear(P) = F.y) /\ (Has(P, "m") => The(P, "m") = F.m) /\ (Has(P, "d") => The(P, "d") = F.d)
    /\ (HasWd(P) => TheWd(P) = WeekDay(z)) /\ (Has(P, "j") => The(P, "j") = YDay(F) + 1)
    /\ (Has(P, "U") => The(P, "U") = SunWeek(F)) /\ (Has(P, "W") => The(P, "W") = MonWeek(F))
    /\ (Has(P, "V") => The(P, "V") = IsoWeek(F)) /\ (HasIso(P) => TheIso(P) = IsoYear(F))
DateOk(P) == TheDay(P) # NoDay /\ Fits(P, TheDay(P))
HourOk(P) == Has(P, "I") => /\ The(P, "I") \in 1..12
                            /\ IF Has(P, "p") THEN (Has(P, "H") => The(P, "H") = Hour24(The(P, "I"), The(P, "p") = 1))
                               ELSE Has(P, "H") /\ The(P, "H") % 12 = The(P, "I") % 12
TheHour(P) == IF Has(P, "H") THEN The(P, "H") ELSE IF Has(P, "I") THEN Hour24(The(P, "I"), The(P, "p") = 1) ELSE 0
Or0(P, c) == IF Has(P, c) THEN The(P, c) ELSE 0
TheSec(P) == 3600 * TheHour(P) + 60 * Or0(P, "M") + Or0(P, "S")
ClockOk(P) == HourOk(P) /\ TheHour(P) < 24 /\ Or0(P, "M") < 60 /\ Or0(P, "S") < 60
\* ------------------------------------------------------------------ acceptance and result by the type to be read
Accepts(k, P) == ~Contradicts(P) /\ (HasYear(P) => TheYear(P) \in -32767..32767) /\
    CASE k = "year"  -> HasYear(P)
      [] k = "month" -> Has(P, "m") /\ IsMonth(The(P, "m"))
      [] k = "day"   -> Has(P, "d") /\ The(P, "d") \in 1..31
      [] k = "wd"    -> HasWd(P)
      [] k = "ym"    -> HasYear(P) /\ Has(P, "m") /\ IsMonth(The(P, "m"))
      [] k = "md"    -> Has(P, "m") /\ Has(P, "d") /\ ValidYmd(2000, The(P, "m"), The(P, "d"))
      [] k = "ymd"   -> DateOk(P)
      [] k \in {"sys", "local"} -> DateOk(P) /\ ClockOk(P)
      [] k = "dur"   -> HourOk(P) /\ \E c \in {"H", "I", "M", "S", "j"} : Has(P, c)
Parsed(k, P) ==
    CASE k = "year"  -> <<TheYear(P)>>
      [] k = "month" -> <<The(P, "m")>>
      [] k = "day"   -> <<The(P, "d")>>
      [] k = "wd"    -> <<TheWd(P)>>
      [] k = "ym"    -> <<TheYear(P), The(P, "m")>>
      [] k = "md"    -> <<The(P, "m"), The(P, "d")>>
      [] k = "ymd"   -> YmdOf(TheDay(P))
\* day and second of the day, o minutes before the given ones
Shifted(z, s, o) == LET t == s - 60 * o IN <<z + t \div 86400, t % 86400>>
ParseOk(r) ==
    IF r.bad \/ ~Accepts(r.k, r.p) THEN r.fail /\ r.keep
    ELSE /\ ~r.fail /\ r.rest /\ r.keep
         /\ CASE r.k = "sys"   -> r.v = Shifted(TheDay(r.p), TheSec(r.p), IF r.off = -99999 THEN 0 ELSE r.off) \o <<r.sub>>
              [] r.k = "local" -> r.v = <<TheDay(r.p), TheSec(r.p), r.sub>>
              [] r.k = "dur"   -> r.v = <<TheSec(r.p) + 86400 * Or0(r.p, "j"), r.sub>>
              [] OTHER         -> r.v = Parsed(r.k, r.p)
         /\ (r.off # -99999 => r.ooff = r.off) /\ (r.zone # "?" => r.ozone = r.zone)
=============================================================================

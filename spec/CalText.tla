------------------------------ MODULE CalText ------------------------------
(* Calendar values and times as text in the C locale: the stream insertion operators and the conversion       *)
(* specifications of format() and to_stream().                                                                 *)
EXTENDS Calendar
Digits(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3 ELSE IF n < 10000 THEN 4 ELSE IF n < 100000 THEN 5
             ELSE IF n < 1000000 THEN 6 ELSE IF n < 10000000 THEN 7 ELSE IF n < 100000000 THEN 8 ELSE IF n < 1000000000 THEN 9 ELSE 10
Zeros == <<"", "0", "00", "000", "0000", "00000", "000000", "0000000", "00000000", "000000000">>
Pad(n, w) == (IF Digits(n) >= w THEN "" ELSE Zeros[w - Digits(n) + 1]) \o ToString(n)
Pad2(n) == Pad(n, 2)
SpacePad2(n) == (IF n < 10 THEN " " ELSE "") \o ToString(n)
WdFull == <<"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday">>
WdAbbr == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
MonFull == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
MonAbbr == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
\* ------------------------------------------------------------------ operator<<
YearText(y) == IF y < 0 THEN "-" \o Pad(-y, 4) ELSE Pad(y, 4)
MonthText(m) == IF IsMonth(m) THEN MonAbbr[m] ELSE ToString(m)
WdText(w) == IF IsWd(w) THEN WdAbbr[w + 1] ELSE ToString(w)
WdiText(w, i) == WdText(w) \o "[" \o ToString(i) \o "]"
Plain(k, v) ==
    CASE k = "day"   -> Pad2(v[1])
      [] k = "month" -> MonthText(v[1])
      [] k = "year"  -> YearText(v[1])
      [] k = "wd"    -> WdText(v[1])
      [] k = "wdi"   -> WdiText(v[1], v[2])
      [] k = "wdl"   -> WdText(v[1]) \o "[last]"
      [] k = "ym"    -> YearText(v[1]) \o "/" \o MonthText(v[2])
      [] k = "md"    -> MonthText(v[1]) \o "/" \o Pad2(v[2])
      [] k = "mdl"   -> MonthText(v[1]) \o "/last"
      [] k = "mwd"   -> MonthText(v[1]) \o "/" \o WdiText(v[2], v[3])
      [] k = "mwdl"  -> MonthText(v[1]) \o "/" \o WdText(v[2]) \o "[last]"
      [] k = "ymd"   -> YearText(v[1]) \o "-" \o Pad2(v[2]) \o "-" \o Pad2(v[3])
      [] k = "ymdl"  -> YearText(v[1]) \o "/" \o MonthText(v[2]) \o "/last"
      [] k = "ymwd"  -> YearText(v[1]) \o "/" \o MonthText(v[2]) \o "/" \o WdiText(v[3], v[4])
      [] k = "ymwdl" -> YearText(v[1]) \o "/" \o MonthText(v[2]) \o "/" \o WdText(v[3]) \o "[last]"
TypeName(k) == CASE k = "day" -> "day" [] k = "month" -> "month" [] k = "year" -> "year" [] k = "wd" -> "weekday" [] k = "wdi" -> "weekday_indexed"
                 [] k = "wdl" -> "weekday_last" [] k = "ym" -> "year_month" [] k = "md" -> "month_day" [] k = "mdl" -> "month_day_last" [] k = "mwd" -> "month_weekday"
                 [] k = "mwdl" -> "month_weekday_last" [] k = "ymd" -> "year_month_day" [] k = "ymdl" -> "year_month_day_last" [] k = "ymwd" -> "year_month_weekday"
                 [] k = "ymwdl" -> "year_month_weekday_last"
Shown(k, v) == Plain(k, v) \o (IF Exists(k, v) THEN "" ELSE " is not a valid " \o TypeName(k))
\* a time of day or duration t: [neg, sec, sub, den], sub/den of a second
SecText(t) == Pad2(t.sec % 60) \o (IF FracWidth(t.den) = 0 THEN "" ELSE "." \o Pad(Subsec(t.sub, t.den), FracWidth(t.den)))
HmsText(t) == (IF t.neg THEN "-" ELSE "") \o Pad2(t.sec \div 3600) \o ":" \o Pad2((t.sec \div 60) % 60) \o ":" \o SecText(t)
CountText(t) == (IF t.neg THEN "-" ELSE "") \o
    (IF FracWidth(t.den) = 0 THEN ToString(t.sec) ELSE LET u == Subsec(t.sub, t.den) IN
        IF t.sec = 0 THEN ToString(u) ELSE ToString(t.sec) \o Pad(u, FracWidth(t.den)))
UnitText(w) == CASE w = 0 -> "s" [] w = 1 -> "ds" [] w = 2 -> "cs" [] w = 3 -> "ms" [] w = 6 -> "us" [] w = 9 -> "ns"
\* ------------------------------------------------------------------ conversion specifications
\* F: [y, m, d, w, tod, neg, sec, sub, den, off, zone]; a missing year is -32768, month or day 0, weekday 8, offset -99999, zone "?"
HasDate(F) == IsYear(F.y) /\ ValidYmd(F.y, F.m, F.d)
Weekday(F) == IF HasDate(F) THEN WeekDay(DayNum(F.y, F.m, F.d)) ELSE F.w
YDay(F) == DayNum(F.y, F.m, F.d) - DayNum(F.y, 1, 1)
SunWeek(F) == (YDay(F) + 7 - Weekday(F)) \div 7
MonWeek(F) == (YDay(F) + 7 - ((Weekday(F) + 6) % 7)) \div 7
\* ISO week: the week belongs to the year of its Thursday
Thu(F) == DayNum(F.y, F.m, F.d) - ((Weekday(F) + 6) % 7) + 3
IsoYear(F) == IF Thu(F) < DayNum(F.y, 1, 1) THEN F.y - 1 ELSE IF Thu(F) >= DayNum(F.y + 1, 1, 1) THEN F.y + 1 ELSE F.y
IsoWeek(F) == ((Thu(F) - DayNum(IsoYear(F), 1, 1)) \div 7) + 1
Century(y) == IF y >= 0 THEN Pad2(y \div 100) ELSE "-" \o Pad2((-y + 99) \div 100)
YY(y) == Pad2(Abs(y) % 100)
Hr(F) == F.sec \div 3600
Mi(F) == (F.sec \div 60) % 60
AmPm(F) == IF Hr(F) < 12 THEN "AM" ELSE "PM"
DateSlash(F) == Pad2(F.m) \o "/" \o Pad2(F.d) \o "/" \o YY(F.y)
ClockText(F) == Pad2(Hr(F)) \o ":" \o Pad2(Mi(F)) \o ":" \o Pad2(F.sec % 60)
Offset(F, sep) == (IF F.off < 0 THEN "-" ELSE "+") \o Pad2(Abs(F.off) \div 60) \o sep \o Pad2(Abs(F.off) % 60)
WeekdayItems == {"%a", "%A", "%u", "%Ou", "%w", "%Ow"}
MonthItems == {"%b", "%B", "%h", "%m", "%Om"}
DayItems == {"%d", "%e", "%Od", "%Oe"}
YearItems == {"%y", "%Y", "%C", "%Ey", "%Oy", "%EY", "%EC"}
DateItems == {"%D", "%F", "%g", "%G", "%x", "%Ex", "%U", "%OU", "%V", "%OV", "%W", "%OW"}
TimeItems == {"%H", "%OH", "%I", "%OI", "%M", "%OM", "%S", "%OS", "%p", "%r", "%R", "%T", "%X", "%EX", "%Q", "%q"}
Missing(F, i) ==
    CASE i \in WeekdayItems -> ~HasDate(F) /\ ~IsWd(F.w)
      [] i \in MonthItems -> ~IsMonth(F.m)
      [] i \in DayItems -> F.d \notin 1..31
      [] i \in YearItems -> ~IsYear(F.y)
      [] i \in DateItems -> ~HasDate(F)
      [] i \in {"%c", "%Ec"} -> ~HasDate(F) \/ ~F.tod
      [] i = "%j" -> ~HasDate(F) /\ ~F.tod
      [] i \in TimeItems -> ~F.tod
      [] i \in {"%z", "%Ez", "%Oz"} -> F.off = -99999
      [] i = "%Z" -> F.zone = "?"
      [] OTHER -> FALSE
ItemText(F, i) ==
    CASE i = "%a" -> WdAbbr[Weekday(F) + 1]
      [] i = "%A" -> WdFull[Weekday(F) + 1]
      [] i \in {"%u", "%Ou"} -> ToString(IF Weekday(F) = 0 THEN 7 ELSE Weekday(F))
      [] i \in {"%w", "%Ow"} -> ToString(Weekday(F))
      [] i \in {"%b", "%h"} -> MonAbbr[F.m]
      [] i = "%B" -> MonFull[F.m]
      [] i \in {"%m", "%Om"} -> Pad2(F.m)
      [] i \in {"%d", "%Od"} -> Pad2(F.d)
      [] i \in {"%e", "%Oe"} -> SpacePad2(F.d)
      [] i \in {"%y", "%Ey", "%Oy"} -> YY(F.y)
      [] i \in {"%Y", "%EY"} -> YearText(F.y)
      [] i \in {"%C", "%EC"} -> Century(F.y)
      [] i \in {"%D", "%x", "%Ex"} -> DateSlash(F)
      [] i = "%F" -> YearText(F.y) \o "-" \o Pad2(F.m) \o "-" \o Pad2(F.d)
      [] i = "%G" -> YearText(IsoYear(F))
      [] i = "%g" -> YY(IsoYear(F))
      [] i \in {"%V", "%OV"} -> Pad2(IsoWeek(F))
      [] i \in {"%U", "%OU"} -> Pad2(SunWeek(F))
      [] i \in {"%W", "%OW"} -> Pad2(MonWeek(F))
      [] i = "%j" -> IF HasDate(F) THEN Pad(YDay(F) + 1, 3) ELSE Pad(F.sec \div 86400, 3)
      [] i \in {"%c", "%Ec"} -> WdAbbr[Weekday(F) + 1] \o " " \o MonAbbr[F.m] \o " " \o SpacePad2(F.d) \o " " \o ClockText(F) \o " " \o YearText(F.y)
      [] i \in {"%H", "%OH"} -> Pad2(Hr(F))
      [] i \in {"%I", "%OI"} -> Pad2(Hour12(Hr(F)))
      [] i \in {"%M", "%OM"} -> Pad2(Mi(F))
      [] i = "%S" -> SecText(F)
      [] i = "%OS" -> Pad2(F.sec % 60)
      [] i = "%p" -> AmPm(F)
      [] i = "%r" -> Pad2(Hour12(Hr(F))) \o ":" \o Pad2(Mi(F)) \o ":" \o Pad2(F.sec % 60) \o " " \o AmPm(F)
      [] i = "%R" -> Pad2(Hr(F)) \o ":" \o Pad2(Mi(F))
      [] i = "%T" -> HmsText(F)
      [] i \in {"%X", "%EX"} -> ClockText(F)
      [] i = "%Q" -> CountText(F)
      [] i = "%q" -> UnitText(FracWidth(F.den))
      [] i = "%z" -> Offset(F, "")
      [] i \in {"%Ez", "%Oz"} -> Offset(F, ":")
      [] i = "%Z" -> F.zone
      [] i = "%n" -> "\n"
      [] i = "%t" -> "\t"
      [] i = "%%" -> "%"
      [] OTHER -> i                                \* ordinary text and what is no conversion specification
\* the sign of a negative duration goes in front of its first field
Signed == {"%H", "%OH", "%I", "%OI", "%M", "%OM", "%S", "%OS"}
RECURSIVE FmtText(_, _, _)
FmtText(F, items, pending) ==
    IF items = <<>> THEN ""
    ELSE LET i == items[1] sign == pending /\ i \in Signed IN
         (IF sign THEN "-" ELSE "") \o ItemText(F, i) \o FmtText(F, Tail(items), pending /\ ~sign)
FmtFails(F, items) == \E j \in 1..Len(items) : Missing(F, items[j])
=============================================================================

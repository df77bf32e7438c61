------------------------------- MODULE CalRec -------------------------------
(* Which recorded uses of the calendar types are allowed.                                                     *)
EXTENDS Calendar, RecLoop
CalOk(r) ==
    CASE r.f = "ok"   -> r.o = Exists(r.k, r.v) /\ r.v2 = r.v
      [] r.f = "cmp"  -> r.o = [j \in 1..Len(r.o) |-> IF Compared(r.a, r.b, Ordered(r.k))[j] THEN 1 ELSE 0]
                         /\ Len(r.o) = (IF Ordered(r.k) THEN 6 ELSE 2)
      [] r.f = "add"  -> LET p == Plus(r.k, r.u, r.v, r.n) q == Plus(r.k, r.u, r.v, -r.n) IN
                         r.o = <<p, p, p, q, q>> /\ r.ref
      [] r.f = "step" -> LET p == Plus(r.k, StepUnit(r.k), r.v, 1) q == Plus(r.k, StepUnit(r.k), r.v, -1) IN
                         r.o = <<p, p, r.v, p, q, q, r.v, q>> /\ r.ref
      [] r.f = "diff" -> r.o = Difference(r.k, r.a, r.b)
      [] r.f = "days" -> LET z == Days(r.k, r.v) IN r.o = <<z, z>>
      [] r.f = "from" -> /\ IsYmdOf(r.ymd, r.z) /\ r.lymd = r.ymd
                         /\ r.wd = <<WeekDay(r.z), WeekDay(r.z)>>
                         /\ r.ymwd = <<r.ymd[1], r.ymd[2], WeekDay(r.z), ((r.ymd[3] - 1) \div 7) + 1>> /\ r.lymwd = r.ymwd
      [] r.f = "lastday" -> r.o = <<r.v[1], r.v[2], MonthLen(r.v[1], r.v[2])>> /\ r.d = MonthLen(r.v[1], r.v[2])
      [] r.f = "comp" -> \A j \in 1..Len(r.o) : r.o[j] = r.v
      [] r.f = "const" -> /\ r.m = [j \in 1..12 |-> j] /\ r.ml = r.m /\ r.w = [j \in 1..7 |-> j - 1] /\ r.wl = r.w
                          /\ r.iso = <<7, 1, 2, 3, 4, 5, 6>> /\ r.wd7 = 0 /\ r.lim = <<-32767, 32767>> /\ r.lit = <<5, 2015>>
      [] r.f = "yr"   -> r.o = <<-r.y, r.y>> /\ r.leap = Leap(r.y)
      [] r.f = "rnd"  -> LET s == <<DivFloor(r.t, r.n, r.d), DivCeil(r.t, r.n, r.d), DivRound(r.t, r.n, r.d), DivTrunc(r.t, r.n, r.d)>> IN
                         \A j \in 1..Len(r.o) : r.o[j] = s
      [] r.f = "hms"  -> LET neg == r.neg /\ (r.sec > 0 \/ r.sub > 0) IN
                         /\ r.w = FracWidth(r.den) /\ r.o = TimeSplit(r.sec, r.sub, r.den) /\ r.isneg = neg
                         /\ r.back = <<IF neg THEN -r.sec ELSE r.sec, IF neg THEN -r.o[4] ELSE r.o[4]>> /\ r.back2 = r.back
                         /\ r.conv = (~neg /\ r.sec < 86400)
      [] r.f = "h12"  -> /\ r.o = Hour12(r.h) /\ r.am = (r.h < 12) /\ r.pm = (r.h >= 12) /\ r.back = r.h
      [] r.f = "h24"  -> r.o = <<Hour24(r.h, FALSE), Hour24(r.h, TRUE)>>
      [] r.f = "abs"  -> r.o = <<Abs(r.t), Abs(r.t)>>
=============================================================================

------------------------------- MODULE NumRec -------------------------------
(* Which recorded calls of the numeric functions are allowed.                                                 *)
EXTENDS NumFns, RecLoop
StatOk(r) == LET x == r.x n == Len(r.x) IN
    /\ r.ex /\ r.ii
    /\ AllEq(r.mean, MeanN(x)) /\ AllEq(r.var, VarN(x)) /\ AllEq(r.med, Median2(x))
    /\ AllEq(r.mn, MinOf(x)) /\ AllEq(r.mx, MaxOf(x))
    /\ (n > 0 => r.im = <<MinOf(x), MaxOf(x), MinOf(x), MaxOf(x), MinOf(x), MaxOf(x), SumSeq(x), Median2(x),
                          SumSq(x), SumSq(x), SumSq(x), SumSeq(x), SumSeq(x), Max2(0, MaxOf(x)), -SumSeq(x)>>)
StatxOk(r) == /\ r.ex /\ AllEq(r.mean, MeanN(r.x)) /\ AllEq(r.var, VarN(r.x)) /\ AllEq(r.sq, SumSq(r.x)) /\ AllEq(r.med, Median2(r.x))
              /\ AllEq(r.mn, MinOf(r.x)) /\ AllEq(r.mx, MaxOf(r.x))
DayOk(r) == /\ ValidYmd(r.y, r.m, r.d) /\ DayNum(r.y, r.m, r.d) = r.z /\ r.ok /\ r.back = r.z /\ r.lback = r.z
            /\ r.wd = WeekDay(r.z) /\ r.wwd = r.wd /\ r.wm = r.m /\ r.wback = r.z /\ r.wi = ((r.d - 1) \div 7) + 1
YmOk(r) == /\ r.leap = Leap(r.y) /\ r.last = MonthLen(r.y, r.m) /\ r.lz = DayNum(r.y, r.m, r.last)
           /\ r.ok = [d \in 1..34 |-> IF ValidYmd(r.y, r.m, d - 1) THEN 1 ELSE 0]
           /\ r.nth = [k \in 1..42 |-> LET w == (k - 1) \div 6 i == ((k - 1) % 6) + 1 IN
                          IF i = 6 THEN LastWeekday(r.y, r.m, w) ELSE NthWeekday(r.y, r.m, w, i)]
           /\ r.okn = [k \in 1..35 |-> LET w == (k - 1) \div 5 i == ((k - 1) % 5) + 1 IN
                          IF NthWeekday(r.y, r.m, w, i) <= DayNum(r.y, r.m, r.last) THEN 1 ELSE 0]
AddmOk(r) == LET b == AddMonths(r.y, r.m, r.k) c == AddMonths(r.y, r.m, -r.k) IN
    /\ r.by = b[1] /\ r.bm = b[2] /\ r.bd = r.d /\ r.cy = c[1] /\ r.cm = c[2] /\ r.ey = r.y + r.k
    /\ r.fm = b[2] /\ r.hm = c[2] /\ r.diff = r.k
    /\ r.w2 = ((r.m % 7) + r.k) % 7 /\ r.w3 = ((r.m % 7) - r.k) % 7 /\ r.wd = ((r.d % 7) - (r.m % 7)) % 7
HmsOk(r) == LET a == Abs(r.t) sec == r.t \div 1000 rem == r.t % 1000 IN
    /\ r.neg = (r.t < 0) /\ r.h = a \div 3600000 /\ r.mi = (a \div 60000) % 60 /\ r.s = (a \div 1000) % 60 /\ r.ss = a % 1000
    /\ r.fl = r.t \div 86400000 /\ r.ce = -((-r.t) \div 86400000)
    /\ r.ro = (IF rem < 500 \/ (rem = 500 /\ sec % 2 = 0) THEN sec ELSE sec + 1)
NumOk(r) ==
    CASE r.f = "int"  -> LET p == IntParse(r.s, r.bits, r.sg) IN r.has = p.has /\ r.o = p.text
      [] r.f = "bool" -> r.o = BoolParse(r.s)
      [] r.f = "flt"  -> FloatOk(r)
      [] r.f = "bit"  -> /\ r.s0 = BitOnly(r.w, r.b) /\ r.s = BitSet(r.x, r.b) /\ r.r = BitReset(r.x, r.b)
                         /\ r.fl = BitFlip(r.x, r.b) /\ r.t = (r.x[r.b + 1] = 1)
      [] r.f = "bitdef" -> r.o = BitOnly(32, r.b)
      [] r.f = "bitseq" -> r.o = BitSeq([k \in 1..64 |-> 0], r.ops)
      [] r.f = "bittype" -> r.same
      [] r.f = "bitdie" -> r.n = 5
      [] r.f = "bitref" -> ~r.any
      [] r.f = "endian" -> r.le = (r.first = 1) /\ r.be = (r.first = 0)
      [] r.f = "gcd"  -> r.g = Gcd(r.a, r.b) /\ r.l = Lcm(r.a, r.b)
      [] r.f = "orders" -> r.o = WithinOrders(r.a, r.b, r.n) /\ r.o2 = r.o
      [] r.f = "wabs" -> r.o = WithinAbs(r.a, r.b, r.t) /\ r.o2 = r.o
      [] r.f = "clamp" -> r.o = Clamp(r.v, r.lo, r.hi) /\ r.o2 = r.o /\ r.o3 = r.o /\ r.ab = Abs(r.v)
      [] r.f = "clampid" -> r.o = ClampId(r.v, r.lo, r.hi) /\ r.o2 = r.o /\ r.o3 = r.o
      [] r.f = "clampf" -> r.o = ClampF(r.v, r.lo, r.hi) /\ r.o2 = r.o /\ r.ab = AbsF(r.v)
      [] r.f = "ulp"  -> r.o = WithinUlp(r.kind, r.k, r.u) /\ r.o2 = r.o
      [] r.f = "fabs" -> SpecialOk(r)
      [] r.f = "stat" -> StatOk(r)
      [] r.f = "statx" -> StatxOk(r)
      [] r.f = "outl" -> LET W == Outliers(r.x, r.k)  V == {Pickx(r.x, w) : w \in W} IN
                         r.same /\ r.a \in V /\ r.b \in V /\ r.l \in V /\ r.c \in V /\ r.ids \in W
      [] r.f = "nan"  -> LET y == SelectSeq(r.x, LAMBDA v : v # -9) IN
                         AllEq(r.mn, IF y = <<>> THEN -9 ELSE MinOf(y)) /\ AllEq(r.mx, IF y = <<>> THEN -9 ELSE MaxOf(y))
      [] r.f = "day"  -> DayOk(r)
      [] r.f = "ym"   -> YmOk(r)
      [] r.f = "addm" -> AddmOk(r)
      [] r.f = "hms"  -> HmsOk(r)
=============================================================================

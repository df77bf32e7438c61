------------------------------ MODULE TextRec ------------------------------
(* Which recorded calls of the string functions are allowed.                                                  *)
EXTENDS TextFns, RecLoop
Big == 1000000
\* a position argument as recorded: -1 is npos, -2 is npos-1, -3 is npos/2: all beyond any string
Pos(p) == IF p < 0 THEN Big ELSE p
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Dec4(n) == <<48 + n \div 1000, 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
\* a number given by its digits to the base of 10000, the most significant first
NumText(l, neg) == (IF neg THEN <<45>> ELSE <<>>) \o Dec(l[1]) \o FlattenSeq([k \in 1..(Len(l) - 1) |-> Dec4(l[k + 1])])
Pad(t, n) == Rep(<<48>>, n - Len(t)) \o t
CatNum(r) == LET t == NumText(r.l, r.neg) IN
    CASE r.ty = "int1" -> t
      [] r.ty = "int2" -> <<60>> \o t
      [] r.ty \in {"int3", "long3"} -> <<60>> \o t \o <<62>>
      [] r.ty = "int4" -> <<60>> \o t \o <<62>> \o t
      [] r.ty = "ll4"  -> <<60>> \o t \o <<62, 48>> \o t
Aligned(h, w, left) == IF w <= Len(h) THEN h
                       ELSE IF left THEN h \o Rep(<<46>>, w - Len(h)) ELSE Rep(<<46>>, w - Len(h)) \o h
SubCmp(r) == IF Pos(r.p1) > Len(r.h) \/ Pos(r.p2) > Len(r.n) THEN 9
             ELSE Compare(SubStr(r.h, r.p1, r.n1), SubStr(r.n, r.p2, r.n2))
SvFind(r) == LET p == Pos(r.p) IN
    /\ r.fi = Find(r.h, r.n, p) /\ r.f2 = r.fi
    /\ r.ri = RFind(r.h, r.n, p) /\ r.r2 = r.ri
    /\ r.fo = FindFirstOf(r.h, r.n, p) /\ r.fo2 = r.fo
    /\ r.fn = FindFirstNotOf(r.h, r.n, p) /\ r.fn2 = r.fn
    /\ r.lo = FindLastOf(r.h, r.n, p) /\ r.lo2 = r.lo
    /\ r.ln = FindLastNotOf(r.h, r.n, p) /\ r.ln2 = r.ln
\* everything that can be searched for, from position p
Searches(h, n, p, q) == <<Find(h, n, p), RFind(h, n, q), FindFirstOf(h, n, p), FindFirstNotOf(h, n, p), FindLastOf(h, n, q), FindLastNotOf(h, n, q)>>
SixOf(c) == <<c = 0, c # 0, c < 0, c > 0, c <= 0, c >= 0>>
TextOk(r) ==
    CASE r.f = "escape"   -> r.o = Escape(r.s) /\ r.b = r.s
      [] r.f = "unescape" -> r.o = Unescape(r.s)
      [] r.f = "split"    -> LET e == Split(r.s, r.d) IN
                             /\ r.o = e /\ r.v = e /\ r.l = e /\ r.sm = e /\ r.q = e /\ r.in /\ r.j = r.s /\ r.jv = r.s
      [] r.f = "resplit"  -> \* a regex that matches the empty string is only required to end and to agree with itself
                             /\ r.v = r.o /\ r.q = r.o
                             /\ r.m # "star" => r.o = SplitRegex(r.s, r.set, r.m)
      [] r.f = "join"     -> r.o = Join(r.p, r.d) /\ r.v = r.o
      [] r.f = "tok"      -> LET e == Tokens(r.s, Chars(r.d)) IN r.o = e /\ r.v = e /\ r.l = e /\ r.sm = e /\ r.q = e /\ r.in
      [] r.f = "tokdef"   -> LET e == Tokens(r.s, Blank) IN r.o = e /\ r.v = e /\ r.l = e /\ r.sm = e /\ r.q = e /\ r.in
      [] r.f = "replace"  -> r.o = Replace(r.s, r.n, r.r) /\ r.p = r.o /\ r.ref
      [] r.f = "trim"     -> /\ r.o = Trim(r.s, Chars(r.w)) /\ r.ov = r.o
                             /\ r.l = TrimLeft(r.s, Chars(r.w)) /\ r.lv = r.l
                             /\ r.r = TrimRight(r.s, Chars(r.w)) /\ r.rv = r.r
      [] r.f = "trimdef"  -> /\ r.o = Trim(r.s, Blank) /\ r.ov = r.o
                             /\ r.l = TrimLeft(r.s, Blank) /\ r.lv = r.l
                             /\ r.r = TrimRight(r.s, Blank) /\ r.rv = r.r
      [] r.f \in {"sub", "subc"} ->
                             LET h == LowerStr(r.h) n == LowerStr(r.n) IN
                             /\ r.c = HasSub(r.h, r.n) /\ r.s = StartsWith(r.h, r.n) /\ r.e = EndsWith(r.h, r.n)
                             /\ r.cn = HasSub(h, n) /\ r.sn = StartsWith(h, n) /\ r.en = EndsWith(h, n)
                             /\ (r.f = "sub" => r.q = (h = n))
      [] r.f = "case"     -> /\ r.l = LowerStr(r.s) /\ r.li = r.l /\ r.lc = r.l
                             /\ r.u = UpperStr(r.s) /\ r.ui = r.u /\ r.uc = r.u /\ r.ref
      [] r.f = "cmp"      -> LET c == Compare(r.h, r.n) IN
                             /\ r.c = c /\ r.eq = (c = 0) /\ r.ne = (c # 0) /\ r.lt = (c < 0) /\ r.gt = (c > 0)
                             /\ r.le = (c <= 0) /\ r.ge = (c >= 0) /\ r.eq2 = r.eq /\ r.eq3 = r.eq /\ r.ne2 = r.ne
                             /\ r.lt2 = r.lt /\ r.gt2 = r.gt /\ r.le2 = r.le /\ r.ge2 = r.ge
      [] r.f = "cmpx"     -> LET c == Compare(r.h, r.n)  s == Searches(r.h, r.n, 0, Pos(-1))  l == Len(r.h) IN
                             /\ \A i \in 1..Len(r.m) : r.m[i] = SixOf(c)
                             /\ \A i \in 1..Len(r.c) : r.c[i] = c
                             /\ r.ap = r.h \o r.n /\ r.ref /\ r.o1 = r.h \o r.n /\ r.o2 = r.h \o r.n /\ r.o5 = r.h \o r.n \o r.h
                             /\ r.fd = s /\ r.fz \in {<<>>, s}
                             /\ r.x = r.n /\ r.y = r.h /\ r.k = r.n /\ r.lit = r.n /\ r.str = r.n /\ r.d
                             /\ (l > 0 => r.e = <<r.h[1], r.h[l], r.h[1], r.h[l], r.h[(l \div 2) + 1]>>)
                             /\ r.os = LET pad(w) == [i \in 1..(IF w > l THEN w - l ELSE 0) |-> 32] IN pad(Len(r.n)) \o r.h \o r.n \o pad(3) \o r.h
      [] r.f = "wide"     -> LET c == Compare(r.h, r.n) IN
                             /\ r.c = c /\ \A i \in 1..Len(r.m) : r.m[i] = SixOf(c)
                             /\ \A i \in 1..Len(r.fs) : r.fs[i] = <<r.fs[i][1]>> \o Searches(r.h, r.n, Pos(r.fs[i][1]), Pos(r.fs[i][1]))
                             /\ r.t = r.h /\ r.u = SubStr(r.h, Len(r.h) \div 2, 2)
      [] r.f = "find"     -> SvFind(r)
      [] r.f = "substr"   -> /\ r.x = (Pos(r.p) > Len(r.h)) /\ r.xc = r.x /\ r.in /\ r.cr
                             /\ (~r.x => r.o = SubStr(r.h, r.p, Pos(r.n)) /\ r.co = r.o /\ r.cn = Len(r.o))
      [] r.f = "at"       -> LET p == Min2(Pos(r.p), Len(r.h)) IN
                             /\ r.o = (IF p < Len(r.h) THEN r.h[p + 1] ELSE -2)
                             /\ r.rp = Sub(r.h, p, Len(r.h) - p) /\ r.rs = Sub(r.h, 0, Len(r.h) - p)
                             /\ r.it = r.h /\ r.ri = Reverse(r.h) /\ r.sz = Len(r.h) /\ r.em = (r.h = <<>>) /\ r.st = r.h
                             /\ r.os = Aligned(r.h, r.w, r.left) \o <<124>>
      [] r.f = "cmp5"     -> /\ r.o = SubCmp(r)
                             /\ (r.p2 = 0 => r.o3 = (IF Pos(r.p1) > Len(r.h) THEN 9 ELSE Compare(SubStr(r.h, r.p1, r.n1), r.n)))
      [] r.f = "cat"      -> r.o = FlattenSeq(r.p)
      [] r.f = "catnum"   -> r.o = CatNum(r)
      [] r.f = "catflt"   -> \* k / 64, with six decimals
                             r.o = <<60>> \o (IF r.neg THEN <<45>> ELSE <<>>) \o Dec(r.k \div 64) \o <<46>> \o Pad(Dec((r.k % 64) * 15625), 6) \o <<62>>
      [] r.f = "repeat"   -> r.o = (IF r.s = <<>> THEN <<>> ELSE Rep(r.s, r.n))
      [] r.f = "safe"     -> LET P(k) == r.s[k + 1] = 0
                                 e == FirstFrom(P, 0, r.n - 1)
                             IN r.o = Sub(r.s, 0, IF e = None THEN r.n ELSE e)
      [] r.f = "safenull" -> r.o = <<>>
      [] r.f = "hexstr"   -> /\ r.o = Join([k \in 1..Len(r.e) |-> HexVal8(r.e[k])], r.sep) /\ r.o2 = r.o
                             /\ r.o3 = (IF r.e = <<>> THEN <<>> ELSE HexVal8(r.e[1]))
      [] r.f = "hexdump"  -> /\ r.same
                             /\ r.o = HexDump(r.e, r.w, r.pr) \o
                                      (IF Len(r.e) > MaxDump THEN Rep(<<32>>, Len(r.pr)) \o Truncated ELSE <<>>)
=============================================================================

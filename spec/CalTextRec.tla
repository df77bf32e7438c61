----------------------------- MODULE CalTextRec -----------------------------
(* Which recorded conversions of calendar values to and from text are allowed.                                *)
EXTENDS CalParse, RecLoop
TextSame(s, v) == \A j \in 1..Len(s) : s[j] = v
CalTextOk(r) ==
    IF r.f = "parse" THEN ParseOk(r) ELSE
    CASE r.f = "out"  -> TextSame(r.o, Shown(r.k, r.v)) /\ r.keep
      [] r.f = "outt" -> /\ TextSame(r.o, (IF r.date = <<>> THEN "" ELSE Plain("ymd", r.date) \o " ") \o HmsText(r)) /\ r.keep
      [] r.f = "outd" -> r.o = ToString(r.n) \o r.u
      [] r.f = "fmt"  -> IF FmtFails(r, r.fmt) THEN \A j \in 1..Len(r.fail) : r.fail[j] = 1
                         ELSE /\ \A j \in 1..Len(r.fail) : r.fail[j] = 0
                              /\ TextSame(r.o, FmtText(r, r.fmt, r.neg)) /\ r.keep
=============================================================================

------------------------------- MODULE MetaFns -------------------------------
(* What may be invoked with what, what happens then and of which type the result is (the INVOKE rules of the *)
(* standard), and how types are spelled.                                                                      *)
EXTENDS Naturals, Integers, Sequences, TLC
\* ------------------------------------------------------------------ the object expression an argument stands for
\* [ok, cat (l: lvalue, x: rvalue), const, derived]
Obj(o) == CASE o = "A&"    -> [ok |-> TRUE, cat |-> "l", const |-> FALSE, derived |-> FALSE]
            [] o = "cA&"   -> [ok |-> TRUE, cat |-> "l", const |-> TRUE,  derived |-> FALSE]
            [] o = "D&"    -> [ok |-> TRUE, cat |-> "l", const |-> FALSE, derived |-> TRUE]
            [] o = "cD&"   -> [ok |-> TRUE, cat |-> "l", const |-> TRUE,  derived |-> TRUE]
            [] o = "A"     -> [ok |-> TRUE, cat |-> "x", const |-> FALSE, derived |-> FALSE]
            [] o = "cA"    -> [ok |-> TRUE, cat |-> "x", const |-> TRUE,  derived |-> FALSE]
            [] o = "D"     -> [ok |-> TRUE, cat |-> "x", const |-> FALSE, derived |-> TRUE]
            \* pointers of any kind and reference wrappers denote lvalues whatever their own category is
            [] o \in {"A*", "refA"}   -> [ok |-> TRUE, cat |-> "l", const |-> FALSE, derived |-> FALSE]
            [] o \in {"cA*", "refcA"} -> [ok |-> TRUE, cat |-> "l", const |-> TRUE,  derived |-> FALSE]
            [] o \in {"D*", "refD"}   -> [ok |-> TRUE, cat |-> "l", const |-> FALSE, derived |-> TRUE]
            [] o \in {"U", "int", "null"} -> [ok |-> FALSE, cat |-> "l", const |-> FALSE, derived |-> FALSE]
\* ------------------------------------------------------------------ member functions: qualifiers, parameters, results
ObjFits(k, e) == CASE k \in {"fn", "fv"} -> ~e.const
                   [] k = "fc"  -> TRUE
                   [] k = "fl"  -> ~e.const /\ e.cat = "l"
                   [] k = "fr"  -> ~e.const /\ e.cat = "x"
                   [] k = "fcr" -> e.cat = "x"
                   [] k = "fcl" -> TRUE
ArgsFit(k, a) == CASE k \in {"fn", "fr", "fv", "free1", "Fun&", "cFun&", "Fun", "cFun"} -> a \in {"il", "cl", "rv"}
                   [] k \in {"fc", "freer"} -> a = "il"
                   [] k = "fl"  -> a = "rv"
                   [] k \in {"fcr", "free0"} -> a = "none"
                   [] k = "fcl" -> a = "two"
                   [] k = "nothing" -> FALSE
Result(k) == CASE k \in {"fn", "freer"} -> "l" [] k = "fc" -> "cl" [] k \in {"fl", "fcl", "fv", "free1", "Fun&"} -> "v" [] k \in {"fr", "Fun"} -> "r"
               [] k \in {"fcr", "free0", "cFun"} -> "void" [] k = "cFun&" -> "long"
Code(k, derived) == CASE k = "fn" -> 1 [] k = "fc" -> 2 [] k = "fl" -> 3 [] k = "fr" -> 4 [] k = "fcr" -> 5 [] k = "fcl" -> 6
                      [] k = "fv" -> (IF derived THEN 8 ELSE 7)
                      [] k = "Fun&" -> 11 [] k = "cFun&" -> 12 [] k = "Fun" -> 13 [] k = "cFun" -> 14 [] k = "free1" -> 15 [] k = "free0" -> 16 [] k = "freer" -> 17
Modifies(k) == k \in {"fc", "fl", "freer"}                   \* these add 100 to the caller's argument
ArgSum(a) == CASE a \in {"il", "cl", "rv"} -> 7 [] a = "two" -> 9 [] OTHER -> -1
Returned(k) == CASE Result(k) = "void" -> -1 [] k \in {"fn", "fc", "fl", "fr", "fcl", "fv"} -> 41 [] k = "free1" -> 5 [] k = "freer" -> 107
                 [] k = "Fun&" -> 1 [] k = "cFun&" -> 2 [] k = "Fun" -> 0
\* results of category c that convert to int, long, int&, int&&, const int&, string
ConvOk(r, inv, c) ==
    /\ r.inv = inv /\ r.res = (IF inv THEN c ELSE "none")
    /\ r.rv = inv
    /\ r.ri = (inv /\ c # "void") /\ r.rl = r.ri /\ r.rc = r.ri
    /\ r.rr = (inv /\ c = "l")
    /\ r.rx = (inv /\ c \in {"v", "r", "long"})
    /\ r.rs = FALSE
CallOk(r, inv, derived) ==
    /\ ConvOk(r, inv, IF inv THEN Result(r.k) ELSE "none")
    /\ IF inv THEN /\ r.ret = Returned(r.k) /\ r.code = Code(r.k, derived) /\ r.same
                   /\ r.val = ArgSum(r.a) /\ r.after = (IF Modifies(r.k) THEN 107 ELSE 7)
       ELSE r.ret = -7 /\ r.code = 0
InvokeOk(r) == LET e == Obj(r.o) IN CallOk(r, e.ok /\ ObjFits(r.k, e) /\ ArgsFit(r.k, r.a), e.derived)
FreeOk(r) == CallOk(r, ArgsFit(r.k, r.a), FALSE)
\* member objects: a reference to the member with the category and constness of the object
DataOk(r) == LET e == Obj(r.o)  c == e.const \/ r.k = "cm" IN
    /\ ConvOk(r, e.ok, IF e.cat = "l" THEN (IF c THEN "cl" ELSE "l") ELSE (IF c THEN "cr" ELSE "r"))
    /\ r.same = e.ok /\ ~r.two
\* ------------------------------------------------------------------ spelling of types (as GCC prints them)
EndsInBracket(t) == t[1] = "t" \/ (t[1] \in {"c", "v", "cv"} /\ t[2][1] = "t")
Qual(q) == CASE q = "c" -> "const" [] q = "v" -> "volatile" [] q = "cv" -> "const volatile"
Sign(q) == CASE q = "p" -> "*" [] q = "l" -> "&" [] q = "r" -> "&&"
RECURSIVE Pre(_), Post(_, _), Commas(_)
Spell(t) == Pre(t) \o Post(t, TRUE)
Commas(ts) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN Spell(ts[1]) ELSE Spell(ts[1]) \o ", " \o Commas(Tail(ts))
Pre(t) == CASE t[1] = "b" -> t[2]
            [] t[1] \in {"c", "v", "cv"} -> IF t[2][1] = "p" THEN Pre(t[2]) \o " " \o Qual(t[1]) ELSE Qual(t[1]) \o " " \o Pre(t[2])
            [] t[1] \in {"p", "l", "r"} -> Pre(t[2]) \o (IF t[2][1] \in {"a", "f"} THEN " (" ELSE "") \o Sign(t[1])
            [] t[1] \in {"a", "f"} -> Pre(t[2])
            [] t[1] = "t" -> t[2] \o "<" \o Commas(t[3]) \o (IF t[3] # <<>> /\ EndsInBracket(t[3][Len(t[3])]) THEN " >" ELSE ">")
Post(t, direct) == CASE t[1] \in {"b", "t"} -> ""
            [] t[1] \in {"c", "v", "cv"} -> Post(t[2], direct)
            [] t[1] \in {"p", "l", "r"} -> IF t[2][1] \in {"a", "f"} THEN ")" \o Post(t[2], FALSE) ELSE Post(t[2], direct)
            [] t[1] = "a" -> (IF direct THEN " [" ELSE "[") \o t[3] \o "]" \o Post(t[2], FALSE)
            [] t[1] = "f" -> "(" \o Commas(t[3]) \o ")" \o Post(t[2], FALSE)
MetaOk0(r) ==
    CASE r.f = "invoke" -> InvokeOk(r)
      [] r.f = "call"   -> FreeOk(r)
      [] r.f = "data"   -> DataOk(r)
      [] r.f = "cont"   -> r.o = (r.b = 1 /\ r.e = 1 /\ r.v = 1) /\ r.oc = r.o
      [] r.f = "conts"  -> (\A k \in 1..Len(r.y) : r.y[k] = 1) /\ (\A k \in 1..Len(r.n) : r.n[k] = 0)
      [] r.f = "cvref"  -> r.same /\ r.vt
      [] r.f = "mono"   -> r.eq /\ ~r.ne /\ ~r.lt /\ ~r.gt /\ r.le /\ r.ge /\ r.h /\ r.e
      [] r.f = "tname"  -> r.o = Spell(r.t)
=============================================================================

------------------------------- MODULE MetaRec -------------------------------
(* Which recorded uses of the metaprogramming helpers are allowed.                                            *)
EXTENDS MetaFns, RecLoop
MetaOk(r) == MetaOk0(r)
=============================================================================

---------------------------- MODULE VariantHist ---------------------------
EXTENDS Histories
V == INSTANCE Variant
HStart(h) == V!VStart(h)
HAllowed(h, x, e) == V!VAllowed(h, x, e)
HAfter(h, x, e) == V!VAfter(h, x, e)
=============================================================================

--------------------------- MODULE FinalizerHist ---------------------------
EXTENDS Histories
F == INSTANCE Finalizer
HStart(h) == F!FStart(h)
HAllowed(h, x, e) == F!FAllowed(h, x, e)
HAfter(h, x, e) == F!FAfter(h, x, e)
=============================================================================

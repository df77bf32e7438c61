---------------------------- MODULE SlidingHist ----------------------------
EXTENDS Histories
CONSTANT Asp
S == INSTANCE SlidingTrace
HStart(h) == S!SStart(h)
HAllowed(h, x, e) == S!SAllowed(h, x, e)
HAfter(h, x, e) == S!SAfter(h, x, e)
=============================================================================

---------------------------- MODULE ExpectedHist ----------------------------
EXTENDS Histories
X == INSTANCE Expected
HStart(h) == X!EStart(h)
HAllowed(h, x, e) == X!EAllowed(h, x, e)
HAfter(h, x, e) == X!EAfter(h, x, e)
=============================================================================

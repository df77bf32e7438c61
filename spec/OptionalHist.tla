---------------------------- MODULE OptionalHist ----------------------------
EXTENDS Histories
O == INSTANCE Optional
HStart(h) == O!OStart(h)
HAllowed(h, x, e) == O!OAllowed(h, x, e)
HAfter(h, x, e) == O!OAfter(h, x, e)
=============================================================================

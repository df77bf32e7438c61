------------------------------ MODULE SpanHist ------------------------------
EXTENDS Histories
S == INSTANCE Span
HStart(h) == S!SpStart(h)
HAllowed(h, x, e) == S!SpAllowed(h, x, e)
HAfter(h, x, e) == S!SpAfter(h, x, e)
=============================================================================

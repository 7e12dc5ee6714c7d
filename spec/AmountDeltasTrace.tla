------------------------- MODULE AmountDeltasTrace -------------------------
EXTENDS AmountDeltas, TraceBase
=============================================================================

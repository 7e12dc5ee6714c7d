--------------------------- MODULE CountersTrace ---------------------------
EXTENDS Counters, TraceBase
=============================================================================

------------------------- MODULE EventHandlersTrace -------------------------
EXTENDS EventHandlers, TraceBase
=============================================================================

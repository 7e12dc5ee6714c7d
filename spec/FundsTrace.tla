----------------------------- MODULE FundsTrace -----------------------------
EXTENDS Funds, TraceBase
=============================================================================

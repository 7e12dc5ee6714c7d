---------------------------- MODULE DeltasTrace ----------------------------
EXTENDS Deltas, TraceBase
=============================================================================

----------------------------- MODULE PoolsTrace -----------------------------
EXTENDS Pools, Layers, TraceBase
=============================================================================

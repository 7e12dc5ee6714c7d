----------------------------- MODULE OrdersTrace -----------------------------
EXTENDS Orders, Layers, TraceBase
=============================================================================

----------------------------- MODULE TokensTrace -----------------------------
EXTENDS Tokens, Layers, TraceBase
=============================================================================

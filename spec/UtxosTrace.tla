----------------------------- MODULE UtxosTrace -----------------------------
EXTENDS Utxos, Layers, TraceBase
=============================================================================

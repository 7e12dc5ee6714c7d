------------------------- MODULE StorageConcTrace -------------------------
EXTENDS StorageConc, TraceBase
============================================================================

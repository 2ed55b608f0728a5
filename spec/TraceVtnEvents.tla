--------------------------- MODULE TraceVtnEvents ---------------------------
EXTENDS VtnEvents, TraceCore
InitOf(cfg) == Init0
=============================================================================

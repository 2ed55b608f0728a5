--------------------------- MODULE TraceVtnService ---------------------------
EXTENDS VtnService, TraceCore
=============================================================================

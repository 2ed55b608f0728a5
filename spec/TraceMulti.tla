--------------------------- MODULE TraceMulti ---------------------------
EXTENDS Multi, TraceCore
=============================================================================

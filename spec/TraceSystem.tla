--------------------------- MODULE TraceSystem ---------------------------
EXTENDS System, TraceCore
=============================================================================

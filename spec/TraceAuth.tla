--------------------------- MODULE TraceAuth ---------------------------
EXTENDS Auth, TraceCore
=============================================================================

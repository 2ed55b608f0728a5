--------------------------- MODULE TraceVenEvents ---------------------------
EXTENDS VenEvents, TraceCore
=============================================================================

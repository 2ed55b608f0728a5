--------------------------- MODULE TraceVenSession ---------------------------
EXTENDS VenSession, TraceCore
=============================================================================

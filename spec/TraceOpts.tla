--------------------------- MODULE TraceOpts ---------------------------
EXTENDS Opts, TraceCore
=============================================================================

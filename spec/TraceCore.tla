------------------------------ MODULE TraceCore ------------------------------
(***************************************************************************
 Validation of a batch of recorded executions against a specification that is
 given as a function: TApply(s, a) is the specified transition and output for
 action a, TClauses(s, a, x, o) the set of clauses that the observed output o
 violates when x was expected.  The verdict is total: a mismatch is recorded
 and validation goes on with the next trace; nothing can block.
 Each trace is [cfg, steps], each step [a |-> action, o |-> observed output].
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS TInit(_), TApply(_, _), TClauses(_, _, _, _)

Batch == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES st, ti, si, nbad
tvars == <<st, ti, si, nbad>>

TraceSInit == /\ ti = 1 /\ si = 1 /\ nbad = 0
              /\ st = IF Len(Batch) = 0 THEN <<>> ELSE TInit(Batch[1].cfg)

Fresh(i) == IF i <= Len(Batch) THEN TInit(Batch[i].cfg) ELSE <<>>

\* a trace was accepted up to its end
NextTrace == /\ ti <= Len(Batch) /\ si > Len(Batch[ti].steps)
             /\ ti' = ti + 1 /\ si' = 1 /\ st' = Fresh(ti + 1) /\ UNCHANGED nbad

TakeStep ==
  /\ ti <= Len(Batch) /\ si <= Len(Batch[ti].steps)
  /\ LET step == Batch[ti].steps[si]
         r == TApply(st, step.a)
         cl == TClauses(st, step.a, r.out, step.o)
     IN IF cl = {}
        THEN /\ st' = r.s /\ si' = si + 1 /\ UNCHANGED <<ti, nbad>>
        ELSE /\ PrintT("VERDICT " \o ToJson([trace |-> ti, step |-> si, clauses |-> cl, expected |-> r.out]))
             /\ ti' = ti + 1 /\ si' = 1 /\ st' = Fresh(ti + 1) /\ nbad' = nbad + 1

AllDone == /\ ti > Len(Batch) /\ si = 1
        /\ PrintT("ACCEPTED " \o ToString(Len(Batch) - nbad))
        /\ si' = 2 /\ UNCHANGED <<st, ti, nbad>>

TraceNext == NextTrace \/ TakeStep \/ AllDone
TraceSpec == TraceSInit /\ [][TraceNext]_tvars
=============================================================================

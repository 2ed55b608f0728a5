---------------------------- MODULE MCVtnService ----------------------------
EXTENDS VtnService, Json, Randomization

CONSTANTS Kinds, Vens, Modes, Lookups, Exts, Bares, Knows, MaxLen, MaxBatch, Wrong, MaxReps, MaxRds, Emit

VARIABLES s, act, out, h
vars == <<s, act, out, h>>

Init == /\ \E m \in Modes, l \in Lookups, e \in Exts, b \in Bares :
             s = Init0([vtn |-> "VTN1", poll |-> 10, lookup |-> l, ext |-> e, mode |-> m, bare |-> b,
                        qh |-> TRUE, crh |-> TRUE, urh |-> TRUE, hooks |-> TRUE])
        /\ act = [op |-> "init"] /\ out = [posts |-> <<>>, stray |-> <<>>] /\ h = <<>>

Do(a) == /\ Len(h) < MaxLen
         /\ LET r == Apply(s, a)
            IN s' = r.s /\ act' = a /\ out' = r.out
               /\ h' = Append(h, IF h = <<>> THEN a @@ [cfg |-> s.cfg] ELSE a)

Some(S) == IF Emit /\ Cardinality(S) > 1 THEN RandomSubset(2, S) ELSE S
One(S) == IF Emit /\ Cardinality(S) > 1 THEN RandomSubset(1, S) ELSE S

----------------------------------------------------------------------------
(* Messages *)

Echo == {"query", "create", "cancelreg", "reqevent", "regreport", "update", "distribute", "createreport",
         "cancelreport", "createopt", "cancelopt"}
NoVen == {"query", "distribute", "createdopt", "bad"}
MaybeVen == {"create", "cancelreg", "regreport", "createdreport", "registeredreport"}
Outcome(k) == [k |-> k, code |-> ""]
Failures == {Outcome("exc"), [k |-> "perr", code |-> "463"]}
Msg(kind, v, r) == [svc |-> IF Home(kind) = "none" THEN "EiReport" ELSE Home(kind), kind |-> kind, ven |-> v, vtn |-> "",
                    rq |-> IF kind \in Echo THEN "r" \o ToString(Len(h)) ELSE "", r |-> r]

Evs == {<<[id |-> "e1", mod |-> 0, st |-> "far", prio |-> 0, start |-> 90000, dur |-> 60]>>,
        <<[id |-> "e1", mod |-> 1, st |-> "active", prio |-> 2, start |-> -600, dur |-> 360000],
          [id |-> "e2", mod |-> 1, st |-> "far", prio |-> 1, start |-> 90000, dur |-> 60],
          [id |-> "e3", mod |-> 0, st |-> "active", prio |-> 1, start |-> -60, dur |-> 360000]>>}

\* reports offered: which data points are asked for, how often and by whom
DataPoint(r, n, k, samp, back) ==
  [r |-> r, reading |-> "Direct Read", d |-> "d",
   res |-> [k |-> k, cb |-> "cb" \o r \o ToString(n), samp |-> samp, back |-> back]]
Points(n) ==
  LET one(r) == {DataPoint(r, n, k, samp, back) : k \in IF Emit THEN {"ok", "none", "bad"} ELSE {"ok", "none"},
                samp \in IF Emit THEN One({10, 60}) ELSE {10}, back \in IF Emit THEN One({-1, 60}) ELSE {-1}}
  IN {<<d>> : d \in one("a")} \cup (IF MaxRds < 2 THEN {} ELSE {<<d, e>> : d \in one("a"), e \in one("b")})
OfferedReports(n, i) ==
  {[spec |-> "sp" \o ToString(i), name |-> nm, rds |-> ps, d |-> "d",
    full |-> [k |-> fk, es |-> IF x THEN Map(ps, LAMBDA d : d.res @@ [r |-> d.r]) \o <<ps[1].res @@ [r |-> "nope"]>> ELSE <<>>]] :
   nm \in IF Emit THEN One({"METADATA_TELEMETRY_USAGE", "METADATA_HISTORY_USAGE", "METADATA_TELEMETRY_STATUS"})
          ELSE {"METADATA_TELEMETRY_USAGE", "METADATA_HISTORY_USAGE"}, ps \in Points(n),
   fk \in IF s.cfg.mode = "full" THEN {"list", "none"} ELSE {"list"}, x \in IF s.cfg.mode = "full" THEN BOOLEAN ELSE {TRUE}}
Offer == {<<>>} \cup {<<r>> : r \in Some(OfferedReports(s.n, 1))}
         \cup (IF MaxReps < 2 THEN {} ELSE {<<r, q>> : r \in Some(OfferedReports(s.n, 1)), q \in One(OfferedReports(s.n + 10, 2))})

\* what is reported for a request
Made == {"q" \o ToString(i) : i \in 1..s.n} \cup {"nothing"}
Iv(r, t, v) == [t |-> t, r |-> r, v |-> v]
Filled == {<<>>, <<Iv("a", "0", "1")>>, <<Iv("b", "0", "2"), Iv("a", "10", "1"), Iv("b", "10", "3")>>, <<Iv("nope", "0", "1"), Iv("a", "0", "5")>>}
Reported == {[req |-> q, iv |-> iv] : q \in Some(Made), iv \in Some(Filled)}
Updates == {<<>>} \cup {<<r>> : r \in Reported} \cup (IF MaxReps < 2 THEN {} ELSE {<<r, q>> : r \in One(Reported), q \in One(Reported)})

Plain(kind, v) ==
  CASE kind = "query" -> {Msg(kind, "", r) : r \in Failures \cup {Outcome("ok") @@ [poll |-> 77]}}
    [] kind = "create" -> {Msg(kind, v, r) @@ [who |-> "w"] :
                           r \in Failures \cup {Outcome(k) @@ [ven |-> v, reg |-> "reg1"] : k \in {"ok", "none", "false"}}}
    [] kind = "cancelreg" -> {Msg(kind, v, r) @@ [reg |-> "reg1"] : r \in Failures \cup {Outcome("none"), Outcome("ok") @@ [reg |-> "mine"]}}
    [] kind = "regreport" -> {Msg(kind, v, r) @@ [reports |-> reps] : r \in Failures \cup {Outcome("ok")}, reps \in Offer}
    [] kind = "createdreport" -> {Msg(kind, v, r) @@ [ids |-> "i"] : r \in Failures \cup {Outcome("ok")}}
    [] kind = "update" -> {Msg(kind, v, r) @@ [reports |-> reps] : r \in Failures \cup {Outcome("ok")}, reps \in Updates}
    [] kind = "poll" -> {Msg(kind, v, r) : r \in Failures \cup {Outcome("none")} \cup {Outcome("events") @@ [evs |-> e] : e \in Evs}
                                             \cup {Outcome("msg") @@ [t |-> "oadrCancelReport", pay |-> "id1"]}}
    [] kind = "reqevent" -> {Msg(kind, v, r) : r \in Failures \cup {Outcome("none")} \cup {Outcome("events") @@ [evs |-> e] : e \in Evs}}
    [] kind = "createdevent" -> {Msg(kind, v, r) @@ [resps |-> q] : r \in Failures \cup {Outcome("ok")},
                                 q \in {<<>>, <<[id |-> "e1", mod |-> 0, opt |-> "optIn"], [id |-> "e2", mod |-> 1, opt |-> "optOut"]>>}}
    [] kind \in {"distribute", "createdpartyreg"} ->
         {[Msg(kind, v, Outcome("none")) EXCEPT !.vtn = x] : x \in {"other", s.cfg.vtn}}
    [] kind = "bad" -> {Msg(kind, v, Outcome("none")) @@ [what |-> w] : w \in {"schema", "ctype"}}
    [] OTHER -> {Msg(kind, v, Outcome("none"))}

\* message that names no VEN, or arrives at another endpoint
Whose(kind) == IF kind \in NoVen THEN {""} ELSE One(Vens) \cup (IF kind \in MaybeVen THEN One({""}) ELSE {})
Where(p) == {p} \cup (IF Wrong /\ p.r.k \in {"none", "ok"} THEN {[p EXCEPT !.svc = x] : x \in One({"EiEvent", "OadrPoll"})} ELSE {})
Menu == UNION {UNION {UNION {Where(p) : p \in Some(Plain(k, v))} : v \in Whose(k)} : k \in One(Kinds)}

Learn == s.cfg.lookup /\ \E v \in Vens, k \in Knows : Do([op |-> "know", v |-> v, k |-> k])
Single == \E p \in Menu : Do([op |-> "post", posts |-> <<p>>])
\* messages that arrive together: reports are for requests that have been made before
Batch == MaxBatch > 1 /\ \E p \in Menu : \E q \in Menu : Do([op |-> "post", posts |-> <<p, q>>])

Next == Learn \/ Single \/ Batch
WriteDown == Emit /\ Len(h) = MaxLen /\ PrintT("BEHAVIOUR " \o ToJson(h)) /\ UNCHANGED vars

Spec == Init /\ [][Next \/ WriteDown]_vars
View == <<s, Len(h)>>
Inv == RequestsOk(s)
StepOk == [][DesignOk(s, s', act', out')]_vars
=============================================================================

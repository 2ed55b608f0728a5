------------------------------ MODULE VtnService ------------------------------
(***************************************************************************
 How a VTN answers the messages it is sent: openleadr/service/*.py, server.py
 and messaging.py, without events of the built-in queue (VtnEvents) and without
 TLS (Auth).

 cfg  vtn, poll: the VTN's id and requested poll interval
      lookup: it has a VEN lookup;  ext: the application has its own poll handler
      mode: style of the report registration handler ("compact", "full", "none")
      bare: the application has set no other handlers;  qh, crh, urh: it has set
      on_query_registration, on_created_report, on_update_report
      hooks: it has registered hooks for the messages
 state
   known  ven -> what the lookup says: "none", "noreg", "reg", "raise"
   cb     the callbacks of report requests [rid, r, cb]
   n      how many report requests have been made

 An action "post" is a batch of messages that arrive together; which order they are
 carried out in makes no difference.  A message is [svc, kind, ven, vtn, rq, r, ...]:
 endpoint, message type, the ids it names ("" = none), its own request id ("" if
 this type has none) and what the application is going to do about it.
 ***************************************************************************)
EXTENDS Util

Init0(cfg) == [cfg |-> cfg, known |-> Empty, cb |-> {}, n |-> 0]

NoAns == [t |-> "", code |-> "", rq |-> "", ven |-> "", vtn |-> "", poll |-> -1, reg |-> "", reqs |-> <<>>,
          evs |-> <<>>, pay |-> ""]
Http(n) == [NoAns EXCEPT !.t = "HTTP" \o ToString(n)]
Resp(p, t, code) == [NoAns EXCEPT !.t = t, !.code = code, !.rq = p.rq, !.ven = p.ven]
Call(h, ven, x) == [h |-> h, ven |-> ven, x |-> x, vals |-> <<>>]

Home(kind) ==
  CASE kind \in {"query", "create", "cancelreg"} -> "EiRegisterParty"
    [] kind \in {"regreport", "createdreport", "registeredreport", "update"} -> "EiReport"
    [] kind = "poll" -> "OadrPoll"
    [] kind \in {"reqevent", "createdevent"} -> "EiEvent"
    [] OTHER -> "none"

ErrAns(s, p, code) ==
  CASE p.kind = "create" -> [Resp(p, "oadrCreatedPartyRegistration", code) EXCEPT !.vtn = s.cfg.vtn]
    [] p.kind = "reqevent" -> [Resp(p, "oadrDistributeEvent", code) EXCEPT !.vtn = s.cfg.vtn, !.ven = ""]
    [] OTHER -> Resp(p, "oadrResponse", code)

\* the result of one message: new state, answer, calls of application handlers (free: some of them may be left out)
R(s, ans, calls, free) == [s |-> s, ans |-> ans, calls |-> calls, free |-> free]
Fails(p) == p.r.k \in {"exc", "perr"}
Failed(s, p) == IF p.r.k = "exc" THEN Http(500) ELSE ErrAns(s, p, p.r.code)

----------------------------------------------------------------------------
(* Registration *)

Info(s, p, ven, reg, poll) == [Resp(p, "oadrCreatedPartyRegistration", "200") EXCEPT
                               !.ven = ven, !.vtn = s.cfg.vtn, !.reg = reg, !.poll = poll]

Query(s, p) ==
  IF s.cfg.bare \/ ~s.cfg.qh THEN R(s, Info(s, p, "", "", s.cfg.poll), <<>>, FALSE)
  ELSE R(s, IF Fails(p) THEN Failed(s, p) ELSE Info(s, p, "", "", p.r.poll), <<Call("query", "", p.rq)>>, FALSE)

Create(s, p) ==
  LET reject == Info(s, p, p.ven, "", s.cfg.poll) IN
  IF s.cfg.bare THEN R(s, reject, <<>>, FALSE)
  ELSE R(s, CASE Fails(p) -> Failed(s, p)
              [] p.r.k = "ok" -> Info(s, p, p.r.ven, p.r.reg, s.cfg.poll)
              [] p.r.k = "true" -> Http(500)
              [] OTHER -> reject,
         <<Call("create", p.ven, p.who)>>, FALSE)

CancelReg(s, p) ==
  LET done(reg) == [Resp(p, "oadrCanceledPartyRegistration", "200") EXCEPT !.reg = reg] IN
  IF s.cfg.bare THEN R(s, done(p.reg), <<>>, FALSE)
  ELSE R(s, CASE Fails(p) -> Failed(s, p) [] p.r.k = "ok" -> done(p.r.reg) [] OTHER -> done(p.reg),
         <<Call("cancel", p.ven, p.reg)>>, FALSE)

----------------------------------------------------------------------------
(* Reports *)

Offered(rep) == rep.name \in {"METADATA_TELEMETRY_USAGE", "METADATA_TELEMETRY_STATUS"}
Rids(rep) == {d.r : d \in Range(rep.rds)}

\* what the application asks for in answer to an offered report, as [r, cb, samp, back], in order
Wanted(s, rep) ==
  IF ~Offered(rep) \/ s.cfg.mode = "none" THEN <<>>
  ELSE IF s.cfg.mode = "compact"
  THEN LET good == SelectSeq(rep.rds, LAMBDA d : d.res.k = "ok")
       IN Map(good, LAMBDA d : [r |-> d.r, cb |-> d.res.cb, samp |-> d.res.samp, back |-> d.res.back])
  ELSE IF rep.full.k # "list" THEN <<>>
  ELSE SelectSeq(rep.full.es, LAMBDA e : e.k = "ok" /\ e.r \in Rids(rep))

Request(rep, q, w) ==
  LET samp == MinOf({e.samp : e \in Range(w)})
      backs == {e.back : e \in Range(w)} \ {-1}
  IN [q |-> q, spec |-> rep.spec, gran |-> samp, back |-> IF backs = {} THEN samp ELSE CHOOSE b \in backs : TRUE,
      items |-> Map(w, LAMBDA e : [r |-> e.r, reading |-> rep.rds[First(rep.rds, LAMBDA d : d.r = e.r)].reading])]

Offers(s, p) ==
  Concat(Map(p.reports, LAMBDA rep :
     IF ~Offered(rep) \/ s.cfg.mode = "none" THEN <<>>
     ELSE IF s.cfg.mode = "compact" THEN Map(rep.rds, LAMBDA d : Call("offer", p.ven, d.d))
     ELSE <<Call("offer", "", rep.d)>>))

RegReport(s, p) ==
  IF p.reports = <<>> THEN R(s, Resp(p, "oadrRegisteredReport", "200"), <<>>, FALSE)
  ELSE IF p.ven = "" THEN R(s, Resp(p, "oadrResponse", "452"), <<>>, FALSE)
  ELSE
  LET offers == Offers(s, p)
      asked == SelectSeq([i \in DOMAIN p.reports |-> i], LAMBDA i : Wanted(s, p.reports[i]) # <<>>)
      q(j) == "q" \o ToString(s.n + j)
      reqs == [j \in DOMAIN asked |-> Request(p.reports[asked[j]], q(j), Wanted(s, p.reports[asked[j]]))]
      cbs == UNION {{[rid |-> q(j), r |-> e.r, cb |-> e.cb] : e \in Range(Wanted(s, p.reports[asked[j]]))} : j \in DOMAIN asked}
  IN IF Fails(p) /\ offers # <<>> THEN R(s, Failed(s, p), offers, TRUE)
     ELSE R([s EXCEPT !.cb = @ \cup cbs, !.n = @ + Len(asked)],
            [Resp(p, "oadrRegisteredReport", "200") EXCEPT !.reqs = reqs], offers, FALSE)

CreatedReport(s, p) ==
  IF p.ven = "" THEN R(s, Resp(p, "oadrResponse", "452"), <<>>, FALSE)
  ELSE IF s.cfg.bare \/ ~s.cfg.crh THEN R(s, Resp(p, "oadrResponse", "200"), <<>>, FALSE)
  ELSE R(s, IF Fails(p) THEN Failed(s, p) ELSE Resp(p, "oadrResponse", "200"), <<Call("created_report", p.ven, p.ids)>>, FALSE)

RegisteredReport(s, p) == R(s, Resp(p, "oadrResponse", IF p.ven = "" THEN "452" ELSE "200"), <<>>, FALSE)

RECURSIVE FirstSeen(_)
FirstSeen(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o FirstSeen(SelectSeq(Tail(q), LAMBDA y : y # Head(q)))
Vals(iv, r) == Map(SelectSeq(iv, LAMBDA i : i.r = r), LAMBDA i : [t |-> i.t, v |-> i.v])
HasCb(s, req, r) == \E c \in s.cb : c.rid = req /\ c.r = r
CbOf(s, req, r) == (CHOOSE c \in s.cb : c.rid = req /\ c.r = r).cb

UpdateCalls(s, p) ==
  IF s.cb = {}
  THEN IF s.cfg.bare \/ ~s.cfg.urh THEN <<>>
       ELSE Map(p.reports, LAMBDA rep : [Call("update", "", rep.req) EXCEPT !.vals = Map(rep.iv, LAMBDA i : [t |-> i.t, v |-> i.v])])
  ELSE Concat(Map(p.reports, LAMBDA rep :
         LET rs == SelectSeq(FirstSeen(Map(rep.iv, LAMBDA i : i.r)), LAMBDA r : HasCb(s, rep.req, r))
         IN Map(rs, LAMBDA r : [Call(CbOf(s, rep.req, r), "", "") EXCEPT !.vals = Vals(rep.iv, r)])))

Update(s, p) ==
  LET calls == UpdateCalls(s, p)
  IN IF Fails(p) /\ calls # <<>> THEN R(s, Failed(s, p), calls, TRUE)
     ELSE R(s, Resp(p, "oadrUpdatedReport", "200"), calls, FALSE)

----------------------------------------------------------------------------
(* Polls and events *)

Events(s, p, evs) == [Resp(p, "oadrDistributeEvent", "200") EXCEPT !.ven = "", !.vtn = s.cfg.vtn, !.evs = evs]

Poll(s, p) ==
  IF ~s.cfg.ext THEN R(s, Resp(p, "oadrResponse", "200"), <<>>, FALSE)
  ELSE R(s, CASE Fails(p) -> Failed(s, p)
              [] p.r.k = "none" -> Resp(p, "oadrResponse", "200")
              [] p.r.k = "events" -> Events(s, p, p.r.evs)
              [] p.r.k = "msg" -> [NoAns EXCEPT !.t = p.r.t, !.ven = p.ven, !.pay = p.r.pay],
         <<Call("poll", p.ven, "")>>, FALSE)

\* what on_request_event hands over gets the status it has by now (no event in these executions ends)
Fresh(evs) == Map(evs, LAMBDA e : IF e.st = "cancelled" THEN e ELSE [e EXCEPT !.st = IF e.start < 0 THEN "active" ELSE "far"])
\* active events first, by priority (0 is the lowest) and start; the others by start
InOrder(evs) ==
  SortBy(evs, LAMBDA e : IF e.st = "active" THEN (IF e.prio = 0 THEN 99 ELSE e.prio) * 100000 + e.start
                         ELSE 20000000 + e.start)

ReqEvent(s, p) ==
  IF ~s.cfg.ext THEN R(s, Resp(p, "oadrResponse", "200"), <<>>, FALSE)
  ELSE R(s, CASE Fails(p) -> Failed(s, p)
              [] p.r.k = "none" -> Resp(p, "oadrResponse", "200")
              [] p.r.k = "events" -> Events(s, p, InOrder(Fresh(p.r.evs))),
         <<Call("reqevent", p.ven, "")>>, FALSE)

CreatedEvent(s, p) ==
  IF ~s.cfg.ext THEN R(s, Resp(p, "oadrResponse", IF p.resps = <<>> THEN "200" ELSE "452"), <<>>, FALSE)
  ELSE LET calls == Map(p.resps, LAMBDA r : Call("created", p.ven, r.id \o "|" \o r.opt))
       IN IF Fails(p) /\ calls # <<>> THEN R(s, Failed(s, p), calls, TRUE)
          ELSE R(s, Resp(p, "oadrResponse", "200"), calls, FALSE)

----------------------------------------------------------------------------
Says(s, v) == Get(s.known, v, "none")
LooksUp(s, p) == s.cfg.lookup /\ p.kind \notin {"query", "create"} /\ p.ven # ""

\* what comes before the application: what it answers, or "" if the message gets through
Early(s, p) ==
  CASE p.kind = "bad" -> "400"
    [] p.kind = "resp" -> "empty"
    [] p.vtn # "" /\ p.vtn # s.cfg.vtn -> "452"
    [] LooksUp(s, p) /\ Says(s, p.ven) = "raise" -> "500"
    [] LooksUp(s, p) /\ Says(s, p.ven) # "reg" -> "rereg"
    [] Home(p.kind) # p.svc -> "459"
    [] OTHER -> ""

Serve(s, p) ==
  LET e == Early(s, p) IN
  CASE e = "400" -> R(s, Http(400), <<>>, FALSE)
    [] e = "empty" -> R(s, [NoAns EXCEPT !.t = "EMPTY"], <<>>, FALSE)
    [] e \in {"452", "459"} -> R(s, Resp(p, "oadrResponse", e), <<>>, FALSE)
    [] e = "500" -> R(s, Http(500), <<>>, FALSE)
    [] e = "rereg" -> R(s, [NoAns EXCEPT !.t = "oadrRequestReregistration", !.ven = p.ven], <<>>, FALSE)
    [] p.kind = "query" -> Query(s, p)
    [] p.kind = "create" -> Create(s, p)
    [] p.kind = "cancelreg" -> CancelReg(s, p)
    [] p.kind = "regreport" -> RegReport(s, p)
    [] p.kind = "createdreport" -> CreatedReport(s, p)
    [] p.kind = "registeredreport" -> RegisteredReport(s, p)
    [] p.kind = "update" -> Update(s, p)
    [] p.kind = "poll" -> Poll(s, p)
    [] p.kind = "reqevent" -> ReqEvent(s, p)
    [] p.kind = "createdevent" -> CreatedEvent(s, p)

\* the hooks of the VTN: what is received, what is handled, how, and what is answered
Hooks(s, p, ans) ==
  LET e == Early(s, p)
      failed == e = "" /\ (ans.t = "HTTP500" \/ ans.code \notin {"", "200"})
  IN (IF p.kind = "bad" /\ p.what = "ctype" THEN <<>> ELSE <<"parse">>)
     \o (IF e \in {"", "459"} THEN <<"handle">> ELSE <<>>)
     \o (IF e \in {"", "459"} /\ ~failed THEN <<"handled">> ELSE <<>>)
     \o <<"respond">>

RECURSIVE ServeAll(_, _)
ServeAll(s, ps) ==
  IF ps = <<>> THEN [s |-> s, out |-> <<>>]
  ELSE LET r == Serve(s, Head(ps))
           rest == ServeAll(r.s, Tail(ps))
       IN [s |-> rest.s, out |-> <<[ans |-> r.ans, calls |-> r.calls, free |-> r.free, hooks |-> Hooks(s, Head(ps), r.ans)]>> \o rest.out]

Apply(s, a) ==
  CASE a.op = "know" -> [s |-> [s EXCEPT !.known = Put(@, a.v, a.k)], out |-> [posts |-> <<>>, stray |-> <<>>]]
    [] a.op = "add" -> [s |-> s, out |-> [posts |-> <<>>, stray |-> <<>>]]
    [] a.op = "post" -> LET r == ServeAll(s, a.posts) IN [s |-> r.s, out |-> [posts |-> r.out, stray |-> <<>>]]

----------------------------------------------------------------------------
(* Properties of the design *)

Seen(o) == [i \in DOMAIN o.posts |-> [ans |-> o.posts[i].ans, calls |-> o.posts[i].calls]]

\* C11: a VEN that has to register again reaches nothing and changes nothing
ReregOk(s, t, a, o) ==
  \A i \in DOMAIN a.posts :
    LET p == a.posts[i] IN
    /\ (o.posts[i].ans.t = "oadrRequestReregistration" => o.posts[i].calls = <<>> \/ p.kind = "poll")
    /\ (s.cfg.lookup /\ p.kind \notin {"query", "create", "bad", "resp"} /\ p.ven # "" /\ p.vtn \in {"", s.cfg.vtn}
        /\ Says(s, p.ven) \in {"none", "noreg"}
        => o.posts[i].ans = [NoAns EXCEPT !.t = "oadrRequestReregistration", !.ven = p.ven])

\* C12: no id is used twice, and nothing is requested twice within a request
RequestsOk(s) == \A c, d \in s.cb : c.rid = d.rid /\ c.r = d.r => c = d

\* C15: what the callbacks get is exactly what was reported for them
ValuesOk(s, p, calls) ==
  s.cb # {} =>
    LET meant == Concat(Map(p.reports, LAMBDA rep : SelectSeq(rep.iv, LAMBDA i : HasCb(s, rep.req, i.r))))
    IN SumSeq(Map(calls, LAMBDA c : Len(c.vals))) = Len(meant)

\* C20: messages that fail make no difference to the others
Harmless(s, p) == Early(s, p) # "" \/ Fails(p)
FailuresOk(s, t, a, o) ==
  LET I == SelectSeq([i \in DOMAIN a.posts |-> i], LAMBDA i : ~Harmless(s, a.posts[i]))
      r == ServeAll(s, [j \in DOMAIN I |-> a.posts[I[j]]])
  IN r.s = t /\ [j \in DOMAIN I |-> r.out[j].ans] = [j \in DOMAIN I |-> o.posts[I[j]].ans]

DesignOk(s, t, a, o) ==
  a.op = "post" =>
    /\ Len(o.posts) = Len(a.posts)
    /\ ReregOk(s, t, a, o)
    /\ FailuresOk(s, t, a, o)
    /\ \A i \in DOMAIN a.posts : a.posts[i].kind = "update" /\ Early(s, a.posts[i]) = "" => ValuesOk(s, a.posts[i], o.posts[i].calls)

----------------------------------------------------------------------------
Ofkind(s, p) ==
  CASE p.kind \in {"query", "create"} -> {"C09"}
    [] p.kind = "cancelreg" -> {"C10"}
    [] p.kind = "regreport" -> {"C12"}
    [] p.kind = "update" -> {"C15"}
    [] p.kind \in {"poll", "reqevent", "createdevent"} /\ s.cfg.ext -> {"C23"}
    [] OTHER -> {}

Rereg == "oadrRequestReregistration"
Frame(an) == <<an.t, an.code, an.rq, an.ven, an.vtn>>
PostClauses(s, p, x, o) ==
  LET early == Early(s, p)
      calls == ~x.free /\ x.calls # o.calls
      ans == x.ans # o.ans
      again == (x.ans.t = Rereg) # (o.ans.t = Rereg)
  IN (IF s.cfg.hooks /\ x.hooks # o.hooks THEN {"C20"} ELSE {}) \cup
     IF ~ans /\ ~calls THEN {}
     ELSE (IF early = "rereg" \/ (again /\ early = "") THEN {"C11"} ELSE {})
          \cup (IF Frame(x.ans) # Frame(o.ans) \/ (early # "" /\ calls) THEN {"C20"} ELSE {})
          \cup (IF early \in {"", "rereg"} THEN Ofkind(s, p) ELSE {})
          \cup (IF calls /\ p.kind \in {"regreport", "update"} /\ early = "" THEN {"C24"} ELSE {})
          \cup (IF p.kind \in {"poll", "reqevent"} /\ s.cfg.ext /\ x.ans.evs # o.ans.evs THEN {"C23"} ELSE {})

Clauses(s, a, x, o) ==
  IF a.op # "post" THEN (IF o = x THEN {} ELSE {"C20", "C23"})
  ELSE IF Len(o.posts) # Len(x.posts) THEN {"C20"}
  ELSE (IF o.stray # <<>> THEN {"C20"} ELSE {})
       \cup UNION {PostClauses(ServeAll(s, SubSeq(a.posts, 1, i - 1)).s, a.posts[i], x.posts[i], o.posts[i]) : i \in DOMAIN a.posts}
=============================================================================

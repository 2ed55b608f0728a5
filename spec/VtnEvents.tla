------------------------------ MODULE VtnEvents ------------------------------
(***************************************************************************
 The VTN's built-in event queue: openleadr/server.py (add_event,
 add_raw_event, cancel_event), service/poll_service.py (poll) and
 service/event_service.py (request_event, created_event), utils.py
 (order_events, determine_event_status).

 The state s is a record:
   now   virtual time in seconds
   q     ven -> sequence of event ids, in the order in which they were added
   ev    <<ven, id>> -> [mod, prio, start, dur, ramp, st, c]   (ramp = -1: none;
           st = stored status, "cancelled" is final; c = content, opaque)
   upd   ven -> BOOLEAN: a change was not announced by a poll yet
   done  ven -> ids of completed events
   cb    <<ven, id>> -> how the response callback behaves
   dcb   <<ven, id>> -> how the delivery callback behaves
   pr    pid -> a request that is suspended in an application callback
   chg   history: <<ven, id>> -> modification number that no poll announced yet
   cnt   history: <<ven, id>> -> number of callback calls
   gone  history: <<ven, id>> retired for good

 Apply(s, a) is the transition for action a; it yields the next state and the
 observable output: application calls, HTTP replies and exceptions raised.

 Callback behaviours: "none", "sync" (returns), "async" (coroutine that
 returns), "gate" (coroutine that waits until it is resumed), "raise",
 "future" (a future instead of a callback).
 ***************************************************************************)
EXTENDS Util

CONSTANTS Hist      \* TRUE: maintain the history variables (off in trace validation)

Init0 == [now |-> 0, q |-> Empty, ev |-> Empty, upd |-> Empty, done |-> Empty, cb |-> Empty, dcb |-> Empty,
          pr |-> Empty, chg |-> Empty, cnt |-> Empty, gone |-> {}]

NoOut == [calls |-> <<>>, replies |-> <<>>, err |-> FALSE]

Q(s, v) == Get(s.q, v, <<>>)
Upd(s, v) == Get(s.upd, v, FALSE)
Done(s, v) == Get(s.done, v, {})

----------------------------------------------------------------------------
(* Status and order: utils.determine_event_status, utils.order_events *)

TimeStatus(e, now) ==
  IF now >= e.start + e.dur /\ e.dur > 0 THEN "completed"
  ELSE IF now >= e.start THEN "active"
  ELSE IF e.ramp >= 0 /\ now >= e.start - e.ramp THEN "near"
  ELSE "far"

Status(e, now) == IF e.st = "cancelled" THEN "cancelled" ELSE TimeStatus(e, now)

LowestPriority == 1000000000
PrioKey(e) == IF e.prio = 0 THEN LowestPriority ELSE e.prio

Ordered(s, v) ==     \* after the statuses were refreshed
  LET E(id) == s.ev[<<v, id>>]
      act == SelectSeq(Q(s, v), LAMBDA id : E(id).st = "active")
      oth == SelectSeq(Q(s, v), LAMBDA id : E(id).st # "active")
      byStart(x) == SortBy(x, LAMBDA id : E(id).start)
  IN SortBy(byStart(act), LAMBDA id : PrioKey(E(id))) \o byStart(oth)

Refresh(s, v) ==
  [s EXCEPT !.ev = [k \in DOMAIN s.ev |->
     IF k[1] = v /\ k[2] \in Range(Q(s, v)) THEN [s.ev[k] EXCEPT !.st = Status(s.ev[k], s.now)] ELSE s.ev[k]]]

----------------------------------------------------------------------------
(* Requests.  A request runs until it finishes or waits in a callback ("gate").
   p: [kind, v, pid, list, i, opts]; Run* return [s, out]. *)

Step(s, calls, replies) == [s |-> s, out |-> [calls |-> calls, replies |-> replies, err |-> FALSE]]

EvOut(s, v, id) == LET e == s.ev[<<v, id>>] IN [id |-> id, mod |-> e.mod, st |-> e.st, c |-> e.c]

Reply(p, type, code, events) == [pid |-> p.pid, type |-> type, code |-> code, events |-> events]

\* A request that fails because an application callback raised
Fail(s, p, calls) ==
  LET s1 == [s EXCEPT !.pr = Del(@, p.pid)]
  IN Step(IF p.kind = "poll" THEN [s1 EXCEPT !.upd = Put(@, p.v, TRUE)] ELSE s1,
          calls, <<Reply(p, "HTTP500", "", <<>>)>>)

Finish(s, p, calls) ==
  LET evs == Map(p.list, LAMBDA id : EvOut(s, p.v, id))
      comp == {id \in Range(p.list) \cap Range(Q(s, p.v)) : s.ev[<<p.v, id>>].st = "completed"}
      s1 == [s EXCEPT !.pr = Del(@, p.pid),
                      !.q = Put(@, p.v, WithoutAll(Q(s, p.v), comp)),
                      !.done = Put(@, p.v, Done(s, p.v) \cup comp)]
      s2 == IF ~Hist THEN s1
            ELSE [s1 EXCEPT
                   !.chg = IF p.kind # "poll" THEN @ ELSE
                           [k \in {x \in DOMAIN @ : ~(x[1] = p.v /\ x[2] \in Range(p.list)
                                                      /\ s.ev[x].mod = @[x])} |-> @[k]],
                   !.gone = @ \cup {<<p.v, id>> : id \in comp}]
  IN Step(s2, calls, <<Reply(p, "oadrDistributeEvent", "", evs)>>)

DCall(p, id) == [k |-> "dcb", v |-> p.v, id |-> id, opt |-> ""]

\* deliver the events p.list from index p.i on
RECURSIVE Deliver(_, _, _)
Deliver(s, p, calls) ==
  IF p.i > Len(p.list) THEN Finish(s, p, calls)
  ELSE LET id == p.list[p.i]
           mode == Get(s.dcb, <<p.v, id>>, "none")
           p1 == [p EXCEPT !.i = @ + 1]
       IN CASE mode = "none" -> Deliver(s, p1, calls)
            [] mode = "raise" -> Fail(s, p, Append(calls, DCall(p, id)))
            [] mode = "gate" -> Step([s EXCEPT !.pr = Put(@, p.pid, p1)], Append(calls, DCall(p, id)), <<>>)
            [] OTHER -> Deliver(s, p1, Append(calls, DCall(p, id)))

\* the list of events for a VEN; completed events leave the queue when it is sent
Request(s, p) ==
  IF Q(s, p.v) = <<>> THEN Step([s EXCEPT !.pr = Del(@, p.pid)], <<>>, <<Reply(p, "oadrResponse", "200", <<>>)>>)
  ELSE LET s1 == Refresh(s, p.v)
           list == Ordered(s1, p.v)
       IN Deliver(s1, [p EXCEPT !.list = list, !.i = 1], <<>>)

NewProc(kind, v, pid, opts) == [kind |-> kind, v |-> v, pid |-> pid, list |-> <<>>, i |-> 1, opts |-> opts]

Poll(s, v, pid) ==
  LET p == NewProc("poll", v, pid, <<>>)
  IN IF Upd(s, v) THEN Request([s EXCEPT !.upd = Put(@, v, FALSE)], p)
     ELSE Step(s, <<>>, <<Reply(p, "oadrResponse", "200", <<>>)>>)

\* opt responses, one after the other
RECURSIVE Respond(_, _, _)
Respond(s, p, calls) ==
  IF p.i > Len(p.opts) THEN Step([s EXCEPT !.pr = Del(@, p.pid)], calls, <<Reply(p, "oadrResponse", "200", <<>>)>>)
  ELSE
  LET r == p.opts[p.i]
      k == <<p.v, r.id>>
      found == r.id \in Range(Q(s, p.v)) /\ s.ev[k].mod = r.mod
      s1 == IF found /\ s.ev[k].st = "cancelled"
            THEN [s EXCEPT !.q = Put(@, p.v, Without(Q(s, p.v), r.id)),
                           !.gone = IF Hist THEN @ \cup {k} ELSE @]
            ELSE s
      mode == Get(s1.cb, k, "none")
      s2 == [s1 EXCEPT !.cb = Del(@, k), !.cnt = IF Hist /\ mode # "none" THEN Put(@, k, Get(@, k, 0) + 1) ELSE @]
      c2 == Append(calls, [k |-> IF mode = "future" THEN "fut" ELSE "cb", v |-> p.v, id |-> r.id, opt |-> r.opt])
      p1 == [p EXCEPT !.i = @ + 1]
  IN IF ~found /\ r.id \notin Done(s, p.v)
     THEN Step([s EXCEPT !.pr = Del(@, p.pid)], calls, <<Reply(p, "oadrResponse", "452", <<>>)>>)
     ELSE CASE mode = "none" -> Respond(s1, p1, calls)
            [] mode = "raise" -> Fail(s2, p, c2)
            [] mode = "gate" -> Step([s2 EXCEPT !.pr = Put(@, p.pid, p1)], c2, <<>>)
            [] OTHER -> Respond(s2, p1, c2)

Resume(s, pid, ok) ==
  LET p == s.pr[pid]
  IN IF ~ok THEN Fail(s, p, <<>>)
     ELSE IF p.kind = "created" THEN Respond(s, p, <<>>) ELSE Deliver(s, p, <<>>)

----------------------------------------------------------------------------
(* The application *)

Add(s, a) ==
  IF a.bad # "" THEN [s |-> s, out |-> [NoOut EXCEPT !.err = TRUE]]
  ELSE LET k == <<a.v, a.id>>
           e == [mod |-> a.mod, prio |-> a.prio, start |-> a.start, dur |-> a.dur, ramp |-> a.ramp, st |-> "far", c |-> a.c]
           s1 == [s EXCEPT !.q = Put(@, a.v, Append(Q(s, a.v), a.id)),
                           !.ev = Put(@, k, e),
                           !.upd = Put(@, a.v, TRUE),
                           !.cb = IF a.cb = "none" THEN @ ELSE Put(@, k, a.cb),
                           !.dcb = IF a.dcb = "none" THEN @ ELSE Put(@, k, a.dcb),
                           !.chg = IF Hist THEN Put(@, k, a.mod) ELSE @]
       IN [s |-> s1, out |-> NoOut]

Cancel(s, v, id) ==
  LET k == <<v, id>> IN
  IF id \notin Range(Q(s, v)) THEN [s |-> s, out |-> NoOut]
  ELSE [s |-> [s EXCEPT !.ev[k].st = "cancelled", !.ev[k].mod = @ + 1, !.upd = Put(@, v, TRUE),
                        !.chg = IF Hist THEN Put(@, k, s.ev[k].mod + 1) ELSE @],
        out |-> NoOut]

Apply(s, a) ==
  CASE a.op = "tick"    -> [s |-> [s EXCEPT !.now = @ + a.d], out |-> NoOut]
    [] a.op = "add"     -> Add(s, a)
    [] a.op = "cancel"  -> Cancel(s, a.v, a.id)
    [] a.op = "poll"    -> Poll(s, a.v, a.pid)
    [] a.op = "request" -> Request(s, NewProc("request", a.v, a.pid, <<>>))
    [] a.op = "created" -> Respond(s, NewProc("created", a.v, a.pid, a.opts), <<>>)
    [] a.op = "resume"  -> Resume(s, a.pid, a.ok)

----------------------------------------------------------------------------
(* Properties of the design, as predicates on a state *)

PollsInFlight(s, v) == {pid \in DOMAIN s.pr : s.pr[pid].kind = "poll" /\ s.pr[pid].v = v}

\* C01: a change that no poll announced is going to be announced by the next poll
NothingLost(s) == \A k \in DOMAIN s.chg :
  (k[2] \in Range(Q(s, k[1])) /\ PollsInFlight(s, k[1]) = {}) => Upd(s, k[1])

\* C02: a queue holds each event once, only events that were added for that VEN, and no retired ones
QueueOk(s) == \A v \in DOMAIN s.q :
  /\ Cardinality(Range(s.q[v])) = Len(s.q[v])
  /\ \A id \in Range(s.q[v]) : <<v, id>> \in DOMAIN s.ev
  /\ \A id \in Range(s.q[v]) : <<v, id>> \notin s.gone

\* C02: every event is in the queue or retired
NoEventLost(s) == \A k \in DOMAIN s.ev :
  k[2] \in Range(Q(s, k[1])) \/ k \in s.gone

\* C05: at most one callback call per event
CallbackOnce(s) == \A k \in DOMAIN s.cnt : s.cnt[k] <= 1

\* C04: modification numbers and cancellation only change by cancelling
ModStable(s, t, a) == \A k \in DOMAIN s.ev :
  /\ k \in DOMAIN t.ev
  /\ IF a.op = "cancel" /\ k = <<a.v, a.id>> /\ a.id \in Range(Q(s, a.v))
     THEN t.ev[k].mod = s.ev[k].mod + 1 /\ t.ev[k].st = "cancelled"
     ELSE t.ev[k].mod = s.ev[k].mod /\ (s.ev[k].st = "cancelled" => t.ev[k].st = "cancelled")

\* C03: what a list must look like (independent of how Ordered computes it)
ListOk(s, v, list) ==
  LET E(i) == s.ev[<<v, list[i]>>]
      Act(i) == E(i).st = "active"
      P(i) == IF E(i).prio = 0 THEN LowestPriority ELSE E(i).prio
  IN \A i, j \in DOMAIN list : i < j =>
       /\ Act(j) => Act(i)
       /\ Act(i) /\ Act(j) => P(i) < P(j) \/ (P(i) = P(j) /\ E(i).start <= E(j).start)
       /\ ~Act(i) /\ ~Act(j) => E(i).start <= E(j).start

\* C02/C03: what is sent
RepliesOk(s, t, a, out) == \A n \in DOMAIN out.replies :
  LET r == out.replies[n]
      v == IF a.op = "resume" THEN s.pr[a.pid].v ELSE a.v
  IN (r.type = "oadrDistributeEvent" /\ a.op # "resume") =>
       LET ids == Map(r.events, LAMBDA e : e.id)
       IN /\ Range(ids) = Range(Q(s, v)) /\ Len(ids) = Cardinality(Range(ids))
          /\ \A i \in DOMAIN ids : r.events[i].st = Status(s.ev[<<v, ids[i]>>], s.now)
          /\ ListOk(t, v, ids)

\* Isolation: an action for one VEN leaves the queues, announcements and callbacks of all others alone
Isolated(s, t, a) ==
  (a.op \in {"add", "cancel", "poll", "request", "created"}) =>
    \A v \in DOMAIN s.q \cup DOMAIN s.upd : v # a.v => Q(t, v) = Q(s, v) /\ Upd(t, v) = Upd(s, v)
                                                      /\ \A k \in DOMAIN s.cb : k[1] = v => k \in DOMAIN t.cb

----------------------------------------------------------------------------
(* Comparison of an observed output with the expected one: the set of violated clauses *)

EventClauses(poll, exp, obs) ==
  LET xi == Map(exp, LAMBDA e : e.id)
      oi == Map(obs, LAMBDA e : e.id)
      diff == (Range(xi) \ Range(oi)) \cup (Range(oi) \ Range(xi))
      canc(id) == \E e \in Range(exp) \cup Range(obs) : e.id = id /\ e.st = "cancelled"
      X(id) == CHOOSE e \in Range(exp) : e.id = id
      O(id) == CHOOSE e \in Range(obs) : e.id = id
      both == Range(xi) \cap Range(oi)
  IN (IF diff # {} THEN {"C02"} \cup (IF poll THEN {"C01"} ELSE {})
                        \cup (IF \E id \in diff : canc(id) THEN {"C04"} ELSE {}) ELSE {})
     \cup (IF Len(oi) # Cardinality(Range(oi)) THEN {"C02"} ELSE {})
     \cup (IF diff = {} /\ xi # oi THEN {"C03"} ELSE {})
     \cup (IF \E id \in both : X(id).mod # O(id).mod THEN {"C04"} \cup (IF poll THEN {"C01"} ELSE {}) ELSE {})
     \cup (IF \E id \in both : X(id).st # O(id).st
           THEN (IF \E id \in both : X(id).st # O(id).st /\ canc(id)
                 THEN {"C04"} \cup (IF poll THEN {"C01"} ELSE {}) ELSE {})
                \cup (IF \E id \in both : X(id).st # O(id).st THEN {"C03"} ELSE {}) ELSE {})
     \cup (IF \E id \in both : X(id).c # O(id).c THEN {"C02", "C24", "C25"} ELSE {})

ReplyClauses(kind, x, o) ==
  IF x.type # o.type
  THEN CASE o.type \in {"HTTP500", "GARBAGE", "INVALID", "EMPTY", "HANG"} ->
              {"C20"} \cup (CASE kind = "poll" -> {"C01", "C02"} [] kind = "request" -> {"C02"} [] OTHER -> {"C05"})
         [] kind = "poll" -> {"C01", "C02"}
         [] kind = "request" -> {"C02"}
         [] OTHER -> {"C05"}
  ELSE (IF x.type = "oadrResponse" /\ x.code # o.code THEN {IF kind = "created" THEN "C05" ELSE "C20"} ELSE {})
       \cup (IF x.type = "oadrDistributeEvent" THEN EventClauses(kind = "poll", x.events, o.events) ELSE {})

Kind(s, a, pid) == IF a.op = "resume" THEN s.pr[pid].kind ELSE a.op

\* a.op # "resume": the expected and observed replies belong to a.pid, if any
Clauses(s, a, x, o) ==
  LET cbs(c) == SelectSeq(c, LAMBDA y : y.k # "dcb")
      dcbs(c) == SelectSeq(c, LAMBDA y : y.k = "dcb")
  IN (IF cbs(x.calls) # cbs(o.calls) THEN {"C05"} ELSE {})
     \cup (IF dcbs(x.calls) # dcbs(o.calls) THEN {"C02"} ELSE {})
     \cup (IF x.err # o.err THEN {"C25"} ELSE {})
     \cup (IF Len(x.replies) # Len(o.replies)
           THEN {"C20"} \cup (IF "pid" \notin DOMAIN a THEN {}
                              ELSE CASE Kind(s, a, a.pid) = "poll" -> {"C01", "C02"}
                                     [] Kind(s, a, a.pid) = "created" -> {"C05"} [] OTHER -> {"C02"})
           ELSE UNION {ReplyClauses(Kind(s, a, x.replies[i].pid), x.replies[i], o.replies[i]) : i \in DOMAIN x.replies})
=============================================================================

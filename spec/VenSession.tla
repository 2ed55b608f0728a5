----------------------------- MODULE VenSession -----------------------------
(***************************************************************************
 A session of a VEN: registration, polling, the report requests it serves,
 cancellation of reports, re-registration and deregistration
 (openleadr/client.py).  Time is counted in ticks of half a second; the VEN is
 started and polls at odd ticks, the reports run at even ticks unless their
 interval does not fit the clock.

 cfg  vname: the name of the VEN;  reports: sequence of offered reports [rs, name, mode, dps]; a data point
        is [r, k, desc, unit, min, max, style, lag]
      offer: what oadrRegisterReport must say;  ven: preset VEN id or ""
      zone: how far the clock of the VEN's host is ahead of UTC
 state
   phase "new", "up", "off";  ven, reg, P: what the VTN assigned
   now; base: when the present polling schedule began
   reqs: the report requests that are served, in order of arrival
     [rid, ri, dps, g, rb, job, every, from, at, buf]
     ri: index of the offered report; job "cron" (in step with the local clock),
     "iv" (counted from the arrival) or "no"; at: time of a one-off report or
     -1; buf: values that wait until the report is complete

 What the application's callbacks return is a function of data point and time,
 so that every value identifies where it comes from.
 ***************************************************************************)
EXTENDS Util

Init0(cfg) == [cfg |-> cfg, phase |-> "new", ven |-> cfg.ven, reg |-> "", P |-> 0, now |-> 1, base |-> 1,
               reqs |-> <<>>]

\* what happens during a step: messages other than reports, reports, calls of callbacks
Quiet == [msgs |-> <<>>, reps |-> <<>>, calls |-> <<>>]
Both(o, q) == [msgs |-> o.msgs \o q.msgs, reps |-> o.reps \o q.reps, calls |-> o.calls \o q.calls]

Msg(t, k, ven, code, rq, ids) == [t |-> t, k |-> k, ven |-> ven, code |-> code, rq |-> rq, ids |-> ids]
Says(o, m) == [o EXCEPT !.msgs = Append(@, m)]

Second == 2
Minute == 60 * Second
Hour == 60 * Minute
Day == 24 * Hour

----------------------------------------------------------------------------
(* Sampling *)

\* not a number and the infinities are the largest numbers
Value(dp, t) == LET x == 10 * t + dp.k
                    y == t \div 2 + dp.k
                IN IF y % 11 = 0 THEN 2000000001 ELSE IF y % 13 = 0 THEN (IF y % 2 = 1 THEN 2000000002 ELSE 2000000003)
                   ELSE IF y % 7 = 0 THEN 0 ELSE IF y % 5 = 0 THEN -x ELSE x

\* some callbacks give the newest value first
Ordered(dp, q) == IF dp.k % 2 = 0 THEN q ELSE [i \in DOMAIN q |-> q[Len(q) + 1 - i]]

\* what one call at t gives for a report that is sampled bit by bit
Reading(dp, t) ==
  CASE dp.style = "one" -> <<[r |-> dp.r, t |-> t + dp.lag, v |-> Value(dp, t + dp.lag)]>>
    [] dp.style = "flaky" -> IF (t \div 2) % 3 = 0 THEN <<>>
                             ELSE <<[r |-> dp.r, t |-> t + dp.lag, v |-> Value(dp, t + dp.lag)]>>
    [] dp.style = "list" -> LET n == (t \div 2) % 3
                            IN Ordered(dp, [j \in 1..n |-> [r |-> dp.r, t |-> t - 2 * (n - j), v |-> Value(dp, t - 2 * (n - j))]])
    [] dp.style = "none" -> <<>>

\* ... and for one that is collected at once
Collection(dp, a, b) == IF dp.style = "none" \/ (dp.style = "flaky" /\ (b \div 2) % 3 = 0) THEN <<>>
                        ELSE Ordered(dp, <<[r |-> dp.r, t |-> a, v |-> Value(dp, a)], [r |-> dp.r, t |-> b, v |-> Value(dp, b)]>>)

RECURSIVE SampleFrom(_, _, _, _)
SampleFrom(p, q, mode, i) ==      \* p: [t, t0, vals, calls]
  IF i > Len(q.dps) THEN p
  ELSE LET dp == q.dps[i]
           a == p.t0 - Max2(q.rb, q.g)
           call == IF mode = "full" THEN [t |-> p.t, k |-> dp.k, a |-> a, b |-> p.t0, si |-> q.g]
                   ELSE [t |-> p.t, k |-> dp.k, a |-> -1, b |-> -1, si |-> -1]
           vs == IF mode = "full" THEN Collection(dp, a, p.t0) ELSE Reading(dp, p.t)
       IN SampleFrom([p EXCEPT !.t = @ + dp.lag, !.vals = @ \o vs, !.calls = Append(@, call)], q, mode, i + 1)

Lag(q) == SumSeq(Map(q.dps, LAMBDA d : d.lag))
Held(q, mode) == mode = "incremental" /\ q.g > 0 /\ q.rb > q.g
Needed(q) == Len(q.dps) * (q.rb \div q.g)

\* one sampling of request q at t
Sample(s, q, t) ==
  LET rep == s.cfg.reports[q.ri]
      p == SampleFrom([t |-> t, t0 |-> t, vals |-> <<>>, calls |-> <<>>], q, rep.mode, 1)
      buf == q.buf \o p.vals
      done == ~Held(q, rep.mode) \/ Len(buf) >= Needed(q)
  IN [q |-> [q EXCEPT !.buf = IF done THEN <<>> ELSE buf], t |-> p.t,
      o |-> [msgs |-> <<>>, calls |-> p.calls,
             reps |-> IF done /\ buf # <<>> THEN <<[t |-> p.t, ven |-> s.ven, rid |-> q.rid, rs |-> rep.rs, name |-> rep.name, vals |-> buf]>>
                      ELSE <<>>]]

(* When a request is sampled: a < f <= b *)
CronFirst(z, q, a) == ((a + z) \div q.every + 1) * q.every - z
IvFirst(q, a) == IF a < q.from THEN q.from + q.every ELSE q.from + ((a - q.from) \div q.every + 1) * q.every
FirstFire(s, q, a) ==      \* -1: never
  IF q.at >= 0 THEN (IF q.at > a THEN q.at ELSE -1)
  ELSE CASE q.job = "cron" -> CronFirst(s.cfg.zone, q, Max2(a, q.from))
         [] q.job = "iv" -> IvFirst(q, a)
         [] OTHER -> -1

RECURSIVE RunReq(_, _, _, _, _)
RunReq(s, q, a, b, o) ==
  LET f == FirstFire(s, q, a)
  IN IF f < 0 \/ f > b THEN [q |-> q, o |-> o]
     ELSE LET x == Sample(s, q, f) IN RunReq(s, x.q, f, b, Both(o, x.o))

RECURSIVE RunReqs(_, _, _, _, _, _)
RunReqs(s, i, qs, a, b, o) ==
  IF i > Len(s.reqs) THEN [qs |-> qs, o |-> o]
  ELSE LET x == RunReq(s, s.reqs[i], a, b, o) IN RunReqs(s, i + 1, Append(qs, x.q), a, b, x.o)

Polls(s, a, b) ==
  LET n == (b - s.base) \div s.P - (a - s.base) \div s.P
      f == (a - s.base) \div s.P
  IN [i \in 1..n |-> Msg(s.base + (f + i) * s.P, "oadrPoll", s.ven, "", "", <<>>)]

\* p: [s, o]
RunTo(p, t) ==
  IF p.s.phase # "up" \/ t <= p.s.now THEN [p EXCEPT !.s.now = Max2(@, t)]
  ELSE LET x == RunReqs(p.s, 1, <<>>, p.s.now, t, p.o)
       IN [s |-> [p.s EXCEPT !.reqs = x.qs, !.now = t],
           o |-> [x.o EXCEPT !.msgs = @ \o Polls(p.s, p.s.now, t)]]

----------------------------------------------------------------------------
(* Report requests.  A request is [rid, rs, g, rb, at, inv, points]; a point [r, desc, unit] *)

Served(s, ri, r) ==
  LET dps == s.cfg.reports[ri].dps
      ok(pt) == \E d \in Range(dps) : /\ d.r = pt.r
                                      /\ pt.desc = "" \/ (d.desc # "" /\ d.desc = pt.desc /\ d.unit = pt.unit)
                                      /\ r.g = 0 \/ (d.min <= r.g /\ r.g <= d.max)
      pts == SelectSeq(r.points, ok)
  IN Map(pts, LAMBDA pt : dps[First(dps, LAMBDA d : d.r = pt.r)])

Fits(every) == \/ every < Minute /\ every % Second = 0 /\ Minute % every = 0
               \/ every >= Minute /\ every < Hour /\ every % Minute = 0 /\ Hour % every = 0
               \/ every >= Hour /\ every % Hour = 0 /\ Day % every = 0

Accept(p, r) ==
  IF r.inv THEN p
  ELSE
  LET s0 == p.s
      s == [s0 EXCEPT !.reqs = SelectSeq(@, LAMBDA q : q.rid # r.rid)]
      ri == First(s.cfg.reports, LAMBDA x : x.rs = r.rs)
      dps == IF ri = 0 THEN <<>> ELSE Served(s, ri, r)
      mode == IF ri = 0 THEN "" ELSE s.cfg.reports[ri].mode
      periodic == dps # <<>> /\ r.g > 0 /\ r.rb > 0
      every == IF mode = "full" THEN Max2(r.g, r.rb) ELSE r.g
      q == [rid |-> r.rid, ri |-> ri, dps |-> dps, g |-> r.g, rb |-> r.rb, from |-> s.now, buf |-> <<>>, at |-> -1,
            every |-> every, job |-> IF ~periodic THEN "no" ELSE IF Fits(every) THEN "cron" ELSE "iv"]
  IN IF dps = <<>> \/ periodic THEN [p EXCEPT !.s = [s EXCEPT !.reqs = Append(@, q)]]
     ELSE IF r.at > s.now THEN [p EXCEPT !.s = [s EXCEPT !.reqs = Append(@, [q EXCEPT !.at = r.at])]]
     ELSE LET x == Sample(s, q, s.now)
              y == RunTo([s |-> s, o |-> Both(p.o, x.o)], x.t)
          IN [y EXCEPT !.s.reqs = Append(@, x.q)]

RECURSIVE AcceptAll(_, _, _)
AcceptAll(p, rs, i) == IF i > Len(rs) THEN p ELSE AcceptAll(Accept(p, rs[i]), rs, i + 1)

TakeOn(p, rs, rq) ==
  IF rs = <<>> THEN p
  ELSE LET x == AcceptAll(p, rs, 1)
       IN [x EXCEPT !.o = Says(@, Msg(x.s.now, "oadrCreatedReport", x.s.ven,
                                      IF \E r \in Range(rs) : r.inv THEN "452" ELSE "200", rq, Map(rs, LAMBDA r : r.rid)))]

\* the VTN cancels rid at the present time; does not let time pass for the rest
Cancel(p, rid, follow, rq) ==
  LET i == First(p.s.reqs, LAMBDA q : q.rid = rid)
  IN IF i = 0 THEN p
     ELSE LET q == p.s.reqs[i]
              t == p.s.now
              rest == [p.s EXCEPT !.reqs = SelectSeq(@, LAMBDA x : x.rid # rid)]
              x1 == IF q.dps = <<>> THEN [q |-> q, t |-> t - 2, o |-> Quiet] ELSE Sample(p.s, q, t)
              t1 == x1.t + 2
              x2 == IF follow THEN Sample(p.s, x1.q, t1) ELSE [q |-> x1.q, t |-> t1, o |-> Quiet]
          IN [s |-> rest,
              o |-> Says(Both(p.o, Both(x1.o, x2.o)),
                         Msg(x2.t, "oadrCanceledReport", p.s.ven, "200", rq, IF follow THEN <<rid>> ELSE <<>>))]

----------------------------------------------------------------------------
(* Registration *)

Off(s) == [s EXCEPT !.phase = "off", !.reqs = <<>>]

\* c: the answer to oadrCreatePartyRegistration [fault, code, reg, ven, poll]
Usable(s, c) == c.fault = "" /\ c.code = "200" /\ c.reg # "" /\ (c.ven # "" \/ s.ven # "")
Freq(c) == IF c.poll < 0 THEN 10 * Second ELSE Min2(c.poll, Day)
Rejected(s, c) == [s EXCEPT !.reg = "", !.ven = IF c.fault = "" /\ c.code = "200" /\ c.ven # "" THEN c.ven ELSE @]
Assigned(s, c) == [s EXCEPT !.reg = c.reg, !.ven = IF c.ven # "" THEN c.ven ELSE @, !.P = Freq(c)]

\* r: the answer to oadrRegisterReport [fault, requests]
Offer(p, r) ==
  LET x == [p EXCEPT !.o = Says(@, Msg(p.s.now, "oadrRegisterReport", p.s.ven, "", "", <<p.s.cfg.offer>>))]
  IN IF r.fault # "" THEN x ELSE TakeOn([x EXCEPT !.s.reqs = <<>>], r.requests, "register")

Sync(p) == [p EXCEPT !.o = Says(@, Msg(p.s.now, "oadrRequestEvent", p.s.ven, "", "", <<>>))]

CreateParty(p) == [p EXCEPT !.o = Says(@, Msg(p.s.now, "oadrCreatePartyRegistration", p.s.ven, "", "", <<p.s.reg, p.s.cfg.vname>>))]

Reregister(p, a) ==
  LET x == CreateParty([p EXCEPT !.o = Says(@, Msg(p.s.now, "oadrResponse", p.s.ven, "200", "", <<>>))])
      s == x.s
  IN IF a.c.fault # "" \/ a.c.code # "200" THEN Sync(Offer(x, a.r))
     ELSE IF ~Usable(s, a.c) THEN [x EXCEPT !.s = Off(Rejected(@, a.c))]
     ELSE LET n == Assigned(s, a.c)
              m == IF n.P # s.P THEN [n EXCEPT !.base = s.now] ELSE n
          IN Sync(Offer([x EXCEPT !.s = m], a.r))

\* what the VTN answers to a poll
Polled(p, a) ==
  CASE a.k = "create" -> TakeOn(p, a.requests, a.rq)
    [] a.k = "cancel" -> Cancel(p, a.rid, a.follow, a.rq)
    [] a.k = "rereg" -> Reregister(p, a)
    [] a.k = "offer" -> [p EXCEPT !.o = Says(@, Msg(p.s.now, "oadrRegisteredReport", p.s.ven, "200", a.rq, <<>>))]
    [] a.k = "dereg" -> LET m(code) == Msg(p.s.now, "oadrCanceledPartyRegistration", p.s.ven, code, a.rq, <<p.s.reg>>)
                        IN IF a.reg = p.s.reg
                           THEN [s |-> Off([p.s EXCEPT !.reg = ""]), o |-> Says(p.o, m("200"))]
                           ELSE [p EXCEPT !.o = Says(@, m("452"))]
    [] OTHER -> p

Start(p, a) ==
  LET x == CreateParty([p EXCEPT !.o = Says(@, Msg(p.s.now, "oadrQueryRegistration", "", "", "", <<>>))])
  IN IF ~Usable(x.s, a.c) THEN [x EXCEPT !.s = Off(Rejected(@, a.c))]
     ELSE LET y == Sync(Offer([x EXCEPT !.s = Assigned(@, a.c)], a.r))
              z == [y EXCEPT !.o = Says(@, Msg(y.s.now, "oadrPoll", y.s.ven, "", "", <<>>)), !.s.base = y.s.now]
              w == Polled(z, a.p)
          IN IF w.s.phase = "off" THEN w
             ELSE [w EXCEPT !.s.phase = "up", !.s.base = w.s.now]

\* the k-th next poll
PollTime(s, k) == s.base + ((s.now - s.base) \div s.P + k) * s.P

\* first report of request rid that is sent up to t, or 0
FirstSent(p, rid, t) ==
  LET x == RunTo([p EXCEPT !.o = Quiet], t)
      T == {r.t : r \in {y \in Range(x.o.reps) : y.rid = rid /\ y.t <= t}}
  IN IF T = {} THEN 0 ELSE MinOf(T)

Tick(p, a) ==
  LET end == p.s.now + a.d
      t == IF a.rc.rid = "" \/ p.s.phase # "up" THEN 0 ELSE FirstSent(p, a.rc.rid, end)
  IN IF t = 0 THEN RunTo(p, end)
     ELSE RunTo(Cancel(RunTo(p, t), a.rc.x, a.rc.follow, a.rc.rq), end)

CancelParty(p, a) ==
  IF p.s.reg = "" THEN p
  ELSE LET x == [p EXCEPT !.o = Says(@, Msg(p.s.now, "oadrCancelPartyRegistration", p.s.ven, "", "", <<p.s.reg>>))]
       IN IF a.ans = "ok" THEN [x EXCEPT !.s = Off([@ EXCEPT !.reg = ""])] ELSE x

Step(p, a) ==
  CASE a.op = "start" -> Start(p, a)
    [] a.op = "tick" -> Tick(p, a)
    [] a.op = "poll" -> IF p.s.phase # "up" THEN p
                        ELSE LET t == PollTime(p.s, a.n) IN RunTo(Polled(RunTo(p, t), a.p), t + a.w)
    [] a.op = "cancelparty" -> CancelParty(p, a)
    [] a.op = "stop" -> [p EXCEPT !.s = Off(@)]

Registration(s) == [reg |-> s.reg, ven |-> s.ven, poll |-> IF s.reg = "" THEN 0 ELSE s.P]

\* how often each element occurs
Bag(q) == {[c |-> x, n |-> Cardinality({i \in DOMAIN q : q[i] = x})] : x \in Range(q)}

Apply(s, a) ==
  LET x == Step([s |-> s, o |-> Quiet], a)
  IN [s |-> x.s, out |-> [msgs |-> SortBy(x.o.msgs, LAMBDA m : m.t), reps |-> x.o.reps, calls |-> Bag(x.o.calls),
                          reg |-> Registration(x.s), hooks |-> TRUE, signed |-> TRUE]]

----------------------------------------------------------------------------
(* Comparison with an observation.  The order of reports of different requests is free, and while the VEN deals with a
   cancellation that came with the answer to a report, its other reports may wait for a second. *)

Of(reps, rid) == SelectSeq(reps, LAMBDA r : r.rid = rid)
Content(reps) == Map(reps, LAMBDA r : [rid |-> r.rid, ven |-> r.ven, rs |-> r.rs, name |-> r.name, vals |-> r.vals])
Rids(reps) == {r.rid : r \in Range(reps)}
SameReports(x, o, slack) ==
  \A rid \in Rids(x) \cup Rids(o) :
     /\ Content(Of(x, rid)) = Content(Of(o, rid))
     /\ \A i \in DOMAIN Of(x, rid) : Of(o, rid)[i].t - Of(x, rid)[i].t \in 0..slack

Kinds(ms, K) == SelectSeq(ms, LAMBDA m : m.k \in K)
PollMsgs == {"oadrPoll"}
RegMsgs == {"oadrQueryRegistration", "oadrCreatePartyRegistration", "oadrRegisterReport", "oadrRequestEvent", "oadrResponse"}
CancelMsgs == {"oadrCanceledReport"}
DeregMsgs == {"oadrCanceledPartyRegistration", "oadrCancelPartyRegistration"}
AcceptMsgs == {"oadrCreatedReport", "oadrRegisteredReport"}

Clauses(s, a, x, o) ==
  LET slack == IF a.op = "tick" /\ a.rc.rid # "" THEN 2 ELSE 0
      reports == ~SameReports(x.reps, o.reps, slack)
      calls == x.calls # Range(o.calls)
      k == IF a.op = "poll" \/ a.op = "start" THEN a.p.k ELSE ""
      diff(K) == Kinds(x.msgs, K) # Kinds(o.msgs, K)
      other == PollMsgs \cup RegMsgs \cup CancelMsgs \cup DeregMsgs \cup AcceptMsgs
      order == x.msgs # o.msgs
      work == reports \/ calls
      \* data points that should not be served or are not served
      dps(C) == {c.c.k : c \in C}
      wrong == calls /\ dps(x.calls) # dps(Range(o.calls))
      any == work \/ order \/ x.reg # o.reg
  IN (IF work THEN {"C14"} ELSE {})
     \cup (IF wrong \/ diff(AcceptMsgs) \/ (work /\ \E q \in Range(s.reqs) : q.job = "no") THEN {"C13"} ELSE {})
     \cup (IF work /\ a.op # "tick" /\ k \in {"create", "rereg"} THEN {"C13"} ELSE {})
     \cup (IF diff(CancelMsgs) \/ (work /\ (k = "cancel" \/ (a.op = "tick" /\ a.rc.rid # ""))) THEN {"C16"} ELSE {})
     \cup (IF diff(PollMsgs) THEN {"C22"} ELSE {})
     \cup (IF diff(DeregMsgs) \/ (any /\ (s.phase = "off" \/ k = "dereg" \/ a.op \in {"cancelparty", "stop"})) THEN {"C10"} ELSE {})
     \cup (IF any /\ k = "rereg" THEN {"C11"} ELSE {})
     \cup (IF any /\ a.op = "start" THEN {"C09"} ELSE {})
     \cup (IF (any \/ ~o.hooks) /\ (a.chaos # 0 \/ ~o.hooks) THEN {"C21"} ELSE {})
     \cup (IF x.reg # o.reg /\ a.op \notin {"start", "cancelparty"} /\ k \notin {"dereg", "rereg"} THEN {"C21"} ELSE {})
     \cup (IF x.reg # o.reg /\ k = "rereg" THEN {"C09"} ELSE {})
     \cup (IF order /\ ~(\E K \in {PollMsgs, RegMsgs, CancelMsgs, DeregMsgs, AcceptMsgs} : diff(K)) THEN {"C09", "C11"} ELSE {})
     \cup (IF diff(RegMsgs) /\ a.op # "start" THEN {"C11", "C21"} ELSE {})
     \cup (IF ~o.signed THEN {"C19"} ELSE {})
     \cup (IF \E m \in Range(o.msgs) : m.k \notin other THEN {"C21"} ELSE {})
=============================================================================

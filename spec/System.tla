------------------------------- MODULE System -------------------------------
(***************************************************************************
 A VTN and several VENs, all of this library, end to end.

 The VTN's queue is VtnEvents, each VEN's treatment of events VenEvents: what
 the one sends, as an answer to a poll or to a request for the events, the
 other receives, and its answers go back.  Added here: registration and
 re-registration, reports, a network that loses messages, VENs that start,
 crash, leave and start again.

 cfg  P, L, C: poll, status refresh and clean-up intervals
      vens: sequence of [v, upd, g, back, points, wanted]: upd = the application has an
      update handler; a VEN offers a report with data points `points` (a sequence of [r, k]), and the VTN wants
      those in `wanted`, sampled every g and delivered every back (g = 0: the VEN offers no report)
 state
   now    seconds
   q      the VTN's queue (VtnEvents)
   info   <<ven, event>> -> what the message says besides [resp, decs]: decs is what the VEN's handler is going to
          decide on the first and on the cancelled version
   n      ven -> its events (VenEvents), for those that run
   rep    ven -> [from, buf]: the report requests it serves, if any
   known  VENs that are registered at the VTN;  banned: those it refuses
   down   VENs without a network
   miss   history: a list that was meant for the VEN did not arrive
   got    history: samples that arrived at the VTN
 A message can be lost on the way there ("req") or back ("resp"); a.lost says so by kind of message.
 ***************************************************************************)
EXTENDS Util

CONSTANTS Hist

V == INSTANCE VtnEvents WITH Hist <- Hist
N == INSTANCE VenEvents WITH Hist <- Hist

Ven(s, v) == s.cfg.vens[First(s.cfg.vens, LAMBDA x : x.v = v)]
Vens(s) == {x.v : x \in Range(s.cfg.vens)}

Init0(cfg) == [cfg |-> cfg, now |-> 0, q |-> V!Init0, info |-> Empty, n |-> Empty, rep |-> Empty, known |-> {}, banned |-> {},
               down |-> {}, miss |-> {}, got |-> {}, twice |-> FALSE]

NoLoss == [poll |-> "", sync |-> "", created |-> "", create |-> "", offer |-> "", dereg |-> ""]

\* what can be seen: application calls at the VTN and at the VENs, samples that arrive
Quiet == [calls |-> <<>>, data |-> <<>>, hands |-> <<>>, err |-> FALSE]

----------------------------------------------------------------------------
(* Reports: values identify where they come from *)

Value(p, t) == 10 * t + p.k
Arrives(s, v) == v \in s.known /\ v \notin s.down

RECURSIVE Sampled(_, _, _, _)
Sampled(s, v, t, b) ==        \* from the sampling at t on; [buf, data]
  LET c == Ven(s, v)
      buf == b.buf \o Map(c.wanted, LAMBDA p : [v |-> v, r |-> p.r, t |-> t, x |-> Value(p, t)])
      done == c.back <= c.g \/ Len(buf) >= Len(c.wanted) * (c.back \div c.g)
  IN IF t > b.end THEN b
     ELSE Sampled(s, v, t + c.g, [b EXCEPT !.buf = IF done THEN <<>> ELSE buf,
                                           !.data = IF done /\ Arrives(s, v) THEN @ \o buf ELSE @])

\* the VEN's reports up to t
ReportsTo(s, v, t) ==
  LET c == Ven(s, v)
      r == s.rep[v]
  IN Sampled(s, v, (Max2(s.now, r.from) \div c.g + 1) * c.g, [buf |-> r.buf, data |-> <<>>, end |-> t])

\* let time pass: [s, o]
RunTo(s, t) ==
  LET x == [v \in DOMAIN s.rep |-> ReportsTo(s, v, t)]
      all == Concat(Map(s.cfg.vens, LAMBDA c : IF c.v \in DOMAIN s.rep THEN x[c.v].data ELSE <<>>))
  IN [s |-> [s EXCEPT !.now = t, !.q.now = t,
                      !.n = [v \in DOMAIN @ |-> N!RunTo(@[v], t)],
                      !.rep = [v \in DOMAIN @ |-> [@[v] EXCEPT !.buf = x[v].buf]],
                      !.got = IF Hist THEN @ \cup Range(all) ELSE @,
                      !.twice = Hist /\ (@ \/ Cardinality(Range(all)) < Len(all) \/ Range(all) \cap s.got # {})],
      o |-> [Quiet EXCEPT !.data = all]]

----------------------------------------------------------------------------
(* Events.  p: [s, o] *)

\* a step of the VTN's queue: [s, o, events, some]
Vtn(p, a) ==
  LET r == V!Apply(p.s.q, a)
      rp == r.out.replies
  IN [s |-> [p.s EXCEPT !.q = r.s], o |-> [p.o EXCEPT !.calls = @ \o r.out.calls, !.err = @ \/ r.out.err],
      events |-> IF rp = <<>> THEN <<>> ELSE rp[1].events, ok |-> rp # <<>> /\ rp[1].type # "HTTP500"]

\* what a VEN receives
Arriving(s, v, evs) ==
  Map(evs, LAMBDA e : LET k == <<v, e.id>>
                          q == s.q.ev[k]
                          i == s.info[k]
                      IN [id |-> e.id, mod |-> e.mod, st |-> e.st, resp |-> i.resp, start |-> q.start, dur |-> q.dur, ramp |-> q.ramp,
                          ok |-> TRUE, dec |-> IF e.st = "cancelled" THEN i.decs[2] ELSE i.decs[1], lag |-> 0, c |-> e.c])

\* a list has arrived (or not: lost); the VEN's answer may be lost as well
Receive(p, v, evs, arrived, lost) ==
  IF evs = <<>> \/ ~arrived THEN [s |-> [p.s EXCEPT !.miss = IF evs # <<>> THEN @ \cup {v} ELSE @], o |-> p.o]
  ELSE
  LET r == N!Receive(p.s.n[v], [events |-> Arriving(p.s, v, evs), rq |-> "rq"])
      s1 == [p.s EXCEPT !.n[v] = r.s, !.miss = @ \ {v}]
      o1 == [p.o EXCEPT !.hands = @ \o Map(r.out.handlers, LAMBDA h : [v |-> v] @@ h)]
      ans == r.out.created
  IN IF ans = <<>> \/ lost = "req" \/ ~Arrives(s1, v) THEN [s |-> s1, o |-> o1]
     ELSE LET x == Vtn([s |-> s1, o |-> o1], [op |-> "created", v |-> v, pid |-> 1,
                                             opts |-> Map(ans[1].resps, LAMBDA y : [id |-> y.id, mod |-> y.mod, opt |-> y.opt])])
          IN [s |-> x.s, o |-> x.o]

\* the VEN asks for its events, by a poll or for all of them
Asks(p, v, op, lost, lostAnswer) ==
  IF lost = "req" \/ ~Arrives(p.s, v) THEN [s |-> p.s, o |-> p.o]
  ELSE LET x == Vtn(p, [op |-> op, v |-> v, pid |-> 1])
           y == Receive([s |-> x.s, o |-> x.o], v, x.events, lost = "", lostAnswer)
       IN IF op = "request" /\ x.ok /\ lost = "" THEN [y EXCEPT !.s.miss = @ \ {v}] ELSE y

----------------------------------------------------------------------------
(* Registration *)

Offers(s, v) == Ven(s, v).g > 0
Wants(s, v) == Ven(s, v).wanted # <<>>

\* the VEN offers its reports, the VTN says what it wants
Offer(p, v, lost) ==
  IF lost # "" \/ ~Arrives(p.s, v) \/ ~Offers(p.s, v) THEN p
  ELSE IF Wants(p.s, v) THEN [p EXCEPT !.s.rep = Put(@, v, [from |-> p.s.now, buf |-> <<>>])]
  ELSE [p EXCEPT !.s.rep = Del(@, v)]

Gone(s, v) == [s EXCEPT !.n = Del(@, v), !.rep = Del(@, v)]

\* the VTN gets oadrCreatePartyRegistration
Registers(s, v, lost) == [s EXCEPT !.known = IF lost # "req" /\ v \notin s.down /\ v \notin s.banned THEN @ \cup {v} ELSE @]
Heard(s, v, lost) == lost = "" /\ v \notin s.down

Join(p, a) ==
  LET v == a.v
      c == Ven(p.s, v)
      s1 == Registers(p.s, v, a.lost.create)
      fresh == [N!Init0([P |-> p.s.cfg.P, L |-> p.s.cfg.L, C |-> p.s.cfg.C, upd |-> c.upd]) EXCEPT !.now = p.s.now, !.base = p.s.now]
  IN IF ~Heard(p.s, v, a.lost.create) \/ v \in p.s.banned THEN [p EXCEPT !.s = s1]
     ELSE LET p1 == [p EXCEPT !.s = [s1 EXCEPT !.n = Put(@, v, fresh), !.miss = @ \cup {v}]]
              p2 == Offer(p1, v, a.lost.offer)
              p3 == Asks(p2, v, "request", a.lost.sync, a.lost.created)
              p4 == Asks(p3, v, "poll", a.lost.poll, a.lost.created)
          IN [p4 EXCEPT !.s.n[v].on = TRUE]

Reregister(p, a) ==
  LET v == a.v
      s1 == Registers(p.s, v, a.lost.create)
  IN IF Heard(p.s, v, a.lost.create) /\ v \in p.s.banned THEN [p EXCEPT !.s = Gone(s1, v)]
     ELSE Asks(Offer([p EXCEPT !.s = s1], v, a.lost.offer), v, "request", a.lost.sync, a.lost.created)

NextPoll(s, v) == LET n == s.n[v] IN n.base + ((s.now - n.base) \div s.cfg.P + 1) * s.cfg.P

Poll(s, a) ==
  LET p == RunTo(s, NextPoll(s, a.v)) IN
  IF a.v \in s.down \/ a.lost.poll = "req" THEN p
  ELSE IF a.v \notin s.known THEN IF a.lost.poll # "" THEN p ELSE Reregister(p, a)
  ELSE Asks(p, a.v, "poll", a.lost.poll, a.lost.created)

Add(s, a) ==
  LET x == Vtn([s |-> s, o |-> Quiet], a)
  IN [s |-> IF x.o.err THEN x.s ELSE [x.s EXCEPT !.info = Put(@, <<a.v, a.id>>, [resp |-> a.resp, decs |-> a.decs])], o |-> x.o]

Forget(s, v) == [s EXCEPT !.known = @ \ {v}]
Still(s) == [s |-> s, o |-> Quiet]

Step(s, a) ==
  CASE a.op = "tick" -> RunTo(s, s.now + a.d)
    [] a.op = "add" -> Add(s, a)
    [] a.op = "cancel" -> LET x == Vtn([s |-> s, o |-> Quiet], a) IN [s |-> x.s, o |-> x.o]
    [] a.op = "join" -> Join([s |-> s, o |-> Quiet], a)
    [] a.op = "poll" -> Poll(s, a)
    [] a.op = "crash" -> Still(Gone(s, a.v))
    [] a.op = "leave" -> Still(IF a.lost.dereg = "req" \/ a.v \in s.down THEN s
                               ELSE IF a.v \notin s.known THEN s
                               ELSE IF a.lost.dereg = "resp" THEN Forget(s, a.v)
                               ELSE Gone(Forget(s, a.v), a.v))
    [] a.op = "forget" -> Still(Forget(s, a.v))
    [] a.op = "ban" -> Still(IF a.on THEN [Forget(s, a.v) EXCEPT !.banned = @ \cup {a.v}] ELSE [s EXCEPT !.banned = @ \ {a.v}])
    [] a.op = "net" -> Still([s EXCEPT !.down = IF a.on THEN @ \ {a.v} ELSE @ \cup {a.v}])

Held(s) == UNION {{[v |-> v] @@ e : e \in N!HeldOut(s.n[v])} : v \in DOMAIN s.n}

Apply(s, a) == LET x == Step(s, a)
               IN [s |-> x.s, out |-> [calls |-> x.o.calls, data |-> x.o.data, hands |-> x.o.hands, err |-> x.o.err,
                                       held |-> Held(x.s), up |-> DOMAIN x.s.n]]

SameBag(p, q) == /\ Len(p) = Len(q)
                 /\ \A x \in Range(p) : Cardinality({i \in DOMAIN p : p[i] = x}) = Cardinality({i \in DOMAIN q : q[i] = x})

Clauses(s, a, x, o) ==
  IF /\ x.calls = o.calls /\ SameBag(x.data, o.data) /\ x.hands = o.hands /\ x.err = o.err
     /\ x.held = Range(o.held) /\ Len(o.held) = Cardinality(x.held) /\ x.up = Range(o.up)
  THEN {} ELSE {"C29"}

(***************************************************************************
 What is wanted of the whole
 ***************************************************************************)

\* a VEN that missed no list and has no change waiting for it has the events that the VTN has for it
Agrees(s, v) ==
  LET n == s.n[v]
      Live(e) == e.st # "cancelled" /\ ~N!Ended(e, s.now)
      mine == {<<e.id, e.mod>> : e \in {x \in Range(n.held) : Live(x)}}
      its == {<<id, s.q.ev[<<v, id>>].mod>> : id \in {y \in Range(V!Q(s.q, v)) : Live(s.q.ev[<<v, y>>])}}
  IN mine = its
Agreement(s) == \A v \in DOMAIN s.n : (v \notin s.miss /\ ~V!Upd(s.q, v)) => Agrees(s, v)

\* the answers that the application of the VTN sees are those that the application of the VEN gave
AnswersMatch(s, t, a, out) ==
  \A i \in DOMAIN out.calls : out.calls[i].k # "dcb" =>
     LET c == out.calls[i]
         d == t.info[<<c.v, c.id>>].decs
     IN c.opt \in {IF d[j] \in {"optIn", "optOut"} THEN d[j] ELSE "optOut" : j \in 1..2}

\* no VEN's application sees an event of another VEN, or one that the VTN's application did not add
OwnEvents(s) == \A v \in DOMAIN s.n : \A e \in Range(s.n[v].held) :
                   <<v, e.id>> \in DOMAIN s.q.ev /\ e.c = s.q.ev[<<v, e.id>>].c

\* samples arrive once, and only those that the VTN wants of VENs it knows
SamplesOk(s, t, a, out) ==
  /\ ~t.twice
  /\ \A i \in DOMAIN out.data : LET d == out.data[i] IN
       /\ \E p \in Range(Ven(s, d.v).wanted) : p.r = d.r /\ d.x = Value(p, d.t)
       /\ d.v \in s.known /\ d.t <= t.now /\ d.t % Ven(s, d.v).g = 0

Isolated(s, t, a) ==
  a.op \in {"join", "poll", "add", "cancel"} =>
    \A v \in Vens(s) \ {a.v} : V!Q(t.q, v) = V!Q(s.q, v) /\ V!Upd(t.q, v) = V!Upd(s.q, v) /\ (v \in DOMAIN s.n) = (v \in DOMAIN t.n)
                               /\ (v \in s.known) = (v \in t.known)

StateOk(s) == Agreement(s) /\ OwnEvents(s)
DesignOk(s, t, a, out) == AnswersMatch(s, t, a, out) /\ SamplesOk(s, t, a, out) /\ Isolated(s, t, a)
=============================================================================

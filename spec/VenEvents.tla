------------------------------ MODULE VenEvents ------------------------------
(***************************************************************************
 How a VEN treats the events it receives: openleadr/client.py (_on_event,
 sync_events, _event_status_log, _event_cleanup, created_event).

 cfg  P, L, C: poll, status refresh and clean-up intervals; upd: the
      application has an update handler
 state
   now   virtual time; base: when the periodic tasks were started
   held  sequence of the events the VEN holds [id, mod, st, start, dur, ramp, c]
   resp  id -> what the application decided ("optIn", "optOut", "bad")
   n     history: id -> [mod -> number of handler calls since the VEN holds id]
   cleaned  history: an event was forgotten

 A delivered event is [id, mod, st, resp, start, dur, ramp, ok, dec, lag, c]:
 resp = response required, ok = all its signals are known, dec = what the
 application's handler is going to do ("optIn", "optOut", "bad", "raise") and
 lag = how long that takes.  Every delivery has its own request id rq.
 ***************************************************************************)
EXTENDS Util

CONSTANTS Hist

Init0(cfg) == [cfg |-> cfg, now |-> 0, base |-> 0, on |-> FALSE, held |-> <<>>, resp |-> Empty, n |-> Empty,
               cleaned |-> FALSE]

NoOut == [handlers |-> <<>>, created |-> <<>>, held |-> <<>>]

Ended(e, t) == e.dur > 0 /\ t >= e.start + e.dur
TimeStatus(e, t) ==
  IF Ended(e, t) THEN "completed"
  ELSE IF t >= e.start THEN "active"
  ELSE IF e.ramp >= 0 /\ t >= e.start - e.ramp THEN "near"
  ELSE "far"

----------------------------------------------------------------------------
(* Periodic tasks.  Only the last run of each before t matters: the refresh depends on the time alone, and what is
   finished stays finished. *)

LastRun(s, every, t) == s.base + ((t - s.base) \div every) * every
Ran(s, every, t) == s.on /\ LastRun(s, every, t) > s.now

Refreshed(q, t) == Map(q, LAMBDA e : IF e.st = "cancelled" THEN e ELSE [e EXCEPT !.st = TimeStatus(e, t)])
Finished(e, t) == e.st = "cancelled" \/ Ended(e, t)

RunTo(s, t) ==
  LET s1 == IF ~Ran(s, s.cfg.L, t) THEN s ELSE [s EXCEPT !.held = Refreshed(@, LastRun(s, s.cfg.L, t))]
      lc == LastRun(s, s.cfg.C, t)
      gone == {e.id : e \in {x \in Range(s1.held) : Finished(x, lc)}}
      s2 == IF ~Ran(s, s.cfg.C, t) THEN s1
            ELSE [s1 EXCEPT !.held = SelectSeq(@, LAMBDA e : e.id \notin gone),
                            !.resp = [k \in DOMAIN @ \ gone |-> @[k]],
                            !.n = [k \in DOMAIN @ \ gone |-> @[k]],
                            !.cleaned = @ \/ gone # {}]
  IN [s2 EXCEPT !.now = t]

----------------------------------------------------------------------------
(* Deliveries *)

Copy(e) == [id |-> e.id, mod |-> e.mod, st |-> e.st, start |-> e.start, dur |-> e.dur, ramp |-> e.ramp, c |-> e.c]
Decided(e) == IF e.dec = "raise" THEN "optOut" ELSE e.dec
Count(s, e) == IF ~Hist THEN s.n ELSE LET m == Get(s.n, e.id, Empty) IN Put(s.n, e.id, Put(m, e.mod, Get(m, e.mod, 0) + 1))

\* one event after the other; p: [s, res: decisions so far, hs: handler calls so far]
RECURSIVE Handle(_, _, _)
Handle(p, evs, i) ==
  IF i > Len(evs) THEN p
  ELSE
  LET e == evs[i]
      s == p.s
      pos == First(s.held, LAMBDA x : x.id = e.id)
      call(h) == [h |-> h, id |-> e.id, mod |-> e.mod, c |-> e.c]
      finish(t, r, hs) == Handle([s |-> [t EXCEPT !.resp = Put(@, e.id, r)], res |-> Append(p.res, r), hs |-> hs], evs, i + 1)
  IN IF pos = 0
     THEN LET s1 == [s EXCEPT !.held = Append(@, Copy(e)), !.n = Count(s, e)]
          IN finish(RunTo(s1, s.now + e.lag), Decided(e), Append(p.hs, call("event")))
     ELSE IF s.held[pos].mod = e.mod
     THEN finish(s, Get(s.resp, e.id, "bad"), p.hs)
     ELSE LET s1 == [s EXCEPT !.held = Append(SelectSeq(@, LAMBDA x : x.id # e.id), Copy(e)), !.n = Count(s, e)]
          IN IF s.cfg.upd
             THEN finish(RunTo(s1, s.now + e.lag), Decided(e), Append(p.hs, call("update")))
             ELSE finish(s1, Get(s.resp, e.id, "bad"), p.hs)

Responses(evs, res, t, rq) ==
  LET I == SelectSeq([i \in DOMAIN evs |-> i], LAMBDA i : evs[i].resp = "always" /\ ~Ended(evs[i], t))
  IN Map(I, LAMBDA i : [id |-> evs[i].id, mod |-> evs[i].mod, opt |-> IF res[i] = "bad" THEN "optOut" ELSE res[i],
                        code |-> IF evs[i].ok THEN "200" ELSE "460", rq |-> rq])

HeldOut(s) == {[id |-> e.id, mod |-> e.mod, st |-> e.st, c |-> e.c] : e \in Range(s.held)}

Receive(s, a) ==
  LET p == Handle([s |-> s, res |-> <<>>, hs |-> <<>>], a.events, 1)
      rs == Responses(a.events, p.res, p.s.now, a.rq)
  IN [s |-> p.s, out |-> [handlers |-> p.hs,
                          created |-> IF rs = <<>> THEN <<>> ELSE <<[code |-> "200", resps |-> rs]>>,
                          held |-> HeldOut(p.s)]]

Nothing(s) == [s |-> s, out |-> [NoOut EXCEPT !.held = HeldOut(s)]]

\* the next poll that does not coincide with another periodic task
RECURSIVE PollFrom(_, _)
PollFrom(cfg, t) == IF t % cfg.L # 0 /\ t % cfg.C # 0 THEN t ELSE PollFrom(cfg, t + cfg.P)
NextPoll(s) == s.base + PollFrom(s.cfg, ((s.now - s.base) \div s.cfg.P + 1) * s.cfg.P)

Start(s, a) ==
  LET r == IF a.fault # "" THEN Nothing(s) ELSE Receive(s, a)
  IN [s |-> [r.s EXCEPT !.on = TRUE, !.base = r.s.now], out |-> r.out]

Apply(s, a) ==
  CASE a.op = "start" -> Start(s, a)
    [] a.op = "deliver" -> LET s1 == RunTo(s, NextPoll(s)) IN IF a.fault # "" THEN Nothing(s1) ELSE Receive(s1, a)
    [] a.op = "tick" -> Nothing(RunTo(s, s.now + a.d))

----------------------------------------------------------------------------
(* Properties of the design *)

\* C06: at most one handler call per version while the VEN holds the event, and one for each version it holds
HandledOnce(s) ==
  /\ \A id \in DOMAIN s.n : \A m \in DOMAIN s.n[id] : s.n[id][m] <= 1
  /\ \A i \in DOMAIN s.held : s.held[i].id \in DOMAIN s.n /\ s.n[s.held[i].id][s.held[i].mod] = 1

HeldOk(s) == \A i, j \in DOMAIN s.held : i # j => s.held[i].id # s.held[j].id

\* C08: only finished events are forgotten, and a clean-up leaves none
ForgetsOk(s, t, a) ==
  LET sent == IF a.op = "tick" THEN {} ELSE {e.id : e \in Range(a.events)} IN
  /\ \A e \in Range(s.held) : (e.id \notin sent /\ (\A x \in Range(t.held) : x.id # e.id)) => (e.st = "cancelled" \/ Ended(e, t.now))
  /\ \A x \in Range(t.held) : \A e \in Range(s.held) :
       (s.on /\ x.id \notin sent /\ x.id = e.id /\ x.mod = e.mod /\ LastRun(s, s.cfg.C, t.now) > s.now)
          => ~(e.st = "cancelled") /\ ~Ended(e, LastRun(s, s.cfg.C, t.now))

\* C07: one message with exactly the required responses
AnswersOk(s, t, a, out) ==
  a.op # "tick" =>
    LET must == IF a.fault # "" THEN <<>> ELSE SelectSeq(a.events, LAMBDA e : e.resp = "always" /\ ~Ended(e, t.now))
    IN IF must = <<>> THEN out.created = <<>>
       ELSE /\ Len(out.created) = 1
            /\ Map(out.created[1].resps, LAMBDA r : <<r.id, r.mod, r.rq>>) = Map(must, LAMBDA e : <<e.id, e.mod, a.rq>>)

----------------------------------------------------------------------------
Ids(hs) == Map(hs, LAMBDA h : <<h.h, h.id, h.mod>>)

Clauses(s, a, x, o) ==
  LET oh == Range(o.held)
      xh == x.held
      idm(H) == {<<e.id, e.mod>> : e \in H}
      repeated == IF a.op = "tick" THEN {} ELSE {e.id : e \in Range(a.events)} \ {h.id : h \in Range(x.handlers)}
      flat(cr) == Concat(Map(cr, LAMBDA m : Map(m.resps, LAMBDA r : <<r.id, r.mod, r.opt>>)))
      badopt == {r[1] : r \in (Range(flat(x.created)) \cup Range(flat(o.created)))
                              \ (Range(flat(x.created)) \cap Range(flat(o.created)))}
      c == (IF Ids(x.handlers) # Ids(o.handlers) THEN {"C06"}
            ELSE IF x.handlers # o.handlers THEN {"C24"} ELSE {})
           \cup (IF x.created # o.created THEN {"C07"} \cup (IF s.cleaned /\ badopt \cap repeated # {} THEN {"C08"} ELSE {})
                 ELSE {})
           \cup (IF xh # oh \/ Len(o.held) # Cardinality(oh)
                 THEN {"C08"} \cup (IF a.op # "tick" /\ idm(xh) # idm(oh) THEN {"C06"} ELSE {}) ELSE {})
  IN c \cup (IF c # {} /\ a.op # "tick" /\ a.fault # "" THEN {"C21"} ELSE {})
=============================================================================

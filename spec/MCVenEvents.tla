---------------------------- MODULE MCVenEvents ----------------------------
EXTENDS VenEvents, Json, Randomization

CONSTANTS Ls, Cs, Upds, Ids_, Tmax, MaxLen, MaxMod, Decs, Starts, Durs, Lags, Ticks, Faults, MaxEv, Emit

VARIABLES s, act, out, h
vars == <<s, act, out, h>>

Init == /\ \E l \in Ls, c \in Cs, u \in Upds : s = Init0([P |-> 20, L |-> l, C |-> c, upd |-> u])
        /\ act = [op |-> "init"] /\ out = NoOut /\ h = <<>>

Do(a) == /\ Len(h) < MaxLen
         /\ LET r == Apply(s, a)
            IN s' = r.s /\ act' = a /\ out' = r.out
               /\ h' = Append(h, IF h = <<>> THEN a @@ [cfg |-> s.cfg] ELSE a)

LastMod(id) == LET p == First(s.held, LAMBDA e : e.id = id) IN IF p = 0 THEN -1 ELSE s.held[p].mod
When(a) == IF a = "deliver" THEN NextPoll(s) ELSE s.now

\* an event as the VTN would send it at time t: the content of a version is a function of id and modification
Version(id, m, st, du, canc, t, dec, lag, rsp, ok) ==
  LET e == [id |-> id, mod |-> m, st |-> "", resp |-> rsp, start |-> st, dur |-> du,
            ramp |-> IF st > 10 THEN 8 ELSE -1, ok |-> ok, dec |-> dec, lag |-> lag, c |-> id]
  IN [e EXCEPT !.st = IF canc THEN "cancelled" ELSE TimeStatus(e, t)]

HeldVersion(id) == LET p == First(s.held, LAMBDA e : e.id = id) IN s.held[p]

\* a repeated version is sent with the period it has
Same(e) == LastMod(e.id) = e.mod => LET x == HeldVersion(e.id) IN x.start = e.start /\ x.dur = e.dur
                                                              /\ ((x.st = "cancelled") <=> (e.st = "cancelled"))

\* handlers must not end together with a periodic task
NoTie(evs, t) ==
  \A i \in DOMAIN evs : LET d == t + SumSeq([j \in 1..i |-> evs[j].lag]) - s.base
                        IN ~s.on \/ evs[i].lag = 0 \/ (d % s.cfg.L # 0 /\ d % s.cfg.C # 0 /\ d % s.cfg.P # 0)

Message(op, evs, f) ==
  /\ \A e \in Range(evs) : Same(e) /\ LastMod(e.id) <= e.mod
  /\ NoTie(evs, When(op))
  /\ SumSeq(Map(evs, LAMBDA e : e.lag)) < s.cfg.P
  /\ Do([op |-> op, via |-> "poll", rq |-> "r", fault |-> f, cfault |-> "", events |-> evs])

\* when behaviours are generated only some of the choices are looked at
Some(S) == IF Emit /\ Cardinality(S) > 1 THEN RandomSubset(2, S) ELSE S
One(S) == IF Emit /\ Cardinality(S) > 1 THEN RandomSubset(1, S) ELSE S

Ev(op) == LET W == When(op) IN
          {Version(id, m, st, du, canc, W, dec, lag, "always", TRUE) :
           id \in Some(Ids_), m \in Some(0..MaxMod), st \in Some(Starts), du \in One(Durs), canc \in One(BOOLEAN),
           dec \in One(Decs), lag \in One(Lags)}

Send1(op) == \E e \in Ev(op), f \in One(Faults) : Message(op, <<e>>, f)
\* a second event: the one held already or a fixed new one, in both orders
Send2(op) == \E e \in Ev(op), x \in Some(Range(s.held)) :
   LET y == [Copy(x) EXCEPT !.st = IF @ = "cancelled" THEN @ ELSE TimeStatus(x, When(op))]
            @@ [resp |-> "always", ok |-> TRUE, dec |-> "raise", lag |-> 0]
   IN e.id # x.id /\ (Message(op, <<e, y>>, "") \/ Message(op, <<y, e>>, ""))
Never(op) == \E e \in Ev(op) : e.mod = 0 /\ e.lag = 0 /\ Message(op, <<[e EXCEPT !.resp = "never", !.ok = FALSE]>>, "")

Starting == ~s.on /\ (Send1("start") \/ Do([op |-> "start", via |-> "poll", rq |-> "r", fault |-> "", cfault |-> "", events |-> <<>>]))
Delivery1 == s.on /\ Send1("deliver")
Delivery2 == s.on /\ MaxEv > 1 /\ Send2("deliver")
DeliveryNever == s.on /\ Never("deliver")
Pass == s.on /\ \E d \in Ticks : s.now + d <= Tmax /\ Do([op |-> "tick", d |-> d])

Next == Starting \/ (s.on /\ NextPoll(s) <= Tmax /\ (Delivery1 \/ Delivery2 \/ DeliveryNever)) \/ Pass

\* simulation mode: write down the behaviour that was chosen
WriteDown == Emit /\ Len(h) = MaxLen /\ PrintT("BEHAVIOUR " \o ToJson(h)) /\ UNCHANGED vars

Spec == Init /\ [][Next \/ WriteDown]_vars
View == s
Inv == HandledOnce(s) /\ HeldOk(s)
StepOk == [][ForgetsOk(s, s', act') /\ AnswersOk(s, s', act', out')]_vars
=============================================================================

---------------------------- MODULE MCVenSession ----------------------------
(* Model checking and generation of behaviours for VenSession, with callbacks that take no time. *)
EXTENDS VenSession, Json, Randomization

CONSTANTS Worlds, Rids_, Ps, Tmax, MaxLen, Ticks, Faults, Emit

VARIABLES s, act, out, h, dated
vars == <<s, act, out, h, dated>>

Dp(r, k, desc, unit, lo, hi, style) == [r |-> r, k |-> k, desc |-> desc, unit |-> unit, min |-> lo, max |-> hi,
                                        style |-> style, lag |-> 0]
World(n) ==
  [vname |-> "ven", ven |-> IF n = 2 THEN "preset" ELSE "", offer |-> "o", zone |-> IF n = 2 THEN 6 ELSE IF n = 3 THEN -10 ELSE 0,
   reports |->
     CASE n = 1 -> <<[rs |-> "a", name |-> "TELEMETRY_USAGE", mode |-> "incremental",
                      dps |-> <<Dp("x", 1, "Voltage", "V", 4, 20, "one"), Dp("y", 2, "Current", "A", 8, 20, "flaky")>>]>>
       [] n = 2 -> <<[rs |-> "a", name |-> "HISTORY_USAGE", mode |-> "full",
                      dps |-> <<Dp("x", 1, "RealEnergy", "Wh", 4, 28, "one"), Dp("y", 2, "Things", "boxes", 4, 28, "flaky")>>],
                     [rs |-> "b", name |-> "TELEMETRY_STATUS", mode |-> "incremental",
                      dps |-> <<Dp("x", 3, "", "", 8, 8, "list")>>]>>
       [] n = 3 -> <<[rs |-> "a", name |-> "x-report", mode |-> "incremental",
                      dps |-> <<Dp("x", 1, "Frequency", "Hz", 4, 28, "one"), Dp("y", 2, "a & b", "<u>", 4, 28, "one")>>],
                     [rs |-> "b", name |-> "TELEMETRY_USAGE", mode |-> "incremental",
                      dps |-> <<Dp("x", 3, "Voltage", "V", 4, 20, "none"), Dp("z", 4, "RealPower", "W", 4, 20, "list")>>]>>]

Init == /\ \E w \in Worlds : s = Init0(World(w))
        /\ act = [op |-> "init"] /\ h = <<>> /\ dated = FALSE
        /\ out = [msgs |-> <<>>, reps |-> <<>>, calls |-> {}, reg |-> Registration(s), hooks |-> TRUE]

Some(S) == IF Emit /\ Cardinality(S) > 1 THEN RandomSubset(2, S) ELSE S
One(S) == IF Emit /\ Cardinality(S) > 1 THEN RandomSubset(1, S) ELSE S

Do(a, d) == /\ Len(h) < MaxLen
            /\ LET r == Apply(s, a)
               IN s' = r.s /\ act' = a /\ out' = r.out /\ dated' = (dated \/ d)
                  /\ h' = Append(h, IF h = <<>> THEN a @@ [cfg |-> s.cfg] ELSE a)

Plain(d) == [r |-> d.r, desc |-> "", unit |-> ""]
Exact(d) == [r |-> d.r, desc |-> d.desc, unit |-> d.unit]
Wrong(d) == [r |-> d.r, desc |-> "Voltage", unit |-> "nonsense"]
\* the points that are asked for
PointSets(rs) ==
  LET i == First(s.cfg.reports, LAMBDA x : x.rs = rs)
  IN IF i = 0 THEN {<<[r |-> "x", desc |-> "", unit |-> ""]>>}
     ELSE LET dps == s.cfg.reports[i].dps
          IN {Map(dps, Exact), <<Plain(dps[1])>>, <<Wrong(dps[1])>>,
              <<[r |-> "nope", desc |-> "", unit |-> ""], Plain(dps[Len(dps)])>>}

Periods == {<<4, 4>>, <<8, 24>>, <<14, 14>>, <<40, 40>>, <<8, 0>>}
AskRs == {r.rs : r \in Range(s.cfg.reports)} \cup {"unknown"}
Ask(rid, rs, p, pts, at, inv) == [rid |-> rid, rs |-> rs, g |-> p[1], rb |-> p[2], at |-> at, inv |-> inv, points |-> pts]

Requests(t) ==
  IF Emit
  THEN UNION {{Ask(rid, rs, p, pts, -1, FALSE) : pts \in Some(PointSets(rs))} :
              rid \in One(Rids_), rs \in Some(AskRs), p \in Some(Periods)}
  ELSE LET r == s.cfg.reports IN
       {Ask("1", r[1].rs, <<8, 24>>, Map(r[1].dps, Exact), -1, FALSE),
        Ask("2", r[Len(r)].rs, <<14, 14>>, <<Plain(r[Len(r)].dps[1])>>, -1, FALSE),
        Ask("1", r[1].rs, <<8, 8>>, <<Wrong(r[1].dps[1]), Plain(r[1].dps[2])>>, -1, FALSE),
        Ask("2", "unknown", <<8, 8>>, <<[r |-> "x", desc |-> "", unit |-> ""]>>, -1, FALSE)}
\* a report later on, a report for which the interval has begun, an invalid one
Later(t) == Ask("d", s.cfg.reports[1].rs, <<0, 0>>, Map(s.cfg.reports[1].dps, Plain), ((t + 10) \div 2) * 2, FALSE)
Late(t) == Ask("p", s.cfg.reports[1].rs, <<0, 0>>, Map(s.cfg.reports[1].dps, Plain), 0, FALSE)
Bad == Ask("i", "rsINVALID", <<8, 8>>, <<[r |-> "x", desc |-> "", unit |-> ""]>>, -1, TRUE)

\* lists of requests in one message, each with whether it holds the dated one
Pairs(t) == IF Emit THEN {<<[r EXCEPT !.rid = "1"], [q EXCEPT !.rid = "2"]>> : r \in One(Requests(t)), q \in One(Requests(t))}
            ELSE LET r == s.cfg.reports
                 IN {<<Ask("1", r[1].rs, <<8, 8>>, <<Plain(r[1].dps[1])>>, -1, FALSE),
                       Ask("2", r[1].rs, <<4, 4>>, <<Plain(r[1].dps[2])>>, -1, FALSE)>>}
A1(t) == IF Emit THEN One(Requests(t))
         ELSE {Ask("1", s.cfg.reports[1].rs, <<8, 24>>, <<Plain(s.cfg.reports[1].dps[1])>>, -1, FALSE)}
Lists(t) == {<<<<>>, FALSE>>, <<<<Late(t)>>, FALSE>>} \cup {<<<<r>>, FALSE>> : r \in Requests(t)}
            \cup {<<<<r, Bad>>, FALSE>> : r \in A1(t)}
            \cup (IF dated THEN {} ELSE {<<<<r, Later(t)>>, TRUE>> : r \in A1(t)})
            \cup {<<l, FALSE>> : l \in Pairs(t)}

Created(f, code, reg, ven, P) == [fault |-> f, code |-> code, reg |-> reg, ven |-> ven, poll |-> P]
Good == {Created("", "200", reg, "v1", P) : reg \in IF Emit THEN {"r1", "r2"} ELSE {"r2"}, P \in Ps}
Refusals == {Created(f, "200", "r1", "v1", 20) : f \in Faults \ {""}}
            \cup {Created("", "452", "r1", "v1", 20), Created("", "200", "", "v1", 20), Created("", "200", "r1", "", 20)}
Answers == IF Emit THEN RandomSubset(3, Good) \cup One(Refusals) ELSE Good \cup Refusals

Nothing == [k |-> "none", rq |-> ""]
NoCancel == [rid |-> "", x |-> "", follow |-> FALSE, rq |-> ""]

Starting ==
  /\ s.phase = "new"
  /\ \E c \in Answers, l \in Some(Lists(1)), f \in One(Faults) :
       Do([op |-> "start", c |-> c, r |-> [fault |-> f, requests |-> l[1]], p |-> Nothing, chaos |-> 0], l[2] /\ f = "")

\* reports that are counted from their arrival may coincide with a poll
CanPoll(n) == LET t == PollTime(s, n)
              IN t <= Tmax /\ \A q \in Range(s.reqs) : q.job # "iv" \/ FirstFire(s, q, t - 1) # t
Poll(p, w, d) == \E n \in {1, 2} : CanPoll(n) /\ Do([op |-> "poll", n |-> n, p |-> p, w |-> w, chaos |-> 0, at |-> PollTime(s, n)], d)

Creating == s.phase = "up" /\ \E l \in Lists(PollTime(s, 1)) : Poll([k |-> "create", rq |-> "q", requests |-> l[1]], 0, l[2])
Cancelling == s.phase = "up" /\ \E q \in One(Range(s.reqs)), follow \in BOOLEAN :
                 /\ q.rid # "d" /\ (follow => q.dps # <<>>)
                 /\ Poll([k |-> "cancel", rid |-> q.rid, follow |-> follow, rq |-> "c"], 3, FALSE)
Misc == s.phase = "up" /\ \E p \in {[k |-> "cancel", rid |-> "nope", follow |-> FALSE, rq |-> "c"], [k |-> "offer", rq |-> "o"],
                                    Nothing, [k |-> "dereg", rq |-> "d", reg |-> IF Emit /\ Len(h) < 7 THEN "else" ELSE s.reg], [k |-> "dereg", rq |-> "d", reg |-> "other"]} :
                 Poll(p, 0, FALSE)
Rereg == s.phase = "up" /\ \E c \in Answers, l \in Some(Lists(PollTime(s, 1))), f \in One(Faults) :
            Poll([k |-> "rereg", c |-> c, r |-> [fault |-> f, requests |-> l[1]], rq |-> ""], 0,
                 l[2] /\ f = "" /\ c.fault = "" /\ c.code = "200" /\ c.reg # "")
Pass == \E d \in Ticks : /\ s.phase = "new" => d % 2 = 0
                         /\ s.now + d <= Tmax
                         /\ Do([op |-> "tick", d |-> d, rc |-> NoCancel, chaos |-> 0], FALSE)
\* the reply to a report cancels a report
ReplyCancel ==
  /\ s.phase = "up"
  /\ \E q \in Range(s.reqs), x \in Range(s.reqs), d \in Ticks, follow \in (IF Emit THEN BOOLEAN ELSE {FALSE}) :
       LET t == FirstSent([s |-> s, o |-> Quiet], q.rid, s.now + d)
       IN /\ q.job = "cron" /\ t > 0 /\ x.rid # "d" /\ (follow => x.dps # <<>>)
          /\ Do([op |-> "tick", d |-> Max2(d, t + 3 - s.now), chaos |-> 0,
                 rc |-> [rid |-> q.rid, x |-> x.rid, follow |-> follow, rq |-> "c"]], FALSE)
Leaving == s.phase # "new" /\ (Emit => s.phase = "off" \/ Len(h) > MaxLen - 4) /\ \E a \in One({"ok", "f"}) : Do([op |-> "cancelparty", ans |-> a, chaos |-> 0], FALSE)
Stopping == s.phase = "up" /\ Do([op |-> "stop", chaos |-> 0], FALSE)

Next == Starting \/ Creating \/ Cancelling \/ Misc \/ Rereg \/ ((IF Emit THEN s.phase = "up" \/ Len(h) < 3 ELSE s.phase # "new") /\ Pass) \/ ReplyCancel
        \/ Leaving \/ (~Emit /\ Stopping)

WriteDown == Emit /\ (Len(h) = MaxLen \/ (Len(h) > 2 /\ s.phase = "off")) /\ PrintT("BEHAVIOUR " \o ToJson(h)) /\ UNCHANGED vars

Spec == Init /\ [][Next \/ WriteDown]_vars
View == <<s, dated>>

Inv == /\ s.phase = "off" => s.reqs = <<>>
       /\ s.phase = "up" => s.reg # "" /\ s.ven # "" /\ s.P > 0
       /\ \A i, j \in DOMAIN s.reqs : s.reqs[i].rid = s.reqs[j].rid => i = j
       /\ \A q \in Range(s.reqs) :
            LET mode == IF q.ri = 0 THEN "" ELSE s.cfg.reports[q.ri].mode
            IN /\ q.buf # <<>> => Held(q, mode) /\ Len(q.buf) < Needed(q)
               /\ q.dps = <<>> => q.job = "no"
               /\ q.ri # 0 => \A d \in Range(q.dps) : q.g = 0 \/ (d.min <= q.g /\ q.g <= d.max)

\* the times at which q has to be sampled in a step from a to b
Due(q, a, b) == {t \in (a + 1)..b : IF q.at >= 0 THEN t = q.at
                                    ELSE CASE q.job = "cron" -> (t + s.cfg.zone) % q.every = 0 /\ t > q.from
                                           [] q.job = "iv" -> t > q.from /\ (t - q.from) % q.every = 0
                                           [] OTHER -> FALSE}
RECURSIVE InOrder(_)
InOrder(T) == IF T = {} THEN <<>> ELSE <<MinOf(T)>> \o InOrder(T \ {MinOf(T)})
\* whatever the callbacks return while time passes is sent once or kept, in order
Conserved(q, q2, reps, a, b) ==
  LET mode == s.cfg.reports[q.ri].mode
      one(t) == Concat(Map(q.dps, LAMBDA d : IF mode = "full" THEN Collection(d, t - Max2(q.rb, q.g), t) ELSE Reading(d, t)))
      sent == Concat(Map(Of(reps, q.rid), LAMBDA r : r.vals))
  IN q.buf \o Concat(Map(InOrder(Due(q, a, b)), one)) = sent \o q2.buf

Polled_(o) == Len(Kinds(o.msgs, PollMsgs))
StepOk ==
  [][/\ s.phase = "off" => out'.reps = <<>> /\ out'.calls = {} /\ Polled_(out') = 0 /\ s'.phase = "off"
     /\ s.phase = "off" /\ act'.op # "cancelparty" => out'.msgs = <<>>
     /\ act'.op = "tick" /\ act'.rc.rid = "" /\ s.phase = "up" =>
          /\ Len(s'.reqs) = Len(s.reqs)
          /\ \A i \in DOMAIN s.reqs : s.reqs[i].dps # <<>> => Conserved(s.reqs[i], s'.reqs[i], out'.reps, s.now, s'.now)
          /\ Rids(out'.reps) \subseteq Rids(s.reqs)
          /\ Polled_(out') = Cardinality({t \in (s.now + 1)..s'.now : (t - s.base) % s.P = 0})
     /\ act'.op = "poll" /\ act'.p.k \in {"cancel", "none", "offer"} =>
          \A q \in Range(s.reqs) : (act'.p.k = "cancel" /\ q.rid = act'.p.rid) \/ (\E q2 \in Range(s'.reqs) : q2.rid = q.rid)
     /\ act'.op = "poll" /\ act'.p.k = "cancel" => \A q \in Range(s'.reqs) : q.rid # act'.p.rid
     /\ act'.op = "poll" /\ act'.p.k = "create" /\ s.phase = "up" =>
          LET m == Kinds(out'.msgs, {"oadrCreatedReport"})
          IN IF act'.p.requests = <<>> THEN m = <<>>
             ELSE Len(m) = 1 /\ m[1].ids = Map(act'.p.requests, LAMBDA r : r.rid) /\ m[1].rq = act'.p.rq
     /\ s'.phase = "up" => s'.reg # ""]_vars
=============================================================================

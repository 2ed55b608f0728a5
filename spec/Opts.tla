-------------------------------- MODULE Opts --------------------------------
(***************************************************************************
 The opts of a VEN: create_opt and cancel_opt (openleadr/client.py, objects.py).

 Time counts in ticks of half a second.

 cfg  ven: the id that the VTN gave to the VEN
 state
   opts   ids of the opts that the VEN told the VTN about and that were not cancelled
   pend   calls that wait for the VTN's answer: [n, k, id, res, at]
   now

 A call is [n, k, id, rq, p, bad, ans, lag]: its number, "create" or "cancel", the opt's id, the id for the
 request ("" = one is made), the content, what is wrong with it ("" = nothing), and what the VTN answers, after
 lag ticks:
   "ok", "noid" (an acknowledgement without the optional opt id), "refused" (an error code), "plain" (an oadrResponse),
   "wrong" (an acknowledgement of the other kind), or the name of a fault: no usable answer arrives
 A content is [type, reason, event, mod, slots, targets, ctx, mrid]; mod = -1: not given.
 ***************************************************************************)
EXTENDS Util

Init0(cfg) == [cfg |-> cfg, opts |-> {}, pend |-> {}, now |-> 0]

\* the order that the schema prescribes
Kinds == <<"group_id", "group_name", "resource_id", "ven_id", "party_id">>
Grouped(ts) == Concat([i \in 1..Len(Kinds) |-> Keep(ts, LAMBDA t : t.kind = Kinds[i])])

\* an event is qualified by its modification number, the first version if none is given
Content(p) == [p EXCEPT !.mod = IF p.event = "" THEN -1 ELSE IF @ = -1 THEN 0 ELSE @, !.targets = Grouped(@)]

Acks(c) == c.ans = "ok" \/ (c.k = "cancel" /\ c.ans = "noid")
Result(c) == IF c.k = "create" THEN (IF Acks(c) THEN c.id ELSE "no") ELSE IF Acks(c) THEN "yes" ELSE "no"

\* one call: what goes out, what is returned at once, and what is awaited
Start(s, c) ==
  LET no == [msgs |-> <<>>, rets |-> <<>>, opts |-> s.opts, pend |-> s.pend]
      wait == [n |-> c.n, k |-> c.k, id |-> c.id, res |-> Result(c), at |-> s.now + c.lag]
      sent == [k |-> c.k, id |-> c.id, ven |-> s.cfg.ven, rq |-> c.rq]
  IN IF c.k = "create"
     THEN IF c.bad # "" THEN [no EXCEPT !.rets = <<[n |-> c.n, r |-> "error"]>>]
          ELSE [no EXCEPT !.msgs = <<sent @@ [at |-> s.now, p |-> Content(c.p)]>>,
                          !.opts = @ \cup {c.id}, !.pend = @ \cup {wait}]
     ELSE IF c.id \notin s.opts THEN [no EXCEPT !.rets = <<[n |-> c.n, r |-> "no"]>>]
          ELSE [no EXCEPT !.msgs = <<sent>>, !.pend = @ \cup {wait}]

RECURSIVE StartAll(_, _, _, _)
StartAll(s, cs, msgs, rets) ==
  IF cs = <<>> THEN [s |-> s, msgs |-> msgs, rets |-> rets]
  ELSE LET x == Start(s, Head(cs))
       IN StartAll([s EXCEPT !.opts = x.opts, !.pend = x.pend], Tail(cs), msgs \o x.msgs, rets \o x.rets)

Apply(s, a) ==
  LET x == StartAll(s, a.calls, <<>>, <<>>)
      end == s.now + a.w
      done == {c \in x.s.pend : c.at <= end}
      order == SortBy(Listed(done), LAMBDA c : c.n)
      left == {c.id : c \in {d \in done : d.k = "cancel" /\ d.res = "yes"}}
      t == [x.s EXCEPT !.now = end, !.pend = @ \ done, !.opts = @ \ left]
  IN [s |-> t, out |-> [msgs |-> x.msgs, rets |-> x.rets \o [i \in DOMAIN order |-> [n |-> order[i].n, r |-> order[i].res]],
                        opts |-> t.opts]]

None == [msgs |-> <<>>, rets |-> <<>>, opts |-> {}]

SameBag(p, q) == /\ Len(p) = Len(q)
                 /\ \A x \in Range(p) : Cardinality({i \in DOMAIN p : p[i] = x}) = Cardinality({i \in DOMAIN q : q[i] = x})

Clauses(s, a, x, o) ==
  IF SameBag(x.msgs, o.msgs) /\ SameBag(x.rets, o.rets) /\ x.opts = Range(o.opts) /\ Len(o.opts) = Cardinality(x.opts)
  THEN {} ELSE {"C27"}

(***************************************************************************
 What is wanted, for the specification itself
 ***************************************************************************)
DesignOk(s, t, a, out) ==
  LET Of(k) == {c \in Range(a.calls) : c.k = k}
      Sent(c) == Cardinality({i \in DOMAIN out.msgs : out.msgs[i].k = c.k /\ out.msgs[i].id = c.id})
  IN \* one message for a valid opt, none for an invalid one or for the cancellation of an unknown one
     /\ \A c \in Of("create") : Sent(c) = IF c.bad = "" THEN 1 ELSE 0
     /\ \A c \in Of("cancel") : Sent(c) <= 1 /\ (Sent(c) = 1 => c.id \in s.opts \/ \E d \in Of("create") : d.id = c.id /\ d.bad = "")
     \* an opt appears when it is sent and goes away with the acknowledgement of its cancellation
     /\ t.opts \ s.opts \subseteq {c.id : c \in {d \in Of("create") : d.bad = ""}}
     /\ \A i \in s.opts \ t.opts : \E r \in Range(out.rets) : r.r = "yes"
     \* whoever waits for an answer is told once
     /\ \A i, j \in DOMAIN out.rets : out.rets[i].n = out.rets[j].n => i = j
     /\ \A c \in s.pend : (c.at <= t.now) = (\E r \in Range(out.rets) : r.n = c.n)
=============================================================================

---------------------------- MODULE MCVtnEvents ----------------------------
(* Bounded instances of VtnEvents for exhaustive checking and for generating behaviours. *)
EXTENDS VtnEvents, Json, TLCExt

CONSTANTS Vens, Ids, Tmax, MaxLen, MaxMod, Modes, DModes, Starts, Prios, MaxProcs, Emit

VARIABLES s, act, out, h
vars == <<s, act, out, h>>

Init == s = Init0 /\ act = [op |-> "init"] /\ out = NoOut /\ h = <<>>

Do(a) == /\ Len(h) < MaxLen
         /\ LET r == Apply(s, a) IN s' = r.s /\ act' = a /\ out' = r.out /\ h' = Append(h, a)

Pids == 1..MaxProcs
FreePid == IF Pids \ DOMAIN s.pr = {} THEN 0 ELSE MinOf(Pids \ DOMAIN s.pr)
Known(v) == {k[2] : k \in {x \in DOMAIN s.ev : x[1] = v}}

Tick == /\ DOMAIN s.pr = {} /\ s.now < Tmax /\ Do([op |-> "tick", d |-> 1])
AddEvent(v, id, start, prio, m, dm) ==
  /\ <<v, id>> \notin DOMAIN s.ev
  /\ Do([op |-> "add", v |-> v, id |-> id, start |-> start, dur |-> 1, ramp |-> IF start > 1 THEN 1 ELSE -1, prio |-> prio, mod |-> 0, c |-> id,
         cb |-> m, dcb |-> dm, bad |-> ""])
AddInvalid(v) == Do([op |-> "add", v |-> v, id |-> "x", bad |-> "signal_name"])
CancelEvent(v, id) ==
  /\ <<v, id>> \in DOMAIN s.ev => s.ev[<<v, id>>].mod < MaxMod
  /\ Do([op |-> "cancel", v |-> v, id |-> id])
PollFrom(v) == FreePid # 0 /\ Do([op |-> "poll", v |-> v, pid |-> FreePid])
RequestFrom(v) == FreePid # 0 /\ Do([op |-> "request", v |-> v, pid |-> FreePid])
CreatedFrom(v, id, mod) ==
  /\ FreePid # 0
  /\ Do([op |-> "created", v |-> v, pid |-> FreePid, opts |-> <<[id |-> id, mod |-> mod, opt |-> "optIn"]>>])
Created2From(v, i1, i2) ==
  /\ FreePid # 0 /\ i1 # i2
  /\ Do([op |-> "created", v |-> v, pid |-> FreePid,
         opts |-> <<[id |-> i1, mod |-> 0, opt |-> "optIn"], [id |-> i2, mod |-> 0, opt |-> "optOut"]>>])
ResumeOk(pid) == Do([op |-> "resume", pid |-> pid, ok |-> TRUE])
ResumeRaise(pid) == Do([op |-> "resume", pid |-> pid, ok |-> FALSE])

Next ==
  \/ Tick
  \/ \E v \in Vens, id \in Ids, st \in Starts, p \in Prios, m \in Modes, dm \in DModes :
       AddEvent(v, id, st, p, m, dm)
  \/ \E v \in Vens : PollFrom(v) \/ RequestFrom(v)
  \/ \E v \in Vens, id \in Ids : CancelEvent(v, id)
  \/ \E v \in Vens, id \in Ids, mod \in 0..MaxMod : CreatedFrom(v, id, mod)
  \/ \E v \in Vens, i1, i2 \in Ids : Created2From(v, i1, i2)
  \/ \E pid \in DOMAIN s.pr : ResumeOk(pid) \/ ResumeRaise(pid)

\* simulation mode: write down the behaviour that was chosen
WriteDown == Emit /\ Len(h) = MaxLen /\ PrintT("BEHAVIOUR " \o ToJson(h)) /\ UNCHANGED vars

Spec == Init /\ [][Next \/ WriteDown]_vars

View == s
Inv == NothingLost(s) /\ QueueOk(s) /\ NoEventLost(s) /\ CallbackOnce(s)
StepOk == [][ModStable(s, s', act') /\ RepliesOk(s, s', act', out') /\ Isolated(s, s', act')]_vars
=============================================================================

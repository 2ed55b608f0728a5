------------------------------- MODULE MCOpts -------------------------------
EXTENDS Opts, Json, Randomization

CONSTANTS Ids, Bads, CreateAns, CancelAns, Lags, Waits, MaxLen, MaxBatch, Emit

VARIABLES s, act, out, h
vars == <<s, act, out, h>>

Init == /\ s = Init0([ven |-> "ven1"]) /\ act = [op |-> "init"] /\ out = None /\ h = <<>>

Do(a) == /\ Len(h) < MaxLen
         /\ LET r == Apply(s, a)
            IN s' = r.s /\ act' = a /\ out' = r.out /\ h' = Append(h, a)

One(S) == IF Emit /\ Cardinality(S) > 1 THEN RandomSubset(1, S) ELSE S
Likely(good, S) == IF Emit THEN (IF RandomElement(1..10) <= 6 THEN {good} ELSE RandomSubset(1, S)) ELSE S

P == [type |-> "optIn", reason |-> "economic", event |-> "e", mod |-> -1, slots |-> <<>>,
      targets |-> <<[kind |-> "ven_id", v |-> "ven1"]>>, ctx |-> "", mrid |-> ""]
\* no id is used for two opts, and an opt is not cancelled twice at a time
Used == UNION {{c.id : c \in Range(h[i].calls)} : i \in DOMAIN h}
Busy == {c.id : c \in {d \in s.pend : d.k = "cancel"}}
N(i) == 10 * Len(h) + i
Create(i, X) == {[n |-> N(i), k |-> "create", id |-> d, rq |-> "", p |-> P, bad |-> b, ans |-> r, lag |-> l] :
                   d \in One((Ids \ (Used \cup X))), b \in Likely("", Bads), r \in Likely("ok", CreateAns), l \in One(Lags)}
Cancel(i, X) == {[n |-> N(i), k |-> "cancel", id |-> d, rq |-> "", p |-> P, bad |-> "", ans |-> r, lag |-> l] :
                   d \in One((Ids \ (Busy \cup X))), r \in Likely("ok", CancelAns), l \in One(Lags)}
Calls(i, X) == IF Emit /\ RandomElement(1..2) = 1 /\ Create(i, X) # {} THEN Create(i, X)
               ELSE IF Emit /\ s.opts \ (Busy \cup X) # {} THEN {c \in Cancel(i, X) : TRUE} ELSE Create(i, X) \cup Cancel(i, X)

None1 == \E w \in One(Waits) : Do([op |-> "go", calls |-> <<>>, w |-> w])
Single == \E w \in One(Waits) : \E c \in Calls(1, {}) : Do([op |-> "go", calls |-> <<c>>, w |-> w])
Double == MaxBatch > 1 /\ \E w \in One(Waits) : \E c \in Calls(1, {}) : \E d \in Calls(2, {c.id}) :
            Do([op |-> "go", calls |-> <<c, d>>, w |-> w])
\* cancelled before it was acknowledged
Hasty == MaxBatch > 1 /\ \E w \in One(Waits) : \E c \in Create(1, {}) : \E d \in {[x EXCEPT !.id = c.id] : x \in Cancel(2, {})} :
            Do([op |-> "go", calls |-> <<c, d>>, w |-> w])

Next == None1 \/ Single \/ Double \/ Hasty
WriteDown == Emit /\ Len(h) = MaxLen /\ PrintT("BEHAVIOUR " \o ToJson(h)) /\ UNCHANGED vars

Spec == Init /\ [][Next \/ WriteDown]_vars
View == <<s.opts, {[c EXCEPT !.at = @ - s.now] : c \in s.pend}, Used, Len(h)>>
Inv == \A c \in s.pend : c.at > s.now /\ (c.k = "create" => c.id \in Used)
StepOk == [][DesignOk(s, s', act', out')]_vars
=============================================================================

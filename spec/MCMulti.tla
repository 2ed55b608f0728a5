------------------------------- MODULE MCMulti -------------------------------
EXTENDS Multi, Json, Randomization

CONSTANTS Worlds, Ids, MaxLen, Emit

VARIABLES s, act, out, h
vars == <<s, act, out, h>>

CfgOf(k) == IF k = "opts" THEN [ven |-> "ven1"] ELSE [x |-> 0]

Kinds(w) == CASE w = "oo" -> <<"opts", "opts">> [] w = "oe" -> <<"opts", "vtnevents">> [] w = "ee" -> <<"vtnevents", "vtnevents">>
              [] w = "eoe" -> <<"vtnevents", "opts", "vtnevents">>
Init == /\ \E w \in {Kinds(x) : x \in Worlds} : s = Init0([i \in DOMAIN w |-> [kind |-> w[i], cfg |-> CfgOf(w[i])]])
        /\ act = [i |-> 0, k |-> "init", a |-> [op |-> "init"]] /\ out = Empty /\ h = <<>>

OneOf(X) == IF Emit /\ Cardinality(X) > 1 THEN RandomSubset(1, X) ELSE X

P == [type |-> "optIn", reason |-> "economic", event |-> "e", mod |-> -1, slots |-> <<>>,
      targets |-> <<[kind |-> "ven_id", v |-> "ven1"]>>, ctx |-> "", mrid |-> ""]
Used(i) == UNION {{c.id : c \in Range(h[n].a.calls)} : n \in {m \in DOMAIN h : h[m].i = i}}
Call(k, d, b, r) == [n |-> 10 * Len(h), k |-> k, id |-> d, rq |-> "", p |-> P, bad |-> b, ans |-> r, lag |-> 0]
OptActs(i) == {[op |-> "go", calls |-> <<c>>, w |-> 1] : c \in
                 {Call("create", d, b, r) : d \in Ids \ Used(i), b \in {"", "type"}, r \in {"ok", "refused"}}
                 \cup {Call("cancel", d, "", r) : d \in Ids, r \in {"ok", "refused"}}}

Add(v, id) == [op |-> "add", v |-> v, id |-> id, start |-> 1, dur |-> 1, ramp |-> -1, prio |-> 0, mod |-> 0, c |-> id,
               cb |-> "sync", dcb |-> "none", bad |-> ""]
EventActs(i) ==
  LET t == s[i].s
  IN {Add("A", id) : id \in {d \in Ids : <<"A", d>> \notin DOMAIN t.ev}}
     \cup {[op |-> "cancel", v |-> "A", id |-> id] : id \in {d \in Ids : <<"A", d>> \in DOMAIN t.ev => t.ev[<<"A", d>>].mod < 1}}
     \cup {[op |-> o, v |-> "A", pid |-> 1] : o \in {"poll", "request"}}
     \cup {[op |-> "created", v |-> "A", pid |-> 1, opts |-> <<[id |-> id, mod |-> m, opt |-> "optIn"]>>] : id \in Ids, m \in 0..1}
     \cup (IF t.now < 3 THEN {[op |-> "tick", d |-> 1]} ELSE {})

Acts(i) == {[i |-> i, k |-> s[i].k, a |-> a] : a \in IF s[i].k = "opts" THEN OptActs(i) ELSE EventActs(i)}
World == [i \in DOMAIN s |-> s[i].k]

Next == /\ Len(h) < MaxLen
        /\ \E i \in OneOf(DOMAIN s) : \E a \in OneOf(Acts(i)) :
             LET r == Apply(s, a)
             IN s' = r.s /\ act' = a /\ out' = r.out /\ h' = Append(h, [kinds |-> World] @@ a)
WriteDown == Emit /\ Len(h) = MaxLen /\ PrintT("BEHAVIOUR " \o ToJson(h)) /\ UNCHANGED vars

Spec == Init /\ [][Next \/ WriteDown]_vars
View == <<s, [i \in DOMAIN s |-> IF s[i].k = "opts" THEN Used(i) ELSE {}], Len(h)>>

\* what two of them do can be done in any order: neither the states nor what anyone sees depends on it
Inv == \A i, j \in DOMAIN s : i < j =>
         \A a \in Acts(i), b \in Acts(j) :
           LET ab == Apply(Apply(s, a).s, b)
               ba == Apply(Apply(s, b).s, a)
           IN ab.s = ba.s /\ ab.out = Apply(s, b).out /\ ba.out = Apply(s, a).out

\* the others stay as they are, and the component's own guarantees hold
Own(k, t, u, a, o) == IF k = "opts" THEN O!DesignOk(t, u, a, o) ELSE E!RepliesOk(t, u, a, o)
StepOk == [][act' # act \/ h' # h => /\ \A j \in DOMAIN s : j # act'.i => s'[j] = s[j]
                                     /\ Own(act'.k, s[act'.i].s, s'[act'.i].s, act'.a, out')]_vars
=============================================================================

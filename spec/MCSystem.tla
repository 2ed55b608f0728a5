------------------------------- MODULE MCSystem -------------------------------
EXTENDS System, Json, Randomization

CONSTANTS Worlds, MaxLen, Emit, Started

VARIABLES s, act, out, h
vars == <<s, act, out, h>>

P1 == [r |-> "p1", k |-> 0]
P2 == [r |-> "p2", k |-> 1]
World(v, upd, g, back, wanted) == [v |-> v, upd |-> upd, g |-> g, back |-> back, points |-> <<P1, P2>>, wanted |-> wanted]
CfgOf(w) ==
  CASE w = "one" -> [P |-> 20, L |-> 37, C |-> 77, vens |-> <<World("A", TRUE, 10, 20, <<P1>>)>>]
    [] w = "two" -> [P |-> 20, L |-> 37, C |-> 77, vens |-> <<World("A", TRUE, 0, 0, <<>>), World("B", FALSE, 10, 10, <<P1, P2>>)>>]
    [] w = "three" -> [P |-> 30, L |-> 71, C |-> 91, vens |-> <<World("A", FALSE, 20, 60, <<P2>>), World("B", TRUE, 10, 30, <<P1, P2>>),
                                                              World("C", TRUE, 20, 20, <<>>)>>]

\* with the first VEN already up, to get further
Ready(s0) == LET s1 == Apply(s0, [op |-> "tick", d |-> 1]).s
             IN Apply(s1, [op |-> "join", v |-> s1.cfg.vens[1].v, lost |-> NoLoss]).s
Init == /\ \E w \in Worlds : s = IF Started THEN Ready(Init0(CfgOf(w))) ELSE Init0(CfgOf(w))
        /\ act = [op |-> "init"] /\ out = Empty /\ h = <<>>

OneOf(X) == IF Emit /\ Cardinality(X) > 1 THEN RandomSubset(1, X) ELSE X
Few(X, Y) == IF Emit THEN Y ELSE X        \* fewer choices when all of them are explored

Up == DOMAIN s.n
Bases == {s.n[v].base % s.cfg.P : v \in Up}
Polls == {NextPoll(s, v) : v \in Up}
Room == IF Up = {} THEN 100 ELSE MinOf(Polls) - 1 - s.now

Losing(K) == {NoLoss} \cup {[NoLoss EXCEPT ![k] = x] : k \in K, x \in {"req", "resp"}}
Asking == Losing(Few({"poll", "created"}, {"poll", "sync", "created", "create", "offer"}))
Joining == Losing(Few({"create"}, {"poll", "sync", "created", "create", "offer"}))

Num == [i \in {"1", "2", "3", "4", "5", "6"} |-> CASE i = "1" -> 1 [] i = "2" -> 2 [] i = "3" -> 3 [] i = "4" -> 4 [] i = "5" -> 5 [] OTHER -> 6]
Ids == Few({"1", "2"}, {"1", "2", "3", "4", "5", "6"})
Decs == {"optIn", "optOut", "bad", "raise"}
Pairs == Few({<<"optIn", "optOut">>, <<"bad", "optIn">>}, Decs \X Decs)
New(v) == {i \in Ids : <<v, i>> \notin DOMAIN s.info}
Known(v) == {i \in Ids : <<v, i>> \in DOMAIN s.info}
\* ids are taken in order
Next1(v) == IF New(v) = {} THEN {} ELSE {CHOOSE i \in New(v) : \A j \in New(v) : Num[i] <= Num[j]}
Adders == {v \in Vens(s) : New(v) # {}}

AddAct(v, i, x, d, r, cb, resp, dd) ==
  [op |-> "add", v |-> v, id |-> i, start |-> s.now + x, dur |-> d, ramp |-> r, prio |-> 0, mod |-> 0, c |-> v \o i, cb |-> cb,
   dcb |-> "none", bad |-> "", resp |-> resp, decs |-> dd]
Adds(v) == {AddAct(v, i, x, d, r, cb, resp, dd) :
              i \in Next1(v), x \in OneOf(Few({-1, 30}, {-40, -1, 0, 1, 20, 30, 60, 100})), d \in OneOf(Few({50}, {0, 1, 20, 50, 200})),
              r \in OneOf(Few({-1}, {-1, 0, 10, 40})), cb \in OneOf(Few({"sync"}, {"none", "sync", "async", "future", "raise"})),
              resp \in OneOf(Few({"always"}, {"always", "never"})), dd \in OneOf(Pairs)}

Joiners == IF s.now % 2 = 1 /\ s.now % s.cfg.P \notin Bases THEN Vens(s) \ Up ELSE {}
Acts(g) ==
  CASE g = "poll" -> {[op |-> "poll", v |-> v, lost |-> l] : v \in {w \in Up : NextPoll(s, w) = MinOf(Polls)}, l \in OneOf(Asking)}
    [] g = "add" -> UNION {Adds(v) : v \in OneOf(Adders)}
    [] g = "cancel" -> {[op |-> "cancel", v |-> v, id |-> i] : v \in Vens(s), i \in Few({}, {"6"})}
                       \cup UNION {{[op |-> "cancel", v |-> v, id |-> i] : i \in Known(v)} : v \in Vens(s)}
    [] g = "tick" -> {[op |-> "tick", d |-> d] : d \in {x \in Few({1, 7}, {1, 2, 7, 14}) : x <= Room}}
    [] g = "join" -> {[op |-> "join", v |-> v, lost |-> l] : v \in Joiners, l \in OneOf(Joining)}
    [] g = "crash" -> {[op |-> "crash", v |-> v] : v \in Up}
    [] g = "leave" -> {[op |-> "leave", v |-> v, lost |-> l] : v \in Up, l \in Losing({"dereg"})}
    [] g = "forget" -> {[op |-> "forget", v |-> v] : v \in Vens(s)}
    [] g = "ban" -> {[op |-> "ban", v |-> v, on |-> v \notin s.banned] : v \in Vens(s)}
    [] g = "net" -> {[op |-> "net", v |-> v, on |-> v \in s.down] : v \in Vens(s)}

Can(g) == CASE g \in {"poll", "crash", "leave"} -> Up # {}
            [] g = "add" -> Adders # {}
            [] g = "tick" -> Room > 0
            [] g = "join" -> Joiners # {}
            [] OTHER -> TRUE
Groups == <<"poll", "poll", "poll", "poll", "poll", "add", "add", "cancel", "tick", "join", "join", "join", "crash", "leave", "forget", "ban", "net">>
Pick == IF ~Emit THEN Range(Groups) ELSE {Groups[i] : i \in RandomSubset(1, {j \in DOMAIN Groups : Can(Groups[j])})}

Record(a) == IF h = <<>> THEN [cfg |-> s.cfg] @@ a ELSE a
Next == /\ Len(h) < MaxLen
        /\ \E g \in Pick : \E a \in OneOf(Acts(g)) :
             LET r == Apply(s, a)
             IN s' = r.s /\ act' = a /\ out' = r.out /\ h' = Append(h, Record(a))
WriteDown == Emit /\ Len(h) = MaxLen /\ PrintT("BEHAVIOUR " \o ToJson(h)) /\ UNCHANGED vars

Spec == Init /\ [][Next \/ WriteDown]_vars
View == <<s, Len(h)>>

Inv == StateOk(s)
StepOk == [][h' # h => DesignOk(s, s', act', out')]_vars
=============================================================================

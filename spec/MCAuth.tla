------------------------------- MODULE MCAuth -------------------------------
EXTENDS Auth, Json, Randomization

CONSTANTS Kinds, Vens, Regs, Fps, Conns, Keys, Alts, Rps, Ages, Aheads, Nonces, Fls, Vls, Verifies, Lags, Signs, Waits, Tls, MaxLen,
          MaxBatch, MaxUsed, Emit

VARIABLES s, act, out, h
vars == <<s, act, out, h>>

Init == /\ \E f \in Fls, v \in Vls, y \in Verifies, l \in Lags, g \in Signs :
             s = Init0([fl |-> f, vl |-> v, verify |-> y, sign |-> g, lag |-> l])
        /\ act = [op |-> "init"] /\ out = None /\ h = <<>>

Do(a) == /\ Len(h) < MaxLen
         /\ LET r == Apply(s, a)
            IN s' = r.s /\ act' = a /\ out' = r.out
               /\ h' = Append(h, IF h = <<>> THEN a @@ [cfg |-> s.cfg] ELSE a)

One(S) == IF Emit /\ Cardinality(S) > 1 THEN RandomSubset(1, S) ELSE S
\* mostly what is right, so that something gets through
Likely(good, S) == IF Emit THEN (IF RandomElement(1..10) <= 7 THEN {good} ELSE RandomSubset(1, S)) ELSE S

Ven(kind) == IF kind \in {"query"} THEN {""} ELSE Vens \cup (IF kind \in {"create", "cancelreg"} THEN One({""}) ELSE {})
Own(v) == LET f == Says(s, v).fp IN IF f \in Keys THEN f ELSE CHOOSE c \in Keys : TRUE
Again == s.used
Stamps == IF Emit /\ Again # {} /\ RandomElement(1..4) = 1 THEN {RandomElement(Again)}
          ELSE {<<s.now - a, n>> : a \in Likely(0, Ages \cup {0 - f : f \in Aheads}), n \in One(Nonces)}
Unsigned == [by |-> "", shown |-> "", alt |-> "", rp |-> "ok", stamp |-> 0, nonce |-> ""]
Sigs(v) ==
  {[by |-> b, shown |-> c, alt |-> x, rp |-> r, stamp |-> u[1], nonce |-> u[2]] :
     b \in Likely(Own(v), Keys), c \in Likely(Own(v), Keys), x \in Likely("", Alts), r \in Likely("ok", Rps), u \in Stamps}
  \cup (IF Emit THEN One({Unsigned}) ELSE {Unsigned})
Msgs ==
  UNION {UNION {UNION {UNION {{[kind |-> k, svc |-> Home(k), ven |-> v, x |-> IF k = "cancelreg" THEN "reg1" ELSE "",
                         rq |-> IF k \in {"poll"} THEN "" ELSE "r" \o g.nonce, tls |-> t,
                         conn |-> IF t THEN c ELSE ""] @@ g :
                          g \in IF Emit THEN RandomSubset(1, Sigs(v)) ELSE Sigs(v)} :
                        c \in Likely(Own(v), Conns)} : t \in One(Tls)} : v \in One(Ven(k))} : k \in One(Kinds)}

Now(n) == ~Emit \/ RandomElement(1..n) = 1
Key(v) == IF v = "v1" THEN "ven1" ELSE "ven2"
\* first the VTN gets to know somebody
Ready == Len(h) > 1 \/ Now(5)
Learn == (~Ready \/ Now(6)) /\ \E v \in One(Vens) : \E r \in Likely("reg", Regs), f \in Likely(Key(v), Fps) : Do([op |-> "know", v |-> v, reg |-> r, fp |-> f])
Wait == Now(3) /\ \E n \in Waits : Do([op |-> "wait", n |-> n])
Single == Ready /\ \E p \in Msgs : Do([op |-> "post", posts |-> <<p>>])
\* a message with a copy of it, or with another one
Batch == Ready /\ MaxBatch > 1 /\ \E p \in Msgs : \E q \in {p} \cup One(Msgs) : Do([op |-> "post", posts |-> <<p, q>>])

Next == Learn \/ Wait \/ Single \/ Batch
WriteDown == Emit /\ Len(h) = MaxLen /\ PrintT("BEHAVIOUR " \o ToJson(h)) /\ UNCHANGED vars

Spec == Init /\ [][Next \/ WriteDown]_vars
View == <<s, Len(h)>>
Inv == \A u \in s.used : u[2] # ""
StepOk == [][DesignOk(s, s', act', out')]_vars
Bound == Cardinality(s.used) <= MaxUsed
=============================================================================
